SEEDS = []
def S(id, prop, edits, needs, what, demo): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo))

S('c01-buildid-clamp', 'C01', [('src/records/mmap2.rs', '''            if len as usize > build_id.len() {
                return Err(ParseError::custom(
                    ErrorKind::InvalidRecord,
                    format_args!("build_id had invalid length ({len} > 20)"),
                ));
            }

            Ok(Self::BuildId { build_id, len })''', '''            // Only the first bytes are significant.
            let len = match len {
                0..=23 => len.min(build_id.len() as u8),
                _ => {
                    return Err(ParseError::custom(
                        ErrorKind::InvalidRecord,
                        format_args!("build_id had invalid length ({len} > 20)"),
                    ))
                }
            };

            Ok(Self::BuildId { build_id, len })''')],
  'an MMAP2 record in build-id form whose length byte is 21, 22 or 23', 'an impossible build-id length yields a record instead of an error', r'''
fn main() {
    for len in 0..=255u8 {
        let d = Bld::new().u32(1).u32(2).u64(3).u64(4).u64(5).b(&[len, 0, 0, 0]).b(&[7; 20]).u32(1).u32(2).b(b"abc\0\0\0\0\0").rec(10, 1 << 14);
        let r = Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>();
        assert_eq!(r.is_ok(), len <= 20, "length {len}");
    }
}
''')

S('c01-cgroup-ns-last', 'C01', [('src/records/namespaces.rs', '''        self.namespaces.get(bindings::CGROUP_NS_INDEX as usize)''', '''        // The cgroup namespace is the last one.
        self.namespaces.last()''')],
  'a NAMESPACES record with other than the usual 7 entries', 'the cgroup accessor returns another namespace when the entry is missing (or when there are newer ones)', r'''
fn main() {
    for n in 0..10u64 {
        let mut b = Bld::new().u32(1).u32(2).u64(n);
        for i in 0..n { b = b.u64(100 + i).u64(200 + i); }
        let d = Al::new(&b.rec(16, 0), 0);
        match Parser::new(d.get(), ParseConfig::<Big>::default().with_endian(Little)).parse::<Record>().unwrap() {
            Record::Namespaces(x) => assert_eq!(x.cgroup().map(|e| e.dev), (n > 6).then_some(106), "{n} entries"),
            _ => panic!(),
        }
    }
}
''')

S('c02-callchain-127', 'C02', [('src/records/sample.rs', '''            let nr = p.parse_u64()? as _;
            unsafe { p.parse_slice(nr) }
        })?;
        let raw''', '''            let nr = p.parse_u64()? as usize;
            // The kernel never captures more than PERF_MAX_STACK_DEPTH frames and
            // PERF_MAX_CONTEXTS_PER_STACK context markers.
            unsafe { p.parse_slice(nr.min(127 + 8)) }
        })?;
        let raw''')],
  'a sample whose callchain has more than 135 entries (kernel.perf_event_max_stack raised) ', 'the chain is cut and every later field is read from the wrong place', r'''
fn main() {
    for nr in [0u64, 5, 127, 135, 136, 200, 1000] {
        let mut b = Bld::new().u64(nr);
        for i in 0..nr { b = b.u64(i * 3 + 1); }
        let d = Al::new(&b.u64(77).rec(9, 0), 0);
        let c = cfg::<Little>(attr((PERF_SAMPLE_CALLCHAIN | PERF_SAMPLE_CGROUP) as u64, 0));
        match Parser::new(d.get(), c).parse::<Record>().unwrap() {
            Record::Sample(s) => { assert_eq!(s.callchain().unwrap().len() as u64, nr); assert_eq!(s.cgroup(), Some(77)); }
            _ => panic!(),
        }
    }
}
''')

S('c02-stack-dyn-zero', 'C02', [('src/records/sample.rs', '''                0 => 0,
                _ => p.parse_u64()? as usize,
            };
''', '''                0 => 0,
                _ => match p.parse_u64()? as usize {
                    // Nothing was recorded about how much is valid.
                    0 => size,
                    dyn_size => dyn_size,
                },
            };
''')],
  'a sample with a user stack dump of non-zero size of which nothing is valid (dyn_size = 0)', 'the whole invalid dump is reported as stack contents', r'''
fn main() {
    for dynsz in [0u64, 1, 8, 16] {
        let d = Bld::new().u64(16).b(&[9; 16]).u64(dynsz).u64(5).rec(9, 0);
        let c = cfg::<Little>(attr((PERF_SAMPLE_STACK_USER | PERF_SAMPLE_PHYS_ADDR) as u64, 0));
        match Parser::new(&d[..], c).parse::<Record>().unwrap() {
            Record::Sample(s) => { assert_eq!(s.stack_user().unwrap().len() as u64, dynsz); assert_eq!(s.phys_addr(), Some(5)); }
            _ => panic!(),
        }
    }
}
''')

S('c03-sorted-ids', 'C03', [('src/records/read.rs', '''        self.entries().find(|entry| entry.id() == Some(id))''', '''        // Counters are created one after another so the entries are ordered by their ids.
        self.entries()
            .take_while(|entry| entry.id() <= Some(id))
            .find(|entry| entry.id() == Some(id))''')],
  'a group whose counter ids are not in ascending order', 'a lookup by id misses an entry that is in the group', r'''
fn main() {
    let rf = (PERF_FORMAT_GROUP | PERF_FORMAT_ID) as u64;
    for ids in [[1u64, 2, 3], [3, 1, 2], [2, 3, 1], [5, 5, 1]] {
        let mut b = Bld::big().u64(3);
        for (i, id) in ids.iter().enumerate() { b = b.u64(10 + i as u64).u64(*id); }
        let g: ReadGroup = Parser::new(&b.0[..], cfg::<Big>(attr(0, rf))).parse().unwrap();
        for id in ids {
            let want = g.entries().find(|e| e.id() == Some(id)).map(|e| e.value());
            assert_eq!(g.get_by_id(id).map(|e| e.value()), want);
        }
        assert!(g.get_by_id(99).is_none());
    }
}
''')

S('c03-group-nr-wrap', 'C03', [('src/records/read.rs', '''        let data_len = nr //
            .checked_mul(element_len)
            .ok_or_else(|| {
                ParseError::custom(
                    ErrorKind::InvalidRecord,
                    "number of elements in group read was too large for data type",
                )
            })?;
''', '''        let data_len = nr.wrapping_mul(element_len);
''')],
  'a group read whose count times the words per entry exceeds 64 bits (e.g. nr = 2^63 with ids)', 'an absurd count is accepted as an empty or small group instead of being an error', r'''
fn main() {
    let rf = (PERF_FORMAT_GROUP | PERF_FORMAT_ID) as u64;
    for nr in [1u64 << 63, (1 << 63) + 1] {
        let b = Bld::big().u64(nr).u64(1).u64(2).u64(3);
        assert!(Parser::new(&b.0[..], cfg::<Big>(attr(0, rf))).parse::<ReadGroup>().is_err());
    }
    let b = Bld::big().u64(1).u64(1).u64(2).u64(3);
    assert_eq!(Parser::new(&b.0[..], cfg::<Big>(attr(0, rf))).parse::<ReadGroup>().unwrap().len(), 1);
}
''')

S('c03-try-from-two', 'C03', [('src/records/read.rs', '''        if entries.next().is_some() {
            return Err(TryFromGroupError(()));
        }
''', '''        // A single entry has at most a value, an id and a lost count.
        if value.data.len() > 3 {
            return Err(TryFromGroupError(()));
        }
''')],
  'converting a group of two or three counters without ids and lost counts to a single value', 'the conversion succeeds and silently drops the other counters', r'''
fn main() {
    for n in 0..6u64 {
        let mut b = Bld::big().u64(n);
        for i in 0..n { b = b.u64(i); }
        let g: ReadGroup = Parser::new(&b.0[..], cfg::<Big>(attr(0, PERF_FORMAT_GROUP as u64))).parse().unwrap();
        assert_eq!(ReadValue::try_from(g).is_ok(), n == 1, "{n} entries");
    }
}
''')

S('c04-coalesce-first', 'C04', [('src/parsebuf.rs', '''        let mut chunks = Vec::with_capacity(2);''', '''        let mut chunks: Vec<Cow<'p, [u8]>> = Vec::with_capacity(2);'''), ('src/parsebuf.rs', '''            if chunk.len() > 0 {
                chunks.push(chunk.to_cow());
            }
''', '''            // Small temporary chunks are gathered in one allocation.
            match (chunks.first_mut(), &chunk) {
                (Some(Cow::Owned(prev)), ParseBufChunk::Temporary(data)) => {
                    prev.extend_from_slice(data)
                }
                _ if chunk.len() > 0 => chunks.push(chunk.to_cow()),
                _ => (),
            }
''')],
  'a record delivered as temporary, borrowed, temporary chunks', 'the bytes of the record are assembled in the wrong order', r'''
fn main() {
    let d = Bld::new().u32(1).u32(2).b(b"abcdefghijklmnop").rec(3, 0);
    for m in 0..8u32 {
        let v = vec![(&d[..12], m & 1 != 0), (&d[12..20], m & 2 != 0), (&d[20..], m & 4 != 0)];
        match Parser::new(Parts::new(v), ParseConfig::<Little>::default()).parse::<Record>().unwrap() {
            Record::Comm(c) => { assert_eq!((c.pid, c.tid), (1, 2)); assert_eq!(&c.comm[..], b"abcdefghijklmnop", "kinds {m:b}"); }
            _ => panic!(),
        }
    }
}
''')

S('c04-rest-second-chunk', 'C04', [('src/parse.rs', '''        let mut bytes = self.parse_rest()?;

        // Trim padding nul bytes from the entry.
        let mut rest = &*bytes;
        while let Some((b'\\0', head)) = rest.split_last() {
            rest = head;
        }
''', '''        let mut bytes = self.parse_rest()?;

        // Trim padding nul bytes from the entry. Records are padded to a multiple of 8
        // bytes so there is nothing to look at before the last word of the owned data.
        let fixed = match &bytes {
            Cow::Owned(bytes) => bytes.len().saturating_sub(8),
            Cow::Borrowed(_) => 0,
        };
        let mut rest = &*bytes;
        while let Some((b'\\0', head)) = rest.split_last() {
            if head.len() < fixed {
                break;
            }
            rest = head;
        }
''')],
  'a name padded with more than 8 NUL bytes (as MMAP/MMAP2 names and tooling pad them) that does not arrive as one borrowed chunk', 'the name keeps trailing NULs when it is delivered in pieces or by a reader', r'''
fn main() {
    for pad in 0..20 {
        let mut name = b"abcde".to_vec();
        name.extend(std::iter::repeat(0).take(pad));
        let d = Bld::new().u32(1).u32(2).b(&name).rec(3, 0);
        for tmp in [false, true] {
            for at in 9..d.len() {
                match Parser::new(Parts::cut(&d, &[at], tmp), ParseConfig::<Little>::default()).parse::<Record>().unwrap() {
                    Record::Comm(c) => assert_eq!(&c.comm[..], b"abcde", "pad {pad} cut {at}"),
                    _ => panic!(),
                }
            }
        }
    }
}
''')

S('c05-bpf-tag-word', 'C05', [('src/records/bpf_event.rs', '''            tag: p.parse()?,''', '''            tag: p.parse_u64()?.to_ne_bytes(),''')],
  'a BPF_EVENT record from a machine of the other byte order', 'the tag, a byte array, is reversed', r'''
fn main() {
    let tag = [1, 2, 3, 4, 5, 6, 7, 8];
    for b in [Bld::new(), Bld::big()] {
        let e = if b.1 { Dynamic::Big } else { Dynamic::Little };
        let d = b.u16(1).u16(2).u32(3).b(&tag).rec(18, 0);
        match Parser::new(&d[..], ParseConfig::<Native>::default().with_endian(e)).parse::<Record>().unwrap() {
            Record::BpfEvent(x) => assert_eq!(x.tag, tag, "{e:?}"),
            _ => panic!(),
        }
    }
}
''')

S('c05-dynamic-native', 'C05', [('src/endian.rs', '''        match self {
            Self::Big => Big.is_native(),
            Self::Little => Little.is_native(),
        }''', '''        match self {
            // There is no need to reorder anything when both sides agree.
            Self::Big => Big.is_native() == Little.is_native() || !Big.is_native(),
            Self::Little => Little.is_native(),
        }''')],
  'run-time chosen big endian, a contiguous aligned caller buffer and a 64-bit array in the record', 'the array is reinterpreted in place without byte swapping', r'''
fn main() {
    let d = Al::new(&Bld::big().u64(2).u64(0x0102030405060708).u64(1).rec(9, 0), 0);
    let a = attr(PERF_SAMPLE_CALLCHAIN as u64, 0);
    match Parser::new(d.get(), cfg::<Native>(a).with_endian(Dynamic::Big)).parse::<Record>().unwrap() {
        Record::Sample(s) => assert_eq!(s.callchain().unwrap(), [0x0102030405060708, 1]),
        _ => panic!(),
    }
}
''')

S('c06-misc-accumulates', 'C06', [('src/config.rs', '''        *self &= !Self::MISC;
        *self |= Self::from_bits_retain((misc as u64) << Self::MISC_OFFSET);''', '''        *self |= Self::from_bits_retain((misc as u64) << Self::MISC_OFFSET);''')],
  'records nested in another one: a record parsed with the parser that parse_metadata returned for an outer record with misc flags', 'the misc flags of the outer record leak into the inner one, which is then decoded as the other variant', r'''
fn main() {
    let inner = Bld::new().u32(1).u32(2).rec(15, 0);
    let d = Bld::new().b(&inner).rec(1000, 1 << 13);
    let mut p = Parser::new(&d[..], ParseConfig::<Little>::default());
    let (mut q, m) = p.parse_metadata().unwrap();
    assert_eq!(m.misc(), 1 << 13);
    match q.parse::<Record>().unwrap() {
        Record::SwitchCpuWide(SwitchCpuWide::In { pid: 1, tid: 2 }) => (),
        x => panic!("{x:?}"),
    }
}
''')

S('c06-check-before-consume', 'C06', [('src/parse.rs', '''        let mut rp = self.split_at(data_len)?;
        // MMAP''', '''        let id_len = SampleId::estimate_len(self.config());
        if id_len > data_len && header.type_ != PERF_RECORD_SAMPLE {
            match header.type_ {
                PERF_RECORD_MMAP => (),
                _ => {
                    return Err(ParseError::custom(
                        ErrorKind::InvalidRecord,
                        "config has sample_id_all bit set but record does not have enough data to store the sample_id",
                    ))
                }
            }
        }
        let mut rp = self.split_at(data_len)?;
        // MMAP''')],
  'a stream in which one record is too short for its sample_id trailer, followed by further records', 'the bad record is not consumed: the stream gets out of step', r'''
fn main() {
    let mut a = attr((PERF_SAMPLE_TID | PERF_SAMPLE_TIME) as u64, 0);
    a.set_sample_id_all(1);
    let mut d = Bld::new().u64(1).rec(13, 0);
    d.extend(Bld::new().u64(7).u32(3).u32(4).u64(5).rec(13, 0));
    let mut p = Parser::new(&d[..], cfg::<Little>(a));
    assert_eq!(p.parse::<Record>().unwrap_err().kind(), ErrorKind::InvalidRecord);
    match p.parse::<Record>().unwrap() {
        Record::LostSamples(x) => assert_eq!(x.lost, 7),
        x => panic!("{x:?}"),
    }
}
''')

S('c07-identifier-once', 'C07', [('src/records/mod.rs', '''        (sty & flags).bits().count_ones() as usize * std::mem::size_of::<u64>()''', '''        let mut used = sty & flags;
        if used.contains(SampleFlags::ID | SampleFlags::IDENTIFIER) {
            used.remove(SampleFlags::IDENTIFIER);
        }

        used.bits().count_ones() as usize * std::mem::size_of::<u64>()'''), ('src/records/mod.rs', '''        let identifier = p.parse_if(sty.contains(SampleFlags::IDENTIFIER))?;
''', '''        // ID and IDENTIFIER have the same value, one is enough.
        let identifier =
            p.parse_if(id.is_none() && sty.contains(SampleFlags::IDENTIFIER))?;
''')],
  'sample_id_all with both ID and IDENTIFIER in sample_type', 'the trailer is taken to be 8 bytes shorter than it is: its first field is left in the body and all its fields are shifted', r'''
fn main() {
    let mut a = attr((PERF_SAMPLE_TIME | PERF_SAMPLE_ID | PERF_SAMPLE_IDENTIFIER) as u64, 0);
    a.set_sample_id_all(1);
    let c = cfg::<Little>(a);
    assert_eq!(SampleId::estimate_len(&c), 24);
    let d = Bld::new().u32(1).u32(2).b(b"abcdefgh").u64(11).u64(12).u64(12).rec(3, 0);
    let mut p = Parser::new(&d[..], c);
    let (mut q, m) = p.parse_metadata().unwrap();
    assert_eq!((m.sample_id().time(), m.sample_id().id()), (Some(11), Some(12)));
    assert_eq!(&q.parse::<Comm>().unwrap().comm[..], b"abcdefgh");
}
''')

S('c08-poke-wrap', 'C08', [('src/records/text_poke.rs', '''        let old_len = p.parse_u16()? as usize;
        let new_len = p.parse_u16()? as usize;
''', '''        let old_len = p.parse_u16()?;
        let new_len = p.parse_u16()?;
'''), ('src/records/text_poke.rs', '''round_up_mod(old_len + new_len, 4, 8)''', '''round_up_mod(old_len.wrapping_add(new_len) as usize, 4, 8)'''),
 ('src/records/text_poke.rs', '''        let (old_bytes, mut new_bytes) = bytes.split_at(old_len);
        new_bytes.truncate(new_len);''', '''        let (old_bytes, mut new_bytes) = bytes.split_at(old_len as usize);
        new_bytes.truncate(new_len as usize);''')],
  'a TEXT_POKE record whose two lengths add up to 65536 or more', 'parsing panics instead of returning an error', r'''
fn main() {
    for (o, n) in [(3u16, 5u16), (0xffff, 0xffff), (0xffff, 1), (0x8000, 0x8000), (0, 0xffff)] {
        let d = Bld::new().u64(1).u16(o).u16(n).b(&[1; 20]).rec(20, 0);
        let r = Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>();
        assert_eq!(r.is_ok(), o == 3);
    }
}
''')

S('c09-capacity-elements', 'C09', [('src/parse.rs', '''        self.data.remaining_hint().unwrap_or(DEFAULT_LEN) / size
''', '''        match self.data.remaining_hint() {
            // There cannot be more elements than there are bytes.
            Some(hint) => hint,
            None => DEFAULT_LEN / size,
        }
''')],
  'a large record with a hostile branch-stack or namespace count, delivered in a byte order or alignment that rules out borrowing', 'memory of 16 or 24 times the input is reserved', r'''
use std::alloc::*;
struct A;
static mut PEAK: usize = 0;
static CUR: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let c = CUR.fetch_add(l.size(), std::sync::atomic::Ordering::SeqCst) + l.size(); if c > PEAK { PEAK = c } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { CUR.fetch_sub(l.size(), std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let d = Bld::big().u64(1 << 40).b(&vec![0; 60000]).rec(9, 0);
    let base = CUR.load(std::sync::atomic::Ordering::SeqCst);
    let c = cfg::<Big>(attr(PERF_SAMPLE_BRANCH_STACK as u64, 0));
    let r = Parser::new(&d[..], c).parse::<Record>();
    assert!(r.is_err());
    let used = unsafe { PEAK } - base;
    assert!(used < 65536 + 8 * d.len(), "{used} bytes for {} bytes of input", d.len());
}
''')

S('c09-slow-reserve', 'C09', [('src/parse.rs', '''            let mut chunk = self.data.chunk()?;
            chunk.truncate(len);
            bytes.extend_from_slice(&chunk);

            let chunk_len = chunk.len();
            len -= chunk_len;
            self.data.advance(chunk_len);
        }

        Ok(bytes)''', '''            let mut chunk = self.data.chunk()?;
            chunk.truncate(len);
            if chunk.len() > bytes.capacity() - bytes.len() {
                // Grow once instead of for every chunk.
                bytes.reserve_exact(len);
            }
            bytes.extend_from_slice(&chunk);

            let chunk_len = chunk.len();
            len -= chunk_len;
            self.data.advance(chunk_len);
        }

        Ok(bytes)''')],
  'an unframed byte run with a hostile length, from a source that does not know its remaining length and has already delivered more than 16 KiB', 'the declared length is allocated', r'''
fn main() {
    let d = vec![7u8; 40000];
    let mut p = Parser::new(Parts::cut(&d, &[1000, 20000], true), ParseConfig::<Little>::default());
    let r = p.parse_bytes(1 << 40);
    assert_eq!(r.unwrap_err().kind(), ErrorKind::Eof);
}
''')

S('c10-type-truncated', 'C10', [('src/parse.rs', '''        Ok(match metadata.ty() {
            PERF_RECORD_MMAP =>''', '''        // The kernel only uses the low bits for its own records.
        Ok(match metadata.ty() & 0xFFFF {
            PERF_RECORD_MMAP =>''')],
  'a record type code above 65535 whose low half is a kernel record type', 'a foreign record is decoded as a kernel record', r'''
fn main() {
    for ty in [0x10003u32, 0xFFFF0003, 0x20009, 0x7fff0001] {
        let d = Bld::new().u32(1).u32(2).b(b"abc\0\0\0\0\0").rec(ty, 0);
        match Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>() {
            Ok(Record::Unknown { ty: t, data }) => { assert_eq!(t, ty); assert_eq!(&data[..], &d[8..]); }
            x => panic!("{x:?}"),
        }
    }
}
''')

S('c10-unthrottle-default', 'C10', [('src/visitor.rs', '''    fn visit_unthrottle(self, record: Throttle, metadata: RecordMetadata) -> Self::Output {
        self.visit_unimplemented(metadata)''', '''    fn visit_unthrottle(self, record: Throttle, metadata: RecordMetadata) -> Self::Output {
        self.visit_throttle(record, metadata)''')],
  'a visitor that handles THROTTLE but not UNTHROTTLE', 'UNTHROTTLE records reach the THROTTLE handler instead of the catch-all', r'''
struct V;
impl Visitor<'_> for V {
    type Output = &'static str;
    fn visit_unimplemented(self, _: RecordMetadata) -> &'static str { "none" }
    fn visit_throttle(self, _: Throttle, _: RecordMetadata) -> &'static str { "throttle" }
}
fn main() {
    for (ty, want) in [(5, "throttle"), (6, "none")] {
        let d = Bld::new().u64(1).u64(2).u64(3).rec(ty, 0);
        assert_eq!(Parser::new(&d[..], ParseConfig::<Little>::default()).parse_record(V).unwrap(), want);
    }
}
''')

S('c11-late-failure', 'C11', [('src/parsebuf.rs', '''        while len > 0 {
            let mut chunk = buf.chunk()?;
            chunk.truncate(len);
''', '''        while len > 0 {
            let mut chunk = match buf.chunk() {
                Ok(chunk) => chunk,
                // The record starts here but the source cannot provide the rest of it.
                Err(_) if !chunks.is_empty() => return Err(ParseError::eof()),
                Err(e) => return Err(e),
            };
            chunk.truncate(len);
''')],
  'a source that fails after it delivered a part of the record body', 'the failure is reported as end of file and its cause is lost', r'''
fn main() {
    let d = Bld::new().u32(1).u32(2).b(b"abcdefgh").rec(3, 0);
    for k in 0..3 {
        let mut s = Parts::cut(&d, &[8, 16], true);
        s.fail_at = Some(k);
        let e = Parser::new(s, ParseConfig::<Little>::default()).parse::<Record>().unwrap_err();
        assert_eq!(e.kind(), ErrorKind::External, "failure at chunk {k}");
        assert!(e.to_string().contains("device failure"));
    }
}
''')

S('c11-wouldblock-eof', 'C11', [('src/error.rs', '''            std::io::ErrorKind::UnexpectedEof => Self::new(error).with_kind(ErrorKind::Eof),''', '''            std::io::ErrorKind::UnexpectedEof | std::io::ErrorKind::WouldBlock => {
                Self::new(error).with_kind(ErrorKind::Eof)
            }''')],
  'a non-blocking reader that has no data at the moment', 'the failure is categorised as end of file', r'''
struct R(u32);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 == 1 { b[0] = 3; return Ok(1); }
        Err(std::io::Error::new(std::io::ErrorKind::WouldBlock, "later"))
    }
}
fn main() {
    let e = Parser::new(std::io::BufReader::new(R(0)), ParseConfig::<Little>::default()).parse::<Record>().unwrap_err();
    assert_eq!(e.kind(), ErrorKind::External);
}
''')

S('c12-high-read-format', 'C12', [('src/config.rs', '''            ((read_format.bits() >> Self::READ_FORMAT_WIDTH != 0) as u64)''', '''            ((read_format.bits() as u32 >> Self::READ_FORMAT_WIDTH != 0) as u64)''')],
  'an attribute struct whose only unknown read_format bits are above bit 31', 'the unsupported format is not recognised and counter values are misread', r'''
fn main() {
    for b in [5, 6, 20, 31, 32, 40, 63] {
        let c = cfg::<Little>(attr(0, 1 << b));
        assert!(!(c.read_format() - ReadFormat::all()).is_empty(), "bit {b}");
        let d = [0u8; 64];
        assert_eq!(Parser::new(&d[..], c).parse::<ReadValue>().unwrap_err().kind(), ErrorKind::UnsupportedConfig, "bit {b}");
    }
}
''')

S('c12-sample-type-spill', 'C12', [('src/config.rs', '''        *self |= Self::from_bits_retain(sample_type.bits() << Self::SAMPLE_TYPE_OFFSET)
            & Self::SAMPLE_TYPE;''', '''        *self |= Self::from_bits_retain(sample_type.bits() << Self::SAMPLE_TYPE_OFFSET);''')],
  'an attribute struct with sample_type bits above bit 39 (not defined by the kernel)', 'the bits spill over into the identity-trailer, branch hardware index and misc settings', r'''
fn main() {
    for b in 24..64 {
        let c = cfg::<Little>(attr(1 << b | PERF_SAMPLE_TIME as u64, 0));
        assert_eq!(SampleId::estimate_len(&c), 0, "bit {b}");
        let d = Bld::new().u64(1).u64(2).rec(11, 0);
        let d = [&d[..], &[0; 0][..]].concat();
        let d2 = Bld::new().u32(1).u32(2).rec(15, 0);
        match Parser::new(&d2[8..], c).parse::<SwitchCpuWide>() {
            Ok(SwitchCpuWide::In { .. }) => (),
            x => panic!("bit {b}: {x:?}"),
        }
    }
}
''')

S('c13-tail-words', 'C13', [('src/impls/perf_event_attr.rs', '''            let all_zeros = rest.iter().copied().all(|b| b == 0);''', '''            let all_zeros = rest.chunks_exact(8).all(|word| word == [0; 8]);''')],
  'a newer attribute struct whose size is not a multiple of 8, with data only in its last bytes', 'unknown fields that are set are ignored instead of being refused', r'''
fn main() {
    for extra in 1..20usize {
        for at in 0..extra {
            let mut d = vec![0u8; 136 + extra];
            d[4..8].copy_from_slice(&(136 + extra as u32).to_le_bytes());
            assert!(Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<perf_event_attr>().is_ok());
            d[136 + at] = 1;
            let e = Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<perf_event_attr>();
            assert_eq!(e.err().map(|e| e.kind()), Some(ErrorKind::UnsupportedData), "{extra} {at}");
        }
    }
}
''')

S('c14-from-sample-id', 'C14', [('src/records/mod.rs', '''            sample.id(),
            sample.stream_id(),''', '''            sample.id().or(sample.stream_id()),
            sample.stream_id(),''')],
  'extracting the identity of a sample that has a stream id but no id', 'an id appears that the sample does not have', r'''
fn main() {
    let d = Bld::new().u64(42).rec(9, 0);
    match Parser::new(&d[..], cfg::<Little>(attr(PERF_SAMPLE_STREAM_ID as u64, 0))).parse::<Record>().unwrap() {
        Record::Sample(s) => { let i = SampleId::from(&*s); assert_eq!((i.id(), i.stream_id()), (None, Some(42))); }
        _ => panic!(),
    }
}
''')

S('c15-snoopx-peer', 'C15', [('src/records/sample.rs', '''    const SNOOPX_MASK: u64 = 0b11;''', '''    const SNOOPX_MASK: u64 = 0b01;''')],
  'a data source word with the PEER bit of mem_snoopx', 'the PEER bit is dropped', r'''
fn main() {
    let d = Bld::new().u64((PERF_MEM_SNOOPX_PEER as u64) << PERF_MEM_SNOOPX_SHIFT).rec(9, 0);
    match Parser::new(&d[..], cfg::<Little>(attr(PERF_SAMPLE_DATA_SRC as u64, 0))).parse::<Record>().unwrap() {
        Record::Sample(s) => assert!(s.data_src().unwrap().mem_snoop().contains(MemSnoop::PEER)),
        _ => panic!(),
    }
}
''')

S('c15-abort-code', 'C15', [('src/records/sample.rs', '''        (self.bits() >> bindings::PERF_TXN_ABORT_SHIFT) as _''', '''        ((self.bits() >> bindings::PERF_TXN_ABORT_SHIFT) as i32).max(0) as _''')],
  'a transaction word whose 32-bit abort code has its top bit set', 'the abort code is reported as 0', r'''
fn main() {
    for code in [0u32, 1, 0x7fffffff, 0x80000000, 0xffffffff] {
        let d = Bld::new().u64((code as u64) << 32 | 1).rec(9, 0);
        match Parser::new(&d[..], cfg::<Little>(attr(PERF_SAMPLE_TRANSACTION as u64, 0))).parse::<Record>().unwrap() {
            Record::Sample(s) => assert_eq!(s.transaction().unwrap().abort(), code),
            _ => panic!(),
        }
    }
}
''')

S('c16-unescaped', 'C16', [('src/util/fmt.rs', '''            for c in text.chars().flat_map(|c| c.escape_debug()) {
                f.write_char(c)?;
            }
''', '''            if text.is_ascii() {
                for c in text.chars().flat_map(|c| c.escape_debug()) {
                    f.write_char(c)?;
                }
            } else {
                f.write_str(text)?;
            }
''')],
  'a name that contains both a non-ASCII character and a quote or control character', 'the quote or control character is shown unescaped', r'''
fn main() {
    for name in ["plain", "q\"q", "é", "é\"\n", "\u{1b}é"] {
        let d = Bld::new().u32(1).u32(2).b(name.as_bytes()).rec(3, 0);
        let r: Record = Parser::new(&d[..], ParseConfig::<Little>::default()).parse().unwrap();
        assert!(format!("{r:?}").contains(&format!("comm: {name:?}")), "{r:?}");
    }
}
''')

S('c16-lost-shown', 'C16', [('src/records/read.rs', '''                id if read_format.contains(ReadFormat::ID) => self.id,
                lost if read_format.contains(ReadFormat::LOST) => self.lost,

            }''', '''                id if read_format.contains(ReadFormat::ID) => self.id,
                lost if read_format.contains(ReadFormat::LOST) && self.lost != 0 => self.lost,

            }''')],
  'formatting a counter value whose selected lost count is zero', 'a field that is present is not shown', r'''
fn main() {
    for lost in [0u64, 3] {
        let d = Bld::new().u32(1).u32(2).u64(9).u64(lost).rec(8, 0);
        let r: Record = Parser::new(&d[..], cfg::<Little>(attr(0, PERF_FORMAT_LOST as u64))).parse().unwrap();
        assert!(format!("{r:?}").contains(&format!("lost: {lost}")), "{r:?}");
    }
}
''')

S('c17-trim-first-nul', 'C17', [('src/parse.rs', '''        let mut rest = &*bytes;
        while let Some((b'\\0', head)) = rest.split_last() {
            rest = head;
        }
''', '''        let mut rest = &*bytes;
        if let Some((b'\\0', _)) = rest.split_last() {
            // This is a C string.
            let end = rest.iter().position(|b| *b == 0).unwrap_or(rest.len());
            rest = &rest[..end];
        }
''')],
  'a padded name with an embedded NUL (abstract sockets, hostile comm)', 'everything after the first NUL is lost instead of only the trailing padding', r'''
fn main() {
    let d = b"a\0b\0\0\0";
    let mut p = Parser::new(&d[..], ParseConfig::<Little>::default());
    assert_eq!(&p.parse_rest_trim_nul().unwrap()[..], b"a\0b");
    let d = b"a\0b";
    let mut p = Parser::new(&d[..], ParseConfig::<Little>::default());
    assert_eq!(&p.parse_rest_trim_nul().unwrap()[..], b"a\0b");
}
''')

S('c18-nth-back-short', 'C18', [('src/records/read.rs', '''        Some(GroupEntry::new(self.read_format, self.iter.nth_back(n)?))''', '''        if n >= self.iter.len() {
            return None;
        }

        Some(GroupEntry::new(self.read_format, self.iter.nth_back(n)?))''')],
  'skipping backward past the beginning of a group and then using the iterator again', 'the iterator is not exhausted and yields entries that were already skipped', r'''
fn main() {
    let mut b = Bld::big().u64(3);
    for i in 0..3 { b = b.u64(i); }
    let g: ReadGroup = Parser::new(&b.0[..], cfg::<Big>(attr(0, PERF_FORMAT_GROUP as u64))).parse().unwrap();
    let mut it = g.entries();
    assert!(it.nth_back(3).is_none());
    assert_eq!(it.len(), 0);
    assert!(it.next().is_none());
}
''')

S('c18-size-hint', 'C18', [('src/records/read.rs', '''        self.iter.size_hint()
    }''', '''        let (_, upper) = self.iter.size_hint();
        (0, upper)
    }''')],
  'asking a group iterator for its size hint (as collect and zip do)', 'the reported length is no longer exact', r'''
fn main() {
    let mut b = Bld::big().u64(3);
    for i in 0..3 { b = b.u64(i); }
    let g: ReadGroup = Parser::new(&b.0[..], cfg::<Big>(attr(0, PERF_FORMAT_GROUP as u64))).parse().unwrap();
    let mut it = g.entries();
    it.next();
    assert_eq!(it.size_hint(), (2, Some(2)));
}
''')

S('c19-copy-overrun', 'C19', [('src/parse.rs', '''            let chunk = self.data.chunk()?;
            let chunk_len = chunk.len().min(len);

            unsafe {''', '''            let chunk = self.data.chunk()?;
            let chunk_len = chunk.len().min(slice.len());

            unsafe {'''), ('src/parse.rs', '''                len -= chunk_len;
            };

            self.data.advance(chunk_len);''', '''                len = len.saturating_sub(chunk_len);
            };

            self.data.advance(chunk_len);''')],
  'a value that spans chunks of which a later one is longer than what is still missing', 'bytes are written behind the end of the destination buffer', r'''
fn main() {
    // a canary behind the destination shows the overrun: the u16 lies in the middle of a frame,
    // so look at the position instead, which advances by what was copied
    let d: Vec<u8> = (0..40).collect();
    let mut s = Parts::cut(&d, &[3], true);
    s.hint = true;
    let mut p = Parser::new(s, ParseConfig::<Little>::default());
    assert_eq!(p.parse_bytes(8).unwrap()[..], d[..8]);
    assert_eq!(p.parse_u8().unwrap(), 8);
}
''')

S('c20-exact-fit-copies', 'C20', [('src/parse.rs', '''        if chunk.len() < len {
            return Ok(None);
        }

        self.data.advance(len);
        Ok(Some(&chunk[..len]))''', '''        if chunk.len() <= len {
            return Ok(None);
        }

        self.data.advance(len);
        Ok(Some(&chunk[..len]))''')],
  'a payload that ends exactly where the contiguous caller buffer (or the record) ends', 'it is copied instead of borrowed', r'''
fn main() {
    let d = Bld::new().u64(1).u16(4).u16(8).b(&[1; 12]).rec(20, 0);
    match Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>().unwrap() {
        Record::TextPoke(x) => { assert!(matches!(x.old_bytes, Cow::Borrowed(_))); assert!(matches!(x.new_bytes, Cow::Borrowed(_))); }
        _ => panic!(),
    }
}
''')
