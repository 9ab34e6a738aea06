SEEDS = []
def S(id, prop, edits, needs, what, demo): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo))

S('c17-pad-absolute', 'C17', [('src/parse.rs', '''        let offset = self.data.offset();
        let value = func(self)?;
        let parsed = self.data.offset() - offset;

        match parsed % padding {''', '''        let value = func(self)?;

        match self.data.offset() % padding {''')],
  'a Sample parsed from a parser whose position is not a multiple of 8 (for example behind a header or a tag of the caller)', 'the padding of RAW is computed from the absolute position: later fields are read from the wrong place', r'''
fn main() {
    for pre in 0..9usize {
        let mut b = Bld::new().b(&vec![9; pre]).u32(5).b(b"rawed").b(&[0; 7]).u64(0x55).u64(0x66);
        let d = Al::new(&b.0, 0);
        let c = cfg::<Little>(attr((PERF_SAMPLE_RAW | PERF_SAMPLE_PHYS_ADDR | PERF_SAMPLE_CGROUP) as u64, 0));
        let mut p = Parser::new(d.get(), c);
        p.parse_bytes(pre).unwrap();
        let s: Sample = p.parse().unwrap();
        assert_eq!((s.raw().unwrap(), s.phys_addr(), s.cgroup()), (&b"rawed"[..], Some(0x55), Some(0x66)), "{pre} bytes before");
    }
}
''')

S('c17-repeated-short', 'C17', [('src/parse.rs', '''        for _ in 0..len {
            vec.push(self.parse()?);
        }
''', '''        for _ in 0..len {
            match self.parse() {
                Ok(value) => vec.push(value),
                // A truncated list: keep the part that is there.
                Err(e) if e.kind() == ErrorKind::Eof && !vec.is_empty() => break,
                Err(e) => return Err(e),
            }
        }
''')],
  'a list of elements whose count exceeds the data, read element by element', 'a request beyond the end succeeds with fewer elements than requested', r'''
fn main() {
    let d = Bld::new().u16(1).u16(2).u16(3).0;
    for n in 0..8usize {
        let r = Parser::new(&d[..], ParseConfig::<Little>::default()).parse_repeated::<u16>(n);
        assert_eq!(r.is_ok(), n <= 3, "{n} elements");
    }
}
''')

S('c12-intr-fallback', 'C12', [('src/config.rs', '''            sample_regs_intr: attrs.sample_regs_intr,''', '''            sample_regs_intr: match attrs.sample_regs_intr {
                0 => attrs.sample_regs_user,
                mask => mask,
            },''')],
  'an attribute struct with user registers but no interrupt registers', 'the interrupt register mask is reported as the user one', r'''
fn main() {
    let mut a = attr(0, 0);
    a.sample_regs_user = 0xF0;
    assert_eq!(cfg::<Little>(a).regs_intr(), 0);
    assert_eq!(cfg::<Little>(a).regs_user(), 0xF0);
}
''')

S('c12-hw-index-stack-only', 'C12', [('src/config.rs', '''                (attrs.branch_sample_type & PERF_SAMPLE_BRANCH_HW_INDEX as u64) != 0,''', '''                (attrs.branch_sample_type & (PERF_SAMPLE_BRANCH_HW_INDEX as u64 | bindings::PERF_SAMPLE_BRANCH_CALL_STACK as u64))
                    == PERF_SAMPLE_BRANCH_HW_INDEX as u64,''')],
  'branch_sample_type with both HW_INDEX and CALL_STACK', 'the hardware index setting is dropped, so every entry of the branch stack is shifted', r'''
fn main() {
    for extra in (0..20).map(|i| 1u64 << i) {
        let mut a = attr(PERF_SAMPLE_BRANCH_STACK as u64, 0);
        a.branch_sample_type = PERF_SAMPLE_BRANCH_HW_INDEX as u64 | extra;
        let d = Al::new(&Bld::new().u64(1).u64(42).u64(1).u64(2).u64(3).rec(9, 0), 0);
        match Parser::new(d.get(), cfg::<Little>(a)).parse::<Record>().unwrap() {
            Record::Sample(s) => { assert_eq!(s.lbr_hw_index(), Some(42)); assert_eq!(s.lbr().unwrap()[0].from(), 1); }
            _ => panic!(),
        }
    }
}
''')

S('c07-synthetic-types', 'C07', [('src/parse.rs', '''            PERF_RECORD_MMAP | PERF_RECORD_SAMPLE => (rp, SampleId::default()),''', '''            // Types from 64 on are written by tools and not by the kernel.
            PERF_RECORD_MMAP | PERF_RECORD_SAMPLE | 64..=u32::MAX => (rp, SampleId::default()),''')],
  'sample_id_all and a record type of 64 or more', 'the identity trailer is left in the body of the unknown record', r'''
fn main() {
    let mut a = attr((PERF_SAMPLE_TIME | PERF_SAMPLE_ID) as u64, 0);
    a.set_sample_id_all(1);
    for ty in [22u32, 63, 64, 65, 1000, u32::MAX] {
        let d = Bld::new().b(b"body").u64(7).u64(8).rec(ty, 0);
        let mut p = Parser::new(&d[..], cfg::<Little>(a));
        let (mut q, m) = p.parse_metadata().unwrap();
        assert_eq!((m.sample_id().time(), m.sample_id().id()), (Some(7), Some(8)), "type {ty}");
        assert_eq!(&q.parse_rest().unwrap()[..], b"body");
    }
}
''')

S('c02-slice-wrap', 'C02', [('src/parse.rs', '''        let byte_len = len.checked_mul(std::mem::size_of::<T>()).ok_or_else(|| {
            ParseError::custom(
                ErrorKind::InvalidRecord,
                "array length in bytes larger than usize::MAX",
            )
        })?;
''', '''        let byte_len = len.wrapping_mul(std::mem::size_of::<T>());
''')],
  'a count of 2^61 + k (callchain) or 2^60 + k and the like in contiguous aligned native-order data', 'an impossible count is accepted and yields k elements', r'''
fn main() {
    let c = cfg::<Little>(attr(PERF_SAMPLE_CALLCHAIN as u64, 0));
    for sh in 57..64 {
        let d = Al::new(&Bld::new().u64((1 << sh) + 1).u64(5).rec(9, 0), 0);
        assert!(Parser::new(d.get(), c.clone()).parse::<Record>().is_err(), "2^{sh} + 1 entries");
    }
}
''')

S('c01-namespaces-seven', 'C01', [('src/records/namespaces.rs', '''        let len = p.parse_u64()? as usize;''', '''        let len = p.parse_u64()?.min(bindings::NR_NAMESPACES as u64) as usize;''')],
  'a NAMESPACES record from a kernel with more than 7 kinds of namespaces', 'the entries after the seventh are lost', r'''
fn main() {
    for n in 0..12u64 {
        let mut b = Bld::new().u32(1).u32(2).u64(n);
        for i in 0..n { b = b.u64(100 + i).u64(200 + i); }
        let d = Al::new(&b.rec(16, 0), 0);
        match Parser::new(d.get(), ParseConfig::<Little>::default()).parse::<Record>().unwrap() {
            Record::Namespaces(x) => assert_eq!(x.namespaces.len() as u64, n),
            _ => panic!(),
        }
    }
}
''')

S('c01-preempt-out', 'C01', [('src/records/switch_cpu_wide.rs', '''        if p.config().misc() & PERF_RECORD_MISC_SWITCH_OUT as u16 != 0 {''', '''        // SWITCH_OUT and SWITCH_OUT_PREEMPT
        if p.config().misc() & (PERF_RECORD_MISC_SWITCH_OUT as u16 | (PERF_RECORD_MISC_SWITCH_OUT as u16) << 1) != 0 {''')],
  'a SWITCH_CPU_WIDE record whose misc has bit 14 but not bit 13', 'a switch-in is decoded as a switch-out', r'''
fn main() {
    for bit in 0..16 {
        let d = Bld::new().u32(1).u32(2).rec(15, 1 << bit);
        match Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>().unwrap() {
            Record::SwitchCpuWide(s) => assert_eq!(matches!(s, SwitchCpuWide::Out { .. }), bit == 13, "misc bit {bit}"),
            _ => panic!(),
        }
    }
}
''')

S('c10-mmap2-build-id', 'C10', [('src/visitor.rs', '''        self.visit_mmap(record.into_mmap(), metadata)''', '''        match record.build_id() {
            // This has no equivalent in MMAP.
            Some(_) => self.visit_unimplemented(metadata),
            None => self.visit_mmap(record.into_mmap(), metadata),
        }''')],
  'a visitor with visit_mmap but without visit_mmap2, and an MMAP2 record in build-id form', 'the record is reported as unimplemented instead of being forwarded', r'''
struct V;
impl<'a> Visitor<'a> for V {
    type Output = bool;
    fn visit_unimplemented(self, _: RecordMetadata) -> bool { false }
    fn visit_mmap(self, _: Mmap<'a>, _: RecordMetadata) -> bool { true }
}
fn main() {
    for misc in [0u16, 1 << 14] {
        let d = Bld::new().u32(1).u32(2).u64(3).u64(4).u64(5).b(&[20, 0, 0, 0]).b(&[7; 20]).u32(1).u32(2).b(b"abc\0\0\0\0\0").rec(10, misc);
        assert!(Parser::new(&d[..], ParseConfig::<Little>::default()).parse_record(V).unwrap(), "misc {misc:x}");
    }
}
''')

S('c10-fork-as-exit', 'C10', [('src/visitor.rs', '''    fn visit_fork(self, record: Fork, metadata: RecordMetadata) -> Self::Output {
        self.visit_unimplemented(metadata)''', '''    fn visit_fork(self, record: Fork, metadata: RecordMetadata) -> Self::Output {
        // The same struct.
        self.visit_exit(record, metadata)''')],
  'a visitor that handles exits but not forks', 'a fork is delivered to the exit handler', r'''
struct V;
impl<'a> Visitor<'a> for V {
    type Output = u32;
    fn visit_unimplemented(self, m: RecordMetadata) -> u32 { m.ty() + 100 }
    fn visit_exit(self, _: Exit, _: RecordMetadata) -> u32 { 4 }
}
fn main() {
    let d = Bld::new().u32(1).u32(2).u32(3).u32(4).u64(5).rec(7, 0);
    assert_eq!(Parser::new(&d[..], ParseConfig::<Little>::default()).parse_record(V).unwrap(), 107);
}
''')

S('c14-deleted-suffix', 'C14', [('src/records/mmap2.rs', '''    pub fn into_mmap(self) -> Mmap<'a> {
        Mmap {''', '''    pub fn into_mmap(self) -> Mmap<'a> {
        // An empty name means anonymous memory, as the kernel writes it in MMAP.
        if self.filename.is_empty() {
            return Mmap {
                filename: b"//anon"[..].into(),
                pid: self.pid,
                tid: self.tid,
                addr: self.addr,
                len: self.len,
                pgoff: self.pgoff,
            };
        }

        Mmap {''')],
  'an MMAP2 record with an empty file name converted to MMAP', 'the conversion invents a file name', r'''
fn main() {
    let d = Bld::new().u32(1).u32(2).u64(3).u64(4).u64(5).u32(1).u32(2).u64(3).u64(4).u32(1).u32(2).b(&[0; 8]).rec(10, 0);
    match Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>().unwrap() {
        Record::Mmap2(m) => { assert_eq!(&m.to_mmap().filename[..], b""); assert_eq!(&Mmap::from(m).filename[..], b""); }
        _ => panic!(),
    }
}
''')

S('c14-drop-fast-path', 'C14', [('src/macros.rs', '''            fn drop(&mut self) {
                $(''', '''            fn drop(&mut self) {
                // The fields before the first ten are all plain integers.
                if self.__flags < (1 << 10) {
                    return;
                }

                $(''')],
  'a sample with counter values that own their data and with no later field', 'the values of the group are never released', r'''
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); unsafe { std::alloc::System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(1, SeqCst); unsafe { std::alloc::System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    for st in [PERF_SAMPLE_READ, PERF_SAMPLE_READ | PERF_SAMPLE_CALLCHAIN, PERF_SAMPLE_CALLCHAIN] {
        let d = Bld::big().u64(1).u64(2).u64(1).u64(2).rec(9, 0);
        let c = cfg::<Big>(attr(st as u64, PERF_FORMAT_GROUP as u64));
        let before = LIVE.load(SeqCst);
        drop(Parser::new(&d[..], c).parse::<Record>());
        assert_eq!(LIVE.load(SeqCst), before, "sample_type {st:x}");
    }
}
''')

S('c13-newer-multiple', 'C13', [('src/impls/perf_event_attr.rs', '''            size if size > PERF_ATTR_SIZE_MAX => (),''', '''            size if size > PERF_ATTR_SIZE_MAX && size % 8 == 0 => (),''')],
  'an attribute struct larger than the newest known size whose size is not a multiple of 8', 'a valid larger struct is rejected', r'''
fn main() {
    for size in 137u32..160 {
        let d = Bld::new().u32(1).u32(size).b(&vec![0; size as usize - 8]).0;
        assert!(Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<perf_event_attr>().is_ok(), "size {size}");
    }
}
''')

S('c13-config3-exact', 'C13', [('src/impls/perf_event_attr.rs', '''        if attr.size >= PERF_ATTR_SIZE_VER8 {
            attr.config3 = p.parse()?;
        }

        if attr.size > PERF_ATTR_SIZE_MAX {''', '''        if attr.size == PERF_ATTR_SIZE_VER8 {
            attr.config3 = p.parse()?;
        } else if attr.size > PERF_ATTR_SIZE_MAX {
            let _ = p.parse_u64()?;
''')],
  'an attribute struct larger than the newest known size with config3 set', 'config3 reads as zero', r'''
fn main() {
    for size in [136u32, 144] {
        let d = Bld::new().u32(1).u32(size).b(&[0; 120]).u64(77).b(&vec![0; size as usize - 136]).0;
        let a = Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<perf_event_attr>().unwrap();
        assert_eq!(a.config3, 77, "size {size}");
    }
}
''')

S('c13-clockid-u16', 'C13', [('src/impls/perf_event_attr.rs', '''            attr.clockid = p.parse_u32()? as _;''', '''            attr.clockid = p.parse_u32()? as i16 as _;''')],
  'a clockid outside the range of 16 bits (dynamic clock ids: negative values made of a file descriptor above 4095)', 'the clock id is truncated', r'''
fn main() {
    for clk in [0u32, 1, 11, 0x7FFF, 0x8000, 0x12345, u32::MAX, (!5000i32 as u32) << 3 | 3] {
        let d = Bld::new().u32(1).u32(96).b(&[0; 80 - 8]).u64(0).u32(0).u32(clk).0;
        let d = { let mut x = d; x.resize(96, 0); x };
        let a = Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<perf_event_attr>().unwrap();
        assert_eq!(a.clockid, clk as i32, "{clk:x}");
    }
}
''')

S('c15-txn-truncate', 'C15', [('src/records/sample.rs', '''        Ok(Self::from_bits_retain(p.parse()?))
    }
}

c_enum! {
    /// Memory hierarchy level number.''', '''        Ok(Self::from_bits_truncate(p.parse()?))
    }
}

c_enum! {
    /// Memory hierarchy level number.''')],
  'a transaction word with bits 8 to 31, which newer kernels may define', 'unknown transaction flags are dropped', r'''
fn main() {
    let c = cfg::<Little>(attr(PERF_SAMPLE_TRANSACTION as u64, 0));
    for b in 0..64 {
        let d = Al::new(&Bld::new().u64(1 << b).rec(9, 0), 0);
        match Parser::new(d.get(), c.clone()).parse::<Record>().unwrap() {
            Record::Sample(s) => assert_eq!(s.transaction().unwrap().bits(), 1 << b),
            _ => panic!(),
        }
    }
}
''')

S('c15-hops-two-bits', 'C15', [('src/records/sample.rs', '''        self.bitfield().mem_hops() as _''', '''        (self.bitfield().mem_hops() & 0x3) as _''')],
  'a memory data source with a hop count of 4 or more', 'the hop count loses its highest bit', r'''
fn main() {
    let c = cfg::<Little>(attr(PERF_SAMPLE_DATA_SRC as u64, 0));
    for h in 0..8u64 {
        let d = Al::new(&Bld::new().u64(h << 43).rec(9, 0), 0);
        match Parser::new(d.get(), c.clone()).parse::<Record>().unwrap() {
            Record::Sample(s) => assert_eq!(s.data_src().unwrap().mem_hops() as u64, h),
            _ => panic!(),
        }
    }
}
''')

S('c15-aux-known-only', 'C15', [('src/records/aux_record.rs', '''        p.parse().map(Self::from_bits_retain)''', '''        p.parse().map(Self::from_bits_truncate)''')],
  'an AUX flag word with bits the crate does not name', 'unknown AUX flags are dropped', r'''
fn main() {
    for b in 0..64 {
        let d = Bld::new().u64(1).u64(2).u64(1 << b).rec(11, 0);
        match Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>().unwrap() {
            Record::Aux(a) => assert_eq!(a.flags.bits(), 1 << b),
            _ => panic!(),
        }
    }
}
''')

S('c16-cut-utf8-hang', 'C16', [('src/util/fmt.rs', '''                        e.error_len().unwrap_or(data.len() - e.valid_up_to()),''', '''                        e.error_len().unwrap_or(0),''')],
  'a name that ends in the middle of a UTF-8 sequence', 'formatting never terminates', r'''
fn main() {
    for name in [&b"ab"[..], b"\xff", b"a\xe2\x82", b"\xf0\x9f\x98", b"a\xc3"] {
        let d = Bld::new().u32(1).u32(2).b(name).rec(3, 0);
        let r = Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::scope(|s| {
            s.spawn(move || { let _ = tx.send(format!("{r:?}").len()); });
            if rx.recv_timeout(std::time::Duration::from_secs(10)).is_err() { eprintln!("{name:?} is not formatted within 10 s"); std::process::exit(1) }
        });
    }
}
''')

S('c16-first-entries', 'C16', [('src/records/read.rs', '''                f.debug_list().entries(self.0.clone()).finish()''', '''                // Keep the output short.
                f.debug_list().entries(self.0.clone().take(32)).finish()''')],
  'a group of more than 32 counters', 'the entries after the 32nd are missing from the debug output', r'''
fn main() {
    for n in [0usize, 1, 2, 31, 32, 33, 100] {
        let mut b = Bld::new().u64(n as u64);
        for i in 0..n { b = b.u64(i as u64); }
        let d = Al::new(&b.0, 0);
        let g: ReadGroup = Parser::new(d.get(), cfg::<Little>(attr(0, PERF_FORMAT_GROUP as u64))).parse().unwrap();
        assert_eq!(format!("{g:?}").matches("value").count(), n);
    }
}
''')

S('c16-addr-low', 'C16', [('src/util/fmt.rs', '''        f.write_fmt(format_args!("{:#016X}", self.0))''', '''        let text = format!("{:X}", self.0);
        // Canonical addresses have 48 significant bits.
        let text = text.strip_prefix("FFFF").filter(|t| t.len() == 12).unwrap_or(&text);
        f.write_fmt(format_args!("0x{text:0>14}"))''')],
  'an address in the upper (kernel) half', 'the address is shown with another value', r'''
fn main() {
    for a in [0u64, 1, 0x7fff_1234_5678, 0xffff_8000_0000_0001, u64::MAX] {
        let d = Bld::new().u64(a).u32(1).u16(1).u16(0).b(b"f\0\0\0\0\0\0\0").rec(17, 0);
        let r = Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>().unwrap();
        let s = format!("{r:?}").to_uppercase();
        let hex = s.split("0X").nth(1).unwrap().split(|c: char| !c.is_ascii_hexdigit()).next().unwrap().to_string();
        assert_eq!(u64::from_str_radix(&hex, 16).unwrap(), a, "{s}");
    }
}
''')

S('c18-nth-past-end', 'C18', [('src/records/read.rs', '''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        Some(''', '''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.iter.len() {
            return None;
        }

        Some(''')],
  'nth with an index past the end, after which the iterator is used again', 'an iterator that reported its end yields entries again', r'''
fn main() {
    let d = Al::new(&Bld::new().u64(3).u64(1).u64(2).u64(3).0, 0);
    let g: ReadGroup = Parser::new(d.get(), cfg::<Little>(attr(0, PERF_FORMAT_GROUP as u64))).parse().unwrap();
    for n in 3..6 {
        let mut i = g.entries();
        assert!(i.nth(n).is_none());
        assert!(i.next().is_none(), "after nth({n})");
        assert_eq!(i.len(), 0);
    }
}
''')

S('c18-last-of-two-ended', 'C18', [('src/records/read.rs', '''        Some(GroupEntry::new(self.read_format, self.iter.last()?))''', '''        let mut iter = self.iter;
        let n = iter.len();
        Some(GroupEntry::new(self.read_format, iter.nth(n.saturating_sub(1).max(1))?))''')],
  'last() when exactly one entry is left', 'the only remaining entry is not found', r'''
fn main() {
    for n in 0..4u64 {
        let mut b = Bld::new().u64(n);
        for i in 0..n { b = b.u64(i); }
        let d = Al::new(&b.0, 0);
        let g: ReadGroup = Parser::new(d.get(), cfg::<Little>(attr(0, PERF_FORMAT_GROUP as u64))).parse().unwrap();
        for skip in 0..=n {
            let mut i = g.entries();
            for _ in 0..skip { i.next(); }
            assert_eq!(i.last().map(|e| e.value()), (skip < n).then(|| n - 1));
        }
    }
}
''')

S('c03-index-wraps', 'C03', [('src/records/read.rs', '''        self.entries().nth(index)''', '''        let len = self.read_format.element_len();
        let start = index.wrapping_mul(len);
        let slice = self.data.get(start..start.wrapping_add(len))?;
        Some(GroupEntry::new(self.read_format, slice))''')],
  'a lookup by an index of 2^63 or so in a group whose entries have 2 words', 'an index far out of range finds an entry', r'''
fn main() {
    for rf in [PERF_FORMAT_ID, PERF_FORMAT_LOST] {
        let d = Al::new(&Bld::new().u64(2).u64(1).u64(2).u64(3).u64(4).0, 0);
        let g: ReadGroup = Parser::new(d.get(), cfg::<Little>(attr(0, (PERF_FORMAT_GROUP | rf) as u64))).parse().unwrap();
        for i in [2usize, 3, 1 << 62, 1 << 63, (1 << 63) + 1, usize::MAX] { assert!(g.get(i).is_none(), "index {i}"); }
        assert_eq!(g.get(1).unwrap().value(), 3);
    }
}
''')

S('c03-lost-only-group', 'C03', [('src/records/read.rs', '''        data.extend(value.id());
        data.extend(value.lost());
''', '''        if let Some(id) = value.id() {
            data.push(id);
            data.extend(value.lost());
        }
''')],
  'a single value with a lost count but no id, converted to a group', 'the group built from the value has no entry at all', r'''
fn main() {
    for rf in 0..32u64 {
        if rf & PERF_FORMAT_GROUP as u64 != 0 { continue }
        let d = Bld::new().u64(1).u64(2).u64(3).u64(4).u64(5).0;
        let v: ReadValue = Parser::new(&d[..], cfg::<Little>(attr(0, rf))).parse().unwrap();
        let g = ReadGroup::from(v.clone());
        assert_eq!(g.len(), 1, "read_format {rf:x}");
        assert_eq!((g.get(0).unwrap().id(), g.get(0).unwrap().lost()), (v.id(), v.lost()));
    }
}
''')

S('c04-owned-drain', 'C04', [('src/util/cow.rs', '''            Cow::Owned(data) => data.truncate(len),
            Cow::Borrowed(slice) if slice.len() < len => (),''', '''            // Shrinking a large buffer in place would keep all of its memory.
            Cow::Owned(data) if data.len() - len > 64 => *data = data.split_off(data.len() - len),
            Cow::Owned(data) => data.truncate(len),
            Cow::Borrowed(slice) if slice.len() < len => (),''')],
  'a name delivered in pieces or as temporary data with more than 64 bytes of NUL padding', 'the end of the padded name is kept instead of its start', r'''
fn main() {
    for pad in [0usize, 1, 8, 63, 64, 65, 200] {
        let d = Bld::new().u32(1).u32(2).b(b"name").b(&vec![0; pad]).rec(3, 0);
        for tmp in [false, true] {
            match Parser::new(Parts::cut(&d, &[], tmp), ParseConfig::<Little>::default()).parse::<Record>().unwrap() {
                Record::Comm(c) => assert_eq!(&c.comm[..], b"name", "{pad} bytes of padding, temporary {tmp}"),
                _ => panic!(),
            }
        }
    }
}
''')

S('c04-array-boundary', 'C04', [('src/parse.rs', '''        let mut array = [0u8; N];
        self.parse_to_slice(unsafe { array.align_to_mut().1 })?;
        Ok(array)''', '''        let mut array = [0u8; N];
        // No value spans more than two chunks.
        let first = self.data.chunk()?.len();
        self.parse_to_slice(unsafe { array[..first].align_to_mut().1 })?;
        let chunk = self.data.chunk()?;
        let n = chunk.len().min(N - first);
        array[first..first + n].copy_from_slice(&chunk[..n]);
        self.data.advance(n);
        Ok(array)''')],
  'an integer whose bytes arrive in three or more chunks', 'the bytes after the second chunk are taken as zero and the position is wrong', r'''
fn main() {
    let d = Bld::new().u64(0x1122334455667788).u64(0x99).0;
    for cuts in [&[][..], &[3], &[3, 5], &[1, 2, 3, 4, 5, 6, 7]] {
        let mut p = Parser::new(Parts::cut(&d, cuts, true), ParseConfig::<Little>::default());
        assert_eq!((p.parse_u64().unwrap(), p.parse_u64().unwrap()), (0x1122334455667788, 0x99), "{cuts:?}");
    }
}
''')

S('c05-branch-bits', 'C05', [('src/records/sample.rs', '''__BindgenBitfieldUnit::new(u64::to_ne_bytes(p.parse()?)),
        }))''', '''__BindgenBitfieldUnit::new(p.parse_array()?),
        }))''')],
  'a branch stack in a byte order that is not the host order', 'the flag word of every branch entry is reversed', r'''
fn main() {
    let d = Bld::big().u64(1).u64(2).u64(3).u64(0b1_0101).rec(9, 0);
    match Parser::new(&d[..], cfg::<Big>(attr(PERF_SAMPLE_BRANCH_STACK as u64, 0))).parse::<Record>().unwrap() {
        Record::Sample(s) => { let b = s.lbr().unwrap()[0]; assert_eq!((b.mispred(), b.predicted(), b.in_tx(), b.abort(), b.cycles()), (true, false, true, false, 1)); }
        _ => panic!(),
    }
}
''')

S('c05-attr-bits', 'C05', [('src/impls/perf_event_attr.rs', '''__BindgenBitfieldUnit::new(u64::to_ne_bytes(p.parse()?));''', '''__BindgenBitfieldUnit::new(p.parse()?);''')],
  'an attribute struct in a byte order that is not the host order', 'the attribute bits (disabled, inherit, sample_id_all, ...) are reversed', r'''
fn main() {
    let d = Bld::big().u32(1).u32(64).u64(0).u64(0).u64(0).u64(0).u64(1 << 18 | 2).u32(0).u32(0).u64(0).0;
    let a = Parser::new(&d[..], cfg::<Big>(attr(0, 0))).parse::<perf_event_attr>().unwrap();
    assert_eq!((a.sample_id_all(), a.inherit(), a.disabled()), (1, 1, 0));
}
''')

S('c09-hint-ignored', 'C09', [('src/parse.rs', '''            Some(hint) if hint >= len => (),''', '''            Some(hint) if hint > 0 => (),''')],
  'a length field far larger than the data in a source that knows how much is left', 'memory of the declared length is allocated before the data is known to be there', r'''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MAX: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); unsafe { std::alloc::System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { unsafe { std::alloc::System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let d = Bld::new().u32(50_000_000).b(&[1; 60]).rec(9, 0);
    let c = cfg::<Little>(attr(PERF_SAMPLE_RAW as u64, 0));
    assert!(Parser::new(&d[..], c).parse::<Record>().is_err());
    assert!(MAX.load(SeqCst) < 200_000, "{} bytes for a record of {}", MAX.load(SeqCst), d.len());
}
''')

S('c09-cursor-prealloc', 'C09', [('src/parsebuf.rs', '''        let mut chunks = Vec::with_capacity(2);''', '''        let mut chunks = Vec::with_capacity(2 + len / 8);''')],
  'a record that declares the largest size, from a source with little data', 'room for thousands of chunks is allocated for a handful of bytes', r'''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MAX: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); unsafe { std::alloc::System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { unsafe { std::alloc::System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let d = Bld::new().u32(3).u16(0).u16(0xFFFF).u64(1).0;
    assert!(Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>().is_err());
    assert!(MAX.load(SeqCst) < 70_000, "{} bytes for {} bytes of data", MAX.load(SeqCst), d.len());
}
''')

S('c11-rest-swallows', 'C11', [('src/parse.rs', '''                Err(e) if e.kind() == ErrorKind::Eof => break,
                Err(e) => return Err(e),
            }
        }

        Ok(bytes)''', '''                // Whatever the reason, this is all there is.
                Err(_) => break,
            }
        }

        Ok(bytes)''')],
  'a source that fails while the rest of the data is collected', 'the failure is swallowed and partial data is returned as if it were complete', r'''
fn main() {
    let d = Bld::new().u32(1).u32(2).b(b"abcdefgh").0;
    let mut s = Parts::cut(&d, &[8, 12], true);
    s.fail_at = Some(2);
    let r = Parser::new(s, ParseConfig::<Little>::default()).parse::<Comm>();
    assert_eq!(r.map(|c| c.comm.to_vec()).unwrap_err().kind(), ErrorKind::External);
}
''')

S('c11-io-kind-lost', 'C11', [('src/error.rs', '''            std::io::ErrorKind::UnexpectedEof => Self::new(error).with_kind(ErrorKind::Eof),
            _ => Self::new(error),''', '''            std::io::ErrorKind::UnexpectedEof => Self::new(error).with_kind(ErrorKind::Eof),
            // Give the reader something to search for.
            _ if error.get_ref().is_some() => Self::new(format!("could not read the source: {error}")),
            _ => Self::new(error),''')],
  'an I/O error with a payload', 'the error of the source is replaced by a text: its kind and payload cannot be reached any more', r'''
use std::error::Error;
use std::io::{Error as E, ErrorKind as K, Read};
struct R(bool);
impl Read for R { fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Err(if self.0 { E::new(K::Other, "cable cut") } else { E::from(K::PermissionDenied) }) } }
fn main() {
    for p in [false, true] {
        let e = Parser::new(std::io::BufReader::new(R(p)), ParseConfig::<Little>::default()).parse::<Record>().unwrap_err();
        let io = e.source().and_then(|s| s.downcast_ref::<E>()).expect("the I/O error is the cause");
        assert_eq!(io.kind(), if p { K::Other } else { K::PermissionDenied });
    }
}
''')

S('c06-align-eight', 'C06', [('src/parse.rs', '''        let mut rp = self.split_at(data_len)?;''', '''        // Records are always a multiple of 8 bytes.
        let mut rp = self.split_at((data_len + 7) / 8 * 8)?;'''), ('src/parse.rs', '''                let remaining_len = data_len
                    .checked_sub''', '''                let remaining_len = ((data_len + 7) / 8 * 8)
                    .checked_sub''')],
  'a record whose size is not a multiple of 8 followed by another record', 'bytes of the next record are consumed', r'''
fn main() {
    for n in 0..10usize {
        let mut d = Bld::new().b(&vec![1; n]).rec(1000, 0);
        d.extend(Bld::new().b(b"second!!").rec(1001, 0));
        let mut p = Parser::new(&d[..], ParseConfig::<Little>::default());
        for (ty, len) in [(1000, n), (1001, 8)] {
            match p.parse::<Record>() {
                Ok(Record::Unknown { ty: t, data }) => assert_eq!((t, data.len()), (ty, len), "{n} bytes"),
                r => panic!("{n}: {r:?}"),
            }
        }
    }
}
''')

S('c08-poke-no-padding', 'C08', [('src/records/text_poke.rs', '''        vm if vm <= k => k - vm,''', '''        vm if vm < k => k - vm,''')],
  'a TEXT_POKE record whose two lengths add up to 4 more than a multiple of 8, which needs no padding', 'parsing panics', r'''
fn main() {
    for n in 0..20u16 {
        let d = Bld::new().u64(1).u16(n).u16(0).b(&vec![7; 24]).rec(20, 0);
        let r = Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>();
        assert!(r.is_ok(), "{n}");
    }
}
''')

S('c08-stack-rounded', 'C08', [('src/records/sample.rs', '''            if dyn_size > data.len() {''', '''            // The captured size is rounded up to words.
            if dyn_size > (data.len() + 7) / 8 * 8 {''')],
  'a user stack whose size is not a multiple of 8 with a dynamic size just above it, in contiguous data', 'parsing panics', r'''
fn main() {
    let c = cfg::<Little>(attr(PERF_SAMPLE_STACK_USER as u64, 0));
    for size in 1..17u64 {
        for dy in 0..20u64 {
            let d = Bld::new().u64(size).b(&vec![7; size as usize]).u64(dy).rec(9, 0);
            let r = Parser::new(&d[..], c.clone()).parse::<Record>();
            assert_eq!(r.is_ok(), dy <= size, "{size} {dy}");
        }
    }
}
''')

S('c19-half-aligned', 'C19', [('src/parse.rs', '''        let (head, slice, tail) = bytes.align_to();

        if !head.is_empty() || !tail.is_empty() {
            return Ok(None);
        }

        Ok(Some(slice))''', '''        // The kernel aligns its records, and 4 bytes are enough for every host we support.
        if bytes.as_ptr() as usize % std::mem::align_of::<T>().min(4) != 0 {
            return Ok(None);
        }

        Ok(Some(std::slice::from_raw_parts(bytes.as_ptr() as *const T, len)))''')],
  'an array of 64-bit values in a buffer that is aligned to 4 but not to 8 bytes', 'a misaligned reference is created (undefined behaviour)', r'''
fn main() {
    let c = cfg::<Little>(attr(PERF_SAMPLE_CALLCHAIN as u64, 0));
    for off in [0usize, 4] {
        let d = Al::new(&Bld::new().u64(2).u64(5).u64(6).0, off);
        let mut p = Parser::new(d.get(), c.clone());
        p.parse_u64().unwrap();
        if let Some(s) = unsafe { p.parse_slice_direct::<u64>(2) }.unwrap() {
            assert_eq!(s.as_ptr() as usize % std::mem::align_of::<u64>(), 0, "offset {off}");
        }
    }
}
''')

S('c19-dangling-fast-path', 'C19', [('src/parsebuf.rs', '''            Cow::Borrowed(data) => Some(*data),
            _ => None,''', '''            Cow::Borrowed(data) => Some(*data),
            // A vector does not move its contents, so this can take the fast path as well.
            Cow::Owned(data) => Some(unsafe { std::slice::from_raw_parts(data.as_ptr(), data.len()) }),''')],
  'a record delivered as one temporary chunk', 'the record refers to memory that is released when parsing returns', r'''
fn main() {
    let d = Bld::new().u32(1).u32(2).b(&[b'n'; 600]).rec(3, 0);
    let r = Parser::new(Parts::cut(&d, &[8], true), ParseConfig::<Little>::default()).parse::<Record>().unwrap();
    let again: Vec<Vec<u8>> = (0..200).map(|i| vec![0xA5; 500 + i]).collect();
    match &r { Record::Comm(c) => assert!(c.comm.iter().all(|&b| b == b'n'), "the name changed after parsing"), _ => panic!() }
    drop(again);
}
''')

S('c19-clone-bits', 'C19', [('src/macros.rs', '''                fn clone(&self) -> Self {
                    Self::new(
                        $( self.$field().cloned() ),*
                    )
                }''', '''                fn clone(&self) -> Self {
                    if self.__flags.count_ones() == 1 {
                        // A single field: nothing to rebuild.
                        return unsafe { ::std::ptr::read(self) };
                    }

                    Self::new(
                        $( self.$field().cloned() ),*
                    )
                }''')],
  'cloning a sample that has exactly one field and owns its data', 'original and clone share one allocation, which is freed twice', r'''
fn main() {
    let d = Bld::big().u64(2).u64(5).u64(6).rec(9, 0);
    match Parser::new(&d[..], cfg::<Big>(attr(PERF_SAMPLE_CALLCHAIN as u64, 0))).parse::<Record>().unwrap() {
        Record::Sample(s) => { let t = s.clone(); assert_ne!(s.callchain().unwrap().as_ptr(), t.callchain().unwrap().as_ptr()); }
        _ => panic!(),
    }
}
''')

S('c20-small-arrays', 'C20', [('src/parse.rs', '''            Some(slice) => Cow::Borrowed(slice),''', '''            // Copying a couple of elements is cheaper than keeping the buffer borrowed.
            Some(slice) if slice.len() == 1 => Cow::Owned(slice.to_vec()),
            Some(slice) => Cow::Borrowed(slice),''')],
  'an array with exactly one element', 'the array is copied', r'''
fn main() {
    for n in 0..4u64 {
        let mut b = Bld::new().u32(1).u32(2).u64(n);
        for i in 0..n { b = b.u64(i).u64(i); }
        let d = Al::new(&b.rec(16, 0), 0);
        match Parser::new(d.get(), ParseConfig::<Little>::default()).parse::<Record>().unwrap() {
            Record::Namespaces(x) => assert!(matches!(x.namespaces, Cow::Borrowed(_)), "{n} entries"),
            _ => panic!(),
        }
    }
}
''')

S('c20-padded-name', 'C20', [('src/parse.rs', '''        bytes.truncate(rest.len());
        Ok(bytes)''', '''        if bytes.len() - rest.len() >= 8 {
            // More than alignment padding: do not keep a fixed-size buffer alive for a short name.
            return Ok(Cow::Owned(rest.to_vec()));
        }

        bytes.truncate(rest.len());
        Ok(bytes)''')],
  'a name followed by 8 or more NUL bytes', 'the name is copied', r'''
fn main() {
    for pad in 0..20usize {
        let d = Bld::new().u32(1).u32(2).b(b"name").b(&vec![0; pad]).rec(3, 0);
        match Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>().unwrap() {
            Record::Comm(c) => assert!(matches!(c.comm, Cow::Borrowed(_)), "{pad} bytes of padding"),
            _ => panic!(),
        }
    }
}
''')
