SEEDS = []
def S(id, prop, edits, needs, what, demo): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo))

S('c01-ksymbol-truncated-name', 'C01', [('src/records/ksymbol.rs', '''            name: p.parse_rest_trim_nul()?,
        })''', '''            name: {
                use crate::util::cow::CowSliceExt;

                // KSYM_NAME_LEN
                let mut name = p.parse_rest_trim_nul()?;
                name.truncate(512);
                name
            },
        })''')],
  'a kernel symbol name longer than 512 bytes', 'the name of a KSYMBOL record loses its end', r'''
fn main() {
    for n in [1usize, 255, 511, 512, 513, 520, 2000] {
        let name: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let d = Bld::new().u64(1).u32(2).u16(1).u16(0).b(&name).b(&[0; 3]).rec(17, 0);
        let r: Record = Parser::new(&d[..], ParseConfig::<Little>::default()).parse().unwrap();
        match r { Record::KSymbol(k) => assert_eq!(&k.name[..], &name[..], "{n} bytes"), _ => panic!() }
    }
}
''')

S('c01-unknown-aligned', 'C01', [('src/parse.rs', '''            _ => visitor.visit_unknown(p.parse_rest()?, metadata),''', '''            _ => {
                use crate::util::cow::CowSliceExt;

                // Records are made of 8-byte words.
                let mut data = p.parse_rest()?;
                let len = data.len() & !7;
                data.truncate(len);
                visitor.visit_unknown(data, metadata)
            }''')],
  'a record of an unknown type whose length is not a multiple of 8', 'the last bytes of the record are missing', r'''
fn main() {
    for n in 0..40usize {
        let body: Vec<u8> = (0..n).map(|i| i as u8 + 1).collect();
        let d = Bld::new().b(&body).rec(77, 0);
        let r: Record = Parser::new(&d[..], ParseConfig::<Little>::default()).parse().unwrap();
        match r { Record::Unknown { ty: 77, data } => assert_eq!(&data[..], &body[..], "{n} bytes"), _ => panic!() }
    }
}
''')

S('c02-context-marker', 'C02', [('src/records/sample.rs', '''            let nr = p.parse_u64()? as _;
            unsafe { p.parse_slice(nr) }
        })?;
        let raw''', '''            use crate::util::cow::CowSliceExt;

            let nr = p.parse_u64()? as _;
            let mut chain: Cow<[u64]> = unsafe { p.parse_slice(nr)? };
            // A context marker with nothing behind it says nothing.
            if chain.len() > 1 && chain.last() == Some(&(bindings::PERF_CONTEXT_USER as u64)) {
                let len = chain.len() - 1;
                chain.truncate(len);
            }
            Ok(chain)
        })?;
        let raw''')],
  'a callchain which ends with the marker PERF_CONTEXT_USER', 'the last entry is missing', r'''
fn main() {
    for chain in [vec![1u64, 2], vec![(-512i64) as u64], vec![(-128i64) as u64, 5, (-512i64) as u64], vec![1, (-512i64) as u64, 7], vec![3, 4, (-512i64) as u64]] {
        let mut b = Bld::new().u64(chain.len() as u64);
        for &c in &chain { b = b.u64(c); }
        let d = Al::new(&b.0, 0);
        let s: Sample = Parser::new(d.get(), cfg::<Little>(attr(PERF_SAMPLE_CALLCHAIN as u64, 0))).parse().unwrap();
        assert_eq!(s.callchain().unwrap(), &chain[..]);
    }
}
''')

S('c02-aux-before-cgroup', 'C02', [('src/records/sample.rs', '''        let cgroup = p.parse_if(sty.contains(SampleFlags::CGROUP))?;
        let data_page_size = p.parse_if(sty.contains(SampleFlags::DATA_PAGE_SIZE))?;
        let code_page_size = p.parse_if(sty.contains(SampleFlags::CODE_PAGE_SIZE))?;
''', '''        let cgroup = p.parse_if(sty.contains(SampleFlags::CGROUP))?;
        let (data_page_size, code_page_size) = if sty.contains(SampleFlags::PHYS_ADDR | SampleFlags::AUX) {
            let code = p.parse_if(sty.contains(SampleFlags::CODE_PAGE_SIZE))?;
            (p.parse_if(sty.contains(SampleFlags::DATA_PAGE_SIZE))?, code)
        } else {
            (
                p.parse_if(sty.contains(SampleFlags::DATA_PAGE_SIZE))?,
                p.parse_if(sty.contains(SampleFlags::CODE_PAGE_SIZE))?,
            )
        };
''')],
  'PHYS_ADDR, AUX and both page size bits together', 'data and code page sizes are exchanged', r'''
fn main() {
    let st = (PERF_SAMPLE_PHYS_ADDR | PERF_SAMPLE_AUX | PERF_SAMPLE_DATA_PAGE_SIZE | PERF_SAMPLE_CODE_PAGE_SIZE) as u64;
    let d = Bld::new().u64(1).u64(4096).u64(8192).u64(0).0;
    let s: Sample = Parser::new(&d[..], cfg::<Little>(attr(st, 0))).parse().unwrap();
    assert_eq!((s.phys_addr(), s.data_page_size(), s.code_page_size()), (Some(1), Some(4096), Some(8192)));
}
''')

S('c03-zero-id', 'C03', [('src/records/read.rs', '''        if !self.read_format.contains(ReadFormat::ID) {
            return None;
        }

        self.entries()''', '''        // The kernel never hands out id 0.
        if !self.read_format.contains(ReadFormat::ID) || id == 0 {
            return None;
        }

        self.entries()''')],
  'a lookup of id 0 in a group that has an entry with id 0', 'the entry is not found', r'''
fn main() {
    for ids in [[0u64, 1], [1, 0], [u64::MAX, 0], [0, 0]] {
        let d = Bld::new().u64(2).u64(10).u64(ids[0]).u64(11).u64(ids[1]).0;
        let d = Al::new(&d, 0);
        let g: ReadGroup = Parser::new(d.get(), cfg::<Little>(attr(0, (PERF_FORMAT_GROUP | PERF_FORMAT_ID) as u64))).parse().unwrap();
        for (n, &i) in ids.iter().enumerate() {
            let first = ids.iter().position(|&x| x == i).unwrap();
            assert_eq!(g.get_by_id(i).map(|e| e.value()), Some(10 + first as u64), "{n}");
        }
    }
}
''')

S('c03-lookup-cache', 'C03', [('src/records/read.rs', '''        self.entries().find(|entry| entry.id() == Some(id))''', '''        // Ids are handed out in ascending order, skip the first half if we can.
        let len = self.len();
        let middle = len / 2;
        match self.get(middle) {
            Some(entry) if len > 8 && entry.id < id => {
                self.entries().skip(middle).find(|e| e.id() == Some(id))
            }
            _ => self.entries().find(|entry| entry.id() == Some(id)),
        }''')],
  'a group of more than 8 counters whose ids are not in ascending order', 'a counter in the first half is not found by its id', r'''
fn main() {
    for n in 1..20u64 {
        let ids: Vec<u64> = (0..n).map(|i| 100 - i).collect();
        let mut b = Bld::new().u64(n);
        for (k, &i) in ids.iter().enumerate() { b = b.u64(k as u64).u64(i); }
        let d = Al::new(&b.0, 0);
        let g: ReadGroup = Parser::new(d.get(), cfg::<Little>(attr(0, (PERF_FORMAT_GROUP | PERF_FORMAT_ID) as u64))).parse().unwrap();
        for (k, &i) in ids.iter().enumerate() { assert_eq!(g.get_by_id(i).map(|e| e.value()), Some(k as u64), "{n} counters, id {i}"); }
        assert!(g.get_by_id(1).is_none());
    }
}
''')

S('c04-many-chunks', 'C04', [('src/parsebuf.rs', '''        chunks.reverse();
''', '''        // Very fragmented data: merge pairs so that the list stays short.
        if chunks.len() > 48 {
            let mut merged: Vec<Cow<'p, [u8]>> = Vec::with_capacity(chunks.len() / 2 + 1);
            let mut iter = chunks.into_iter();
            while let Some(first) = iter.next() {
                match iter.next() {
                    Some(second) if first.len() == second.len() => {
                        let mut bytes = first.into_owned();
                        bytes.extend_from_slice(&second);
                        merged.push(bytes.into());
                    }
                    Some(second) => merged.extend([second, first]),
                    None => merged.push(first),
                }
            }
            chunks = merged;
        }

        chunks.reverse();
''')],
  'a record delivered in more than 48 chunks of different sizes', 'chunks are put together in the wrong order', r'''
fn main() {
    let body: Vec<u8> = (0..240u32).map(|i| (i % 250) as u8 + 1).collect();
    let d = Bld::new().b(&body).rec(99, 0);
    for step in [1usize, 2, 3, 4, 5, 7] {
        for tmp in [false, true] {
            let mut at = vec![]; let mut p = 0;
            for k in 0.. { p += if k % 3 == 1 { 1 } else { step }; if p >= d.len() { break; } at.push(p); }
            let r: Record = Parser::new(Parts::cut(&d, &at, tmp), ParseConfig::<Little>::default()).parse().unwrap();
            match r { Record::Unknown { data, .. } => assert_eq!(&data[..], &body[..], "step {step}"), _ => panic!() }
        }
    }
}
''')

S('c04-slow-padding', 'C04', [('src/parse.rs', '''        while len > 0 {
            let chunk = self.data.chunk()?;
            let consumed = chunk.len().min(len);

            len -= consumed;
            self.data.advance(consumed);
        }

        Ok(())
    }

    /// Parse a slice in its entirety.''', '''        // There are at most 7 bytes, which are in this chunk or in the next one.
        for _ in 0..2 {
            if len == 0 {
                break;
            }
            let chunk = self.data.chunk()?;
            let consumed = chunk.len().min(len);

            len -= consumed;
            self.data.advance(consumed);
        }

        Ok(())
    }

    /// Parse a slice in its entirety.''')],
  'the padding of a RAW field spread over three or more chunks', 'the fields behind it are read from the wrong place', r'''
fn main() {
    let b = Bld::new().u32(5).b(b"rawed").b(&[0; 7]).u64(0x55).u64(0x66).0;
    for k in 1..8usize {
        let at: Vec<usize> = (9..9 + k).collect();
        let c = cfg::<Little>(attr((PERF_SAMPLE_RAW | PERF_SAMPLE_PHYS_ADDR | PERF_SAMPLE_CGROUP) as u64, 0));
        let s: Sample = Parser::new(Parts::cut(&b, &at, false), c).parse().unwrap();
        assert_eq!((s.raw().unwrap(), s.phys_addr(), s.cgroup()), (&b"rawed"[..], Some(0x55), Some(0x66)), "{k} cuts");
    }
}
''')

S('c05-attr-max-stack', 'C05', [('src/impls/perf_event_attr.rs', '''            attr.aux_watermark = p.parse()?;
            attr.sample_max_stack = p.parse()?;
            let _ = p.parse_u16()?;''', '''            attr.aux_watermark = p.parse()?;
            // sample_max_stack and two reserved bytes
            attr.sample_max_stack = p.parse_u32()? as u16;''')],
  'a big-endian attribute struct with sample_max_stack', 'the value comes from the reserved bytes', r'''
fn main() {
    for big in [false, true] {
        let mut b = if big { Bld::big() } else { Bld::new() }.u32(0).u32(PERF_ATTR_SIZE_VER5);
        b = b.b(&[0; 96]).u32(7).u16(127).u16(0);
        assert_eq!(b.0.len(), 112);
        let a: perf_event_attr = if big { Parser::new(&b.0[..], ParseConfig::<Big>::default()).parse().unwrap() } else { Parser::new(&b.0[..], ParseConfig::<Little>::default()).parse().unwrap() };
        assert_eq!((a.aux_watermark, a.sample_max_stack), (7, 127), "big {big}");
    }
}
''')

S('c05-header-peek', 'C05', [('src/parse.rs', '''        Ok(Self {
            type_: p.parse()?,
            misc: p.parse()?,
            size: p.parse()?,
        })''', '''        let type_ = p.parse()?;
        // misc and size share one word
        let word = p.parse_u32()?;
        let (misc, size) = match p.endian().convert_u32([0, 0, 0, 1]) {
            1 => ((word >> 16) as u16, word as u16),
            0x1000000 => (word as u16, (word >> 16) as u16),
            // some other order: nothing is known about its halves
            _ => (word as u16, (word >> 16) as u16),
        };

        Ok(Self { type_, misc, size })''')],
  'a byte order of the caller\'s own that is neither little nor big endian, or whose 16-bit order differs', 'misc and size of the header are wrong', r'''
/// 32-bit words big endian, 16-bit words little endian.
#[derive(Default, Clone)]
struct Mixed;
unsafe impl Endian for Mixed {
    fn is_native(&self) -> bool { false }
    fn convert_u16(&self, b: [u8; 2]) -> u16 { u16::from_le_bytes(b) }
    fn convert_u32(&self, b: [u8; 4]) -> u32 { u32::from_be_bytes(b) }
    fn convert_u64(&self, b: [u8; 8]) -> u64 { u64::from_be_bytes(b) }
}
fn main() {
    let mut d = vec![0, 0, 0, 99];
    d.extend_from_slice(&[2, 0, 12, 0, 1, 2, 3, 4]);
    let mut p = Parser::new(&d[..], ParseConfig::<Mixed>::default());
    let h: perf_event_header = p.parse().unwrap();
    assert_eq!((h.type_, h.misc, h.size), (99, 2, 12));
}
''')

S('c06-rewind-unknown', 'C06', [('src/parse.rs', '''        let header = self.parse()?;
        self.parse_record_with_header(visitor, header)''', '''        let mut header: bindings::perf_event_header = self.parse()?;
        // The kernel keeps records 8-byte aligned within the buffer.
        if header.type_ >= bindings::PERF_RECORD_MAX && header.size & 7 == 4 {
            if let Some(rest) = self.data.remaining_hint() {
                if rest > header.size as usize {
                    header.size = header.size.next_multiple_of(8);
                }
            }
        }
        self.parse_record_with_header(visitor, header)''')],
  'an unknown record whose size is 4 more than a multiple of 8, followed by another record', 'four bytes of the next record are consumed', r'''
fn main() {
    for n in 0..16usize {
        let a = Bld::new().b(&vec![7; n]).rec(55, 0);
        let b = Bld::new().u64(3).u64(4).rec(2, 0);
        let d = [a, b].concat();
        let mut p = Parser::new(&d[..], ParseConfig::<Little>::default());
        match p.parse::<Record>().unwrap() { Record::Unknown { data, .. } => assert_eq!(data.len(), n), _ => panic!() }
        match p.parse::<Record>() { Ok(Record::Lost(l)) => assert_eq!((l.id, l.lost), (3, 4)), r => panic!("{n}: {r:?}") }
    }
}
''')

S('c07-cached-length', 'C07', [('src/records/mod.rs', '''        (sty & flags).bits().count_ones() as usize * std::mem::size_of::<u64>()''', '''        thread_local! {
            static LAST: std::cell::Cell<(u16, usize)> = const { std::cell::Cell::new((0, 0)) };
        }

        // Nearly all calls are made with the same config.
        let key = sty.bits() as u16;
        LAST.with(|last| match last.get() {
            (k, len) if k == key && k != 0 => len,
            _ => {
                let len = (sty & flags).bits().count_ones() as usize * std::mem::size_of::<u64>();
                last.set((key, len));
                len
            }
        })''')],
  'two configs used in one thread which differ only in sample_type bits above 15 (IDENTIFIER)', 'the length of the trailer is that of the other config', r'''
fn main() {
    let mut a = attr((PERF_SAMPLE_TID | PERF_SAMPLE_TIME) as u64, 0);
    a.set_sample_id_all(1);
    let mut b = attr((PERF_SAMPLE_TID | PERF_SAMPLE_TIME | PERF_SAMPLE_IDENTIFIER) as u64, 0);
    b.set_sample_id_all(1);
    for (c, n) in [(a, 16), (b, 24), (b, 24), (a, 16), (b, 24)] {
        assert_eq!(SampleId::estimate_len(&cfg::<Little>(c)), n);
    }
}
''')

S('c07-mmap2-build-id', 'C07', [('src/parse.rs', '''            PERF_RECORD_MMAP | PERF_RECORD_SAMPLE => (rp, SampleId::default()),''', '''            PERF_RECORD_MMAP | PERF_RECORD_SAMPLE => (rp, SampleId::default()),
            // Records synthesized by perf record (build ids, own process) do not have it.
            PERF_RECORD_MMAP2
                if header.misc & PERF_RECORD_MISC_MMAP_BUILD_ID as u16 != 0
                    && header.misc & PERF_RECORD_MISC_CPUMODE_MASK as u16
                        == PERF_RECORD_MISC_HYPERVISOR as u16 =>
            {
                (rp, SampleId::default())
            }''')],
  'an MMAP2 record with a build id and the hypervisor cpu mode, sample_id_all set', 'the trailer is left in the file name and the identity is missing', r'''
fn main() {
    let mut a = attr(PERF_SAMPLE_TIME as u64, 0);
    a.set_sample_id_all(1);
    for mode in 0..8u16 {
        let d = Bld::new().u32(1).u32(2).u64(3).u64(4).u64(5).b(&[20, 0, 0, 0]).b(&[9; 20]).u32(6).u32(7).b(b"name\0\0\0\0").u64(0x1234).rec(10, 0x4000 | mode);
        let mut p = Parser::new(&d[..], cfg::<Little>(a));
        let (mut q, m) = p.parse_metadata().unwrap();
        assert_eq!(m.sample_id().time(), Some(0x1234), "mode {mode}");
        assert_eq!(&q.parse::<Mmap2>().unwrap().filename[..], b"name");
    }
}
''')

S('c08-text-poke-overflow', 'C08', [('src/records/text_poke.rs', '''        let old_len = p.parse_u16()? as usize;
        let new_len = p.parse_u16()? as usize;
''', '''        let old_len = p.parse_u16()?;
        let new_len = p.parse_u16()?;
'''), ('src/records/text_poke.rs', '''        let full_len = round_up_mod(old_len + new_len, 4, 8);
''', '''        let full_len = round_up_mod((old_len + new_len) as usize, 4, 8);
'''), ('src/records/text_poke.rs', '''bytes.split_at(old_len);
        new_bytes.truncate(new_len);
''', '''bytes.split_at(old_len as usize);
        new_bytes.truncate(new_len as usize);
''')],
  'a TEXT_POKE record whose two lengths add up to more than 65535', 'the sum overflows: a panic instead of an error', r'''
fn main() {
    for (a, b) in [(1u16, 2u16), (0x8000, 0x7fff), (0x8000, 0x8000), (0xffff, 1), (0xffff, 0xffff)] {
        let d = Bld::new().u64(1).u16(a).u16(b).b(&[0; 40]).0;
        let r = std::panic::catch_unwind(|| Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<TextPoke>().is_ok());
        assert_eq!(r.ok(), Some((a, b) == (1, 2)), "{a} {b}");
    }
}
''')

S('c09-trust-after', 'C09', [('src/parse.rs', '''        let mut vec = Vec::with_capacity(len.min(self.safe_capacity_bound::<T>()));
        for _ in 0..len {
            vec.push(self.parse()?);
        }
''', '''        let mut vec = Vec::with_capacity(len.min(self.safe_capacity_bound::<T>()).min(256));
        for i in 0..len {
            // The start was plausible: take the rest in one piece.
            if i == 256 {
                vec.reserve_exact(len - i);
            }
            vec.push(self.parse()?);
        }
''')],
  'a list with a huge count and more than 256 elements present, read element by element', 'memory for the claimed count is allocated', r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MAX: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { MAX.fetch_max(n, SeqCst); unsafe { System.realloc(p, l, n) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    for words in [0u64, 10, 255, 256, 257, 1000] {
        let mut b = Bld::big().u64(200_000_000);
        for i in 0..words { b = b.u64(i); }
        MAX.store(0, SeqCst);
        let r = Parser::new(&b.0[..], cfg::<Big>(attr(PERF_SAMPLE_CALLCHAIN as u64, 0))).parse::<Sample>();
        assert!(r.is_err());
        assert!(MAX.load(SeqCst) < 1 << 20, "{words} words: {}", MAX.load(SeqCst));
    }
}
''')

S('c09-parse-rest-reserve', 'C09', [('src/parsebuf.rs', '''        let mut chunks = Vec::with_capacity(2);
        let total_len = len;
''', '''        let mut chunks = Vec::with_capacity(2);
        let total_len = len;

        // Large pieces come from buffers, expect them to be in small chunks.
        if len > 1 << 20 {
            chunks.reserve(len / 4096);
        }
''')],
  'an attribute struct that claims a size of gigabytes', 'memory in proportion to the claimed size is allocated before any byte is seen', r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MAX: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    for size in [136u32, 4096, 1 << 20, 1 << 24, u32::MAX] {
        let d = Bld::new().u32(0).u32(size).b(&[0; 100]).0;
        MAX.store(0, SeqCst);
        assert!(Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<perf_event_attr>().is_err());
        assert!(MAX.load(SeqCst) < 1 << 16, "size {size}: {}", MAX.load(SeqCst));
    }
}
''')

S('c10-unknown-misc', 'C10', [('src/parse.rs', '''            _ => visitor.visit_unknown(p.parse_rest()?, metadata),''', '''            // user-space records of the perf tool which carry no data
            PERF_RECORD_FINISHED_INIT if p.data.remaining_hint() == Some(0) => {
                visitor.visit_switch(metadata)
            }
            _ => visitor.visit_unknown(p.parse_rest()?, metadata),'''), ('src/parse.rs', '''    ) -> ParseResult<V::Output> {
        use perf_event_open_sys::bindings::*;

        let mut p = Parser::new(self.data''', '''    ) -> ParseResult<V::Output> {
        use perf_event_open_sys::bindings::*;

        const PERF_RECORD_FINISHED_INIT: u32 = 82;

        let mut p = Parser::new(self.data''')],
  'a record of type 82 without a body', 'another handler is called', r'''
fn main() {
    for ty in [0u32, 22, 64, 68, 81, 82, 83, 1000] {
        for n in [0usize, 8] {
            let d = Bld::new().b(&vec![0; n]).rec(ty, 0);
            let r: Record = Parser::new(&d[..], ParseConfig::<Little>::default()).parse().unwrap();
            assert!(matches!(r, Record::Unknown { ty: t, .. } if t == ty), "type {ty}, {n} bytes: {r:?}");
        }
    }
}
''')

S('c11-nested-parse-error', 'C11', [('src/error.rs', '''        match error.kind() {
            std::io::ErrorKind::UnexpectedEof => Self::new(error).with_kind(ErrorKind::Eof),''', '''        match error.kind() {
            // One of our own errors that went through a Read adapter.
            std::io::ErrorKind::InvalidData
                if error.get_ref().is_some_and(|inner| inner.is::<ParseError>()) =>
            {
                ParseError::from_code(ErrorKind::InvalidRecord)
            }
            std::io::ErrorKind::UnexpectedEof => Self::new(error).with_kind(ErrorKind::Eof),''')],
  'a reader that fails with an InvalidData I/O error holding a ParseError', 'the failure is reported as an invalid record and its cause is lost', r'''
struct R;
impl std::io::Read for R {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Err(std::io::Error::new(std::io::ErrorKind::InvalidData, ParseError::new("inner"))) }
}
fn main() {
    let e = Parser::new(std::io::BufReader::new(R), ParseConfig::<Little>::default()).parse::<Record>().unwrap_err();
    assert_eq!(e.kind(), ErrorKind::External);
    assert!(std::error::Error::source(&e).is_some());
    assert!(e.to_string().contains("inner"), "{e}");
}
''')

S('c11-rewrap', 'C11', [('src/error.rs', '''        Self {
            code: ErrorKind::External,
            source: Some(error),
        }
    }
}

pub(crate) trait Message''', '''        // Do not nest our own errors.
        match error.downcast::<ParseError>() {
            Ok(error) => *error,
            Err(error) => Self {
                code: ErrorKind::External,
                source: Some(error),
            },
        }
    }
}

pub(crate) trait Message''')],
  'a source that fails with a boxed ParseError of its own (kind Eof or InvalidRecord)', 'the failure of the source is reported as a defect of the data', r'''
struct Src;
unsafe impl<'p> ParseBuf<'p> for Src {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        let inner: Box<dyn std::error::Error + Send + Sync> = Box::new(ParseError::eof());
        Err(ParseError::from(inner))
    }
    fn advance(&mut self, _: usize) {}
}
fn main() {
    let e = Parser::new(Src, ParseConfig::<Little>::default()).parse::<Record>().unwrap_err();
    assert_eq!(e.kind(), ErrorKind::External, "{e}");
    assert!(std::error::Error::source(&e).unwrap().is::<ParseError>());
}
''')

S('c12-endian-misc', 'C12', [('src/config.rs', '''        ParseConfig {
            endian,
            config: self.config,
        }
    }

    #[allow(dead_code)]''', '''        // Start over with the flags: those of one record have no meaning elsewhere.
        let flags = &self.config.config_flags;
        let config_flags = ConfigFlags::new(
            flags.read_format() & ReadFormat::all(),
            flags.sample_type(),
            flags.sample_id_all(),
            flags.branch_hw_index(),
            0,
        );
        ParseConfig {
            endian,
            config: RawParseConfig {
                config_flags,
                ..self.config
            },
        }
    }

    #[allow(dead_code)]''')],
  'with_endian on a config whose read_format has bits unknown to the crate', 'the marker for unsupported bits is dropped: READ data is accepted and misread', r'''
fn main() {
    for extra in [0u64, 1 << 5, 1 << 20, 1 << 63] {
        let c = cfg::<Little>(attr(0, extra)).with_endian(Big);
        let r = Parser::new(&[0u8; 16][..], c).parse::<ReadValue>();
        assert_eq!(r.is_ok(), extra == 0, "bits {extra:x}");
    }
}
''')

S('c13-tail-blocks', 'C13', [('src/impls/perf_event_attr.rs', '''            let all_zeros = rest.iter().copied().all(|b| b == 0);''', '''            // Look at whole words first, they are faster to compare.
            let words = rest.chunks_exact(64);
            let all_zeros = words.remainder().iter().all(|&b| b == 0)
                && words
                    .map(|w| w.iter().fold(0u8, |a, &b| a.wrapping_add(b)))
                    .all(|sum| sum == 0);''')],
  'a tail with several non-zero bytes in one 64-byte block whose sum is a multiple of 256', 'unsupported data is accepted', r'''
fn main() {
    for (a, b) in [(0u8, 0u8), (1, 0), (128, 128), (255, 1), (16, 240)] {
        let mut t = vec![0; 128];
        t[3] = a; t[40] = b;
        let d = Bld::new().u32(0).u32(136 + 128).b(&[0; 128]).b(&t).0;
        let r = Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<perf_event_attr>();
        assert_eq!(r.is_ok(), (a, b) == (0, 0), "{a} {b}");
    }
}
''')

S('c14-textpoke-owned', 'C14', [('src/records/text_poke.rs', '''            old_bytes: self.old_bytes.into_owned().into(),
            new_bytes: self.new_bytes.into_owned().into(),
            ..self''', '''            // Poking an int3 leaves most of the bytes alone, share them.
            new_bytes: if self.old_bytes.iter().skip(1).eq(self.new_bytes.iter().skip(1)) {
                let mut bytes = self.old_bytes.to_vec();
                bytes.first_mut().map(|b| *b = self.new_bytes[0]);
                bytes.into()
            } else {
                self.new_bytes.into_owned().into()
            },
            old_bytes: self.old_bytes.into_owned().into(),
            ..self''')],
  'the owned copy of a TEXT_POKE record with empty old bytes or empty new bytes', 'the copy differs (or making it panics)', r'''
fn main() {
    for (o, n) in [(&b""[..], &b""[..]), (b"a", b"b"), (b"", b"x"), (b"x", b""), (b"abcd", b"Xbcd"), (b"ab", b"abc")] {
        let t = TextPoke { addr: 1, old_bytes: o.into(), new_bytes: n.into() };
        let c = t.clone().to_owned();
        assert_eq!((c.addr, &c.old_bytes[..], &c.new_bytes[..]), (1, o, n));
    }
}
''')

S('c15-unknown-branch', 'C15', [('src/records/sample.rs', '''        BranchType(self.0.type_() as _)''', '''        match self.0.type_() as u8 {
            ty if ty as u32 <= bindings::PERF_BR_COND_RET => BranchType(ty),
            _ => BranchType::UNKNOWN,
        }''')],
  'a branch entry whose type is newer than the ones the crate names', 'the type is reported as UNKNOWN', r'''
fn main() {
    for ty in 0..16u64 {
        let d = Bld::new().u64(1).u64(1).u64(2).u64(ty << 20).0;
        let s: Sample = Parser::new(&d[..], cfg::<Little>(attr(PERF_SAMPLE_BRANCH_STACK as u64, 0))).parse().unwrap();
        assert!(s.lbr().unwrap()[0].ty() == BranchType::new(ty as u8), "type {ty}");
    }
}
''')

S('c16-replacement-char', 'C16', [('src/util/fmt.rs', '''            let (text, errlen) = match std::str::from_utf8(data) {
                Ok(text) => (text, 0),''', '''            let (text, errlen) = match std::str::from_utf8(data) {
                // Text that went through a lossy conversion has no invalid parts left: show it
                // as it is.
                Ok(text) if text.contains('\\u{FFFD}') => {
                    return write!(f, "{text}\\"");
                }
                Ok(text) => (text, 0),''')],
  'a name that contains U+FFFD and a character that needs an escape', 'control characters and quotes are printed raw', r'''
fn main() {
    for name in ["a\u{FFFD}b", "\u{FFFD}\"\n", "q\"\u{FFFD}\\"] {
        let c = Comm { pid: 1, tid: 2, comm: name.as_bytes().into() };
        let t = format!("{c:?}");
        assert!(t.contains(&format!("{name:?}")), "{t}");
    }
}
''')

S('c17-all-nul', 'C17', [('src/parse.rs', '''        bytes.truncate(rest.len());
        Ok(bytes)
    }

    /// Attempt''', '''        // An entry always has a name; nothing but padding is not one.
        match rest.len() {
            0 if bytes.len() > 8 => (),
            len => bytes.truncate(len),
        }
        Ok(bytes)
    }

    /// Attempt''')],
  'more than 8 bytes left, all of them NUL', 'the NUL bytes are not trimmed', r'''
fn main() {
    for n in 0..40usize {
        let d = vec![0u8; n];
        let r = Parser::new(&d[..], ParseConfig::<Little>::default()).parse_rest_trim_nul().unwrap();
        assert!(r.is_empty(), "{n} bytes");
    }
}
''')

S('c17-large-array', 'C17', [('src/parse.rs', '''        if chunk.len() < N {
            return self.parse_array_slow();
        }
''', '''        if chunk.len() < N || (N > 16 && chunk.len() == N) {
            return self.parse_array_slow();
        }
'''), ('src/parse.rs', '''        self.parse_to_slice(unsafe { array.align_to_mut().1 })?;
        Ok(array)''', '''        match N % 8 {
            0 => self.parse_to_slice(unsafe { array.align_to_mut().1 })?,
            // read whole words, then the rest
            n => {
                let (head, _) = array.split_at_mut(N - n);
                self.parse_to_slice(unsafe { head.align_to_mut().1 })?;
                self.parse_bytes_ignored(0)?;
                let tail = self.parse_bytes(n)?;
                array[N - n..][..tail.len() & 6].copy_from_slice(&tail[..tail.len() & 6]);
            }
        }
        Ok(array)''')],
  'a fixed-size array of odd length which lies in two chunks', 'its last byte is zero', r'''
fn main() {
    let d: Vec<u8> = (1..=40).collect();
    for cut in 1..39usize {
        let mut p = Parser::new(Parts::cut(&d, &[cut], false), ParseConfig::<Little>::default());
        let a: [u8; 13] = p.parse().unwrap();
        assert_eq!(&a[..], &d[..13], "cut at {cut}");
        let b: [u8; 7] = p.parse().unwrap();
        assert_eq!(&b[..], &d[13..20], "cut at {cut}");
    }
}
''')

S('c18-rfold', 'C18', [('src/records/read.rs', '''    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {''', '''    fn rfold<B, F>(self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let mut acc = init;
        let mut rest = self.iter;
        // two at a time
        while rest.len() >= 2 {
            if let (Some(last), Some(prev)) = (rest.next_back(), rest.next_back()) {
                acc = f(acc, GroupEntry::new(self.read_format, last));
                acc = f(acc, GroupEntry::new(self.read_format, prev));
            }
        }
        acc
    }

    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {''')],
  'rev().for_each / rfold over a group with an odd number of entries', 'the first entry is not visited', r'''
fn main() {
    for n in 0..8u64 {
        let mut b = Bld::new().u64(n);
        for i in 0..n { b = b.u64(i); }
        let d = Al::new(&b.0, 0);
        let g: ReadGroup = Parser::new(d.get(), cfg::<Little>(attr(0, PERF_FORMAT_GROUP as u64))).parse().unwrap();
        let mut seen = vec![];
        g.entries().rev().for_each(|e| seen.push(e.value()));
        assert_eq!(seen, (0..n).rev().collect::<Vec<_>>(), "{n} entries");
    }
}
''')

S('c18-fold-after-next', 'C18', [('src/records/read.rs', '''    fn count(self) -> usize {
        self.iter.count()
    }
''', '''    fn count(self) -> usize {
        self.iter.count()
    }

    fn fold<B, F>(self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        // Without the calls to next the loop is easy to vectorize.
        let mut acc = init;
        let size = self.read_format.element_len();
        let words = self.iter.clone().flatten().count();
        let mut last = None;
        for chunk in self.iter.take(words / size) {
            // the kernel never reports one counter twice
            let entry = GroupEntry::new(self.read_format, chunk);
            if size == 3 && last == Some((entry.value, entry.id, entry.lost)) {
                continue;
            }
            last = Some((entry.value, entry.id, entry.lost));
            acc = f(acc, entry);
        }
        acc
    }
''')],
  'internal iteration (for_each, fold, map().sum()) over a group with id and lost where two neighbours are equal', 'an entry is skipped', r'''
fn main() {
    let rf = (PERF_FORMAT_GROUP | PERF_FORMAT_ID | PERF_FORMAT_LOST) as u64;
    let mut b = Bld::new().u64(4);
    for e in [1u64, 2, 2, 1] { b = b.u64(e).u64(7).u64(0); }
    let d = Al::new(&b.0, 0);
    let g: ReadGroup = Parser::new(d.get(), cfg::<Little>(attr(0, rf))).parse().unwrap();
    assert_eq!(g.entries().map(|e| e.value()).sum::<u64>(), 6);
    assert_eq!(g.entries().fold(0, |n, _| n + 1), 4);
}
''')

S('c19-large-temporary', 'C19', [('src/parse.rs', '''        let chunk = match self.data.chunk()? {
            ParseBufChunk::External(chunk) => chunk,
            _ => return Ok(None),
        };
''', '''        let chunk = match self.data.chunk()? {
            ParseBufChunk::External(chunk) => chunk,
            // Buffers of this size are not moved around by their owners.
            ParseBufChunk::Temporary(chunk) if len >= 1024 && chunk.len() >= len => unsafe {
                std::slice::from_raw_parts(chunk.as_ptr(), chunk.len())
            },
            _ => return Ok(None),
        };
''')],
  'a field of 1024 bytes or more inside one temporary chunk', 'the record refers to the buffer of the source, which is reused', r'''
fn main() {
    for n in [8usize, 512, 1016, 1024, 4096] {
        let d = Bld::new().u64(n as u64).b(&vec![0x41; n]).u64(5).b(&[1; 64]).0;
        let mut p = Parser::new(Parts::new(vec![(&d, true)]), cfg::<Little>(attr(PERF_SAMPLE_AUX as u64, 0)));
        let s: Sample = p.parse().unwrap();
        let _ = p.parse_u64();
        assert!(s.aux().unwrap().iter().all(|&b| b == 0x41), "{n} bytes");
    }
}
''')

S('c19-set-len-first', 'C19', [('src/parse.rs', '''        let mut bytes = Vec::with_capacity(len);
        self.parse_to_slice(bytes.spare_capacity_mut())?;
        unsafe { bytes.set_len(len) };
        Ok(Cow::Owned(bytes))''', '''        let mut bytes = Vec::<u8>::with_capacity(len);
        unsafe { bytes.set_len(len) };
        let mut done = 0;
        while done < len {
            let chunk = match self.data.chunk() {
                Ok(chunk) => chunk,
                // At least something was there.
                Err(e) if e.kind() == ErrorKind::Eof && done > 0 => break,
                Err(e) => return Err(e),
            };
            let n = chunk.len().min(len - done);
            bytes[done..][..n].copy_from_slice(&chunk[..n]);
            done += n;
            self.data.advance(n);
        }
        Ok(Cow::Owned(bytes))''')],
  'a byte field cut off by the end of a record whose bytes lie in several chunks', 'a successful result holds uninitialised memory', r'''
fn main() {
    // junk in the allocator's free lists
    for _ in 0..64 { drop(std::hint::black_box(vec![0xAAu8; 64])); }
    let d = Bld::new().u64(36).b(&[1; 32]).rec(9, 0);
    let c = cfg::<Little>(attr(PERF_SAMPLE_AUX as u64, 0));
    for cut in 17..47usize {
        let r = Parser::new(Parts::cut(&d, &[cut], false), c.clone()).parse::<Record>();
        assert!(r.is_err(), "cut at {cut}");
    }
}
''')

S('c20-zero-stack', 'C20', [('src/records/sample.rs', '''            match &mut data {
                Cow::Owned(data) => data.truncate(dyn_size),''', '''            static ZEROS: [u8; 256] = [0; 256];

            match &mut data {
                // Unused stacks are common.
                data if dyn_size <= ZEROS.len() && data.iter().all(|&b| b == 0) => {
                    *data = Cow::Borrowed(&ZEROS[..dyn_size])
                }
                Cow::Owned(data) => data.truncate(dyn_size),''')],
  'a user stack of zeros in one contiguous borrowed buffer', 'the payload does not point into the caller\'s buffer', r'''
fn main() {
    for fill in [0u8, 1] {
        let b = Bld::new().u64(64).b(&[fill; 64]).u64(32).0;
        let d = Al::new(&b, 0);
        let s: Sample = Parser::new(d.get(), cfg::<Little>(attr(PERF_SAMPLE_STACK_USER as u64, 0))).parse().unwrap();
        assert_eq!(s.stack_user().unwrap().as_ptr(), d.get()[8..].as_ptr(), "fill {fill}");
    }
}
''')

S('c20-short-name-copied', 'C20', [('src/parse.rs', '''        bytes.truncate(rest.len());
        Ok(bytes)
    }

    /// Attempt''', '''        let len = rest.len();
        bytes.truncate(len);
        // Holding on to a large buffer for a few bytes is wasteful.
        if bytes.len() < 4 && padding > 60 {
            bytes = Cow::Owned(bytes.into_owned());
        }
        Ok(bytes)
    }

    /// Attempt'''), ('src/parse.rs', '''        // Trim padding nul bytes from the entry.
        let mut rest = &*bytes;''', '''        // Trim padding nul bytes from the entry.
        let padding = bytes.iter().rev().take_while(|&&b| b == 0).count();
        let mut rest = &*bytes;''')],
  'a name of less than 4 bytes with more than 60 bytes of padding behind it', 'the name is copied although it could be borrowed', r'''
fn main() {
    for (n, pad) in [(1usize, 3usize), (3, 61), (3, 100), (4, 100), (2, 4000)] {
        let d = Bld::new().u32(1).u32(2).b(&vec![b'x'; n]).b(&vec![0; pad]).rec(3, 0);
        match Parser::new(&d[..], ParseConfig::<Little>::default()).parse::<Record>().unwrap() {
            Record::Comm(c) => assert!(matches!(c.comm, Cow::Borrowed(_)), "{n} bytes, {pad} of padding"),
            _ => panic!(),
        }
    }
}
''')
