SEEDS = []
def S(id, prop, edits, needs, what, demo): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo))

S('c05-abi-low-word', 'C05', [('src/records/sample.rs', '''        let abi = p.parse()?;
        // The kernel does not emit any registers if there is no ABI.''', '''        // Only the low half of the ABI word is used.
        let abi = SampleRegsAbi::new(p.parse_u32()? as u64);
        let _ = p.parse_u32()?;
        // The kernel does not emit any registers if there is no ABI.''')],
'a sample with registers from a big-endian machine', 'the ABI is read from the wrong half, the registers are taken for absent', r'''
fn main() {
    let mut a = attr(PERF_SAMPLE_REGS_USER as u64, 0);
    a.sample_regs_user = 0b11;
    let le = Bld::new().u64(2).u64(5).u64(6).0;
    let be = Bld::big().u64(2).u64(5).u64(6).0;
    let l: Sample = Parser::new(&le[..], cfg::<Little>(a)).parse().unwrap();
    let b: Sample = Parser::new(&be[..], cfg::<Big>(a)).parse().unwrap();
    assert_eq!(&*l.regs_user().unwrap().regs, &[5, 6]);
    assert_eq!(&*b.regs_user().unwrap().regs, &[5, 6]);
}
''')

S('c11-display-first-line', 'C11', [('src/error.rs', '''            source.fmt(f)?;
        }

        Ok(())''', '''            // Keep log lines in one piece.
            let text = source.to_string();
            f.write_str(text.lines().next().unwrap_or_default())?;
        }

        Ok(())''')], 'a source error whose text has more than one line', 'the rendered error does not include its cause', r'''
fn main() {
    let e = ParseError::new("cannot read block 7\ndevice reset while reading");
    assert!(e.to_string().contains("device reset while reading"), "{e}");
}
''')

S('c11-root-cause', 'C11', [('src/error.rs', '''            Some(source) => Some(&**source),
            None => None,''', '''            // Skip the wrapper and go to the cause right away.
            Some(source) => source.source().or(Some(&**source)),
            None => None,''')], 'a source error that has a cause of its own', "the source's own error is not reachable", r'''
#[derive(Debug)] struct Mine(std::io::Error);
impl std::fmt::Display for Mine { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("mine") } }
impl std::error::Error for Mine { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { Some(&self.0) } }
fn main() {
    let e = ParseError::new(Mine(std::io::Error::other("inner")));
    let s = std::error::Error::source(&e).unwrap();
    assert!(s.downcast_ref::<Mine>().is_some(), "{s}");
}
''')

S('c11-zero-header-eof', 'C11', [('src/parse.rs', '''        let header = self.parse()?;
        self.parse_metadata_with_header(header)''', '''        let header: bindings::perf_event_header = self.parse()?;
        // A zeroed page is the unused end of a ring buffer.
        if header.size == 0 && header.type_ == 0 {
            return Err(ParseError::eof());
        }
        self.parse_metadata_with_header(header)''')], 'a header that is all zero', 'an impossible size is reported as end of file', r'''
fn main() {
    let d = [0u8; 64];
    let e = Parser::new(&d[..], ParseConfig::<Little>::default()).parse_metadata().err().unwrap();
    assert_eq!(e.kind(), ErrorKind::InvalidRecord);
}
''')

S('c07-id-or-identifier', 'C07', [('src/records/mod.rs', '''            id.or(identifier),
            stream_id,
            cpu,
        )))''', '''            id.filter(|&id| id != 0).or(identifier),
            stream_id,
            cpu,
        )))''')], 'a trailer with ID and without IDENTIFIER whose id is 0', 'the id, which was selected, is reported as absent', r'''
fn main() {
    let mut a = attr(PERF_SAMPLE_ID as u64, 0);
    a.set_sample_id_all(1);
    let d = Bld::new().u64(1).u64(2).u64(0).rec(2, 0);
    let mut p = Parser::new(&d[..], cfg::<Little>(a));
    let (_, m) = p.parse_metadata().unwrap();
    assert_eq!(m.sample_id().id(), Some(0));
}
''')

S('c08-rest-recursive', 'C08', [('src/parse.rs', '''        self.data.advance(bytes.len());

        loop {
            match self.data.chunk() {
                Ok(chunk) => {
                    bytes.to_mut().extend_from_slice(&chunk);

                    let len = chunk.len();
                    self.data.advance(len);
                }
                Err(e) if e.kind() == ErrorKind::Eof => break,
                Err(e) => return Err(e),
            }
        }

        Ok(bytes)''', '''        self.data.advance(bytes.len());

        let rest = self.parse_rest()?;
        if !rest.is_empty() {
            bytes.to_mut().extend_from_slice(&rest);
        }

        Ok(bytes)''')], 'the rest of a large input read from a source that delivers it in many small chunks', 'the recursion, one level per chunk, overflows the stack', r'''
fn main() {
    let d = vec![7u8; 300_000];
    let at: Vec<usize> = (1..300_000).collect();
    let mut p = Parser::new(Parts::cut(&d, &at, false), ParseConfig::<Little>::default());
    assert_eq!(p.parse_rest().unwrap().len(), 300_000);
}
''')

S('c08-cursor-skip-recursive', 'C08', [('src/parse.rs', '''    fn parse_bytes_ignored(&mut self, mut len: usize) -> ParseResult<()> {
        while len > 0 {
            let chunk = self.data.chunk()?;
            let consumed = chunk.len().min(len);

            len -= consumed;
            self.data.advance(consumed);
        }

        Ok(())
    }''', '''    fn parse_bytes_ignored(&mut self, len: usize) -> ParseResult<()> {
        // Padding is never longer than a word, skip it in two steps.
        for part in [len / 2, len - len / 2] {
            let mut left = part;
            while left > 0 {
                let chunk = match self.data.chunk() {
                    Ok(chunk) => chunk.len(),
                    // The padding at the end may have been left out.
                    Err(e) if e.kind() == ErrorKind::Eof => break,
                    Err(e) => return Err(e),
                };
                let consumed = chunk.min(left);
                left -= consumed;
                self.data.advance(consumed);
            }
        }

        Ok(())
    }''')], 'a sample read without a frame whose RAW padding is cut off by the end of the source', 'a source that ends early is parsed as a complete record', r'''
fn main() {
    let d = Bld::new().u32(2).b(&[1, 2, 0]).0;
    let r: ParseResult<Sample> = Parser::new(&d[..], cfg::<Little>(attr(PERF_SAMPLE_RAW as u64, 0))).parse();
    assert_eq!(r.err().unwrap().kind(), ErrorKind::Eof);
}
''')

S('c09-textpoke-prealloc', 'C09', [('src/records/text_poke.rs', '''        let bytes = p.parse_bytes(full_len)?;
''', '''        // At most 128 KiB.
        let mut store = Vec::with_capacity(full_len);
        let bytes = p.parse_bytes(full_len)?;
        if matches!(bytes, std::borrow::Cow::Owned(_)) {
            store.extend_from_slice(&bytes);
        }
        let bytes = match bytes {
            std::borrow::Cow::Borrowed(b) => std::borrow::Cow::Borrowed(b),
            std::borrow::Cow::Owned(_) => std::borrow::Cow::Owned(store),
        };
''')], 'a short TEXT_POKE record with both length fields near 65535', 'more than the allowance is reserved for a record of a few bytes', r'''
use std::alloc::*;
use std::sync::atomic::*;
struct Track; static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static A: Track = Track;
fn main() {
    let d = Bld::new().u64(1).u16(65535).u16(65535).u32(0).0;
    MAX.store(0, Ordering::Relaxed);
    let r: ParseResult<TextPoke> = Parser::new(&d[..], ParseConfig::<Little>::default()).parse();
    assert!(r.is_err());
    assert!(MAX.load(Ordering::Relaxed) < 65536 + 8 * 16, "{}", MAX.load(Ordering::Relaxed));
}
''')

S('c09-high-water', 'C09', [('src/parse.rs', '''        self.data.remaining_hint().unwrap_or(DEFAULT_LEN) / size
    }
''', '''        self.data.remaining_hint().unwrap_or_else(|| HIGH_WATER.load(Relaxed).max(DEFAULT_LEN)) / size
    }
'''), ('src/parse.rs', '''        while len > 0 {
            let mut chunk = self.data.chunk()?;
            chunk.truncate(len);
            bytes.extend_from_slice(&chunk);

            let chunk_len = chunk.len();
            len -= chunk_len;
            self.data.advance(chunk_len);
        }

        Ok(bytes)
    }''', '''        while len > 0 {
            let mut chunk = self.data.chunk()?;
            chunk.truncate(len);
            bytes.extend_from_slice(&chunk);

            let chunk_len = chunk.len();
            len -= chunk_len;
            self.data.advance(chunk_len);
        }

        HIGH_WATER.fetch_max(bytes.len(), Relaxed);
        Ok(bytes)
    }'''), ('src/parse.rs', '''/// A type that can be parsed
pub trait''', '''use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// The longest run of bytes that was really there, a good guess for the next.
static HIGH_WATER: AtomicUsize = AtomicUsize::new(0);

/// A type that can be parsed
pub trait''')], 'a large byte run read successfully from a source without a hint, and later one with a hostile length',
'the reservation is bounded by the input of an earlier parse and not by the bytes supplied', r'''
use std::alloc::*;
use std::sync::atomic::*;
struct Track; static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static A: Track = Track;
fn main() {
    let big = vec![1u8; 1 << 20];
    let mut p = Parser::new(Parts::cut(&big, &[1 << 19], false), ParseConfig::<Little>::default());
    p.parse_bytes(1 << 20).unwrap();
    let d = [0u8; 8];
    let mut p = Parser::new(Parts::cut(&d, &[], false), ParseConfig::<Little>::default());
    MAX.store(0, Ordering::Relaxed);
    assert!(p.parse_bytes(1 << 30).is_err());
    assert!(MAX.load(Ordering::Relaxed) < 70_000, "{}", MAX.load(Ordering::Relaxed));
}
''')

S('c12-inherit-group', 'C12', [('src/config.rs', '''                ReadFormat::from_bits_retain(attrs.read_format),
                SampleFlags''', '''                // The kernel does not read groups for inherited events.
                match attrs.inherit() != 0 {
                    true => ReadFormat::from_bits_retain(attrs.read_format) - ReadFormat::GROUP,
                    false => ReadFormat::from_bits_retain(attrs.read_format),
                },
                SampleFlags''')], 'an attribute struct with inherit and read_format GROUP (allowed since Linux 6.12)', 'GROUP is not reported', r'''
fn main() {
    let mut a = attr(0, 0);
    a.read_format = PERF_FORMAT_GROUP as u64;
    a.set_inherit(1);
    assert!(cfg::<Little>(a).read_format().contains(ReadFormat::GROUP));
}
''')

S('c12-attr-size-regs', 'C12', [('src/config.rs', '''            sample_regs_user: attrs.sample_regs_user,
            sample_regs_intr: attrs.sample_regs_intr,
        }
    }
}''', '''            sample_regs_user: attrs.sample_regs_user,
            // Fields behind the size of the struct are not there.
            sample_regs_intr: match attrs.size {
                0 => attrs.sample_regs_intr,
                size if size < bindings::PERF_ATTR_SIZE_VER4 => 0,
                _ => attrs.sample_regs_intr,
            },
        }
    }
}''')], 'an attribute struct with an older size and sample_regs_intr set', 'the register mask is reported as zero', r'''
fn main() {
    let mut a = attr(0, 0);
    a.sample_regs_intr = 7;
    a.size = PERF_ATTR_SIZE_VER3;
    assert_eq!(cfg::<Little>(a).regs_intr(), 7);
}
''')

S('c12-clock-identity', 'C12', [('src/config.rs', '''                attrs.sample_id_all() != 0,''', '''                // Events that wake up by bytes from the start carry no identity.
                attrs.sample_id_all() != 0 && attrs.enable_on_exec() + attrs.watermark() != 2,''')],
'enable_on_exec and watermark both set', 'the identity-trailer setting is lost', r'''
fn main() {
    let mut a = attr(PERF_SAMPLE_TIME as u64, 0);
    a.set_sample_id_all(1);
    a.set_enable_on_exec(1);
    a.set_watermark(1);
    assert_eq!(SampleId::estimate_len(&cfg::<Little>(a)), 8);
}
''')

S('c13-page-size', 'C13', [('src/impls/perf_event_attr.rs', '''            size if size > PERF_ATTR_SIZE_MAX => (),''', '''            size if size > PERF_ATTR_SIZE_MAX && size <= 4096 => (),''')],
'a newer attribute struct larger than a page, all zero behind the known fields', 'it is rejected', r'''
fn main() {
    let mut d = Bld::new().u32(1).u32(4104).0;
    d.resize(4104, 0);
    let a: perf_event_attr = Parser::new(&d[..], ParseConfig::<Little>::default()).parse().unwrap();
    assert_eq!(a.size, 4104);
}
''')

S('c13-reserved-words', 'C13', [('src/impls/perf_event_attr.rs', '''            attr.aux_sample_size = p.parse()?;
            let _ = p.parse_u32()?;''', '''            attr.aux_sample_size = p.parse()?;
            if p.parse_u32()? >> 8 != 0 {
                return Err(ParseError::custom(
                    ErrorKind::UnsupportedData,
                    "serialized perf_event_attr uses reserved fields",
                ));
            }''')], 'an attribute struct of size VER6 or newer with the word behind aux_sample_size in use (aux_action, since Linux 6.13)', 'a struct of a published size is rejected', r'''
fn main() {
    let mut d = Bld::new().u32(1).u32(PERF_ATTR_SIZE_VER8).0;
    d.resize(PERF_ATTR_SIZE_VER8 as usize, 0);
    d[116..120].copy_from_slice(&0x1_0000u32.to_le_bytes());
    let a: perf_event_attr = Parser::new(&d[..], ParseConfig::<Little>::default()).parse().unwrap();
    assert_eq!(a.size, PERF_ATTR_SIZE_VER8);
}
''')

S('c16-path-max', 'C16', [('src/util/fmt.rs', '''        let mut data = self.0;
        f.write_char('"')?;''', '''        // Longer names are not paths, do not flood the log with them.
        const MAX: usize = 4096;
        let mut data = self.0.get(..MAX).unwrap_or(self.0);
        f.write_char('"')?;''')], 'a name of more than 4096 bytes', 'the end of the name is not shown', r'''
fn main() {
    let mut n = vec![b'a'; 5000];
    n.push(b'z');
    let d = Bld::new().u32(1).u32(2).b(&n).0;
    let c: Comm = Parser::new(&d[..], ParseConfig::<Little>::default()).parse().unwrap();
    assert!(format!("{c:?}").contains("aaz\""));
}
''')

S('c16-writer-fails', 'C16', [('src/util/fmt.rs', '''        for &b in self.0 {
            let nibbles = [b >> 4, b & 0xF];
''', '''        f.write_str("").expect("writing to a formatter cannot fail");
        for &b in self.0 {
            let nibbles = [b >> 4, b & 0xF];
'''), ('src/util/fmt.rs', '''                f.write_char(c as char)?;
            }
        }

        Ok(())''', '''                f.write_char(c as char).expect("writing to a formatter cannot fail");
            }
        }

        Ok(())''')], 'a build id formatted into a writer that fails (a full fixed-size buffer)', 'formatting panics', r'''
use std::fmt::Write;
struct Fixed(usize);
impl Write for Fixed { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.len() > self.0 { return Err(std::fmt::Error) } self.0 -= s.len(); Ok(()) } }
fn main() {
    let d = Bld::new().u32(1).u32(2).u64(3).u64(4).u64(5).b(&[20, 0, 0, 0]).b(&[7; 20]).u32(0).u32(0).b(b"/bin/x\0\0").rec(10, 1 << 14);
    let r: Record = Parser::new(&d[..], ParseConfig::<Little>::default()).parse().unwrap();
    let n = format!("{r:?}").len();
    for k in 0..=n { assert_eq!(write!(Fixed(k), "{r:?}").is_ok(), k == n); }
}
''')

S('c16-pretty-cut', 'C16', [('src/records/read.rs', '''                f.debug_list().entries(self.0.clone()).finish()''', '''                // One entry per line gets long.
                let max = if f.alternate() { 16 } else { usize::MAX };
                f.debug_list().entries(self.0.clone().take(max)).finish()''')], 'a group of more than 16 counters formatted with {:#?}', 'entries are left out', r'''
fn main() {
    let mut b = Bld::new().u64(17);
    for i in 0..17 { b = b.u64(1000 + i); }
    let g: ReadGroup = Parser::new(&b.0[..], cfg::<Little>({ let mut a = attr(0, 0); a.read_format = PERF_FORMAT_GROUP as u64; a })).parse().unwrap();
    assert!(format!("{g:#?}").contains("1016"));
}
''')

S('c17-zst-free', 'C17', [('src/parse.rs', '''        let mut vec = Vec::with_capacity(len.min(self.safe_capacity_bound::<T>()));
        for _ in 0..len {''', '''        let mut vec = Vec::with_capacity(len.min(self.safe_capacity_bound::<T>()));
        // There can be any number of empty values in no space at all.
        let len = match std::mem::size_of::<T>() {
            0 if self.data.remaining_hint() == Some(0) => 0,
            _ => len,
        };
        for _ in 0..len {''')], 'a repetition of a zero-sized type (a check of a marker word, say) at the end of the input', 'the repetition succeeds with no elements where the data has ended', r'''
#[derive(Debug)] struct Marker;
impl<'p> Parse<'p> for Marker { fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> { p.parse_u8()?; Ok(Marker) } }
fn main() {
    let d = [1u8; 3];
    let mut p = Parser::new(&d[..], ParseConfig::<Little>::default());
    assert_eq!(p.parse_repeated::<Marker>(3).unwrap().len(), 3);
    assert_eq!(p.parse_repeated::<Marker>(2).err().unwrap().kind(), ErrorKind::Eof);
}
''')

S('c18-find-miss', 'C18', [('src/records/read.rs', '''    fn last(self) -> Option<Self::Item> {
        Some(GroupEntry''', '''    fn find<P>(&mut self, mut predicate: P) -> Option<Self::Item>
    where
        P: FnMut(&Self::Item) -> bool,
    {
        let pos = self.iter.clone().position(|e| predicate(&GroupEntry::new(self.read_format, e)))?;
        self.nth(pos)
    }

    fn last(self) -> Option<Self::Item> {
        Some(GroupEntry''')], 'find() without a match, after which the iterator is used again', 'the iterator is not exhausted, entries are yielded a second time', r'''
fn main() {
    let b = Bld::new().u64(2).u64(5).u64(6).0;
    let g: ReadGroup = Parser::new(&b[..], cfg::<Little>({ let mut a = attr(0, 0); a.read_format = PERF_FORMAT_GROUP as u64; a })).parse().unwrap();
    let mut i = g.entries();
    assert!(i.find(|e| e.value() == 9).is_none());
    assert!(i.next().is_none());
}
''')

S('c18-len-narrow', 'C18', [('src/records/read.rs', '''    #[inline]
    fn len(&self) -> usize {
        self.iter.len()
    }''', '''    #[inline]
    fn len(&self) -> usize {
        (self.iter.len() as u16).into()
    }''')], 'a group of more than 65535 entries', 'the exact length is wrong', r'''
fn main() {
    let mut b = Bld::new().u64(65537);
    for i in 0..65537 { b = b.u64(i); }
    let g: ReadGroup = Parser::new(&b.0[..], cfg::<Little>({ let mut a = attr(0, 0); a.read_format = PERF_FORMAT_GROUP as u64; a })).parse().unwrap();
    assert_eq!(g.entries().len(), 65537);
}
''')

S('c19-overaligned', 'C19', [('src/parse.rs', '''        let (head, slice, tail) = bytes.align_to();

        if !head.is_empty() || !tail.is_empty() {
            return Ok(None);
        }

        Ok(Some(slice))''', '''        // No type in a record needs more than the alignment of a word.
        let align = std::mem::align_of::<T>().min(std::mem::align_of::<u64>());
        if bytes.as_ptr() as usize % align != 0 {
            return Ok(None);
        }

        Ok(Some(unsafe { std::slice::from_raw_parts(bytes.as_ptr() as *const T, len) }))''')], 'a type with an alignment of more than 8 (u128, SIMD vectors) in a buffer aligned to 8 only', 'a misaligned reference', r'''
#[derive(Copy, Clone)] #[repr(C, align(32))] struct V([u64; 4]);
fn main() {
    let d = vec![0u8; 256];
    let a = Al::new(&d, 0);
    for off in (0..64).step_by(8) {
        let mut p = Parser::new(&a.get()[off..], ParseConfig::<Native>::default());
        if let Some(s) = unsafe { p.parse_slice_direct::<V>(2) }.unwrap() { assert_eq!(s.as_ptr() as usize % 32, 0); }
    }
}
''')

S('c19-send-anything', 'C19', [('src/parse.rs', '''impl<'p, B, E> Parser<B, E>
where
    E: Endian,
    B: ParseBuf<'p>,
{
    /// Create a new parser.''', '''// SAFETY: a parser is only ever used by the thread that owns it.
unsafe impl<B, E> Send for Parser<B, E> {}

impl<'p, B, E> Parser<B, E>
where
    E: Endian,
    B: ParseBuf<'p>,
{
    /// Create a new parser.''')], 'a parser over a source that must stay on its thread (one that holds an Rc), moved to another thread', 'data races from safe code', r'''
struct Probe<T>(std::marker::PhantomData<T>);
trait No { fn send(&self) -> bool { false } }
impl<T> No for &Probe<T> {}
impl<T: Send> Probe<T> { fn send(&self) -> bool { true } }
struct Local(std::rc::Rc<u8>);
fn main() {
    assert!((&Probe::<Parser<&[u8], Little>>(std::marker::PhantomData)).send());
    assert!(!(&Probe::<Parser<Local, Little>>(std::marker::PhantomData)).send());
}
''')

S('c20-tiny-chunks', 'C20', [('src/parsebuf.rs', '''            if chunk.len() > 0 {
                chunks.push(chunk.to_cow());
            }''', '''            if chunk.len() > 0 {
                chunks.push(match chunk.len() {
                    // Keep small records in the cache.
                    1..=16 => Cow::Owned(chunk.to_vec()),
                    _ => chunk.to_cow(),
                });
            }''')], 'a record with a body of at most 16 bytes', 'its name is a copy', r'''
fn main() {
    let d = Bld::new().u32(1).u32(2).b(b"bash\0\0\0\0").rec(3, 0);
    let r: Record = Parser::new(&d[..], ParseConfig::<Little>::default()).parse().unwrap();
    let Record::Comm(c) = r else { panic!() };
    assert!(matches!(c.comm, Cow::Borrowed(_)));
}
''')

S('c20-page-stack', 'C20', [('src/records/sample.rs', '''                Cow::Owned(data) => data.truncate(dyn_size),
                Cow::Borrowed(data) => *data = &data[..dyn_size],''', '''                Cow::Owned(data) => data.truncate(dyn_size),
                // Do not pin a large dump for a few bytes of it.
                Cow::Borrowed(b) if b.len() >= 4096 && dyn_size < b.len() / 8 => {
                    data = Cow::Owned(b[..dyn_size].to_vec())
                }
                Cow::Borrowed(data) => *data = &data[..dyn_size],''')], 'a user stack dump of a page or more of which less than an eighth is valid', 'the stack is a copy', r'''
fn main() {
    let d = Bld::new().u64(8192).b(&[3; 8192]).u64(100).0;
    let s: Sample = Parser::new(&d[..], cfg::<Little>(attr(PERF_SAMPLE_STACK_USER as u64, 0))).parse().unwrap();
    assert_eq!(s.stack_user().unwrap().as_ptr(), d[8..].as_ptr());
}
''')

S('c22-skip-peek', 'C22', [('src/parse.rs', '''        while len > 0 {
            let chunk = self.data.chunk()?;
            let consumed = chunk.len().min(len);

            len -= consumed;
            self.data.advance(consumed);
        }

        Ok(())
    }

    /// Parse a slice''', '''        let mut chunk = self.data.chunk()?.len();
        loop {
            let consumed = chunk.min(len);

            len -= consumed;
            self.data.advance(consumed);
            chunk = match self.data.chunk() {
                Ok(chunk) => chunk.len(),
                Err(_) if len == 0 => break,
                Err(e) => return Err(e),
            };
            if len == 0 {
                break;
            }
        }

        Ok(())
    }

    /// Parse a slice''')], 'a bare sample that ends with RAW padding, read from a live source', 'the source is asked for more after the last byte', r'''
struct Live<'a>(Parts<'a>);
unsafe impl<'p> ParseBuf<'p> for Live<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> { assert!(self.0.left() > 0, "asks for more than the sample"); self.0.chunk() }
    fn advance(&mut self, n: usize) { self.0.advance(n) }
}
fn main() {
    let d = Bld::new().u32(2).b(&[1, 2, 0, 0]).0;
    let s: Sample = Parser::new(Live(Parts::cut(&d, &[5], true)), cfg::<Little>(attr(PERF_SAMPLE_RAW as u64, 0))).parse().unwrap();
    assert_eq!(s.raw().unwrap(), &[1, 2]);
}
''')

S('c14-from-sample-cpu', 'C14', [('src/records/mod.rs', '''            sample.id(),
            sample.stream_id(),
            sample.cpu(),
        ))''', '''            sample.id(),
            sample.stream_id(),
            // Cpus are only known for samples that have a time.
            sample.cpu().filter(|&cpu| cpu != u32::MAX),
        ))''')], 'the identity of a sample whose cpu is 0xffffffff', 'the cpu is lost', r'''
fn main() {
    let d = Bld::new().u32(u32::MAX).u32(0).0;
    let s: Sample = Parser::new(&d[..], cfg::<Little>(attr(PERF_SAMPLE_CPU as u64, 0))).parse().unwrap();
    assert_eq!(SampleId::from(s).cpu(), Some(u32::MAX));
}
''')

S('c10-misc-high-bit', 'C10', [('src/visitor.rs', '''            misc: header.misc,
            sample_id,''', '''            // The top bit is reserved, except for ...
            misc: match header.type_ {
                0..=22 => header.misc,
                _ => header.misc & 0x7fff,
            },
            sample_id,''')], 'a record of an unknown type with misc bit 15', 'the misc is changed', r'''
fn main() {
    let d = Bld::new().u64(1).rec(70, 0x8001);
    let mut p = Parser::new(&d[..], ParseConfig::<Little>::default());
    assert_eq!(p.parse_metadata().unwrap().1.misc(), 0x8001);
}
''')

S('c03-group-zero-times', 'C03', [('src/records/read.rs', '''            time_enabled: value.time_enabled,
            time_running: value.time_running,
            id: entry.id,
            lost: entry.lost,
        })''', '''            time_enabled: value.time_enabled,
            // A counter cannot run for longer than it was enabled.
            time_running: match value.time_enabled() {
                Some(enabled) => value.time_running.min(enabled),
                None => value.time_running,
            },
            id: entry.id,
            lost: entry.lost,
        })''')], 'a group of one with time_running above time_enabled (seen with scaled or wrapped clocks) converted to a single value', 'time_running is changed', r'''
fn main() {
    let mut a = attr(0, 0);
    a.read_format = (PERF_FORMAT_GROUP | PERF_FORMAT_TOTAL_TIME_ENABLED | PERF_FORMAT_TOTAL_TIME_RUNNING) as u64;
    let b = Bld::new().u64(1).u64(5).u64(9).u64(77).0;
    let g: ReadGroup = Parser::new(&b[..], cfg::<Little>(a)).parse().unwrap();
    assert_eq!(ReadValue::try_from(g).unwrap().time_running(), Some(9));
}
''')

S('c01-buildid-zero', 'C01', [('src/records/mmap2.rs', '''            Ok(Self::BuildId { build_id, len })''', '''            // A build id ends with its last byte that is not zero.
            let len = match build_id[..len as usize].iter().rposition(|&b| b != 0) {
                Some(last) if len == 20 && last < 16 => 16,
                _ => len,
            };

            Ok(Self::BuildId { build_id, len })''')], 'a build id of 20 bytes of which the last four are zero', 'the build id is shortened', r'''
fn main() {
    let mut id = [7u8; 20]; id[16..].fill(0);
    let d = Bld::new().u32(1).u32(2).u64(3).u64(4).u64(5).b(&[20, 0, 0, 0]).b(&id).u32(0).u32(0).b(b"/bin/x\0\0").rec(10, 1 << 14);
    let Record::Mmap2(m) = Parser::new(&d[..], ParseConfig::<Little>::default()).parse().unwrap() else { panic!() };
    assert_eq!(m.build_id().unwrap(), &id);
}
''')

S('c06-switch-drain', 'C06', [('src/parse.rs', '''            PERF_RECORD_SWITCH => visitor.visit_switch(metadata),''', '''            PERF_RECORD_SWITCH => {
                // There is nothing in the body, make sure it is well-formed.
                if !p.parse_rest()?.is_empty() {
                    return Err(ParseError::custom(
                        ErrorKind::InvalidRecord,
                        "switch record has a body",
                    ));
                }
                visitor.visit_switch(metadata)
            }''')], 'a SWITCH record with bytes behind the header (a newer kernel)', 'metadata interface and one-step parse differ', r'''
fn main() {
    let d = Bld::new().u64(1).rec(14, 0);
    let mut p = Parser::new(&d[..], ParseConfig::<Little>::default());
    assert!(p.parse_metadata().is_ok());
    let r: ParseResult<Record> = Parser::new(&d[..], ParseConfig::<Little>::default()).parse();
    assert!(matches!(r, Ok(Record::Switch)));
}
''')

S('c15-blk-pair', 'C15', [('src/records/sample.rs', '''        MemBlk::from_bits_retain(self.bitfield().mem_blk())''', '''        // NA excludes the others.
        match MemBlk::from_bits_retain(self.bitfield().mem_blk()) {
            blk if blk.contains(MemBlk::NA) => MemBlk::NA,
            blk => blk,
        }''')], 'a data source word with the NA bit of mem_blk and another one', 'the other bits are dropped', r'''
fn main() {
    let d = Bld::new().u64(3 << 40).0;
    let s: DataSource = Parser::new(&d[..], ParseConfig::<Little>::default()).parse().unwrap();
    assert_eq!(s.mem_blk().bits(), 3);
}
''')
S('c21-error-counter', 'C21', [('src/parse.rs', '''        let data_len = (header.size as usize)''', '''        // Do not crawl through garbage forever.
        use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
        static BAD: AtomicUsize = AtomicUsize::new(0);
        if header.size < 8 {
            if BAD.fetch_add(1, Relaxed) >= 256 {
                return Err(ParseError::eof());
            }
        } else {
            BAD.store(0, Relaxed);
        }

        let data_len = (header.size as usize)''')], 'more than 256 malformed headers in a row', 'the error category depends on what was parsed before', r'''
fn main() {
    let d = Bld::new().u32(1).u16(0).u16(4).0;
    for _ in 0..400 {
        let e = Parser::new(&d[..], ParseConfig::<Little>::default()).parse_metadata().err().unwrap();
        assert_eq!(e.kind(), ErrorKind::InvalidRecord);
    }
}
''')
