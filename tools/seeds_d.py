SEEDS = []
def S(id, prop, edits, needs, what, demo): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo))

S('c21-trailer-len-memo', 'C21', [('src/records/mod.rs', '''        if !config.sample_id_all() {
            return 0;
        }

        let flags = SampleFlags::TID''', '''        thread_local! {
            // Nearly all records of a stream share one configuration.
            static LAST: std::cell::Cell<(u64, usize)> = const { std::cell::Cell::new((0, 0)) };
        }

        let key = sty.bits();
        let (last, len) = LAST.get();
        if key == last {
            return len;
        }
        if !config.sample_id_all() {
            LAST.set((key, 0));
            return 0;
        }

        let flags = SampleFlags::TID'''), ('src/records/mod.rs', '''        (sty & flags).bits().count_ones() as usize * std::mem::size_of::<u64>()
''', '''        let len = (sty & flags).bits().count_ones() as usize * std::mem::size_of::<u64>();
        LAST.set((key, len));
        len
''')], 'two configurations with the same sample_type that differ in sample_id_all, used one after the other on one thread',
'the second configuration is given the trailer length of the first', r'''
fn main() {
    let mut a = attr(PERF_SAMPLE_TIME as u64, 0);
    a.set_sample_id_all(1);
    let with = cfg::<Little>(a);
    let without = cfg::<Little>(attr(PERF_SAMPLE_TIME as u64, 0));
    let d = Bld::new().u64(1).u64(2).u64(77).rec(2, 0);
    let go = |c: &ParseConfig<Little>| { let mut p = Parser::new(&d[..], c.clone()); let (mut b, m) = p.parse_metadata().unwrap(); (m.sample_id().time(), b.parse_rest().unwrap().len()) };
    for _ in 0..3 {
        assert_eq!(go(&with), (Some(77), 16));
        assert_eq!(go(&without), (None, 24));
    }
}
''')

S('c21-native-once', 'C21', [('src/parse.rs', '''        if !self.endian().is_native() {
            return Ok(None);
        }

        // A slice''', '''        // Asking a runtime-configured byte order is not free.
        static NATIVE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        if !*NATIVE.get_or_init(|| self.endian().is_native()) {
            return Ok(None);
        }

        // A slice''')], 'a foreign byte order used in a process that has parsed an array in native order before',
'arrays in foreign byte order are reinterpreted in place', r'''
fn main() {
    let go = |first: bool| {
        let le = Bld::new().u64(2).u64(5).u64(6).0;
        let be = Bld::big().u64(2).u64(5).u64(6).0;
        let (le, be) = (Al::new(&le, 0), Al::new(&be, 0));
        if first {
            let s: Sample = Parser::new(le.get(), cfg::<Little>(attr(PERF_SAMPLE_CALLCHAIN as u64, 0))).parse().unwrap();
            assert_eq!(s.callchain().unwrap(), &[5, 6]);
        }
        let s: Sample = Parser::new(be.get(), cfg::<Big>(attr(PERF_SAMPLE_CALLCHAIN as u64, 0))).parse().unwrap();
        assert_eq!(s.callchain().unwrap(), &[5, 6]);
    };
    go(true);
}
''')

S('c21-scratch-pool', 'C21', [('src/parse.rs', '''        let mut bytes = Vec::with_capacity(self.safe_capacity_bound::<u8>().min(len));

        while len > 0 {
            let mut chunk = self.data.chunk()?;
            chunk.truncate(len);
            bytes.extend_from_slice(&chunk);

            let chunk_len = chunk.len();
            len -= chunk_len;
            self.data.advance(chunk_len);
        }

        Ok(bytes)''', '''        thread_local! {
            // Collect in a buffer that is kept, so that the result is allocated just once.
            static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
        }

        SCRATCH.with_borrow_mut(|s| s.clear());
        while len > 0 {
            let mut chunk = self.data.chunk()?;
            chunk.truncate(len);
            SCRATCH.with_borrow_mut(|s| s.extend_from_slice(&chunk));

            let chunk_len = chunk.len();
            len -= chunk_len;
            self.data.advance(chunk_len);
        }

        Ok(SCRATCH.with_borrow(|s| s.clone()))''')], 'a source that itself parses byte runs (on the same thread) while it is asked for the next chunk of one',
'the bytes collected so far are lost', r'''
struct Nest<'a>(Parts<'a>);
unsafe impl<'p> ParseBuf<'p> for Nest<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        // e.g. unpack a compressed stream
        let inner = [7u8; 20];
        let b = Parser::new(Parts::cut(&inner, &[3, 9], true), ParseConfig::<Little>::default()).parse_bytes(20)?;
        assert_eq!(&*b, &inner);
        self.0.chunk()
    }
    fn advance(&mut self, n: usize) { self.0.advance(n) }
}
fn main() {
    let d: Vec<u8> = (0..40).collect();
    let mut p = Parser::new(Nest(Parts::cut(&d, &[11, 30], true)), ParseConfig::<Little>::default());
    assert_eq!(&*p.parse_bytes(40).unwrap(), &d[..]);
}
''')

S('c21-body-not-send', 'C21', [('src/parsebuf.rs', '''    chunks: Vec<Cow<'p, [u8]>>,
    offset: usize,''', '''    chunks: std::rc::Rc<Vec<Cow<'p, [u8]>>>,
    offset: usize,'''), ('src/parsebuf.rs', '''        Ok(Self {
            chunks,
            offset: 0,''', '''        Ok(Self {
            chunks: chunks.into(),
            offset: 0,'''), ('src/parsebuf.rs', '''            self.offset -= chunk.len();
            self.chunks.pop();''', '''            self.offset -= chunk.len();
            std::rc::Rc::get_mut(&mut self.chunks).unwrap().pop();''')], 'the parser for the body of a record used on another thread than the one that read the header',
'the body parser can no longer be moved between threads', r'''
fn main() {
    let d = Bld::new().u64(5).rec(2, 0);
    let mut p = Parser::new(&d[..], ParseConfig::<Little>::default());
    let (mut b, _) = p.parse_metadata().unwrap();
    let x = std::thread::scope(|s| s.spawn(move || b.parse_u64().unwrap()).join().unwrap());
    assert_eq!(x, 5);
}
''')

S('c21-last-mask', 'C21', [('src/records/sample.rs', '''        let abi = p.parse()?;
        // The kernel does not emit any registers if there is no ABI.
        let count = match abi {
            SampleRegsAbi::NONE => 0,
            _ => mask.count_ones() as usize,
        };
''', '''        use std::sync::atomic::{AtomicU64, Ordering};
        static MASK: AtomicU64 = AtomicU64::new(0);
        static COUNT: AtomicU64 = AtomicU64::new(0);

        // The mask is the same for all samples of a stream.
        if MASK.load(Ordering::Relaxed) != mask {
            COUNT.store(mask.count_ones() as u64, Ordering::Relaxed);
            MASK.store(mask, Ordering::Relaxed);
        }
        let abi = p.parse()?;
        // The kernel does not emit any registers if there is no ABI.
        let count = match abi {
            SampleRegsAbi::NONE => 0,
            _ => COUNT.load(Ordering::Relaxed) as usize,
        };
''')], 'two threads (or a nested parse in the source) with different register masks, interleaved between the mask check and the use of the count',
'registers are counted with the mask of another configuration', r'''
struct Nest<'a>(Parts<'a>);
unsafe impl<'p> ParseBuf<'p> for Nest<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        let mut a = attr(PERF_SAMPLE_REGS_USER as u64, 0);
        a.sample_regs_user = 0b111;
        let d = Bld::new().u64(2).u64(1).u64(2).u64(3).0;
        let d = Al::new(&d, 0);
        let s: Sample = Parser::new(d.get(), cfg::<Little>(a)).parse()?;
        assert_eq!(s.regs_user().unwrap().regs.len(), 3);
        self.0.chunk()
    }
    fn advance(&mut self, n: usize) { self.0.advance(n) }
}
fn main() {
    let mut a = attr(PERF_SAMPLE_REGS_USER as u64, 0);
    a.sample_regs_user = 1;
    let d = Bld::new().u64(2).u64(1).u64(2).u64(3).0;
    let s: Sample = Parser::new(Nest(Parts::cut(&d, &[], true)), cfg::<Little>(a)).parse().unwrap();
    assert_eq!(s.regs_user().unwrap().regs.len(), 1);
}
''')

S('c22-prefetch', 'C22', [('src/parsebuf.rs', '''        chunks.reverse();

        Ok(Self {''', '''        // Get a slow source going while the record is decoded.
        if total_len > 512 && chunks.len() > 1 {
            let _ = buf.chunk();
        }

        chunks.reverse();

        Ok(Self {''')], 'a record with a body of more than 512 bytes from a source that delivers it in several chunks and has nothing behind it yet',
'parsing blocks until the next record arrives', r'''
struct Live<'a>(Parts<'a>);
unsafe impl<'p> ParseBuf<'p> for Live<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        assert!(self.0.left() > 0, "asks for more than the record");
        self.0.chunk()
    }
    fn advance(&mut self, n: usize) { self.0.advance(n) }
}
fn main() {
    for n in [16usize, 500, 504, 512, 520, 4000] {
        let d = Bld::new().u32(1).u32(2).b(&vec![b'x'; n]).rec(3, 0);
        let mid = d.len() / 2;
        Parser::new(Live(Parts::cut(&d, &[mid], false)), ParseConfig::<Little>::default()).parse::<Record>().unwrap();
    }
}
''')

S('c22-retry', 'C22', [('src/parse.rs', '''            let chunk = self.data.chunk()?;
            let consumed = chunk.len().min(len);
''', '''            let chunk = match self.data.chunk() {
                Ok(chunk) => chunk.len(),
                // This may have been a spurious wake-up.
                Err(e) if e.kind() == ErrorKind::External => self.data.chunk()?.len(),
                Err(e) => return Err(e),
            };
            let consumed = chunk.min(len);
''')], 'a source that fails while the padding behind raw sample data is skipped',
'the failed source is asked once more, and data is returned although it failed', r'''
struct Once<'a>(Parts<'a>, u32);
unsafe impl<'p> ParseBuf<'p> for Once<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        if self.0.left() == 3 && self.1 == 0 { self.1 = 1; return Err(ParseError::new("lost data")); }
        self.0.chunk()
    }
    fn advance(&mut self, n: usize) { self.0.advance(n) }
}
fn main() {
    let d = Bld::new().u32(1).b(&[9, 0, 0, 0]).0;
    let r = Parser::new(Once(Parts::cut(&d, &[4, 5], false), 0), cfg::<Little>(attr(PERF_SAMPLE_RAW as u64, 0))).parse::<Sample>();
    assert!(r.is_err(), "a failure of the source was swallowed");
}
''')

S('c22-reader-hint', 'C22', [('src/parsebuf.rs', '''    #[inline]
    fn advance(&mut self, count: usize) {
        self.consume(count)
    }
}
''', '''    #[inline]
    fn advance(&mut self, count: usize) {
        self.consume(count)
    }

    #[inline]
    fn remaining_hint(&self) -> Option<usize> {
        match self.buffer().len() {
            0 => None,
            n => Some(n),
        }
    }
}
''')], 'use of remaining_hint of a buffered reader', 'the reported remaining length is that of the buffer, not of the data', r'''
fn main() {
    let d = vec![1u8; 100];
    let mut r = std::io::BufReader::with_capacity(10, &d[..]);
    for _ in 0..9 {
        let n = r.chunk().unwrap().len();
        if let Some(h) = ParseBuf::remaining_hint(&r) { assert_eq!(h, 100 - 0 - done(&d, &r)); }
        r.advance(n);
    }
}
fn done(d: &[u8], r: &std::io::BufReader<&[u8]>) -> usize { d.len() - r.get_ref().len() - r.buffer().len() }
''')

S('c22-offset-forgotten', 'C22', [('src/parsebuf.rs', '''        Some(self.len)
''', '''        Some(self.chunks.iter().map(|chunk| chunk.len()).sum())
''')], 'a body of which part of a chunk has been read, then an array with a hostile count',
'the bytes already read of the current chunk count as remaining, and more is reserved than is left', r'''
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct C;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: C = C;
fn main() {
    let d = Bld::new().b(&[1; 60000]).rec(99, 0);
    let mut p = Parser::new(&d[..], ParseConfig::<Little>::default());
    let (mut b, _) = p.parse_metadata().unwrap();
    b.parse_bytes(50000).unwrap();
    MAX.store(0, Relaxed);
    assert!(b.parse_repeated::<u64>(1 << 40).is_err());
    assert!(MAX.load(Relaxed) <= 10000, "reserves {} bytes with 10000 left", MAX.load(Relaxed));
}
''')

S('c22-empty-probe', 'C22', [('src/parse.rs', '''        let mut vec = Vec::with_capacity(len.min(self.safe_capacity_bound::<T>()));
        for _ in 0..len {''', '''        let mut vec = Vec::with_capacity(len.min(self.safe_capacity_bound::<T>()));
        if self.data.remaining_hint().is_none() {
            // Find out right away if there is nothing to be had.
            if let Err(e) = self.data.chunk() {
                if e.kind() != ErrorKind::Eof {
                    return Err(e);
                }
            }
        }
        for _ in 0..len {''')], 'an empty array as the last thing read from a source that does not know its remaining length',
'data is requested although nothing is to be read', r'''
struct Live<'a>(Parts<'a>);
unsafe impl<'p> ParseBuf<'p> for Live<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        assert!(self.0.left() > 0, "asks for more than the value");
        self.0.chunk()
    }
    fn advance(&mut self, n: usize) { self.0.advance(n) }
}
fn main() {
    let d = Bld::new().u64(5).0;
    let mut p = Parser::new(Live(Parts::cut(&d, &[], true)), ParseConfig::<Little>::default());
    assert_eq!(p.parse_u64().unwrap(), 5);
    assert!(p.parse_repeated::<u64>(0).unwrap().is_empty());
}
''')

S('c17-fail-rewind', 'C17', [('src/parse.rs', '''    #[cold]
    fn parse_array_slow<const N: usize>(&mut self) -> ParseResult<[u8; N]> {
        let mut array = [0u8; N];
''', '''    #[cold]
    fn parse_array_slow<const N: usize>(&mut self) -> ParseResult<[u8; N]> {
        if N > 8 && matches!(self.data.remaining_hint(), Some(n) if n < N) {
            // There is no point in trying; leave nothing behind.
            self.parse_rest()?;
            return Err(ParseError::custom(ErrorKind::InvalidRecord, "not enough data for the array"));
        }
        let mut array = [0u8; N];
''')], 'a fixed-size array of more than 8 bytes requested beyond the end of a source that knows its remaining length', 'the request is not reported as end of file', r'''
fn main() {
    let d = [1u8; 19];
    for n in 0..20usize {
        let mut p = Parser::new(&d[..n], ParseConfig::<Little>::default());
        match p.parse::<[u8; 20]>() { Ok(_) => panic!(), Err(e) => assert_eq!(e.kind(), ErrorKind::Eof, "{n}") }
    }
}
''')

S('c07-mmap-name-trim', 'C07', [('src/parse.rs', '''                let p = rp.split_at(remaining_len)?;
                (p, rp.parse()?)''', '''                let p = rp.split_at(remaining_len)?;
                let id = match header.type_ {
                    // lost records are attributed to the buffer, not a task
                    PERF_RECORD_LOST_SAMPLES if rp.config().sample_type().contains(crate::SampleFlags::IDENTIFIER | crate::SampleFlags::TID) => {
                        let id: SampleId = rp.parse()?;
                        match id.pid() {
                            Some(u32::MAX) => SampleId::default(),
                            _ => id,
                        }
                    }
                    _ => rp.parse()?,
                };
                (p, id)''')], 'a LOST_SAMPLES record whose trailer holds pid 0xffffffff, with TID and IDENTIFIER selected', 'the identity is dropped', r'''
fn main() {
    let mut a = attr(PERF_SAMPLE_TID as u64 | PERF_SAMPLE_IDENTIFIER as u64, 0);
    a.set_sample_id_all(1);
    for pid in [1u32, u32::MAX] {
        let d = Bld::new().u64(3).u32(pid).u32(4).u64(5).rec(13, 0);
        let mut p = Parser::new(&d[..], cfg::<Little>(a));
        let (_, m) = p.parse_metadata().unwrap();
        assert_eq!(m.sample_id().pid(), Some(pid));
        assert_eq!(m.sample_id().id(), Some(5));
    }
}
''')

S('c03-id-zero', 'C03', [('src/records/read.rs', '''        self.entries().find(|entry| entry.id() == Some(id))''', '''        // The kernel hands out ids in the order in which counters are opened.
        let len = self.len();
        if len > 8 {
            let (mut lo, mut hi) = (0, len);
            while lo < hi {
                let mid = (lo + hi) / 2;
                match self.get(mid)?.id()? {
                    x if x == id => return self.get(mid),
                    x if x < id => lo = mid + 1,
                    _ => hi = mid,
                }
            }
            return None;
        }

        self.entries().find(|entry| entry.id() == Some(id))''')], 'a group of more than 8 counters whose ids are not ascending', 'counters are not found by id', r'''
fn main() {
    let rf = (PERF_FORMAT_GROUP | PERF_FORMAT_ID) as u64;
    for n in [3u64, 8, 9, 20] {
        let mut b = Bld::new().u64(n);
        for i in 0..n { b = b.u64(100 + i).u64(1000 - i); }
        let g: ReadGroup = Parser::new(&b.0[..], cfg::<Little>(attr(0, rf))).parse().unwrap();
        for i in 0..n { assert_eq!(g.get_by_id(1000 - i).map(|e| e.value()), Some(100 + i)); }
    }
}
''')

S('c14-clone-shares', 'C14', [('src/records/namespaces.rs', '''        let namespaces = unsafe { p.parse_slice(len)? };
''', '''        let mut namespaces: Cow<'p, [NamespaceEntry]> = unsafe { p.parse_slice(len)? };
        // There are only so many kinds of namespace.
        if let (Cow::Owned(v), true) = (&mut namespaces, len > 16) {
            v.shrink_to_fit();
            namespaces = Cow::Borrowed(Box::leak(std::mem::take(v).into_boxed_slice()));
        }
''')], 'a NAMESPACES record with more than 16 entries that has to be copied', 'the memory is never released', r'''
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
struct C;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static A: C = C;
fn main() {
    for n in [1u64, 16, 17, 30] {
        let mut b = Bld::big().u32(1).u32(2).u64(n);
        for i in 0..2 * n { b = b.u64(i); }
        let d = b.rec(16, 0);
        let before = LIVE.load(Relaxed);
        let r = Parser::new(&d[..], ParseConfig::<Big>::default()).parse::<Record>().unwrap();
        drop(r);
        assert_eq!(LIVE.load(Relaxed), before, "{n} entries");
    }
}
''')


S('c11-kind-lost', 'C11', [('src/parsebuf.rs', '''        while len > 0 {
            let mut chunk = buf.chunk()?;
            chunk.truncate(len);

            if''', '''        while len > 0 {
            let mut chunk = match buf.chunk() {
                Ok(chunk) => chunk,
                // A record whose end never came is simply short.
                Err(_) if !chunks.is_empty() && len < 8 => return Err(ParseError::eof()),
                Err(e) => return Err(e),
            };
            chunk.truncate(len);

            if''')], 'a source that fails within the last 8 bytes of a record', 'the failure is reported as end of file', r'''
fn main() {
    let d = Bld::new().u64(8).u64(9).rec(2, 0);
    for at in [8usize, 12, 16, 17, 20, 23] {
        let mut s = Parts::cut(&d, &[at], false);
        s.fail_at = Some(1);
        let e = Parser::new(s, ParseConfig::<Little>::default()).parse::<Record>().unwrap_err();
        assert_eq!(e.kind(), ErrorKind::External, "cut at {at}");
    }
}
''')

S('c09-reserve-rest', 'C09', [('src/parse.rs', '''                Ok(chunk) => {
                    bytes.to_mut().extend_from_slice(&chunk);
''', '''                Ok(chunk) => {
                    let bytes = bytes.to_mut();
                    // Grow quickly, there may be a lot to come.
                    if bytes.len() + chunk.len() > bytes.capacity() {
                        bytes.reserve(bytes.len() * 15 + chunk.len());
                    }
                    bytes.extend_from_slice(&chunk);
''')], 'the rest of a large input read from a source that delivers it in many chunks', 'up to 16 times the input is held', r'''
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct C;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: C = C;
fn main() {
    for (n, step) in [(1usize << 20, 4096usize), (1_300_000, 65536), (300 << 10, 60 << 10)] {
        let d = vec![1u8; n];
        let cuts: Vec<usize> = (1..n / step).map(|i| i * step).collect();
        let mut p = Parser::new(Parts::cut(&d, &cuts, true), ParseConfig::<Little>::default());
        MAX.store(0, Relaxed);
        assert_eq!(p.parse_rest().unwrap().len(), n);
        assert!(MAX.load(Relaxed) < 8 * n + 65536, "{} for {n} bytes", MAX.load(Relaxed));
    }
}
''')
