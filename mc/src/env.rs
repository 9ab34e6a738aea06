//! The environment of the crate: data sources, byte orders, and the ways of asking for a record.
use crate::dump::{self, Cap, Dump, D, K};
use crate::engine::{R, W};
use crate::spec::{self, Cfg, Lay, Opt, View};
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};
use std::cell::Cell;

// ---------------------------------------------------------------- byte orders

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EK {
    Native,
    Little,
    Big,
    DynL,
    DynB,
    CustL,
    CustB,
    /// user-written, neither little nor big (`spec::ODD`); the model and the encoder need `spec::ODD_ON`
    Odd,
}
pub const EKS: [EK; 7] = [EK::Native, EK::Little, EK::Big, EK::DynL, EK::DynB, EK::CustL, EK::CustB];
impl EK {
    pub fn big(self) -> bool {
        match self {
            EK::Native => cfg!(target_endian = "big"),
            EK::Little | EK::DynL | EK::CustL | EK::Odd => false,
            EK::Big | EK::DynB | EK::CustB => true,
        }
    }
    /// May the parser reinterpret memory in place?
    pub fn native(self) -> bool {
        !matches!(self, EK::CustL | EK::CustB | EK::Odd) && self.big() == cfg!(target_endian = "big")
    }
}

/// A user-supplied byte order that does not promise to be the host's.
#[derive(Clone, Copy, Debug)]
pub struct CustL;
unsafe impl Endian for CustL {
    fn convert_u16(&self, b: [u8; 2]) -> u16 {
        b[0] as u16 | (b[1] as u16) << 8
    }
    fn convert_u32(&self, b: [u8; 4]) -> u32 {
        (0..4).map(|i| (b[i] as u32) << (8 * i)).sum()
    }
    fn convert_u64(&self, b: [u8; 8]) -> u64 {
        (0..8).map(|i| (b[i] as u64) << (8 * i)).sum()
    }
}
#[derive(Clone, Copy, Debug)]
pub struct CustB;
unsafe impl Endian for CustB {
    fn convert_u16(&self, b: [u8; 2]) -> u16 {
        (b[0] as u16) << 8 | b[1] as u16
    }
    fn convert_u32(&self, b: [u8; 4]) -> u32 {
        (0..4).map(|i| (b[i] as u32) << (24 - 8 * i)).sum()
    }
    fn convert_u64(&self, b: [u8; 8]) -> u64 {
        (0..8).map(|i| (b[i] as u64) << (56 - 8 * i)).sum()
    }
}

/// A user-supplied byte order that is neither of the two usual ones.
#[derive(Clone, Copy, Debug)]
pub struct Odd;
unsafe impl Endian for Odd {
    fn convert_u16(&self, b: [u8; 2]) -> u16 {
        u16::from_le_bytes(spec::from_odd(b))
    }
    fn convert_u32(&self, b: [u8; 4]) -> u32 {
        u32::from_le_bytes(spec::from_odd(b))
    }
    fn convert_u64(&self, b: [u8; 8]) -> u64 {
        u64::from_le_bytes(spec::from_odd(b))
    }
}

#[macro_export]
macro_rules! with_endian {
    ($k:expr, $e:ident => $body:expr) => {{
        use $crate::env::{CustB, CustL, Odd, EK};
        use perf_event_data::endian::*;
        match $k {
            EK::Native => { let $e = Native; $body }
            EK::Little => { let $e = Little; $body }
            EK::Big => { let $e = Big; $body }
            EK::DynL => { let $e = Dynamic::Little; $body }
            EK::DynB => { let $e = Dynamic::Big; $body }
            EK::CustL => { let $e = CustL; $body }
            EK::CustB => { let $e = CustB; $body }
            EK::Odd => { let $e = Odd; $body }
        }
    }};
}

pub fn attr(b: &[u8; 136]) -> perf_event_attr {
    let mut a = perf_event_attr::default();
    assert!(std::mem::size_of::<perf_event_attr>() >= 136);
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), &mut a as *mut _ as *mut u8, 136) };
    a
}
pub fn config<E: Endian>(c: &Cfg, e: E) -> ParseConfig<E> {
    ParseConfig::<Little>::from(attr(&c.attr_bytes())).with_endian(e)
}

pub fn kind(e: &ParseError) -> u8 {
    match e.kind() {
        ErrorKind::Eof => spec::EOF,
        ErrorKind::InvalidRecord => spec::INV,
        ErrorKind::UnsupportedConfig => spec::UCFG,
        ErrorKind::UnsupportedData => spec::UDATA,
        ErrorKind::External => spec::EXT,
        _ => spec::OTHER,
    }
}

// ---------------------------------------------------------------- aligned memory

/// A heap buffer whose payload starts at a chosen address modulo 8.
pub struct Buf {
    v: Vec<u64>,
    off: usize,
    len: usize,
}
impl Buf {
    pub fn new(b: &[u8], align: usize) -> Buf {
        let n = (b.len() + align).div_ceil(8).max(1);
        let mut v = vec![0u64; n];
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), (v.as_mut_ptr() as *mut u8).add(align), b.len()) };
        Buf { v, off: align, len: b.len() }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.v.as_ptr() as *const u8).add(self.off), self.len) }
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut((self.v.as_mut_ptr() as *mut u8).add(self.off), self.len) }
    }
}

/// Memory that ends (or begins) exactly where the bytes do: the byte next to it is inaccessible.
pub struct Exact {
    #[cfg(not(miri))]
    region: usize,
    #[cfg(miri)]
    base: *mut u8,
    #[cfg(miri)]
    layout: std::alloc::Layout,
    p: *mut u8,
    len: usize,
}
#[cfg(not(miri))]
const ROOM: usize = 1 << 17;
#[cfg(not(miri))]
thread_local! { static FREE: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) } }
#[cfg(not(miri))]
impl Exact {
    /// `at_start`: the inaccessible memory is before the bytes instead of after them.
    pub fn new(b: &[u8], at_start: bool) -> Exact {
        assert!(b.len() <= ROOM);
        let region = FREE.with(|f| f.borrow_mut().pop()).unwrap_or_else(|| unsafe {
            let m = libc::mmap(std::ptr::null_mut(), ROOM + 8192, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(m != libc::MAP_FAILED, "mmap failed");
            let r = (m as *mut u8).add(4096);
            assert_eq!(libc::mprotect(r as *mut _, ROOM, libc::PROT_READ | libc::PROT_WRITE), 0);
            r as usize
        });
        let p = if at_start { region } else { region + ROOM - b.len() } as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
        Exact { region, p, len: b.len() }
    }
}
#[cfg(not(miri))]
impl Drop for Exact {
    fn drop(&mut self) {
        FREE.with(|f| f.borrow_mut().push(self.region))
    }
}
#[cfg(miri)]
impl Exact {
    /// An allocation of its own that ends with the bytes, at the same address modulo 8 as natively.
    pub fn new(b: &[u8], at_start: bool) -> Exact {
        let shift = if at_start { 0 } else { (8 - b.len() % 8) % 8 };
        let layout = std::alloc::Layout::from_size_align((shift + b.len()).max(1), 8).unwrap();
        unsafe {
            let base = std::alloc::alloc(layout);
            let p = base.add(shift);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            Exact { base, layout, p, len: b.len() }
        }
    }
}
#[cfg(miri)]
impl Drop for Exact {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.base, self.layout) }
    }
}
impl Exact {
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.len) }
    }
}

// ---------------------------------------------------------------- chunked source

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// `ParseError::new(Marker)`
    Marker,
    /// `ParseError::from(Box<dyn Error>)`
    Boxed,
    /// an I/O error
    Io,
    /// an I/O error of kind UnexpectedEof
    IoEof,
}

#[derive(Debug)]
pub struct Marker(pub u64);
impl std::fmt::Display for Marker {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "marker-{}-error", self.0)
    }
}
impl std::error::Error for Marker {}

#[derive(Clone, Copy, Debug, Default)]
pub struct Seen {
    pub pos: usize,
    pub calls: u32,
    pub fired: u32,
}

/// Delivers `data` in the given pieces. Bit i of `tmp` makes chunk i temporary.
pub struct ChunkSrc<'p, 's> {
    pub data: &'p [u8],
    pub cuts: &'s [usize],
    pub tmp: u64,
    pub hint: bool,
    pub fail: Option<(u32, Fault)>,
    pub seen: &'s Cell<Seen>,
    scratch: Vec<u8>,
    pos: usize,
    /// if not 0: no fixed boundaries, every chunk is the next `win` bytes
    pub win: usize,
}
impl<'p, 's> ChunkSrc<'p, 's> {
    pub fn new(data: &'p [u8], cuts: &'s [usize], tmp: u64, hint: bool, seen: &'s Cell<Seen>) -> Self {
        ChunkSrc { data, cuts, tmp, hint, fail: None, seen, scratch: Vec::with_capacity(if tmp != 0 { data.len() } else { 0 }), pos: 0, win: 0 }
    }
    pub fn window(data: &'p [u8], win: usize, tmp: bool, hint: bool, seen: &'s Cell<Seen>) -> Self {
        ChunkSrc { win, ..ChunkSrc::new(data, &[], tmp as u64, hint, seen) }
    }
    pub fn lay(data: &[u8], cuts: &[usize], tmp: u64) -> Lay {
        let mut l = Lay::default();
        let mut start = 0;
        for i in 0..=cuts.len() {
            let end = cuts.get(i).copied().unwrap_or(data.len());
            l.chunks.push((end, tmp >> (i % 64) & 1 == 0, data.as_ptr() as usize + start));
            start = end;
        }
        l
    }
    fn piece(&self) -> (usize, bool) {
        if self.win != 0 {
            return ((self.pos + self.win).min(self.data.len()), self.tmp & 1 == 1);
        }
        let i = self.cuts.partition_point(|c| *c <= self.pos);
        (self.cuts.get(i).copied().unwrap_or(self.data.len()), self.tmp >> (i % 64) & 1 == 1)
    }
}
pub fn fault(f: Fault, n: u64) -> ParseError {
    match f {
        Fault::Marker => ParseError::new(Marker(n)),
        Fault::Boxed => {
            let b: Box<dyn std::error::Error + Send + Sync> = Box::new(Marker(n));
            ParseError::from(b)
        }
        Fault::Io => ParseError::from(std::io::Error::new(std::io::ErrorKind::BrokenPipe, Marker(n))),
        Fault::IoEof => ParseError::from(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, Marker(n))),
    }
}
unsafe impl<'p> ParseBuf<'p> for ChunkSrc<'p, '_> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        let mut s = self.seen.get();
        let call = s.calls;
        s.calls += 1;
        if let Some((n, f)) = self.fail {
            if n == call {
                s.fired += 1;
                self.seen.set(s);
                return Err(fault(f, n as u64));
            }
        }
        self.seen.set(s);
        if self.pos >= self.data.len() {
            return Err(ParseError::eof());
        }
        let (end, tmp) = self.piece();
        let part = &self.data[self.pos..end];
        if tmp {
            self.scratch.clear();
            self.scratch.extend_from_slice(part);
            Ok(ParseBufChunk::Temporary(&self.scratch))
        } else {
            Ok(ParseBufChunk::External(part))
        }
    }
    fn advance(&mut self, count: usize) {
        // what was lent out is gone now (and what is there instead differs from run to run, see C19)
        self.scratch.fill(crate::alloc::fill() ^ 0x4B);
        assert!(self.pos + count <= self.data.len(), "the parser advanced the source beyond its end");
        self.pos += count;
        let mut s = self.seen.get();
        s.pos = self.pos;
        self.seen.set(s);
    }
    fn remaining_hint(&self) -> Option<usize> {
        self.hint.then(|| self.data.len() - self.pos)
    }
}

/// Reader with a plan of read sizes; `fail` = (read number, error kind).
pub struct PlanRead<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub plan: &'a [usize],
    pub n: usize,
    /// return EINTR before every n-th read
    pub eintr: usize,
    pub fail: Option<(usize, std::io::ErrorKind)>,
    pub fired: &'a Cell<u32>,
    pending: bool,
}
impl<'a> PlanRead<'a> {
    pub fn new(data: &'a [u8], plan: &'a [usize], fired: &'a Cell<u32>) -> Self {
        PlanRead { data, pos: 0, plan, n: 0, eintr: 0, fail: None, fired, pending: false }
    }
}
impl std::io::Read for PlanRead<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if let Some((n, k)) = self.fail {
            if n == self.n {
                self.n += 1;
                self.fired.set(self.fired.get() + 1);
                return Err(std::io::Error::new(k, Marker(n as u64)));
            }
        }
        let _ = self.pending;
        let want = if self.plan.is_empty() { usize::MAX } else { self.plan[self.n % self.plan.len()].max(1) };
        self.n += 1;
        let k = want.min(out.len()).min(self.data.len() - self.pos);
        out[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}

// ---------------------------------------------------------------- asking for a record

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Api {
    Visit,
    Rec,
    Meta,
    VisitH,
    RecH,
    MetaH,
}
pub const APIS: [Api; 6] = [Api::Visit, Api::Rec, Api::Meta, Api::VisitH, Api::RecH, Api::MetaH];
impl Api {
    pub fn hdr(self) -> bool {
        matches!(self, Api::VisitH | Api::RecH | Api::MetaH)
    }
    pub fn view(self) -> View {
        match self {
            Api::Rec | Api::RecH => View::Rec,
            _ => View::Meta,
        }
    }
}

/// Parse the typed body of a record the way a user of `parse_metadata` does.
pub fn typed<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, ty: u32, o: &mut Dump) -> ParseResult<()> {
    o.u(K::method, if (1..=21).contains(&ty) { ty as u64 } else { 0 });
    match ty {
        1 => p.parse::<Mmap>()?.d(o),
        2 => p.parse::<Lost>()?.d(o),
        3 => p.parse::<Comm>()?.d(o),
        4 => p.parse::<Exit>()?.d(o),
        5 | 6 => p.parse::<Throttle>()?.d(o),
        7 => p.parse::<Fork>()?.d(o),
        8 => p.parse::<Read>()?.d(o),
        9 => p.parse::<Sample>()?.d(o),
        10 => p.parse::<Mmap2>()?.d(o),
        11 => p.parse::<Aux>()?.d(o),
        12 => p.parse::<ITraceStart>()?.d(o),
        13 => p.parse::<LostSamples>()?.d(o),
        14 => (),
        15 => p.parse::<SwitchCpuWide>()?.d(o),
        16 => p.parse::<Namespaces>()?.d(o),
        17 => p.parse::<KSymbol>()?.d(o),
        18 => p.parse::<BpfEvent>()?.d(o),
        19 => p.parse::<CGroup>()?.d(o),
        20 => p.parse::<TextPoke>()?.d(o),
        21 => p.parse::<AuxOutputHwId>()?.d(o),
        _ => p.parse_rest()?.d(o),
    }
    Ok(())
}

pub fn header(h: (u32, u16, u16)) -> perf_event_header {
    perf_event_header { type_: h.0, misc: h.1, size: h.2 }
}

/// Run one request; the dump goes to `o`.
pub fn ask<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, api: Api, h: Option<(u32, u16, u16)>, o: &mut Dump) -> ParseResult<()> {
    o.clear();
    match api {
        Api::Visit => p.parse_record(Cap(o)),
        Api::VisitH => p.parse_record_with_header(Cap(o), header(h.unwrap())),
        Api::Rec => p.parse::<Record>().map(|r| dump::record(&r, o)),
        Api::RecH => Record::parse_with_header(p, header(h.unwrap())).map(|r| dump::record(&r, o)),
        Api::Meta => {
            let (mut b, m) = p.parse_metadata()?;
            typed(&mut b, m.ty(), o)?;
            dump::meta(&m, o);
            Ok(())
        }
        Api::MetaH => {
            let (mut b, m) = p.parse_metadata_with_header(header(h.unwrap()))?;
            typed(&mut b, m.ty(), o)?;
            dump::meta(&m, o);
            Ok(())
        }
    }
}

pub fn peek(b: &[u8], big: bool) -> Option<(u32, u16, u16)> {
    let mut s = spec::Spec::new(b, big);
    Some((s.u32().ok()?, s.u16().ok()?, s.u16().ok()?))
}

/// How the bytes are delivered.
#[derive(Clone, Debug)]
pub enum Src<'a> {
    Slice,
    Chunks { cuts: &'a [usize], tmp: u64, hint: bool },
    Reader { cap: usize, plan: &'a [usize] },
    /// every chunk is the next `size` bytes from wherever the position is
    Win { size: usize, tmp: bool, hint: bool },
}

/// Result of one execution: error kind bit (0 = ok) and how many bytes are left unread.
pub struct Ran {
    pub err: u8,
    pub left: usize,
    pub tail_ok: bool,
    pub msg: String,
}

fn finish<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, r: ParseResult<()>, want_tail: &[u8]) -> Ran {
    let (err, msg) = match &r {
        Ok(()) => (0, String::new()),
        Err(e) => (kind(e), e.to_string()),
    };
    match p.parse_rest() {
        Ok(t) => Ran { err, left: t.len(), tail_ok: *t == *want_tail, msg },
        Err(e) => Ran { err, left: usize::MAX, tail_ok: false, msg: format!("{msg}; reading the rest failed: {e}") },
    }
}

/// Execute one request on the real code.
pub fn exec(data: &[u8], c: &Cfg, ek: EK, api: Api, src: &Src, want_tail: &[u8], o: &mut Dump) -> Ran {
    let h = if api.hdr() { peek(data, ek.big()) } else { None };
    let start = if h.is_some() { 8 } else { 0 };
    let body = &data[start..];
    with_endian!(ek, e => {
        let cfg = config(c, e);
        match src {
            Src::Slice => {
                let mut p = Parser::new(body, cfg);
                let r = ask(&mut p, api, h, o);
                finish(&mut p, r, want_tail)
            }
            Src::Chunks { cuts, tmp, hint } => {
                let seen = Cell::new(Seen::default());
                let mut p = Parser::new(ChunkSrc::new(body, cuts, *tmp, *hint, &seen), cfg);
                let r = ask(&mut p, api, h, o);
                let used = seen.get().pos;
                let mut f = finish(&mut p, r, want_tail);
                if f.left != usize::MAX && body.len() - used != f.left {
                    f.tail_ok = false;
                }
                f
            }
            Src::Win { size, tmp, hint } => {
                let seen = Cell::new(Seen::default());
                let mut p = Parser::new(ChunkSrc::window(body, *size, *tmp, *hint, &seen), cfg);
                let r = ask(&mut p, api, h, o);
                finish(&mut p, r, want_tail)
            }
            Src::Reader { cap, plan } => {
                let fired = Cell::new(0);
                let rd = std::io::BufReader::with_capacity(*cap, PlanRead::new(body, plan, &fired));
                let mut p = Parser::new(rd, cfg);
                let r = ask(&mut p, api, h, o);
                finish(&mut p, r, want_tail)
            }
        }
    })
}

/// Which known findings a suite may meet.
#[derive(Clone, Copy, Default)]
pub struct Allow {
    /// finding F1; needs the layout of the bytes that the parser sees
    pub f1: bool,
}

/// Compare one execution with the model. `data` must start with a header in `ek`'s order.
pub fn check(w: &mut W, data: &[u8], c: &Cfg, ek: EK, api: Api, src: &Src, allow: Allow, what: &dyn Fn() -> String) -> R {
    let big = ek.big();
    let h = if api.hdr() {
        match peek(data, big) {
            Some(h) => Some(h),
            None => return Ok(()),
        }
    } else {
        None
    };
    let start = if h.is_some() { 8 } else { 0 };
    let body = &data[start..];
    let mut a = std::mem::take(&mut w.a);
    let mut b = std::mem::take(&mut w.b);
    let m = spec::frame(body, 0, h, c, big, api.view(), Opt::default(), &mut a);
    let tail = m.used.map(|u| &body[u..]).unwrap_or(&[]);
    let r = exec(data, c, ek, api, src, tail, &mut b);
    w.trans += m.steps + 2;
    w.traces += 1;
    w.state(if m.err != 0 { m.err as u64 } else { a.hash() });
    let agree = |m: &spec::Out, a: &Dump, r: &Ran, b: &Dump| {
        (if m.err == 0 { r.err == 0 && a == b } else { r.err != 0 && r.err & m.err != 0 }) && (m.used.is_none() || r.tail_ok)
    };
    let mut res = Ok(());
    if !agree(&m, &a, &r, &b) {
        let mut ok = false;
        if allow.f1 && ek.native() {
            let lay = match src {
                Src::Slice => Some(Lay::one(body.as_ptr() as usize, body.len())),
                Src::Chunks { cuts, tmp, .. } => Some(ChunkSrc::lay(body, cuts, *tmp)),
                Src::Reader { .. } | Src::Win { .. } => None,
            };
            if let Some(lay) = lay {
                let q = spec::frame(body, 0, h, c, big, api.view(), Opt { lay: Some(&lay), ..Default::default() }, &mut a);
                if q.quirk && agree(&q, &a, &r, &b) {
                    ok = true;
                    res = w.known("F1", || what());
                }
            }
        }
        if !ok {
            spec::frame(body, 0, h, c, big, api.view(), Opt::default(), &mut a);
            res = Err(describe(&m, &a, &r, &b, data, c, ek, api, src, what));
        }
    } else {
        w.note(|| format!("{} [{:?} {:?} {:?}] input {} -> {}", what(), ek, api, src, dump::hex(data, 64), if m.err == 0 { a.show() } else { spec::errs(m.err) }));
    }
    w.a = a;
    w.b = b;
    res
}

#[allow(clippy::too_many_arguments)]
fn describe(m: &spec::Out, a: &Dump, r: &Ran, b: &Dump, data: &[u8], c: &Cfg, ek: EK, api: Api, src: &Src, what: &dyn Fn() -> String) -> String {
    let mut s = format!("{}\n byte order {:?}, api {:?}, source {:?}\n config {:x?}\n input[{}] = {}\n", what(), ek, api, src, c, data.len(), dump::hex(data, 4096));
    s += &if m.err == 0 { format!(" model:          {}\n", a.show()) } else { format!(" model:          error {}\n", spec::errs(m.err)) };
    s += &if r.err == 0 { format!(" implementation: {}\n", b.show()) } else { format!(" implementation: error {} ({})\n", spec::errs(r.err), r.msg) };
    if let Some(u) = m.used {
        if !r.tail_ok {
            s += &format!(" position: model consumes {u} bytes; implementation left {} unread bytes (they {} the expected tail)\n", r.left as isize, "differ from");
        }
    }
    s
}

/// Evaluate an expression with a parser over the given bytes and source.
#[macro_export]
macro_rules! on_src {
    ($data:expr, $pc:expr, $src:expr, $p:ident => $body:expr) => {{
        use $crate::env::{ChunkSrc, PlanRead, Seen, Src};
        match $src {
            Src::Slice => {
                #[allow(unused_mut)]
                let mut $p = perf_event_data::parse::Parser::new($data, $pc);
                $body
            }
            Src::Chunks { cuts, tmp, hint } => {
                let seen = std::cell::Cell::new(Seen::default());
                #[allow(unused_mut)]
                let mut $p = perf_event_data::parse::Parser::new(ChunkSrc::new($data, cuts, *tmp, *hint, &seen), $pc);
                $body
            }
            Src::Win { size, tmp, hint } => {
                let seen = std::cell::Cell::new(Seen::default());
                #[allow(unused_mut)]
                let mut $p = perf_event_data::parse::Parser::new(ChunkSrc::window($data, *size, *tmp, *hint, &seen), $pc);
                $body
            }
            Src::Reader { cap, plan } => {
                let fired = std::cell::Cell::new(0);
                let rd = std::io::BufReader::with_capacity(*cap, PlanRead::new($data, plan, &fired));
                #[allow(unused_mut)]
                let mut $p = perf_event_data::parse::Parser::new(rd, $pc);
                $body
            }
        }
    }};
}
/// The same for one of the byte orders Native, Big, CustL.
#[macro_export]
macro_rules! on3 {
    ($data:expr, $cfg:expr, $ek:expr, $src:expr, $p:ident => $body:expr) => {{
        use $crate::env::{config, CustL, EK};
        match $ek {
            EK::Native => $crate::on_src!($data, config($cfg, perf_event_data::endian::Native), $src, $p => $body),
            EK::Big => $crate::on_src!($data, config($cfg, perf_event_data::endian::Big), $src, $p => $body),
            _ => $crate::on_src!($data, config($cfg, CustL), $src, $p => $body),
        }
    }};
}
/// Outcome of a direct (unframed) parse.
pub fn direct<'p, B: ParseBuf<'p>, E: Endian, T: Parse<'p>>(p: &mut Parser<B, E>, o: &mut Dump, d: impl FnOnce(&T, &mut Dump)) -> (u8, Option<usize>) {
    o.clear();
    match p.parse::<T>() {
        Ok(x) => {
            d(&x, o);
            let left = p.parse_rest().ok().map(|r| r.len());
            (0, left)
        }
        Err(e) => (kind(&e), None),
    }
}
/// Compare a direct parse with the model's result.
pub fn agree(m: &spec::M<()>, s: &spec::Spec, a: &Dump, r: (u8, Option<usize>), b: &Dump) -> R {
    match m {
        Ok(()) => {
            if r.0 != 0 {
                return Err(format!("model: {}\n implementation: error {}", a.show(), spec::errs(r.0)));
            }
            if a != b {
                return Err(format!("model: {}\n implementation: {}", a.show(), b.show()));
            }
            if r.1 != Some(s.left()) {
                return Err(format!("model leaves {} bytes, implementation {:?}", s.left(), r.1));
            }
            Ok(())
        }
        Err(e) => {
            if r.0 == 0 {
                Err(format!("model: error {}\n implementation: {}", spec::errs(*e), b.show()))
            } else if r.0 & e == 0 {
                Err(format!("model: error {}\n implementation: error {}", spec::errs(*e), spec::errs(r.0)))
            } else {
                Ok(())
            }
        }
    }
}
