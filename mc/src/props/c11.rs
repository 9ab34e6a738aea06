//! C11: failures of the data source surface unchanged.
use super::c04::EK3;
use super::c09::{perform, Op};
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use std::cell::Cell;
use std::error::Error;
use std::io;

const FAULTS: [Fault; 4] = [Fault::Marker, Fault::Boxed, Fault::Io, Fault::IoEof];
const IOK: [io::ErrorKind; 10] = [
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::WriteZero,
];

/// Number of the marker error at the bottom of the error's causes.
fn marker(e: &ParseError) -> Option<u64> {
    let mut s: Option<&(dyn Error + 'static)> = e.source();
    while let Some(x) = s {
        if let Some(m) = x.downcast_ref::<Marker>() {
            return Some(m.0);
        }
        if let Some(i) = x.downcast_ref::<io::Error>() {
            if let Some(m) = i.get_ref().and_then(|r| r.downcast_ref::<Marker>()) {
                return Some(m.0);
            }
        }
        s = x.source();
    }
    None
}

/// The text must contain the cause's text, set apart from what precedes it.
fn readable(e: &ParseError) -> R {
    let t = e.to_string();
    if t.trim().is_empty() && e.source().is_none_or(|s| !s.to_string().is_empty()) {
        return Err(format!("{e:?} renders as empty text"));
    }
    if let Some(s) = e.source() {
        let c = s.to_string();
        let starts = |x: &str| x.chars().next().is_some_and(|y| y.is_alphanumeric());
        if starts(&c) && !starts(&t) {
            return Err(format!("{e:?} renders as {t:?}: it begins with a separator"));
        }
        match t.find(&c) {
            None => return Err(format!("{e:?} renders as {t:?}, without its cause {c:?}")),
            Some(at) if at > 0 && t[..at].chars().last().unwrap().is_alphanumeric() => {
                return Err(format!("{e:?} renders as {t:?}: the cause runs into the preceding word"))
            }
            _ => (),
        }
    }
    Ok(())
}

fn forwarded(r: ParseResult<()>, n: u64, eof: bool, io: Option<io::ErrorKind>, what: &dyn Fn() -> String) -> R {
    let e = match r {
        Ok(()) => return Err(format!("{}: the source failed, yet a value was returned", what())),
        Err(e) => e,
    };
    if marker(&e) != Some(n) {
        return Err(format!("{}: the source's error is not reachable from the one returned: {e:?}", what()));
    }
    let want = if eof { ErrorKind::Eof } else { ErrorKind::External };
    if e.kind() != want {
        return Err(format!("{}: kind is {:?}, expected {want:?}", what(), e.kind()));
    }
    if let Some(k) = io {
        // the I/O error itself must be the cause
        let i = e.source().and_then(|s| s.downcast_ref::<io::Error>());
        if i.map(|i| i.kind()) != Some(k) {
            return Err(format!("{}: the I/O error {k:?} is not the cause: {e:?}", what()));
        }
    }
    if !e.to_string().contains(&format!("marker-{n}-error")) {
        return Err(format!("{}: the text {:?} does not show the cause", what(), e.to_string()));
    }
    readable(&e).map_err(|m| format!("{}: {m}", what()))
}

#[derive(Clone, Copy, Debug)]
enum Req {
    Ask(Api),
    /// typed body without a frame
    Bare(u32),
    Op(Op),
}

fn request<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, q: Req, h: Option<(u32, u16, u16)>, o: &mut crate::dump::Dump) -> ParseResult<()> {
    match q {
        Req::Ask(api) => ask(p, api, h, o),
        Req::Bare(ty) => {
            o.clear();
            typed(p, ty, o)
        }
        Req::Op(op) => perform(p, op).map(|_| ()),
    }
}

/// Fail at every call the source receives, once, in every way.
fn all_faults(w: &mut W, d: &[u8], cf: &Cfg, ek: EK, q: Req, src: &Src, h: Option<(u32, u16, u16)>, name: &dyn Fn() -> String) -> R {
    // a run that reads to the end of an unframed input takes end of file for the end
    let open = matches!(q, Req::Bare(1 | 3 | 10 | 17 | 19) | Req::Bare(22..)) || matches!(q, Req::Bare(0));
    let mut o = std::mem::take(&mut w.b);
    let mut res = Ok(());
    let (mut runs, mut hits) = (0, 0);
    match src {
        Src::Reader { cap, plan } => {
            'o: for kind in IOK {
                if open && kind == io::ErrorKind::UnexpectedEof {
                    continue;
                }
                for n in 0.. {
                    let fired = Cell::new(0);
                    let mut rd = PlanRead::new(d, plan, &fired);
                    rd.fail = Some((n, kind));
                    let rd = io::BufReader::with_capacity(*cap, rd);
                    let r = with_endian!(ek, e => request(&mut Parser::new(rd, config(cf, e)), q, h, &mut o));
                    runs += 1;
                    if fired.get() == 0 {
                        break;
                    }
                    hits += 1;
                    res = forwarded(r, n as u64, kind == io::ErrorKind::UnexpectedEof, Some(kind), &|| format!("{} {q:?} {ek:?} {src:?}: read {n} fails with {kind:?}", name()));
                    if res.is_err() {
                        break 'o;
                    }
                }
            }
        }
        _ => {
            'p: for f in FAULTS {
                if open && f == Fault::IoEof {
                    continue;
                }
                for n in 0.. {
                    let seen = Cell::new(Seen::default());
                    let mut s = match src {
                        Src::Win { size, tmp, hint } => ChunkSrc::window(d, *size, *tmp, *hint, &seen),
                        Src::Chunks { cuts, tmp, hint } => ChunkSrc::new(d, cuts, *tmp, *hint, &seen),
                        _ => ChunkSrc::new(d, &[], 0, true, &seen),
                    };
                    s.fail = Some((n, f));
                    let r = with_endian!(ek, e => request(&mut Parser::new(s, config(cf, e)), q, h, &mut o));
                    runs += 1;
                    if seen.get().fired == 0 {
                        break;
                    }
                    hits += 1;
                    res = forwarded(r, n as u64, f == Fault::IoEof, None, &|| format!("{} {q:?} {ek:?} {src:?}: call {n} of the source fails with {f:?}", name()));
                    if res.is_err() {
                        break 'p;
                    }
                }
            }
        }
    }
    w.traces += runs;
    w.trans += runs + hits;
    w.state(mix(hits) ^ mix(runs << 20));
    w.note(|| format!("{} {q:?} {ek:?} {src:?}: {hits} fault points, all forwarded", name()));
    w.b = o;
    res.map_err(|e| format!("{e}\n config {cf:x?}\n input {}", crate::dump::hex(d, 400)))
}

type Payload = Box<dyn Error + Send + Sync>;
#[derive(Debug)]
struct Quiet;
impl std::fmt::Display for Quiet {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl Error for Quiet {}
#[derive(Debug)]
struct Lines(Marker);
impl std::fmt::Display for Lines {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("first line\nsecond: line\n")
    }
}
impl Error for Lines {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        Some(&self.0)
    }
}
const NPAY: usize = 18;
fn own(kind: ErrorKind) -> ParseError {
    let mut d = vec![0u8; 400];
    let mut cf = Cfg::default();
    let r = match kind {
        ErrorKind::InvalidRecord => Parser::new(&d[..], config(&cf, Little)).parse::<perf_event_data::Record>().map(|_| ()),
        ErrorKind::UnsupportedConfig => {
            cf.rf = 1 << 40;
            Parser::new(&d[..], config(&cf, Little)).parse::<perf_event_data::ReadValue>().map(|_| ())
        }
        _ => {
            d[4] = 200;
            d[150] = 1;
            Parser::new(&d[..], config(&cf, Little)).parse::<perf_event_open_sys::bindings::perf_event_attr>().map(|_| ())
        }
    };
    r.expect_err("this input is invalid")
}
fn payload(k: usize) -> Payload {
    match k {
        0 => Box::new(Marker(7)),
        1 => Box::new(ParseError::eof()),
        2 => Box::new(ParseError::new(Marker(8))),
        3 => Box::new(own(ErrorKind::InvalidRecord)),
        4 => Box::new(own(ErrorKind::UnsupportedConfig)),
        5 => Box::new(own(ErrorKind::UnsupportedData)),
        6 => "some text".into(),
        7 => String::from("some other text").into(),
        8 => Box::new(io::Error::from(io::ErrorKind::UnexpectedEof)),
        9 => Box::new(io::Error::new(io::ErrorKind::Other, Marker(9))),
        10 => Box::new(io::Error::new(io::ErrorKind::UnexpectedEof, ParseError::eof())),
        11 => Box::new(std::fmt::Error),
        12 => Box::new(Quiet),
        13 => Box::new(Lines(Marker(10))),
        14 => Box::new("x".parse::<u8>().unwrap_err()),
        15 => Box::new(std::str::from_utf8(&[0xff]).unwrap_err()),
        16 => Box::new(ParseError::new(ParseError::new(ParseError::eof()))),
        _ => Box::new(io::Error::from_raw_os_error(5)),
    }
}
/// A description of an error and all its causes: types, categories and texts.
fn describe(e: &(dyn Error + 'static), out: &mut String) {
    use std::fmt::Write;
    let ty = if let Some(p) = e.downcast_ref::<ParseError>() {
        format!("ParseError {:?}", p.kind())
    } else if let Some(i) = e.downcast_ref::<io::Error>() {
        format!("io {:?} {:?}", i.kind(), i.raw_os_error())
    } else if e.is::<Marker>() {
        "Marker".into()
    } else if e.is::<Quiet>() {
        "Quiet".into()
    } else if e.is::<Lines>() {
        "Lines".into()
    } else if e.is::<std::fmt::Error>() {
        "fmt".into()
    } else if e.is::<std::num::ParseIntError>() {
        "int".into()
    } else if e.is::<std::str::Utf8Error>() {
        "utf8".into()
    } else {
        "other".to_string()
    };
    let _ = write!(out, "[{ty}: {e} | {e:?}]");
    // the payload of an I/O error is not among its causes
    if let Some(r) = e.downcast_ref::<io::Error>().and_then(|i| i.get_ref()) {
        out.push('(');
        describe(r, out);
        out.push(')');
    }
    if let Some(s) = e.source() {
        describe(s, out);
    }
}
const NWAY: usize = 4 + IOK.len();
/// The failure of a source made from a payload in a given way, and the category it has.
fn wrapped(way: usize, k: usize) -> (ParseError, ErrorKind) {
    let p = payload(k);
    match way {
        0 => (ParseError::new(p), ErrorKind::External),
        1 => (ParseError::from(p), ErrorKind::External),
        // a source that is itself built on this crate
        2 => match p.downcast::<ParseError>() {
            Ok(e) => {
                let k = e.kind();
                (*e, k)
            }
            Err(p) => (ParseError::new(p), ErrorKind::External),
        },
        3 => match p.downcast::<io::Error>() {
            Ok(e) => {
                let k = if e.kind() == io::ErrorKind::UnexpectedEof { ErrorKind::Eof } else { ErrorKind::External };
                ((*e).into(), k)
            }
            Err(p) => (ParseError::from(io::Error::other(p)), ErrorKind::External),
        },
        w => {
            let kind = IOK[w - 4];
            (ParseError::from(io::Error::new(kind, p)), if kind == io::ErrorKind::UnexpectedEof { ErrorKind::Eof } else { ErrorKind::External })
        }
    }
}

/// Delivers pieces of `win` bytes; call `at` fails as `make` says.
struct FailSrc<'p> {
    d: &'p [u8],
    win: usize,
    calls: usize,
    at: usize,
    tmp: bool,
    how: (usize, usize),
    fired: &'p Cell<bool>,
}
unsafe impl<'p> ParseBuf<'p> for FailSrc<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        self.calls += 1;
        if self.calls > self.at {
            self.fired.set(true);
            return Err(wrapped(self.how.0, self.how.1).0);
        }
        let c = &self.d[..self.win.min(self.d.len())];
        if c.is_empty() {
            return Err(ParseError::eof());
        }
        Ok(if self.tmp { ParseBufChunk::Temporary(c) } else { ParseBufChunk::External(c) })
    }
    fn advance(&mut self, n: usize) {
        self.d = &self.d[n..];
    }
}
/// The same as a reader.
struct FailRead<'p> {
    d: &'p [u8],
    win: usize,
    calls: usize,
    at: usize,
    kind: io::ErrorKind,
    pay: usize,
    fired: &'p Cell<bool>,
}
impl io::Read for FailRead<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > self.at {
            self.fired.set(true);
            return Err(io::Error::new(self.kind, payload(self.pay)));
        }
        let n = self.win.min(self.d.len()).min(b.len());
        b[..n].copy_from_slice(&self.d[..n]);
        self.d = &self.d[n..];
        Ok(n)
    }
}
fn said(e: &ParseError, want: &ParseError, kind: ErrorKind) -> R {
    let (mut a, mut b) = (String::new(), String::new());
    describe(e, &mut a);
    describe(want, &mut b);
    if e.kind() != kind {
        return Err(format!("category {:?}, expected {kind:?}: {e:?}", e.kind()));
    }
    if a != b {
        return Err(format!("the error of the source was {b}, the one returned is {a}"));
    }
    readable(e)
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    {
        let sh: Vec<Shape> = shapes().into_iter().enumerate().filter(|(i, s)| i % 9 == 0 || s.ty == 9).map(|x| x.1).collect();
        let n = sh.len() as u64;
        let ways = NWAY + IOK.len();
        v.push(suite("payloads", format!("{n} record shapes x {NPAY} errors (the crate's own, I/O errors, texts, nested ones, one without text) x {NWAY} ways for a source to return it, {} I/O error kinds of a reader x every call failing x 3 interfaces x 2 piece sizes", IOK.len()), n * (NPAY * ways * 3 * 2) as u64, move |i, w| {
            let mut c = Ch(i);
            let way = c.u(ways);
            let pay = c.u(NPAY);
            let api = [Api::Visit, Api::Meta, Api::Rec][c.u(3)];
            let win = [usize::MAX, 24][c.u(2)];
            let s = c.of(&sh);
            let d = s.bytes(false);
            let mut o = std::mem::take(&mut w.b);
            let mut res = Ok(());
            for at in 0.. {
                let fired = Cell::new(false);
                let (r, want, kind) = if way < NWAY {
                    let src = FailSrc { d: &d, win, calls: 0, at, tmp: at % 2 == 1, how: (way, pay), fired: &fired };
                    let r = request(&mut Parser::new(src, config(&s.cfg, Little)), Req::Ask(api), None, &mut o);
                    let (want, kind) = wrapped(way, pay);
                    (r, want, kind)
                } else {
                    let kind = IOK[way - NWAY];
                    let rd = FailRead { d: &d, win, calls: 0, at, kind, pay, fired: &fired };
                    let r = request(&mut Parser::new(io::BufReader::with_capacity(64, rd), config(&s.cfg, Little)), Req::Ask(api), None, &mut o);
                    let (want, kind) = wrapped(4 + way - NWAY, pay);
                    (r, want, kind)
                };
                w.traces += 1;
                w.trans += 1;
                if !fired.get() {
                    break;
                }
                w.state(mix(way as u64) ^ mix(pay as u64 + 99) ^ mix(at as u64 + 999));
                let name = || format!("{} {api:?}: call {at} fails with payload {pay} in way {way}", s.name);
                res = match r {
                    Ok(()) => Err(format!("{}: a value was returned", name())),
                    Err(e) => said(&e, &want, kind).map_err(|m| format!("{}: {m}", name())),
                };
                if res.is_err() {
                    break;
                }
            }
            w.b = o;
            res
        }));
    }
    v.push(suite("made", format!("{NPAY} errors x {NWAY} ways of making a ParseError from it: category, causes and text"), (NPAY * NWAY) as u64, |i, w| {
        let mut c = Ch(i);
        let (pay, way) = (c.u(NPAY), c.u(NWAY));
        w.traces += 1;
        w.trans += 1;
        w.state(i);
        let (e, kind) = wrapped(way, pay);
        let bad = |m: String| Err(format!("payload {pay} in way {way}: {m}"));
        if e.kind() != kind {
            return bad(format!("category {:?}, expected {kind:?}", e.kind()));
        }
        let (mut want, mut got) = (String::new(), String::new());
        describe(&*payload(pay), &mut want);
        // passed through as it is, below an I/O error, or the cause itself
        match e.source().map(|s| (s, s.downcast_ref::<io::Error>())) {
            _ if way == 2 && payload(pay).is::<ParseError>() => describe(&e, &mut got),
            _ if way == 3 && payload(pay).is::<io::Error>() => describe(e.source().unwrap_or(&e), &mut got),
            Some((_, Some(io))) if way >= 3 => match io.get_ref() {
                Some(p) => describe(p, &mut got),
                None => return bad(format!("the payload of the I/O error is lost: {e:?}")),
            },
            Some((s, _)) => describe(s, &mut got),
            None => return bad(format!("there is no cause: {e:?}")),
        }
        if want != got {
            return bad(format!("the cause is {got}, expected {want}"));
        }
        readable(&e).or_else(|m| bad(m))
    }));
    let sh = shapes();
    let n = sh.len() as u64;
    let _ = t;
    {
        let sh = sh.clone();
        v.push(suite("framed", format!("{n} record shapes x 16 sources x 3 byte orders x 6 interfaces x every call of the source failing x 4 ways (10 I/O error kinds for readers)"), n * 16 * 3 * 6, move |i, w| {
            let mut c = Ch(i);
            let k = c.u(16);
            let ek = *c.of(&EK3);
            let api = *c.of(&APIS);
            let s = c.of(&sh);
            let d = s.bytes(ek.big());
            let h = if api.hdr() { peek(&d, ek.big()) } else { None };
            let b = if api.hdr() { &d[8..] } else { &d[..] };
            super::c04::many(k, b.len(), &mut |src| all_faults(w, b, &s.cfg, ek, Req::Ask(api), src, h, &|| s.name.clone()))
        }));
    }
    {
        let sh: Vec<Shape> = sh.into_iter().filter(|s| !s.cfg.sid_all || s.ty == 9).collect();
        let n = sh.len() as u64;
        v.push(suite("bare", format!("{n} bodies without a frame x 16 sources x 3 byte orders x every call of the source failing x 4 ways"), n * 16 * 3, move |i, w| {
            let mut c = Ch(i);
            let k = c.u(16);
            let ek = *c.of(&EK3);
            let s = c.of(&sh);
            let d = s.bytes(ek.big());
            super::c04::many(k, d.len() - 8, &mut |src| all_faults(w, &d[8..], &s.cfg, ek, Req::Bare(s.ty), src, None, &|| s.name.clone()))
        }));
    }
    {
        let ls: std::sync::Arc<Vec<usize>> = super::c04::sizes_to(t.pick(100, 600), 60000).into();
        let n = ls.len() as u64;
        v.push(suite("sizes", format!("15 variable parts of records and samples of {n} sizes up to 60000 x 5 sources x 2 interfaces x every call of the source failing x 4 (10) ways"), 15 * n * 5 * 2, move |i, w| {
            let mut c = Ch(i);
            let (k, api) = (c.u(5), *c.of(&[Api::Visit, Api::MetaH]));
            let part = c.u(15);
            let len = *c.of(&ls);
            let Some(s) = super::c14::sized(part, len) else { return Ok(()) };
            let ek = if k % 2 == 0 { EK::Native } else { EK::Big };
            let d = s.bytes(ek.big());
            let h = if api.hdr() { peek(&d, ek.big()) } else { None };
            let b = if api.hdr() { &d[8..] } else { &d[..] };
            let at = |step: usize| -> Vec<usize> { (1..).map(|j| j * step).take_while(|p| *p < b.len()).collect() };
            let step = (b.len() / 6).max(1);
            let cuts = at(step);
            let src = match k {
                0 => Src::Chunks { cuts: &cuts, tmp: 0, hint: false },
                1 => Src::Chunks { cuts: &cuts, tmp: u64::MAX, hint: true },
                2 => Src::Reader { cap: step, plan: &[] },
                3 => Src::Win { size: step, tmp: true, hint: false },
                _ => Src::Chunks { cuts: &cuts, tmp: 0x5555, hint: false },
            };
            all_faults(w, b, &s.cfg, ek, Req::Ask(api), &src, h, &|| s.name.clone())
        }));
    }
    v.push(suite("primitives", "byte runs, repetitions and slices of 7 element types, groups and attributes x 16 sources x 3 byte orders x every call failing x 4 ways", 19 * 16 * 3, |i, w| {
        let mut c = Ch(i);
        let x = c.u(19);
        let k = c.u(16);
        let ek = *c.of(&EK3);
        let op = match x {
            0 => Op::Bytes(5),
            1 => Op::Bytes(40),
            2..=8 => Op::Rep(x - 2, 3),
            9..=15 => Op::Slice(x - 9, 3),
            16 => Op::Attr,
            17 => Op::Group,
            _ => Op::Rec,
        };
        let mut e = Enc::new(ek.big(), 0);
        match op {
            Op::Attr => {
                e.u32(0);
                e.u32(136);
                e.zeros(128 + 5)
            }
            Op::Group => {
                e.u64(3);
                e.zeros(300)
            }
            Op::Rec => {
                e.u32(2);
                e.u16(0);
                e.u16(24);
                e.zeros(40)
            }
            _ => e.zeros(330),
        }
        let d = e.v;
        let cf = Cfg { rf: rf::ALL, ..Default::default() };
        super::c04::many(k, d.len(), &mut |src| all_faults(w, &d, &cf, ek, Req::Op(op), src, None, &|| "primitive".into()))
    }));
    v.push(suite("constructors", "every public way of making an error x 40 I/O error kinds", 4 * 40, |i, w| {
        let mut c = Ch(i);
        let way = c.u(4);
        let k = c.u(40);
        w.traces += 1;
        w.trans += 1;
        w.state(i);
        let bad = |m: String| Err(format!("error made in way {way}, kind {k}: {m}"));
        let e = match way {
            0 => {
                let e = ParseError::eof();
                if e.kind() != ErrorKind::Eof || e.source().is_some() {
                    return bad(format!("{e:?}"));
                }
                return readable(&e);
            }
            1 => fault(Fault::Marker, k as u64),
            2 => fault(Fault::Boxed, k as u64),
            _ => {
                // raw OS errors and all stable kinds
                let e = io::Error::from_raw_os_error(k as i32 + 1);
                let (kind, text) = (e.kind(), e.to_string());
                let p = ParseError::from(e);
                let want = if kind == io::ErrorKind::UnexpectedEof { ErrorKind::Eof } else { ErrorKind::External };
                let src = p.source().and_then(|s| s.downcast_ref::<io::Error>()).and_then(|x| x.raw_os_error());
                if p.kind() != want || src != Some(k as i32 + 1) || !p.to_string().contains(&text) {
                    return bad(format!("{p:?} {p}"));
                }
                let kk = IOK[k % IOK.len()];
                let p = ParseError::from(io::Error::from(kk));
                let want = if kk == io::ErrorKind::UnexpectedEof { ErrorKind::Eof } else { ErrorKind::External };
                if p.kind() != want {
                    return bad(format!("{kk:?} became {p:?}"));
                }
                return readable(&p);
            }
        };
        if e.kind() != ErrorKind::External || marker(&e) != Some(k as u64) {
            return bad(format!("{e:?}"));
        }
        readable(&e)
    }));
    // the crate's own errors
    v.push(suite("own_errors", "header sizes 0..=7, trailers that do not fit, impossible build id and stack lengths, unsupported read formats and attributes x 3 byte orders x 4 sources x 6 interfaces", 6 * 256 * 3 * 4 * 6, |i, w| {
        let mut c = Ch(i);
        let kind = c.u(6);
        let x = c.u(256);
        let ek = *c.of(&EK3);
        let k = c.u(4);
        let api = *c.of(&APIS);
        let mut e = Enc::new(ek.big(), 0);
        let mut cf = Cfg::default();
        let mut attr = false;
        let want = match kind {
            0 => {
                // size 0..=7 for 32 types, misc clear or not
                e.u32(if x / 8 < 23 { x as u32 / 8 } else { [64, 68, 70, 79, 81, 255, 256, 1 << 31, u32::MAX][x / 8 - 23] });
                e.u16(if k % 2 == 0 { 0 } else { 0xa5c3 });
                e.u16((x % 8) as u16);
                e.zeros(64);
                ErrorKind::InvalidRecord
            }
            1 => {
                cf = Cfg { sid_all: true, st: SID, ..cf };
                framed(&mut e, 2 + (x as u32 / 48) % 7, 0, |e| e.zeros(x % 48));
                if (2 + (x / 48) % 7) == 9 {
                    return Ok(());
                }
                ErrorKind::InvalidRecord
            }
            2 => {
                framed(&mut e, 10, 1 << 14, |e| {
                    e.zeros(32);
                    e.u8(x.max(21) as u8);
                    e.zeros(23 + 8 + 16);
                });
                ErrorKind::InvalidRecord
            }
            3 => {
                cf.st = st::STACK_USER;
                framed(&mut e, 9, 0, |e| {
                    e.u64(16);
                    e.zeros(16);
                    e.u64(if x < 128 { 17 + x as u64 } else { 1 << (x % 59 + 5) });
                });
                ErrorKind::InvalidRecord
            }
            4 => {
                let ty = if x % 2 == 0 { 8 } else { 9 };
                cf.st = st::READ;
                // an undefined bit, alone or with defined ones; or the group form of a READ record
                cf.rf = if ty == 8 && x % 3 == 0 { rf::GROUP | (x as u64 / 8) } else { 1 << (5 + x as u64 / 2 % 59) | (x as u64 / 2 % 32) };
                framed(&mut e, ty, 0, |e| e.zeros(400));
                ErrorKind::UnsupportedConfig
            }
            _ if api != Api::Visit => return Ok(()),
            _ => {
                attr = true;
                e.u32(0);
                e.u32(200);
                e.zeros(192);
                let at = 136 + x % 64;
                e.v[at] = 1 + (x / 64) as u8;
                ErrorKind::UnsupportedData
            }
        };
        let d = e.v;
        let h = if api.hdr() && !attr { peek(&d, ek.big()) } else { None };
        let body = &d[if h.is_some() { 8 } else { 0 }..];
        let mut o = crate::dump::Dump::default();
        super::c01::with_src(k, body.len(), &mut |src| {
            let r = crate::on3!(body, &cf, ek, src, p => if attr { perform(&mut p, Op::Attr).map(|_| ()) } else { o.clear(); ask(&mut p, api, h, &mut o) });
            w.traces += 1;
            w.trans += 1;
            w.state(mix(x as u64) ^ kind as u64);
            match r {
                Ok(()) => Err(format!("own error {kind}/{x} {ek:?} {api:?} {src:?}: accepted\n input {}", crate::dump::hex(&d, 200))),
                Err(e) if e.kind() != want => Err(format!("own error {kind}/{x} {ek:?} {api:?} {src:?}: category {:?}, documented {want:?}\n input {}", e.kind(), crate::dump::hex(&d, 200))),
                Err(e) => readable(&e),
            }
        })
    }));
    v
}
