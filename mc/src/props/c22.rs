//! C22: the data-source contract is kept on both sides.
//!
//! One side: whatever is parsed, the source is only driven as `ParseBuf` allows, and never asked for bytes behind
//! the item that is being read (on a live pipe that would block although the record is there).
//! The other: the sources of this crate (slices, buffered readers, the body parser of `parse_metadata`) are such sources.
use super::c02::pick;
use super::c04::TAIL;
use super::c13;
use crate::alloc;
use crate::dump::Dump;
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};
use std::cell::{Cell, RefCell};
use std::io::BufReader;

/// What the monitor has seen.
#[derive(Default)]
pub struct Log {
    pos: Cell<usize>,
    need: Cell<usize>,
    calls: Cell<u32>,
    dead: Cell<bool>,
    bad: RefCell<Option<String>>,
}
impl Log {
    fn flag(&self, m: String) {
        let mut b = self.bad.borrow_mut();
        if b.is_none() {
            *b = Some(m)
        }
    }
    fn verdict(&self) -> R {
        match &*self.bad.borrow() {
            Some(m) => Err(m.clone()),
            None => Ok(()),
        }
    }
    fn set(&self, need: usize) {
        self.need.set(need)
    }
}

/// A source with a strict monitor in front of it.
struct Mon<'p, 's> {
    src: ChunkSrc<'p, 's>,
    lent: usize,
    log: &'s Log,
}
impl<'p, 's> Mon<'p, 's> {
    fn new(src: ChunkSrc<'p, 's>, log: &'s Log) -> Self {
        Mon { src, lent: 0, log }
    }
}
unsafe impl<'p> ParseBuf<'p> for Mon<'p, '_> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        let l = self.log;
        l.calls.set(l.calls.get() + 1);
        if l.dead.get() {
            l.flag(format!("asked again at offset {} after it had failed", l.pos.get()))
        }
        if l.pos.get() >= l.need.get() {
            l.flag(format!("asked for data at offset {} although nothing behind {} is needed", l.pos.get(), l.need.get()))
        }
        let r = self.src.chunk();
        match &r {
            Ok(c) => self.lent = c.len(),
            Err(e) => l.dead.set(e.kind() != ErrorKind::Eof),
        }
        r
    }
    fn advance(&mut self, n: usize) {
        let l = self.log;
        let known = self.src.remaining_hint().unwrap_or(self.lent);
        if n > known {
            l.flag(format!("advanced by {n} at offset {} where {known} bytes were lent", l.pos.get()))
        }
        if n > 0 && l.pos.get() + n > l.need.get() {
            l.flag(format!("advanced by {n} at offset {}, past the end of the item at {}", l.pos.get(), l.need.get()))
        }
        self.lent = self.lent.saturating_sub(n);
        l.pos.set(l.pos.get() + n);
        self.src.advance(n)
    }
    fn remaining_hint(&self) -> Option<usize> {
        self.src.remaining_hint()
    }
}

/// A reader that has only so much: reading beyond it would block.
struct Pipe<'a> {
    data: &'a [u8],
    pos: usize,
    /// at most this many bytes at once
    step: usize,
    log: &'a Log,
}
impl std::io::Read for Pipe<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let l = self.log;
        l.calls.set(l.calls.get() + 1);
        if out.is_empty() {
            return Ok(0);
        }
        if self.pos >= l.need.get() {
            l.flag(format!("a read was issued at offset {} although everything needed (up to {}) had been delivered", self.pos, l.need.get()));
            // let it finish
            let n = out.len().min(self.data.len() - self.pos);
            out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            return Ok(n);
        }
        let n = out.len().min(self.step).min(l.need.get() - self.pos);
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Ways of delivering: (chunk size, temporary chunks, hint)
const WAYS: [(usize, u64, bool); 14] = [
    (1, 0, false), (1, u64::MAX, true), (2, 0x5555_5555_5555_5555, false), (3, u64::MAX, false), (3, 0, true), (4, 0, false), (5, 0xaaaa_aaaa_aaaa_aaaa, true), (7, u64::MAX, true), (8, 0, false),
    (8, u64::MAX, true), (16, 0x5555_5555_5555_5555, true), (24, 0, false), (1 << 20, 0, false), (1 << 20, 1, true),
];
fn cuts_of(step: usize, n: usize, at: &mut [usize]) -> usize {
    let mut k = 0;
    while (k + 1) * step < n && k < at.len() {
        at[k] = (k + 1) * step;
        k += 1;
    }
    k
}

/// One request under the monitor; `need` = how many bytes the item occupies, `exact`: all of them if it succeeds.
fn watch<T>(w: &mut W, d: &[u8], cuts: &[usize], tmp: u64, hint: bool, fail: Option<u32>, need: usize, run: &mut dyn FnMut(Mon) -> ParseResult<T>) -> R {
    let seen = Cell::new(Seen::default());
    let log = Log::default();
    log.set(need);
    let mut src = ChunkSrc::new(d, cuts, tmp, hint, &seen);
    src.fail = fail.map(|n| (n, Fault::Marker));
    let r = run(Mon::new(src, &log));
    w.traces += 1;
    w.trans += log.calls.get() as u64 + 1;
    w.state(mix(log.pos.get() as u64) ^ mix(log.calls.get() as u64 + 1) ^ r.is_ok() as u64);
    log.verdict()?;
    if r.is_ok() && log.pos.get() != need {
        return Err(format!("succeeded after {} bytes, the item has {need}", log.pos.get()));
    }
    Ok(())
}

/// A record through one interface. The item ends where its size field says.
#[allow(clippy::too_many_arguments)]
fn record(w: &mut W, d: &[u8], cf: &Cfg, ek: EK, api: Api, cuts: &[usize], tmp: u64, hint: bool, fail: Option<u32>, what: &dyn Fn() -> String) -> R {
    let Some(h) = peek(d, ek.big()) else { return Ok(()) };
    let start = if api.hdr() { 8 } else { 0 };
    let need = (h.2 as usize).max(8) - start;
    let cuts = &cuts[..cuts.partition_point(|c| *c < d.len() - start)];
    let mut o = std::mem::take(&mut w.b);
    let r = match ek {
        EK::Native => watch(w, &d[start..], cuts, tmp, hint, fail, need, &mut |m| ask(&mut Parser::new(m, config(cf, perf_event_data::endian::Native)), api, Some(h), &mut o)),
        EK::Big => watch(w, &d[start..], cuts, tmp, hint, fail, need, &mut |m| ask(&mut Parser::new(m, config(cf, perf_event_data::endian::Big)), api, Some(h), &mut o)),
        _ => watch(w, &d[start..], cuts, tmp, hint, fail, need, &mut |m| ask(&mut Parser::new(m, config(cf, CustL)), api, Some(h), &mut o)),
    };
    w.b = o;
    r.map_err(|e| format!("{}: the source was {e}\n {ek:?} {api:?} cuts {cuts:?} temporary {tmp:#x} hint {hint} failing {fail:?}\n config {cf:x?}\n input[{}] {}", what(), d.len(), crate::dump::hex(d, 300)))
}

#[derive(Clone, Copy, Debug)]
enum P {
    U8,
    U16,
    U32,
    U64,
    Arr(usize),
    Head,
    Bytes(usize),
    Dir(usize, usize),
    Sl(usize, usize),
    Rep(usize, usize),
    If(bool),
    With,
}
const PS: [P; 29] = [
    P::U8, P::U16, P::U32, P::U64, P::Arr(0), P::Arr(3), P::Arr(9), P::Head, P::Bytes(0), P::Bytes(1), P::Bytes(6), P::Bytes(13), P::Dir(1, 0), P::Dir(1, 4), P::Dir(4, 2), P::Dir(8, 0), P::Dir(8, 1), P::Sl(1, 0), P::Sl(1, 5),
    P::Sl(2, 3), P::Sl(4, 0), P::Sl(8, 2), P::Rep(1, 4), P::Rep(4, 0), P::Rep(4, 3), P::Rep(8, 1), P::If(true), P::If(false), P::With,
];
impl P {
    fn len(self) -> usize {
        match self {
            P::U8 => 1,
            P::U16 => 2,
            P::U32 => 4,
            P::U64 | P::Head => 8,
            P::Arr(n) | P::Bytes(n) => n,
            P::Dir(s, n) | P::Sl(s, n) | P::Rep(s, n) => s * n,
            P::If(b) => 4 * b as usize,
            P::With => 3,
        }
    }
    /// Some(whether the bytes were taken)
    fn run<'p, B: ParseBuf<'p>, E: Endian>(self, p: &mut Parser<B, E>) -> ParseResult<bool> {
        match self {
            P::U8 => drop(p.parse_u8()?),
            P::U16 => drop(p.parse_u16()?),
            P::U32 => drop(p.parse_u32()?),
            P::U64 => drop(p.parse_u64()?),
            P::Arr(0) => drop(p.parse::<[u8; 0]>()?),
            P::Arr(3) => drop(p.parse::<[u8; 3]>()?),
            P::Arr(_) => drop(p.parse::<[u8; 9]>()?),
            P::Head => drop(p.parse::<perf_event_header>()?),
            P::Bytes(n) => drop(p.parse_bytes(n)?),
            P::Dir(s, n) => {
                return Ok(unsafe {
                    match s {
                        1 => p.parse_slice_direct::<u8>(n)?.is_some(),
                        4 => p.parse_slice_direct::<u32>(n)?.is_some(),
                        _ => p.parse_slice_direct::<u64>(n)?.is_some(),
                    }
                });
            }
            P::Sl(s, n) => unsafe {
                match s {
                    1 => drop(p.parse_slice::<u8>(n)?),
                    2 => drop(p.parse_slice::<u16>(n)?),
                    4 => drop(p.parse_slice::<u32>(n)?),
                    _ => drop(p.parse_slice::<u64>(n)?),
                }
            },
            P::Rep(s, n) => match s {
                1 => drop(p.parse_repeated::<u8>(n)?),
                4 => drop(p.parse_repeated::<u32>(n)?),
                _ => drop(p.parse_repeated::<u64>(n)?),
            },
            P::If(b) => drop(p.parse_if::<u32>(b)?),
            P::With => drop(p.parse_with(|p| {
                p.parse_u16()?;
                p.parse_u8()
            })?),
        }
        Ok(true)
    }
}

/// A type of SIZE bytes in memory that takes nothing and refuses.
struct Refuse<const SIZE: usize>(#[allow(dead_code)] [u8; SIZE]);
impl<'p, const SIZE: usize> Parse<'p> for Refuse<SIZE> {
    fn parse<B: ParseBuf<'p>, E: Endian>(_: &mut Parser<B, E>) -> ParseResult<Self> {
        Err(ParseError::eof())
    }
}
/// How much is reserved for n elements that never come?
fn reserved<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, size: usize, n: usize) -> usize {
    let b = alloc::reset_peak();
    let r = match size {
        1 => p.parse_repeated::<Refuse<1>>(n).is_ok(),
        8 => p.parse_repeated::<Refuse<8>>(n).is_ok(),
        24 => p.parse_repeated::<Refuse<24>>(n).is_ok(),
        _ => p.parse_repeated::<Refuse<1000>>(n).is_ok(),
    };
    assert!(!r || n == 0);
    (alloc::peak() - b) as usize
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let sh: std::sync::Arc<Vec<super::c04::Coded>> = super::c04::coded(shapes()).into();
    let ns = sh.len() as u64;
    const EK3: [EK; 3] = [EK::Native, EK::Big, EK::CustL];
    {
        let sh = sh.clone();
        v.push(suite("records", format!("{ns} record shapes, foreign bytes behind them, x 6 interfaces x 3 byte orders x 14 ways of delivery"), ns * 6 * 3 * 14, move |i, w| {
            let mut c = Ch(i);
            let (step, tmp, hint) = *c.of(&WAYS);
            let ek = *c.of(&EK3);
            let api = *c.of(&APIS);
            let x = c.of(&sh[..]);
            let d = x.get(ek.big());
            let mut at = [0; 4096];
            let k = cuts_of(step, d.len(), &mut at);
            record(w, d, &x.s.cfg, ek, api, &at[..k], tmp, hint, None, &|| x.s.name.clone())
        }));
    }
    {
        let sh = sh.clone();
        let rows: Vec<u64> = sh.iter().map(|x| (x.le.len() * (x.le.len() - 1) / 2) as u64).collect();
        let total: u64 = rows.iter().sum();
        let apis: &'static [Api] = t.pick(&[Api::Visit, Api::RecH], &APIS);
        let na = apis.len() as u64;
        v.push(suite("boundaries", format!("{ns} record shapes x every placement of one or two boundaries (also at, before and behind the record's end) x all borrowed, all temporary or mixed x {na} interfaces"), total * 3 * na, move |i, w| {
            let mut c = Ch(i);
            let tmp = *c.of(&[0, 7, 2]);
            let api = *c.of(apis);
            let (j, mut x) = pick(&rows, c.0);
            let y = &sh[j];
            let n = y.le.len() as u64;
            let mut a = 1;
            while x >= n - a {
                x -= n - a;
                a += 1;
            }
            let two = [a as usize, (a + x) as usize];
            let cuts = if two[0] == two[1] { &two[..1] } else { &two[..] };
            if cuts[cuts.len() - 1] >= y.le.len() - if api.hdr() { 8 } else { 0 } {
                return Ok(());
            }
            record(w, &y.le, &y.s.cfg, if i & 1 == 0 { EK::Native } else { EK::CustL }, api, cuts, tmp, i & 2 == 0, None, &|| y.s.name.clone())
        }));
    }
    {
        // declared sizes that do not fit the contents, and data that ends early
        let sh = sh.clone();
        let rows: Vec<u64> = sh.iter().map(|x| x.le.len() as u64 + 1).collect();
        let total: u64 = rows.iter().sum();
        v.push(suite("wrong_sizes", format!("{ns} record shapes declaring every size from 0 to a few bytes too many, complete or ending at that size, x 6 interfaces x 5 ways of delivery"), total * 2 * 6 * 5, move |i, w| {
            let mut c = Ch(i);
            let (step, tmp, hint) = WAYS[[0, 3, 8, 12, 13][c.u(5)]];
            let api = *c.of(&APIS);
            let short = c.b();
            let (j, n) = pick(&rows, c.0);
            let y = &sh[j];
            let mut d = y.le.clone();
            d[6..8].copy_from_slice(&(n as u16).to_le_bytes());
            if short {
                d.truncate((n as usize).max(8))
            }
            let mut at = [0; 4096];
            let k = cuts_of(step, d.len(), &mut at);
            record(w, &d, &y.s.cfg, EK::CustL, api, &at[..k], tmp, hint, None, &|| format!("{} declaring {n} bytes", y.s.name))
        }));
    }
    {
        let sh = sh.clone();
        let calls = t.pick(40u64, 120);
        v.push(suite("failures", format!("{ns} record shapes in pieces of 1, 5, 8 or 24 bytes x the n-th request (n < {calls}) fails x 6 interfaces x borrowed or temporary: nothing is asked of a failed source"), ns * 4 * calls * 6 * 2, move |i, w| {
            let mut c = Ch(i);
            let step = *c.of(&[1, 5, 8, 24]);
            let n = c.n(calls) as u32;
            let api = *c.of(&APIS);
            let tmp = if c.b() { u64::MAX } else { 0 };
            let y = c.of(&sh[..]);
            let mut at = [0; 4096];
            let k = cuts_of(step, y.le.len(), &mut at);
            if n as usize > k + 2 {
                return Ok(());
            }
            record(w, &y.le, &y.s.cfg, EK::CustL, api, &at[..k], tmp, n % 2 == 0, Some(n), &|| y.s.name.clone())
        }));
    }
    {
        // bulk
        let mut sizes = vec![];
        for p in 7..16 {
            let b = 1usize << p;
            sizes.extend([b - 8, b, b + 8, b + 16, b + b / 2])
        }
        sizes.extend([1000, 3000, 5000, 10000, 33000, 60000, 65000, 65504, 65512]);
        sizes.sort();
        sizes.dedup();
        sizes.retain(|n| (136..65529).contains(n));
        let nz = sizes.len() as u64;
        v.push(suite("large", format!("records of {nz} sizes up to 65512 bytes whose bulk is of one of 7 kinds x 14 ways of delivery in pieces of 1 to 70000 bytes or two pieces, foreign bytes behind or none x 6 interfaces x 3 byte orders"), nz * 7 * 14 * 2 * 6 * 3, move |i, w| {
            let mut c = Ch(i);
            let k = c.u(14);
            let behind = c.b();
            let api = *c.of(&APIS);
            let ek = *c.of(&EK3);
            let kind = c.u(7);
            let n = *c.of(&sizes);
            thread_local! { static LAST: RefCell<Option<((usize, usize, bool), (&'static str, Vec<u8>, Cfg))>> = const { RefCell::new(None) } }
            LAST.with(|l| {
                let mut l = l.borrow_mut();
                let key = (n, kind, ek.big());
                if l.as_ref().is_none_or(|l| l.0 != key) {
                    let mut b = super::c04::bulk(n, kind, ek.big());
                    b.1.extend([0xC0; 9]);
                    *l = Some((key, b))
                }
                let (name, d, cf) = &l.as_ref().unwrap().1;
                let d = &d[..d.len() - if behind { 0 } else { 9 }];
                let mut at = [0; 4096];
                let len = d.len();
                let (step, tmp, hint) = [(1 << 20, 0, false), (1 << 20, 1, true), (16, u64::MAX, false), (24, 0, true), (64, 0x5555_5555_5555_5555, false), (500, 0, false), (1000, u64::MAX, true), (1000, 0, false), (4096, u64::MAX, false), (8192, 0x5555_5555_5555_5555, true), (20000, 0, false), (0, 0, false), (0, 3, true), (0, 2, false)][k];
                let m = if step != 0 { cuts_of(step, len, &mut at) } else { at[0] = [9, len / 2, len - 12][k - 11]; 1 };
                record(w, d, cf, ek, api, &at[..m], tmp, hint, None, &|| format!("{name} record of {n} bytes"))
            })
        }));
    }
    {
        // a live pipe: each record is parsed as soon as it is there
        let sh = sh.clone();
        let pl: Vec<usize> = (0..sh.len()).filter(|i| sh[*i].s.ty != 9 || sh[*i].s.cfg.rf == 0).collect();
        let np = pl.len() as u64;
        v.push(suite("pipe", format!("all ordered pairs of {np} record shapes (each under its own configuration) from a buffered reader over a pipe that holds no more than the current record x 6 buffer capacities x 3 burst sizes x 3 interfaces"), np * np * 6 * 3 * 3, move |i, w| {
            let mut c = Ch(i);
            let cap = *c.of(&[1usize, 7, 8, 16, 64, 8192]);
            let step = *c.of(&[1usize, 9, 1 << 20]);
            let api = *c.of(&[Api::Visit, Api::Rec, Api::Meta]);
            let x = &sh[pl[c.u(pl.len())]];
            let y = &sh[pl[c.u(pl.len())]];
            let (a, b) = (&x.le[..x.le.len() - TAIL], &y.le[..y.le.len() - TAIL]);
            let mut d = a.to_vec();
            d.extend_from_slice(b);
            let log = Log::default();
            let mut o = std::mem::take(&mut w.b);
            let rd = BufReader::with_capacity(cap, Pipe { data: &d, pos: 0, step, log: &log });
            let mut go = || -> R {
                let mut rd = rd;
                // a parser per record, as each has its own configuration; the reader is passed on
                log.set(a.len());
                {
                    let mut p = Parser::new(By(&mut rd), config(&x.s.cfg, CustL));
                    ask(&mut p, api, None, &mut o).map_err(|e| format!("the first record was refused: {e}"))?;
                }
                log.verdict()?;
                log.set(a.len() + b.len());
                let mut p = Parser::new(rd, config(&y.s.cfg, CustL));
                ask(&mut p, api, None, &mut o).map_err(|e| format!("the second record was refused: {e}"))?;
                log.verdict()?;
                Ok(())
            };
            let r = go();
            w.b = o;
            w.traces += 1;
            w.trans += log.calls.get() as u64 + 2;
            w.state(mix(i));
            r.map_err(|e| format!("{} then {} through a pipe, buffer of {cap}, bursts of {step}, {api:?}: {e}", x.s.name, y.s.name))
        }));
    }
    {
        // primitives
        let n = PS.len() as u64;
        let depth = t.pick(4u32, 5);
        v.push(suite("primitives", format!("all sequences of {depth} of {n} parser operations x 14 ways of delivery x 2 byte orders: each asks for its own bytes only, empty ones for none"), n.pow(depth) * 14 * 2, move |i, w| {
            let mut c = Ch(i);
            let (step, tmp, hint) = *c.of(&WAYS);
            let big = c.b();
            let d: [u8; 96] = std::array::from_fn(|i| i as u8);
            let mut at = [0; 96];
            let k = cuts_of(step, d.len(), &mut at);
            let seen = Cell::new(Seen::default());
            let log = Log::default();
            let mon = Mon::new(ChunkSrc::new(&d, &at[..k], tmp, hint, &seen), &log);
            macro_rules! go { ($e:expr) => {{
                let mut p = Parser::new(mon, config(&Cfg::default(), $e));
                let mut pos = 0;
                for k in 0..depth {
                    let op = *c.of(&PS);
                    log.set(pos + op.len());
                    let tell = |e: String| format!("operation {k} ({op:?}) of {} ({} bytes each, temporary {tmp:#x}, hint {hint}, big {big}) at offset {pos}: the source was {e}", i, step);
                    let took = op.run(&mut p).map_err(|e| tell(format!("not used properly, the operation failed: {e}")))?;
                    log.verdict().map_err(tell)?;
                    let now = log.pos.get();
                    // a direct slice may be declined, finding F1 says when it is consumed all the same
                    if now != pos + op.len() && (took || now != pos) {
                        return Err(tell(format!("advanced to {now}")));
                    }
                    pos = now;
                }
                w.traces += 1;
                w.trans += (log.calls.get() + depth) as u64;
                w.state(mix(pos as u64) ^ mix(1 + log.calls.get() as u64));
                Ok(())
            }} }
            if big { go!(perf_event_data::endian::Big) } else { go!(CustL) }
        }));
    }
    {
        // values without a frame
        let sets: std::sync::Arc<Vec<u64>> = near_sets(25, t.pick(3, 4)).into();
        let n = sets.len() as u64;
        v.push(suite("samples", format!("{n} sample types with few flags set or clear x full, single or empty parts x 14 ways of delivery x 2 byte orders, no frame"), n * 3 * 14 * 2, move |i, w| {
            let mut c = Ch(i);
            let (step, tmp, hint) = *c.of(&WAYS);
            let big = c.b();
            let sm = [Sm::S, Sm::Z, Sm { nr: 1, cc: 1, raw: 4, lbr: 1, abi_u: 1, abi_i: 0, stack: 8, dyn_: 8, aux: 8 }][c.u(3)];
            let st = *c.of(&sets);
            let cf = Cfg { st, rf: if i & 1 == 0 { rf::ALL } else { rf::ID }, ru: 5, ri: 2, bst: if i & 2 == 0 { BR_HW_INDEX } else { 0 }, ..Default::default() };
            let mut e = Enc::new(big, 3);
            sample(&mut e, &cf, &sm);
            let need = e.v.len();
            e.v.extend([0xC0; 9]);
            value(w, &e.v, need, &cf, big, step, tmp, hint, 0).map_err(|e| format!("sample of type {st:#x} {sm:?}: {e}"))
        }));
        v.push(suite("read_values", "read values and groups of 0..6 counters x 32 formats x 14 ways of delivery x 2 byte orders, no frame", 32 * 7 * 14 * 2, move |i, w| {
            let mut c = Ch(i);
            let (step, tmp, hint) = *c.of(&WAYS);
            let big = c.b();
            let f = c.n(32);
            let nr = c.u(7);
            let cf = Cfg { rf: f, ..Default::default() };
            let mut e = Enc::new(big, 3);
            read(&mut e, f, nr);
            let need = e.v.len();
            e.v.extend([0xC0; 9]);
            value(w, &e.v, need, &cf, big, step, tmp, hint, if f & rf::GROUP != 0 { 2 } else { 1 }).map_err(|e| format!("read_format {f:#x}, {nr} counters: {e}"))
        }));
        let top = t.pick(420u64, 2000);
        v.push(suite("attributes", format!("attribute structs declaring every size up to {top}, valid or with a non-zero tail x 14 ways of delivery x 2 byte orders"), top * 2 * 14 * 2, move |i, w| {
            let mut c = Ch(i);
            let (step, tmp, hint) = *c.of(&WAYS);
            let big = c.b();
            let bad = c.b();
            let size = c.u(top as usize);
            let mut d = c13::serialized(size as u32, big, 4, 9);
            if bad && size > 136 {
                d[size - 1] = 1
            }
            value(w, &d, size.max(8), &Cfg::default(), big, step, tmp, hint, 3).map_err(|e| format!("attributes of size {size}: {e}"))
        }));
        v.push(suite("identities", "sample ids of 64 identity sets and bodies of fixed size x 14 ways of delivery x 2 byte orders, no frame", 72 * 14 * 2, move |i, w| {
            let mut c = Ch(i);
            let (step, tmp, hint) = *c.of(&WAYS);
            let big = c.b();
            let k = c.u(72);
            let bits = [st::TID, st::TIME, st::ID, st::STREAM_ID, st::CPU, st::IDENTIFIER];
            let st = (0..6).filter(|b| k >> b & 1 == 1).map(|b| bits[b]).sum();
            let cf = Cfg { st, sid_all: true, ..Default::default() };
            let mut e = Enc::new(big, 3);
            let kind = if k < 64 {
                trailer(&mut e, &cf);
                4
            } else {
                let ty = [2u32, 4, 5, 7, 11, 12, 13, 21][k - 64];
                body(&mut e, ty, &cf, &N0);
                100 + ty
            };
            let need = e.v.len();
            e.v.extend([0xC0; 9]);
            value(w, &e.v, need, &cf, big, step, tmp, hint, kind).map_err(|e| format!("identity set {k} / type {kind}: {e}"))
        }));
    }
    {
        // failing sources, no frame
        let sets: std::sync::Arc<Vec<u64>> = near_sets(25, t.pick(1, 2)).into();
        let n = sets.len() as u64;
        let calls = t.pick(64u64, 160);
        v.push(suite("failing_values", format!("{n} sample types (full, single or empty parts), 32 read formats, 12 attribute sizes, 64 identity sets and 8 fixed bodies without a frame, in pieces of 1, 4, 8 or 24 bytes x the n-th request (n < {calls}) fails x borrowed or temporary: nothing is asked of a failed source"), (n * 3 + 32 + 12 + 72) * 4 * 2 * calls, move |i, w| {
            let mut c = Ch(i);
            let fail = c.n(calls) as u32;
            let step = *c.of(&[1usize, 4, 8, 24]);
            let tmp = if c.b() { u64::MAX } else { 0 };
            let big = i & 3 == 1;
            let mut x = c.0;
            let mut e = Enc::new(big, 3);
            let mut cf = Cfg { rf: if i & 1 == 0 { rf::ALL } else { rf::ID }, ru: 5, ri: 2, bst: BR_HW_INDEX, ..Default::default() };
            let kind = if x < n * 3 {
                cf.st = sets[(x / 3) as usize];
                let sm = [Sm::S, Sm::Z, Sm { nr: 1, cc: 1, raw: 5, lbr: 1, abi_u: 1, abi_i: 0, stack: 8, dyn_: 8, aux: 8 }][(x % 3) as usize];
                sample(&mut e, &cf, &sm);
                0
            } else {
                x -= n * 3;
                if x < 32 {
                    cf.rf = x;
                    read(&mut e, x, 3);
                    if x & rf::GROUP != 0 { 2 } else { 1 }
                } else if x < 44 {
                    let size = [0, 8, 9, 64, 71, 72, 112, 120, 128, 136, 137, 150][x as usize - 32];
                    e.v = c13::serialized(size, big, 4, 9);
                    e.v.truncate((size as usize).max(8));
                    3
                } else if x < 108 {
                    let bits = [st::TID, st::TIME, st::ID, st::STREAM_ID, st::CPU, st::IDENTIFIER];
                    cf.st = (0..6).filter(|b| (x - 44) >> b & 1 == 1).map(|b| bits[b]).sum();
                    cf.sid_all = true;
                    trailer(&mut e, &cf);
                    4
                } else {
                    let ty = [2u32, 4, 5, 7, 11, 12, 13, 21][x as usize - 108];
                    body(&mut e, ty, &cf, &N0);
                    100 + ty
                }
            };
            let need = e.v.len();
            e.v.extend([0xC0; 9]);
            value_failing(w, &e.v, need, &cf, big, step, tmp, fail & 1 == 0, kind, Some(fail)).map_err(|m| format!("value of kind {kind}, {cf:x?}: {m}"))
        }));
        let n = PS.len() as u64;
        v.push(suite("failing_primitives", format!("all pairs of {n} parser operations and then a third x 8 ways of delivery x the n-th request (n < 24) fails x 2 byte orders: nothing is asked of a failed source"), n * n * n * 8 * 24 * 2, move |i, w| {
            let mut c = Ch(i);
            let fail = c.n(24) as u32;
            let (step, tmp, hint) = WAYS[[0, 1, 3, 4, 7, 8, 9, 12][c.u(8)]];
            let big = c.b();
            let d: [u8; 64] = std::array::from_fn(|i| i as u8);
            let mut at = [0; 64];
            let k = cuts_of(step, d.len(), &mut at);
            let ops = [*c.of(&PS), *c.of(&PS), *c.of(&PS)];
            let mut need = 0;
            let mut run = |p: &mut dyn FnMut(P) -> ParseResult<bool>, log: &Log| -> R {
                for op in ops {
                    need += op.len();
                    log.set(need);
                    let r = p(op);
                    log.verdict().map_err(|e| format!("{ops:?} in pieces of {step} (temporary {tmp:#x}, hint {hint}, big {big}), request {fail} fails: the source was {e}"))?;
                    if r.is_err() || log.dead.get() {
                        if r.is_ok() {
                            return Err(format!("{ops:?} in pieces of {step} (temporary {tmp:#x}, hint {hint}, big {big}): {op:?} succeeded although request {fail} of the source failed"));
                        }
                        break;
                    }
                    need = log.pos.get();
                }
                Ok(())
            };
            let seen = Cell::new(Seen::default());
            let log = Log::default();
            let mut src = ChunkSrc::new(&d, &at[..k], tmp, hint, &seen);
            src.fail = Some((fail, Fault::Marker));
            let mon = Mon::new(src, &log);
            let r = if big {
                let mut p = Parser::new(mon, config(&Cfg::default(), perf_event_data::endian::Big));
                run(&mut |o| o.run(&mut p), &log)
            } else {
                let mut p = Parser::new(mon, config(&Cfg::default(), CustL));
                run(&mut |o| o.run(&mut p), &log)
            };
            w.traces += 1;
            w.trans += log.calls.get() as u64 + 3;
            w.state(mix(log.pos.get() as u64) ^ mix(1 + log.calls.get() as u64));
            r
        }));
    }
    // ---------------------------------------------------------------- the crate's own sources
    let depth = t.pick(6u32, 8);
    v.push(suite("slices", format!("byte slices of 0..6 bytes under every sequence of {depth} of {{chunk, hint, advance 0, 1, 2, 3}}: chunks are the rest in place, never empty, and the hint is exact"), 7 * 6u64.pow(depth), move |i, w| {
        let mut c = Ch(i);
        let n = c.u(7);
        let d = &[1u8, 2, 3, 4, 5, 6][..n];
        let mut s: &[u8] = d;
        let mut pos = 0;
        w.traces += 1;
        for _ in 0..depth {
            w.trans += 1;
            match c.u(6) {
                0 => match ParseBuf::chunk(&mut s) {
                    Ok(ParseBufChunk::External(x)) if !x.is_empty() && std::ptr::eq(x, &d[pos..]) => (),
                    Err(e) if e.kind() == ErrorKind::Eof && pos == n => (),
                    r => return Err(format!("slice of {n} bytes at offset {pos}: chunk is {:?}", r.map_err(|e| e.to_string()))),
                },
                1 => {
                    if ParseBuf::remaining_hint(&s).is_some_and(|h| h != n - pos) {
                        return Err(format!("slice of {n} bytes at offset {pos}: the hint is {:?}", ParseBuf::remaining_hint(&s)));
                    }
                }
                k => {
                    let k = k - 2;
                    if pos + k > n {
                        break;
                    }
                    ParseBuf::advance(&mut s, k);
                    pos += k;
                }
            }
        }
        w.state((n * 10 + pos) as u64);
        Ok(())
    }));
    let depth2 = t.pick(6u32, 7);
    v.push(suite("readers", format!("buffered readers of capacity 0..4 over 0..7 bytes read 1, 2 or many at a time, under every sequence of {depth2} of {{chunk, chunk twice, hint, advance 0, 1, all lent}}: chunks are the next bytes, not empty, the same until advanced, and a hint would be exact"), 5 * 8 * 3 * 6u64.pow(depth2), move |i, w| {
        let mut c = Ch(i);
        let cap = c.u(5);
        let n = c.u(8);
        let plan = [&[1usize][..], &[2], &[]][c.u(3)];
        let d = &[1u8, 2, 3, 4, 5, 6, 7][..n];
        let fired = Cell::new(0);
        if cap == 0 {
            return Ok(());
        }
        let mut s = BufReader::with_capacity(cap, PlanRead::new(d, plan, &fired));
        let mut pos = 0;
        let mut lent = 0;
        w.traces += 1;
        let at = |m: String, pos: usize| format!("buffered reader of capacity {cap} over {n} bytes, reads {plan:?}, offset {pos}: {m}");
        for _ in 0..depth2 {
            w.trans += 1;
            let op = c.u(6);
            match op {
                0 | 1 => {
                    for _ in 0..op + 1 {
                        match ParseBuf::chunk(&mut s) {
                            Ok(x) if !x.is_empty() && d[pos..].starts_with(&x) && x.len() >= lent => {
                                if matches!(x, ParseBufChunk::External(_)) {
                                    return Err(at("its buffer was lent as caller-owned".into(), pos));
                                }
                                lent = x.len()
                            }
                            Err(e) if e.kind() == ErrorKind::Eof && pos == n => (),
                            r => return Err(at(format!("chunk is {:?} after one of {lent} bytes", r.map(|x| x.to_vec()).map_err(|e| e.to_string())), pos)),
                        }
                    }
                }
                2 => {
                    if ParseBuf::remaining_hint(&s).is_some_and(|h| h != n - pos) {
                        return Err(at(format!("the hint is {:?}", ParseBuf::remaining_hint(&s)), pos));
                    }
                }
                k => {
                    let k = [0, 1, lent][k - 3];
                    if k > lent {
                        break;
                    }
                    ParseBuf::advance(&mut s, k);
                    pos += k;
                    lent -= k;
                }
            }
        }
        w.state((cap * 1000 + n * 10 + pos) as u64);
        Ok(())
    }));
    // the body parser's idea of what is left shows in what it reserves
    v.push(suite("reservations", "parsers over a slice, over chunks with a hint and the body parser of a record of 8 sizes up to 65535 bytes, after 40 amounts were read in pieces of 2 sizes: what is reserved for 5 counts of elements of 4 sizes is at most what is left, or 16 KiB; x borrowed or temporary", 3 * 8 * 40 * 2 * 5 * 4 * 2, move |i, w| {
        let mut c = Ch(i);
        let size = *c.of(&[1usize, 8, 24, 1000]);
        let n = *c.of(&[0usize, 3, 5000, 1 << 20, usize::MAX]);
        let tmp = if c.b() { u64::MAX } else { 0 };
        let whole = c.b();
        let k = c.u(40);
        let total = *c.of(&[8usize, 100, 16384, 20000, 33000, 40000, 65000, 65527]);
        let kind = c.u(3);
        let skip = if k < 32 { total * k / 32 } else { total.saturating_sub([0, 1, 7, 8, 100, 1000, 9000, 15000][k - 32]) };
        let mut e = Enc::new(false, 0);
        framed(&mut e, 1000, 0, |e| e.v.resize(8 + total, 3));
        let d = &e.v[if kind == 2 { 0 } else { 8 }..];
        let cf = Cfg::default();
        let cuts: Vec<usize> = (1..).map(|j| j * 9000).take_while(|p| *p < d.len()).collect();
        let seen = Cell::new(Seen::default());
        fn at<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, skip: usize, whole: bool, size: usize, n: usize) -> ParseResult<usize> {
            if whole {
                p.parse_bytes(skip)?;
            } else {
                for _ in 0..skip / 1000 {
                    p.parse_bytes(1000)?;
                }
                p.parse_bytes(skip % 1000)?;
            }
            Ok(reserved(p, size, n))
        }
        let r = match kind {
            0 => at(&mut Parser::new(d, config(&cf, CustL)), skip, whole, size, n),
            1 => at(&mut Parser::new(ChunkSrc::new(d, &cuts, tmp, true, &seen), config(&cf, CustL)), skip, whole, size, n),
            _ => {
                let mut p = Parser::new(ChunkSrc::new(d, &cuts, tmp, false, &seen), config(&cf, CustL));
                p.parse_metadata().and_then(|(mut b, _)| at(&mut b, skip, whole, size, n))
            }
        };
        w.traces += 1;
        w.trans += 2;
        let used = r.map_err(|e| format!("refused: {e}"))?;
        w.state(mix(used as u64));
        let left = total - skip;
        let bound = left.max(16 << 10).min(n.saturating_mul(size)) + 1024;
        if used > bound {
            return Err(format!("{} with {left} of {total} bytes left (temporary chunks: {}): {used} bytes were reserved for {n} elements of {size} bytes, bound {bound}", ["a slice", "a source with a hint", "the body parser of a record"][kind], tmp != 0));
        }
        Ok(())
    }));
    v
}

/// Passes a reader on by reference.
struct By<'a, R>(&'a mut BufReader<R>);
unsafe impl<'p, R: std::io::Read> ParseBuf<'p> for By<'_, R> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        ParseBuf::chunk(self.0)
    }
    fn advance(&mut self, n: usize) {
        ParseBuf::advance(self.0, n)
    }
    fn remaining_hint(&self) -> Option<usize> {
        ParseBuf::remaining_hint(self.0)
    }
}

/// A value that ends where its own contents say.
#[allow(clippy::too_many_arguments)]
fn value(w: &mut W, d: &[u8], need: usize, cf: &Cfg, big: bool, step: usize, tmp: u64, hint: bool, kind: u32) -> R {
    value_failing(w, d, need, cf, big, step, tmp, hint, kind, None)
}
#[allow(clippy::too_many_arguments)]
fn value_failing(w: &mut W, d: &[u8], need: usize, cf: &Cfg, big: bool, step: usize, tmp: u64, hint: bool, kind: u32, fail: Option<u32>) -> R {
    let mut at = [0; 4096];
    let k = cuts_of(step, d.len(), &mut at);
    fn go<'p, B: ParseBuf<'p>, E: Endian>(mut p: Parser<B, E>, kind: u32) -> ParseResult<()> {
        match kind {
            0 => drop(p.parse::<Sample>()?),
            1 => drop(p.parse::<ReadValue>()?),
            2 => drop(p.parse::<ReadGroup>()?),
            3 => drop(p.parse::<perf_event_attr>()?),
            4 => drop(p.parse::<SampleId>()?),
            k => {
                let mut o = Dump::default();
                typed(&mut p, k - 100, &mut o)?
            }
        }
        Ok(())
    }
    if fail.is_some_and(|n| n as usize > k + 2) {
        return Ok(());
    }
    let r = if big {
        watch(w, d, &at[..k], tmp, hint, fail, need, &mut |m| go(Parser::new(m, config(cf, perf_event_data::endian::Big)), kind))
    } else {
        watch(w, d, &at[..k], tmp, hint, fail, need, &mut |m| go(Parser::new(m, config(cf, CustL)), kind))
    };
    r.map_err(|e| format!("the source was {e}\n failing {fail:?}, big {big}, pieces of {step}, temporary {tmp:#x}, hint {hint}, config {cf:x?}\n input {}", crate::dump::hex(d, 300)))
}
