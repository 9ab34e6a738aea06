//! C21: parsers share nothing: what a parse yields does not depend on what else was, is or will be parsed.
use super::c04::many;
use crate::dump::{self, Dump};
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::{self, *};
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_data::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- scheduling points

type Hook = *const dyn Fn(u32);
thread_local! {
    static HOOK: Cell<Option<Hook>> = const { Cell::new(None) };
    static EVENTS: Cell<u32> = const { Cell::new(0) };
}
/// Called wherever the parser calls into user code (source, byte order).
fn event() {
    if let Some(h) = HOOK.take() {
        let n = EVENTS.get();
        EVENTS.set(n + 1);
        unsafe { (*h)(n) };
        HOOK.set(Some(h));
    }
}
/// Run `f` with `h` called at each event; returns the number of events too.
fn hooked<T>(h: &dyn Fn(u32), f: impl FnOnce() -> T) -> (T, u32) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            HOOK.set(None)
        }
    }
    let _off = Off;
    EVENTS.set(0);
    HOOK.set(Some(unsafe { std::mem::transmute::<*const (dyn Fn(u32) + '_), Hook>(h as *const _) }));
    let r = f();
    (r, EVENTS.get())
}

/// A byte order whose conversions are scheduling points.
#[derive(Clone)]
struct HookE(bool);
unsafe impl Endian for HookE {
    fn convert_u16(&self, b: [u8; 2]) -> u16 {
        event();
        if self.0 { u16::from_be_bytes(b) } else { u16::from_le_bytes(b) }
    }
    fn convert_u32(&self, b: [u8; 4]) -> u32 {
        event();
        if self.0 { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }
    }
    fn convert_u64(&self, b: [u8; 8]) -> u64 {
        event();
        if self.0 { u64::from_be_bytes(b) } else { u64::from_le_bytes(b) }
    }
}
/// A source whose calls are scheduling points.
struct HookSrc<'p, 's>(ChunkSrc<'p, 's>);
unsafe impl<'p> ParseBuf<'p> for HookSrc<'p, '_> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        event();
        self.0.chunk()
    }
    fn advance(&mut self, n: usize) {
        self.0.advance(n);
        event()
    }
    fn remaining_hint(&self) -> Option<usize> {
        self.0.remaining_hint()
    }
}

/// A record with what the model says about it.
struct Job {
    name: String,
    le: Vec<u8>,
    be: Vec<u8>,
    cfg: Cfg,
}
fn job(s: &Shape) -> Job {
    Job { name: s.name.clone(), le: s.bytes(false), be: s.bytes(true), cfg: s.cfg }
}
fn raw(name: &str, ty: u32, cfg: Cfg, f: impl Fn(&mut Enc)) -> Job {
    let mk = |big| {
        let mut e = Enc::new(big, 77);
        framed(&mut e, ty, 0, |e| f(e));
        e.v
    };
    Job { name: name.into(), le: mk(false), be: mk(true), cfg }
}
fn jobs() -> Vec<Job> {
    let mut v: Vec<Job> = shapes().iter().map(job).collect();
    v.extend(bad());
    v
}
/// Records which are refused, each at another point.
fn bad() -> Vec<Job> {
    let c = Cfg { st: st::TID | st::CALLCHAIN | st::RAW | st::IDENTIFIER, rf: RF1, sid_all: true, ..Default::default() };
    let mut v = vec![
        raw("LOST too short", 2, c, |e| e.fill(3)),
        raw("LOST without its trailer", 2, Cfg { sid_all: false, ..c }, |e| e.fill(10)),
        raw("SAMPLE with a hostile callchain", 9, c, |e| { e.u64(7); e.u64(1); e.u64(1 << 40); e.u64(5) }),
        raw("NAMESPACES cut off", 16, Cfg { sid_all: false, ..c }, |e| { e.u64(7); e.u64(3); e.fill(20) }),
        raw("SAMPLE cut off in its raw data", 9, c, |e| { e.u64(7); e.u64(1); e.u64(0); e.u32(40); e.fill(12) }),
    ];
    let mut b = raw("size 7", 2, c, |_| ());
    for (d, x) in [(&mut b.le, [7u8, 0]), (&mut b.be, [0, 7])] {
        d[6..8].copy_from_slice(&x)
    }
    v.push(b);
    let mut b = raw("ends early", 3, c, |e| e.fill(40));
    b.le.truncate(30);
    b.be.truncate(30);
    v.push(b);
    v
}
/// A small set of records that differ in everything a parser could remember.
fn few() -> Vec<Job> {
    let c1 = Cfg { rf: RF1, sid_all: true, st: SID, ..Default::default() };
    let c0 = Cfg { rf: RF1, ..Default::default() };
    let cs = Cfg { st: st::TID | st::READ | st::CALLCHAIN | st::RAW | st::REGS_USER, rf: rf::GROUP | rf::ID, ru: 5, ..Default::default() };
    let cx = Cfg { st: st::TID | st::READ | st::CALLCHAIN | st::RAW | st::REGS_USER, rf: rf::ID | rf::TE, ru: 2, ..Default::default() };
    let mk = |name: &str, ty, misc, cfg, body| job(&Shape { name: name.into(), ty, misc, cfg, body });
    let mut v = vec![
        mk("LOST+id", 2, 0, c1, N0),
        mk("COMM", 3, 1 << 13, c0, Body::N { name: 5, pad: 3 }),
        mk("MMAP2 with build id +id", 10, 1 << 14, c1, Body::Build { len: 20, name: 3, pad: 1 }),
        mk("MMAP2", 10, 0, c0, Body::N { name: 9, pad: 2 }),
        mk("SWITCH_CPU_WIDE out", 15, 1 << 13, c0, N0),
        mk("SWITCH_CPU_WIDE in +id", 15, 0, c1, N0),
        mk("TEXT_POKE", 20, 0, c0, Body::Text { old: 3, new: 6 }),
        mk("SAMPLE, group", 9, 2, cs, Body::Sample(Sm { nr: 2, cc: 2, raw: 5, ..Sm::Z })),
        mk("SAMPLE, single", 9, 1, cx, Body::Sample(Sm { nr: 1, cc: 1, raw: 13, ..Sm::Z })),
        mk("READ+id", 8, 0, c1, N0),
        mk("NAMESPACES", 16, 0, c0, Body::Ns(2)),
        mk("unknown", 0x1234, 0xffff, c0, Body::N { name: 7, pad: 0 }),
    ];
    v.extend(bad().into_iter().skip(2).take(2));
    v
}
impl Job {
    fn get(&self, big: bool) -> &[u8] {
        if big { &self.be } else { &self.le }
    }
    /// Ask for the record in way `k` (byte order x interface x source) and compare with the model.
    fn go(&self, w: &mut W, k: Way, what: &dyn Fn() -> String) -> R {
        let (ek, api, src) = k;
        let d = self.get(ek.big());
        if api.hdr() && d.len() < 8 {
            return Ok(());
        }
        let n = d.len() - if api.hdr() { 8 } else { 0 };
        many(src, n, &mut |s| check(w, d, &self.cfg, ek, api, s, Allow::default(), &|| format!("{}: {}", what(), self.name)))
    }
}
type Way = (EK, Api, usize);
/// Every byte order, interface and kind of source occurs.
const WAYS: [Way; 8] = [
    (EK::Native, Api::Visit, 0),
    (EK::Big, Api::Rec, 0),
    (EK::Native, Api::Meta, 9),
    (EK::DynL, Api::RecH, 8),
    (EK::CustB, Api::VisitH, 4),
    (EK::CustL, Api::MetaH, 7),
    (EK::DynB, Api::Visit, 6),
    (EK::Native, Api::Rec, 12),
];

/// Like `ask`, on hooked source and byte order; `o` receives what was yielded.
fn hooked_parse(d: &[u8], c: &Cfg, big: bool, api: Option<Api>, src: usize, o: &mut Dump) -> Ran {
    let seen = Cell::new(Seen::default());
    let h = if api.is_none_or(|a| a.hdr()) { peek(d, big) } else { None };
    let body = if h.is_some() { &d[8..] } else { d };
    let cuts: Vec<usize> = (1..).map(|j| j * 13).take_while(|p| *p < body.len()).collect();
    let cuts: &[usize] = if src == 0 { &[] } else { &cuts };
    let s = ChunkSrc::new(body, cuts, if src == 2 { u64::MAX } else { 0 }, src == 0, &seen);
    let mut p = Parser::new(HookSrc(s), config(c, HookE(big)));
    let r = match api {
        Some(api) => ask(&mut p, api, h, o),
        None => {
            o.clear();
            typed(&mut p, h.unwrap().0, o)
        }
    };
    let left = body.len() - seen.get().pos;
    match r {
        Ok(()) => Ran { err: 0, left, tail_ok: true, msg: String::new() },
        Err(e) => Ran { err: kind(&e), left, tail_ok: true, msg: e.to_string() },
    }
}
/// The model's verdict about a hooked parse.
fn judge(w: &mut W, j: &Job, big: bool, api: Option<Api>, got: &Ran, o: &Dump) -> R {
    let d = j.get(big);
    let h = if api.is_none_or(|a| a.hdr()) { peek(d, big) } else { None };
    let body = if h.is_some() { &d[8..] } else { d };
    let mut a = std::mem::take(&mut w.a);
    let m = match api {
        Some(api) => spec::frame(body, 0, h, &j.cfg, big, api.view(), Opt::default(), &mut a),
        None => {
            a.clear();
            let mut m = Spec::new(body, big);
            let r = m.body(h.unwrap().0, 0, &j.cfg, &mut a);
            spec::Out { err: r.err().unwrap_or(0), used: r.is_ok().then_some(m.pos), steps: m.steps, quirk: false }
        }
    };
    w.trans += m.steps;
    w.traces += 1;
    w.state(if m.err != 0 { m.err as u64 } else { a.hash() });
    let ok = if m.err == 0 { got.err == 0 && a == *o } else { got.err & m.err != 0 };
    let pos = m.used.is_none_or(|u| got.left == body.len() - u);
    let r = if ok && pos {
        Ok(())
    } else {
        Err(format!(
            "{}\n config {:x?}\n input {}\n model: {}\n implementation: {} ({} bytes left)",
            j.name, j.cfg, dump::hex(d, 512),
            if m.err == 0 { a.show() } else { spec::errs(m.err) },
            if got.err == 0 { o.show() } else { format!("{} ({})", spec::errs(got.err), got.msg) }, got.left
        ))
    };
    w.a = a;
    r
}

// ---------------------------------------------------------------- two threads under a scheduler

/// Who may run, and after how many of its calls into user code the turn changes.
struct Baton {
    turn: AtomicUsize,
    done: [AtomicBool; 2],
    plan: Mutex<Vec<u32>>,
}
impl Baton {
    fn wait(&self, me: usize) {
        let mut n = 0u32;
        while self.turn.load(SeqCst) != me {
            n += 1;
            if n % 64 == 0 { std::thread::yield_now() } else { std::hint::spin_loop() }
        }
    }
    fn step(&self, me: usize) {
        let mut p = self.plan.lock().unwrap();
        let Some(n) = p.last_mut() else { return };
        if *n > 0 {
            *n -= 1;
            return;
        }
        p.pop();
        drop(p);
        if !self.done[1 - me].load(SeqCst) {
            self.turn.store(1 - me, SeqCst);
            self.wait(me)
        }
    }
}

/// Both jobs, each on a thread of its own, under every given schedule in turn.
fn threads(w: &mut W, j: [&Job; 2], big: [bool; 2], api: [Option<Api>; 2], src: [usize; 2], plans: &[Vec<u32>]) -> R {
    let b = Baton { turn: AtomicUsize::new(0), done: [false.into(), false.into()], plan: Mutex::new(vec![]) };
    let me = identity();
    let quit = AtomicBool::new(false);
    let theirs = Mutex::new(Ok(()));
    let one = |t: usize, w: &mut W, b: &Baton| {
        as_identity(me, || {
            let mut o = Dump::default();
            let (g, _) = hooked(&|_| b.step(t), || hooked_parse(j[t].get(big[t]), &j[t].cfg, big[t], api[t], src[t], &mut o));
            judge(w, j[t], big[t], api[t], &g, &o)
        })
    };
    let mut n = W::scratch();
    let res = std::thread::scope(|s| {
        let (b, quit, theirs, one, n) = (&b, &quit, &theirs, &one, &mut n);
        s.spawn(move || loop {
            b.wait(1);
            if quit.load(SeqCst) {
                return;
            }
            let r = one(1, n, b);
            *theirs.lock().unwrap() = r;
            b.done[1].store(true, SeqCst);
            b.turn.store(0, SeqCst);
        });
        let mut res = Ok(());
        for plan in plans {
            *b.plan.lock().unwrap() = plan.iter().rev().copied().collect();
            b.done.iter().for_each(|d| d.store(false, SeqCst));
            let r = one(0, w, b);
            b.done[0].store(true, SeqCst);
            if !b.done[1].load(SeqCst) {
                b.turn.store(1, SeqCst);
                b.wait(0);
            }
            w.trans += plan.len() as u64;
            let r2 = std::mem::replace(&mut *theirs.lock().unwrap(), Ok(()));
            for (t, r) in [r, r2].into_iter().enumerate() {
                if let (Ok(()), Err(e)) = (&res, r) {
                    res = Err(format!("two threads, thread {t} ({:?} and {:?}, {api:?}) with context switches after {plan:?} calls into user code: {e}", j[0].name, j[1].name));
                }
            }
            if res.is_err() {
                break;
            }
        }
        quit.store(true, SeqCst);
        b.turn.store(1, SeqCst);
        res
    });
    w.trans += n.trans;
    w.traces += n.traces;
    res
}
/// How many events a job has (used only to leave out repetitions).
fn events(j: &Job, big: bool, api: Option<Api>, src: usize) -> u32 {
    let mut o = Dump::default();
    hooked(&|_| (), || hooked_parse(j.get(big), &j.cfg, big, api, src, &mut o)).1
}

/// Carry something to another thread whatever the compiler thinks about it.
struct Move<T>(T);
unsafe impl<T> Send for Move<T> {}
impl<T> Move<T> {
    fn get(self) -> T {
        self.0
    }
}
fn away<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let f = Move(f);
    let me = identity();
    let mut out = Move(None);
    {
        let out = Move(&mut out.0);
        std::thread::scope(|s| {
            s.spawn(move || {
                let (f, out) = (f, out);
                as_identity(me, || {
                    *out.get() = Some(f.get()());
                    Ok(())
                })
            })
            .join()
            .unwrap_or_else(|_| Err("a thread died".into()))
        })?;
    }
    Ok(out.0.unwrap())
}

/// Is a type Send / Sync? (decided without failing to compile)
macro_rules! auto { ($v:ident: $($t:ty),* $(,)?) => { $({
    trait No { const S: bool = false; }
    impl<T: ?Sized> No for T {}
    #[allow(dead_code)]
    struct A<T: ?Sized>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    impl<T: ?Sized + Send> A<T> { const S: bool = true; }
    #[allow(dead_code)]
    struct B<T: ?Sized>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    impl<T: ?Sized + Sync> B<T> { const S: bool = true; }
    $v.push((stringify!($t), <A<$t>>::S, <B<$t>>::S));
})* } }
pub(crate) use auto;
/// The same for the type of a value whose type has no name.
struct Of<T>(std::marker::PhantomData<T>);
fn of<T>(_: &T) -> Of<T> {
    Of(std::marker::PhantomData)
}
trait YesSend { fn is_send(&self) -> bool { true } }
trait NoSend { fn is_send(&self) -> bool { false } }
trait YesSync { fn is_sync(&self) -> bool { true } }
trait NoSync { fn is_sync(&self) -> bool { false } }
impl<T: Send> YesSend for Of<T> {}
impl<T> NoSend for &Of<T> {}
impl<T: Sync> YesSync for Of<T> {}
impl<T> NoSync for &Of<T> {}
macro_rules! auto_of { ($v:ident $n:literal $x:expr) => { $v.push(($n, (&of($x)).is_send(), (&of($x)).is_sync())) } }

fn autos() -> Vec<(&'static str, bool, bool)> {
    let mut v = vec![];
    let d = raw("", 2, Cfg::default(), |e| e.fill(16)).le;
    let c = || config(&Cfg::default(), Little);
    let mut p = Parser::new(&d[..], c());
    if let Ok((q, md)) = p.parse_metadata() {
        auto_of!(v "the body parser of a slice" &q);
        auto_of!(v "its metadata" &md);
    }
    let mut p = Parser::new(std::io::BufReader::new(&d[..]), c());
    auto_of!(v "the parser of a reader" &p);
    if let Ok((q, _)) = p.parse_metadata() {
        auto_of!(v "the body parser of a reader" &q);
    }
    let h = peek(&d, false).unwrap();
    let mut p = Parser::new(&d[8..], c());
    if let Ok((q, _)) = p.parse_metadata_with_header(header(h)) {
        auto_of!(v "the body parser after a header" &q);
    }
    auto!(v: Record<'static>, Mmap<'static>, Mmap2<'static>, Lost, Comm<'static>, Exit, Throttle, Read, Sample<'static>, Aux, ITraceStart, LostSamples,
        SwitchCpuWide, Namespaces<'static>, KSymbol<'static>, BpfEvent, CGroup<'static>, TextPoke<'static>, AuxOutputHwId, SampleId, RecordMetadata,
        ReadValue, ReadGroup<'static>, GroupEntry, GroupIter<'static>, ParseError, ParseConfig<Little>, ParseConfig<Dynamic>, Parser<&'static [u8], Native>,
        Parser<std::io::BufReader<std::io::Empty>, Big>, ParseBufChunk<'static, 'static>, Registers<'static>, BranchEntry, DataSource);
    v
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let all: Arc<Vec<Job>> = jobs().into();
    let n = all.len() as u64;
    let nw = t.pick(4u64, 8);
    {
        let all = all.clone();
        v.push(suite("pairs", format!("each on a fresh thread: one of {n} records A (refused ones included) first and again after every other record B, so that every ordered pair occurs both ways round, x {nw} x {nw} combinations of byte order, interface and source for A and B"), n * nw * nw, move |i, w| {
            let mut c = Ch(i);
            let (ka, kb) = (c.u(nw as usize), c.u(nw as usize));
            let a = c.of(&all);
            // in the quick tier every other record takes the other half of the ways
            let sh = if nw == 4 { 4 * (i / 16 % 2) as usize } else { 0 };
            fresh(w, |w| {
                let ka = WAYS[(ka + sh) % 8];
                a.go(w, ka, &|| format!("first parse of a thread ({ka:?})"))?;
                for (n, b) in all.iter().enumerate() {
                    let kb = WAYS[(kb + if nw == 4 { 4 * (n % 2) } else { 0 }) % 8];
                    b.go(w, kb, &|| format!("after {} ({ka:?})", a.name))?;
                    a.go(w, ka, &|| format!("again, after {} ({kb:?})", b.name))?
                }
                Ok(())
            })
        }));
    }
    {
        // what is remembered for the whole process: every record is once the very first thing that is parsed
        let all = all.clone();
        v.push(suite("processes", format!("each in a process of its own: one of {n} records first (8 ways: byte order, interface, source), then all {n} records in all 8 ways, then the first again"), n * 8, move |i, w| {
            if std::env::var_os("MC_CHILD").is_none() {
                return in_process("C21", t, "processes", i, w);
            }
            let mut c = Ch(i);
            let ka = *c.of(&WAYS);
            let a = c.of(&all);
            a.go(w, ka, &|| format!("first parse of a process ({ka:?})"))?;
            for b in all.iter() {
                for kb in WAYS {
                    b.go(w, kb, &|| format!("in a process that parsed {} ({ka:?}) first", a.name))?
                }
            }
            a.go(w, ka, &|| format!("again, at the end of the process ({ka:?})"))
        }));
    }
    {
        // counters: a record is parsed more often than 16 bits can count
        let all = all.clone();
        let (times, ways) = (t.pick(66_000u32, 140_000), t.pick(2u64, 4));
        v.push(suite("repetitions", format!("each in a process of its own: one of {n} records (refused ones included) {times} times in a row, {ways} ways (byte order, interface, source), then all {n} records once"), n * ways, move |i, w| {
            if std::env::var_os("MC_CHILD").is_none() {
                return in_process("C21", t, "repetitions", i, w);
            }
            let mut c = Ch(i);
            let k = c.u(ways as usize);
            let a = c.of(&all);
            let way = WAYS[if ways == 2 { (4 * k + i as usize / 2) % 8 } else { k }];
            for n in 0..times {
                a.go(w, way, &|| format!("parsed for the {}. time in a row ({way:?})", n + 1))?
            }
            for b in all.iter() {
                b.go(w, way, &|| format!("in a process that parsed {} {times} times ({way:?}) first", a.name))?
            }
            Ok(())
        }));
    }
    let fw: Arc<Vec<Job>> = few().into();
    let nf = fw.len() as u64;
    {
        let fw = fw.clone();
        let (deep, ways) = (3u32, t.pick(2u64, 4));
        v.push(suite("sequences", format!("each on a fresh thread: every sequence of {deep} parses out of {nf} records x {ways} ways"), (nf * ways).pow(deep), move |i, w| {
            let mut c = Ch(i);
            fresh(w, |w| {
                let mut past = String::new();
                for _ in 0..deep {
                    let k = WAYS[[0, 4, 1, 2][c.u(ways as usize)]];
                    let j = c.of(&fw);
                    j.go(w, k, &|| format!("after [{past}]"))?;
                    past += &format!("{} {k:?}; ", j.name);
                }
                Ok(())
            })
        }));
    }
    {
        // configurations that differ in a single bit
        let sh: Arc<Vec<Shape>> = shapes().into();
        let n = sh.len() as u64;
        const NEAR: usize = 25 + 5 + 1 + 2 + 8 + 8;
        v.push(suite("near_configs", format!("each on a fresh thread: one of {n} records under its configuration, then in turn under each of the {NEAR} configurations that differ in one bit (25 sample types, 5 read formats, sample_id_all, 2 branch bits, 8 + 8 register bits) and again under the first, with estimate_len each time; the same bytes or those the kernel would write then x 8 ways"), n * 2 * 8, move |i, w| {
            let mut c = Ch(i);
            let k = *c.of(&WAYS);
            let rewrite = c.b();
            let s = c.of(&sh);
            let a = job(s);
            let est = |c: &Cfg| {
                let (e, want) = (SampleId::estimate_len(&config(c, Native)), c.trailer());
                if e == want { Ok(()) } else { Err(format!("estimate_len = {e} instead of {want} for {c:x?}, asked next to {:x?}", s.cfg)) }
            };
            fresh(w, |w| {
                a.go(w, k, &|| "first configuration".into())?;
                est(&a.cfg)?;
                for bit in 0..NEAR {
                    let mut cf = s.cfg;
                    match bit {
                        0..25 => cf.st ^= 1 << bit,
                        25..30 => cf.rf ^= 1 << (bit - 25),
                        30 => cf.sid_all ^= true,
                        31 => cf.bst ^= BR_HW_INDEX,
                        32 => cf.bst ^= 1,
                        33..41 => cf.ru ^= 1 << ((bit - 33) * 9 % 64),
                        _ => cf.ri ^= 1 << ((bit - 41) * 9 % 64),
                    }
                    let mut b = if rewrite { job(&Shape { cfg: cf, ..s.clone() }) } else { job(s) };
                    b.cfg = cf;
                    b.go(w, k, &|| format!("one bit differs ({bit}) from the configuration used before"))?;
                    est(&b.cfg)?;
                    a.go(w, k, &|| "the first configuration again".into())?;
                    est(&a.cfg)?
                }
                Ok(())
            })
        }));
    }
    {
        // B runs as a whole inside each call that A makes into user code
        let (all, fw) = (all.clone(), fw.clone());
        const EV: usize = 192;
        v.push(suite("nested", format!("{n} records A x every call A's parse makes into its source or byte order (up to {EV}): there a whole parse of each of {nf} records B happens in each of 8 ways (byte order, interface, source) in turn, and as a bare body in 4 ways, x 3 sources x 3 interfaces or as a bare body"), n * nf * EV as u64 * 12, move |i, w| {
            let mut c = Ch(i);
            let at = c.u(EV) as u32;
            let api = *c.of(&[Some(Api::Visit), Some(Api::Rec), Some(Api::Meta), None]);
            let src = c.u(3);
            let b = c.of(&fw);
            let a = c.of(&all);
            if api.is_none() && a.le.len() < 8 {
                return Ok(());
            }
            let big = (at + src as u32) % 2 == 1;
            thread_local! { static KNOWN: Cell<(usize, u32)> = const { Cell::new((usize::MAX, 0)) } }
            let id = (a as *const Job as usize) * 64 + src * 16 + api.map_or(7, |a| a as usize) * 2 + big as usize;
            if KNOWN.get().0 == id && at > KNOWN.get().1 {
                return Ok(());
            }
            let mut o = Dump::default();
            let inner = Cell::new(Ok(()));
            let mut w2 = W::scratch();
            let (g, n) = {
                let w2 = Cell::new(Some(&mut w2));
                let h = |n: u32| {
                    if n == at {
                        let w2 = w2.take().unwrap();
                        let mut r = Ok(());
                        for k in WAYS {
                            r = r.and_then(|_| b.go(w2, k, &|| format!("inside call {at} of the parse of {}, {k:?}", a.name)));
                        }
                        for (k, ek) in [(3, EK::Native), (7, EK::Big), (9, EK::Native), (6, EK::CustL)] {
                            let d = b.get(ek.big());
                            let body = &d[8.min(d.len())..];
                            r = r.and_then(|_| super::c04::bare_data(w2, u32::from_le_bytes(b.le[..4].try_into().unwrap()), body, &b.cfg, k, ek, Allow::default(), &|| format!("inside call {at} of the parse of {}, the body of {}", a.name, b.name)));
                        }
                        inner.set(r)
                    }
                };
                hooked(&h, || hooked_parse(a.get(big), &a.cfg, big, api, src, &mut o))
            };
            KNOWN.set((id, n));
            w.trans += w2.trans + n as u64;
            w.traces += w2.traces;
            inner.into_inner()?;
            judge(w, a, big, api, &g, &o).map_err(|e| format!("{} was parsed inside call {at} of {n} of this parse ({api:?}, source {src}): {e}", b.name))
        }));
    }
    {
        let fw = fw.clone();
        v.push(suite("two_threads", format!("{nf} x {nf} records parsed by two threads, each call into the source or the byte order is a scheduling point: every schedule with up to two context switches x 3 interfaces and bare bodies x 3 sources (both byte orders)"), nf * nf * 12, move |i, w| {
            let mut c = Ch(i);
            let k = c.u(4);
            let api = [[Some(Api::Visit), Some(Api::Rec), Some(Api::Meta), None][k], if k == 3 { None } else { Some(Api::Visit) }];
            let src = c.u(3);
            let (a, b) = (c.of(&fw), c.of(&fw));
            let src = [src, (src + 1) % 3];
            let big = [k == 1, k == 2];
            let ev = [events(a, big[0], api[0], src[0]), events(b, big[1], api[1], src[1])];
            let plans = schedules(ev, 2, 1000);
            fresh(w, |w| threads(w, [a, b], big, api, src, &plans))
        }));
    }
    if t == Tier::Thorough {
        let fw = fw.clone();
        v.push(suite("two_threads_deep", format!("{nf} x {nf} records parsed by two threads: every schedule with up to four context switches, at most 10 calls per stretch"), nf * nf, move |i, w| {
            let mut c = Ch(i);
            let (a, b) = (c.of(&fw), c.of(&fw));
            let (big, api, src) = ([false, true], [Some(Api::Rec), Some(Api::Meta)], [2, 1]);
            let ev = [events(a, big[0], api[0], src[0]), events(b, big[1], api[1], src[1])];
            let plans = schedules(ev, 4, 10);
            fresh(w, |w| threads(w, [a, b], big, api, src, &plans))
        }));
    }
    {
        // records kept while other data is parsed
        let all = all.clone();
        v.push(suite("held", format!("every ordered pair of {n} records: a Record of A and its text are kept while B is parsed (4 combinations of byte order and source), then compared, and both dropped in either order"), n * n * 4 * 2, move |i, w| {
            let mut c = Ch(i);
            let (ka, kb) = [((EK::Native, 0), (EK::Native, 0)), ((EK::Native, 9), (EK::Big, 4)), ((EK::Big, 6), (EK::CustL, 6)), ((EK::CustL, 4), (EK::Native, 9))][c.u(4)];
            let first = c.b();
            let (a, b) = (c.of(&all), c.of(&all));
            held(w, a, ka, b, kb, first)
        }));
        let all = jobs();
        v.push(suite("open", format!("{n} records A x {nf} records B x 6 sources x 3 byte orders: parse_metadata of A, a whole parse of B, A's body, B again, the end of A's body, a second record after A"), n * nf * 18, move |i, w| {
            let mut c = Ch(i);
            let k = *c.of(&[0usize, 1, 4, 6, 8, 9]);
            let ek = *c.of(&super::c04::EK3);
            let b = c.of(&fw);
            let a = c.of(&all);
            open(w, a, ek, k, b)
        }));
    }
    {
        let fw: Arc<Vec<Job>> = few().into();
        v.push(suite("moved", format!("{nf} x {nf} records in one stream: metadata, body, next record, inspection and release each on the first or on another thread, x 6 sources x 3 byte orders"), nf * nf * 18 * 8, move |i, w| {
            let mut c = Ch(i);
            let k = *c.of(&[0usize, 1, 4, 6, 8, 9]);
            let ek = *c.of(&super::c04::EK3);
            let hop = [c.b(), c.b(), c.b()];
            let (a, b) = (c.of(&fw), c.of(&fw));
            moved(w, a, b, ek, k, hop)
        }));
    }
    {
        let v2 = autos();
        v.push(suite("auto_traits", "the record types, configurations, parsers, iterators and errors are Send and Sync", v2.len() as u64, move |i, w| {
            let (n, s, y) = v2[i as usize];
            w.trans += 2;
            w.traces += 1;
            w.state(i);
            if s && y { Ok(()) } else { Err(format!("{n}: Send = {s}, Sync = {y}")) }
        }));
    }
    v
}

/// Every schedule with at most `k` context switches, those with fewer included, up to `top` calls per stretch.
fn schedules(ev: [u32; 2], k: usize, top: u32) -> Vec<Vec<u32>> {
    let mut all: Vec<Vec<u32>> = vec![vec![]];
    for n in 0..k {
        let mut next = vec![];
        for p in &all {
            let used: u32 = p.iter().skip(n % 2).step_by(2).sum();
            // the last value means: to the end
            for x in 0..=(ev[n % 2] - used.min(ev[n % 2])).min(top) {
                next.push(p.iter().copied().chain([x]).collect());
            }
        }
        all = next;
    }
    all
}

fn show(r: &ParseResult<Record>, o: &mut Dump) -> (u64, String) {
    o.clear();
    match r {
        Ok(r) => {
            dump::record(r, o);
            (o.hash(), format!("{r:?}"))
        }
        Err(e) => (kind(e) as u64, format!("{e} {e:?}")),
    }
}
/// Parse a record and hand it over while its source is still there.
fn with_record(j: &Job, ek: EK, k: usize, f: &mut dyn FnMut(ParseResult<Record>) -> R) -> R {
    let d = j.get(ek.big());
    many(k, d.len(), &mut |s| crate::on3!(d, &j.cfg, ek, s, p => f(p.parse::<Record>())))
}
fn held(w: &mut W, a: &Job, ka: (EK, usize), b: &Job, kb: (EK, usize), first: bool) -> R {
    w.trans += 6;
    w.traces += 2;
    let (mut o, mut h) = (Dump::default(), 0);
    let res = with_record(a, ka.0, ka.1, &mut |ra| {
        let ta = show(&ra, &mut o);
        let mut ra = Some(ra);
        with_record(b, kb.0, kb.1, &mut |rb| {
            let same = |r: &ParseResult<Record>, t: &(u64, String), o: &mut Dump, n: &str| {
                let now = show(r, o);
                if now == *t {
                    return Ok(());
                }
                Err(format!("{} {ka:?} and then {} {kb:?}: {n}\n before: {}\n now:    {} {}", a.name, b.name, t.1, now.1, if now.1 == t.1 { "(its accessors say something else)" } else { "" }))
            };
            let ra = ra.take().unwrap();
            same(&ra, &ta, &mut o, "the first record changed when the second was parsed")?;
            let tb = show(&rb, &mut o);
            h = mix(ta.0 ^ mix(tb.0));
            if first {
                drop(ra);
                same(&rb, &tb, &mut o, "the second record changed when the first was released")
            } else {
                drop(rb);
                same(&ra, &ta, &mut o, "the first record changed when the second was released")
            }
        })
    });
    w.state(h);
    res
}

/// What the model says about the record at `at`: as the metadata interface reports it.
fn expect(d: &[u8], at: usize, c: &Cfg, big: bool, view: View, a: &mut Dump) -> spec::Out {
    spec::frame(d, at, None, c, big, view, Opt::default(), a)
}
fn same(m: &spec::Out, a: &Dump, err: u8, o: &Dump, what: &dyn Fn() -> String) -> R {
    if if m.err == 0 { err == 0 && a == o } else { err & m.err != 0 } {
        return Ok(());
    }
    Err(format!("{}\n model: {}\n implementation: {}", what(), if m.err == 0 { a.show() } else { spec::errs(m.err) }, if err == 0 { o.show() } else { spec::errs(err) }))
}

fn two_in_one(a: &Job, b: &[u8], big: bool) -> Vec<u8> {
    let mut d = a.get(big).to_vec();
    d.extend_from_slice(b);
    d
}

fn open(w: &mut W, a: &Job, ek: EK, k: usize, b: &Job) -> R {
    let big = ek.big();
    let d = two_in_one(a, b.get(big), big);
    let what = || format!("{} then {} in one {ek:?} stream, source {k}, with {} parsed in between from elsewhere", a.name, b.name, b.name);
    many(k, d.len(), &mut |s| {
        let (mut x, mut o) = (Dump::default(), Dump::default());
        let m = expect(&d, 0, &a.cfg, big, View::Meta, &mut x);
        w.trans += m.steps + 3;
        let other = |w: &mut W, n: usize, at: &str| b.go(w, WAYS[(n + k) % 8], &|| format!("{}: {at}", what()));
        crate::on3!(&d[..], &a.cfg, ek, s, p => {
            let err = match p.parse_metadata() {
                Ok((mut q, md)) => {
                    other(w, 0, "after parse_metadata")?;
                    o.clear();
                    let r = typed(&mut q, md.ty(), &mut o);
                    dump::meta(&md, &mut o);
                    other(w, 3, "after the body")?;
                    r.map_or_else(|e| kind(&e), |_| 0)
                }
                Err(e) => kind(&e),
            };
            same(&m, &x, err, &o, &what)?;
            let Some(u) = m.used.filter(|u| u % 8 == 0) else { return Ok(()) };
            let m = expect(&d, u, &a.cfg, big, View::Rec, &mut x);
            let r = p.parse::<Record>();
            other(w, 5, "after the second record")?;
            o.clear();
            let err = r.map_or_else(|e| kind(&e), |r| { dump::record(&r, &mut o); 0 });
            w.traces += 1;
            w.state(mix(x.hash()));
            same(&m, &x, err, &o, &|| format!("{}: the second record", what()))
        })
    })
}

fn moved(w: &mut W, a: &Job, b: &Job, ek: EK, k: usize, hop: [bool; 3]) -> R {
    let big = ek.big();
    let d = two_in_one(a, b.get(big), big);
    let what = || format!("{} then {} in one {ek:?} stream, source {k}, on another thread: {hop:?} (metadata, body, second record)", a.name, b.name);
    fn on<T>(other: bool, f: impl FnOnce() -> T) -> Result<T, String> {
        if other { away(f) } else { Ok(f()) }
    }
    many(k, d.len(), &mut |s| {
        let (mut x, mut o) = (Dump::default(), Dump::default());
        let m = expect(&d, 0, &a.cfg, big, View::Meta, &mut x);
        w.trans += m.steps + 3;
        crate::on3!(&d[..], &a.cfg, ek, s, p => {
            let err = match on(hop[0], || p.parse_metadata())? {
                Ok((mut q, md)) => on(hop[1], || {
                    o.clear();
                    let r = typed(&mut q, md.ty(), &mut o);
                    dump::meta(&md, &mut o);
                    drop(q);
                    r.map_or_else(|e| kind(&e), |_| 0)
                })?,
                Err(e) => kind(&e),
            };
            same(&m, &x, err, &o, &what)?;
            let Some(u) = m.used.filter(|u| u % 8 == 0) else { return Ok(()) };
            let m = expect(&d, u, &a.cfg, big, View::Rec, &mut x);
            let r = on(hop[2], || p.parse::<Record>())?;
            o.clear();
            let err = on(!hop[2], || r.map_or_else(|e| kind(&e), |r| { dump::record(&r, &mut o); 0 }))?;
            w.traces += 1;
            w.state(mix(x.hash()));
            same(&m, &x, err, &o, &|| format!("{}: the second record", what()))
        })
    })
}
