//! C14: copies and conversions preserve the value, and nothing leaks.
use super::c02::pick;
use super::c04::{many, EK3};
use crate::alloc;
use crate::dump::{self, Dump, D, K};
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::parse::*;
use perf_event_data::*;
use std::borrow::Cow;
use std::cell::Cell;
use std::sync::Arc;

/// A record type with its conversions.
trait Conv<'a>: D + Clone + Sized {
    type O: Conv<'static> + 'static;
    fn own(self) -> Option<Self::O>;
    fn wrap(self) -> Result<Record<'a>, Self>;
}
macro_rules! plain { ($($t:ty),*) => { $(
    impl<'a> Conv<'a> for $t {
        type O = $t;
        fn own(self) -> Option<$t> { Some(self) }
        fn wrap(self) -> Result<Record<'a>, Self> { Ok(Record::from(self)) }
    }
)* } }
plain!(Lost, Read, Aux, ITraceStart, LostSamples, SwitchCpuWide, BpfEvent, AuxOutputHwId);
macro_rules! unwrapped { ($($t:ty),*) => { $(
    impl<'a> Conv<'a> for $t {
        type O = $t;
        fn own(self) -> Option<$t> { Some(self) }
        fn wrap(self) -> Result<Record<'a>, Self> { Err(self) }
    }
)* } }
unwrapped!(Exit, Throttle);
macro_rules! owned { ($($t:ident $f:ident),*) => { $(
    impl<'a> Conv<'a> for $t<'a> {
        type O = $t<'static>;
        fn own(self) -> Option<$t<'static>> { Some(self.$f()) }
        fn wrap(self) -> Result<Record<'a>, Self> { Ok(Record::from(self)) }
    }
)* } }
owned!(Mmap into_owned, Mmap2 into_owned, Comm into_owned, KSymbol into_owned, CGroup into_owned, TextPoke to_owned);
macro_rules! borrowed { ($($t:ident),*) => { $(
    impl<'a> Conv<'a> for $t<'a> {
        type O = Lost;
        fn own(self) -> Option<Lost> { None }
        fn wrap(self) -> Result<Record<'a>, Self> { Ok(Record::from(self)) }
    }
)* } }
borrowed!(Namespaces, Sample);
impl<'a> Conv<'a> for Cow<'a, [u8]> {
    type O = Cow<'static, [u8]>;
    fn own(self) -> Option<Self::O> {
        Some(Cow::Owned(self.into_owned()))
    }
    fn wrap(self) -> Result<Record<'a>, Self> {
        Err(self)
    }
}

/// 0..13: all sequences of up to two of {clone and drop the original, clone and drop the copy, move}.
fn steps(k: usize) -> &'static [u8] {
    const S: [&[u8]; 13] = [&[], &[0], &[1], &[2], &[0, 0], &[0, 1], &[0, 2], &[1, 0], &[1, 1], &[1, 2], &[2, 0], &[2, 1], &[2, 2]];
    S[k]
}
fn run<T: D + Clone>(mut x: T, k: usize, want: &Dump, o: &mut Dump) -> Result<T, String> {
    for s in steps(k) {
        match s {
            0 => {
                let y = x.clone();
                drop(std::mem::replace(&mut x, y));
            }
            1 => {
                let y = x.clone();
                show(&y, want, o)?;
                drop(y);
            }
            _ => x = *Box::new(x),
        }
    }
    Ok(x)
}
/// The fields of `x` after the leading `method` entry must be the expected ones.
fn show<T: D>(x: &T, want: &Dump, o: &mut Dump) -> R {
    o.clear();
    x.d(o);
    if o.w != want.w[2..] {
        return Err(format!("a copy shows {}, expected {}", o.show(), want.show()));
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub before: usize,
    pub own: bool,
    pub after: usize,
    pub wrap: usize,
}
type Later = Box<dyn FnOnce(&Dump, &mut Dump) -> R>;
enum Out {
    Done(R),
    Later(Later),
}

fn end<'a, T: Conv<'a>>(x: T, plan: Plan, want: &Dump, o: &mut Dump) -> R {
    show(&x, want, o)?;
    let r = match (plan.wrap, x.wrap()) {
        (0, Ok(r)) => r,
        (1, Ok(r)) => {
            let c = r.clone();
            drop(r);
            c
        }
        (_, Ok(r)) => {
            let c = r.clone();
            o.clear();
            dump::record(&c, o);
            drop(c);
            r
        }
        (_, Err(_)) => return Ok(()),
    };
    o.clear();
    dump::record(&r, o);
    if o != want {
        return Err(format!("the record enum shows {}, expected {}", o.show(), want.show()));
    }
    Ok(())
}

struct V<'x> {
    plan: Plan,
    want: &'x Dump,
    o: &'x mut Dump,
}
impl<'x> V<'x> {
    fn go<'a, T: Conv<'a>>(self, x: T) -> Out {
        let V { plan, want, o } = self;
        let x = match run(x, plan.before, want, o) {
            Ok(x) => x,
            Err(e) => return Out::Done(Err(e)),
        };
        if !plan.own {
            return Out::Done(run(x, plan.after, want, o).and_then(|x| end(x, plan, want, o)));
        }
        match x.own() {
            None => Out::Done(Ok(())),
            // to be continued when the input is gone
            Some(y) => Out::Later(Box::new(move |want, o| run(y, plan.after, want, o).and_then(|y| end(y, plan, want, o)))),
        }
    }
}
macro_rules! vis { ($($f:ident $t:ty;)*) => { $(
    fn $f(self, r: $t, _: RecordMetadata) -> Out { self.go(r) }
)* } }
impl<'a> Visitor<'a> for V<'_> {
    type Output = Out;
    fn visit_unimplemented(self, _: RecordMetadata) -> Out {
        Out::Done(Ok(()))
    }
    vis! {
        visit_mmap Mmap<'a>; visit_lost Lost; visit_comm Comm<'a>; visit_exit Exit; visit_throttle Throttle; visit_unthrottle Throttle;
        visit_fork Fork; visit_read Read; visit_sample Sample<'a>; visit_mmap2 Mmap2<'a>; visit_aux Aux; visit_itrace_start ITraceStart;
        visit_lost_samples LostSamples; visit_switch_cpu_wide SwitchCpuWide; visit_namespaces Namespaces<'a>; visit_ksymbol KSymbol<'a>;
        visit_bpf_event BpfEvent; visit_cgroup CGroup<'a>; visit_text_poke TextPoke<'a>; visit_aux_output_hw_id AuxOutputHwId;
        visit_unknown Cow<'a, [u8]>;
    }
}

/// Words of dump space set aside so that the harness does not allocate while memory is being counted.
const ROOM: usize = 1 << 17;

pub fn convert(w: &mut W, s: &Shape, ek: EK, k: usize, plan: Plan) -> R {
    convert_with(w, s, Val::Mixed, ek, k, plan)
}
fn convert_with(w: &mut W, s: &Shape, mode: Val, ek: EK, k: usize, plan: Plan) -> R {
    let d0 = s.bytes_with(ek.big(), mode);
    let mut a = std::mem::take(&mut w.a);
    let mut b = std::mem::take(&mut w.b);
    a.w.reserve(ROOM);
    b.w.reserve(ROOM);
    let m = frame(&d0, 0, None, &s.cfg, ek.big(), View::Rec, Opt::default(), &mut a);
    // unknown records carry their type in the record view only
    if !(1..=21).contains(&s.ty) {
        let n = a.w.len();
        a.w.truncate(n - 2);
    }
    if s.ty == 14 {
        a.w.truncate(2);
    }
    let mut res = if m.err != 0 { Err("model rejects the shape".to_string()) } else { Ok(()) };
    let mut leak = 0;
    if res.is_ok() {
        res = many(k, d0.len(), &mut |src| {
            let mut d = d0.clone();
            let before = alloc::current();
            let r = crate::on3!(&d[..], &s.cfg, ek, src, p => p.parse_record(V { plan, want: &a, o: &mut b })).map_err(|e| format!("refused: {e}"));
            let r = match r {
                Err(e) => Err(e),
                Ok(Out::Done(r)) => r,
                Ok(Out::Later(f)) => {
                    // the input is overwritten and, for good measure, replaced
                    d.fill(0xEE);
                    f(&a, &mut b)
                }
            };
            if r.is_ok() {
                leak = alloc::current() - before;
            }
            r.map_err(|e| format!("{} {ek:?} {src:?} {plan:?}: {e}", s.name))
        });
    }
    w.traces += 1;
    w.trans += 4 + steps(plan.before).len() as u64 + steps(plan.after).len() as u64;
    w.state(a.hash() ^ mix(plan.before as u64 * 64 + plan.after as u64 * 4 + plan.own as u64));
    w.note(|| format!("{} {ek:?} {plan:?} -> {}", s.name, a.show()));
    w.a = a;
    w.b = b;
    res?;
    if leak != 0 {
        return Err(format!("{} {ek:?} source {k} {plan:?}: {leak} bytes are still held after everything was dropped", s.name));
    }
    Ok(())
}

/// Parse (and fail, perhaps) with every interface; everything must be released.
fn balance(w: &mut W, d: &[u8], cf: &Cfg, ek: EK, k: usize, api: Api, what: &dyn Fn() -> String) -> R {
    let mut b = std::mem::take(&mut w.b);
    b.w.reserve(ROOM);
    let h = if api.hdr() { peek(d, ek.big()) } else { None };
    if api.hdr() && h.is_none() {
        return Ok(());
    }
    let body = if h.is_some() { &d[8..] } else { d };
    let mut leak = 0;
    let mut ok = false;
    let r = many(k, body.len(), &mut |src| {
        let before = alloc::current();
        ok = crate::on3!(body, cf, ek, src, p => ask(&mut p, api, h, &mut b)).is_ok();
        leak = alloc::current() - before;
        Ok(())
    });
    w.b = b;
    w.traces += 1;
    w.trans += 2;
    w.state(mix(d.len() as u64) ^ ok as u64);
    r?;
    if leak != 0 {
        return Err(format!("{} {ek:?} {api:?} source {k}, parse {}: {leak} bytes are still held after everything was dropped\n input {}", what(), if ok { "succeeded" } else { "failed" }, dump::hex(d, 300)));
    }
    Ok(())
}

/// The sample fields that own memory.
const HEAP: [u64; 8] = [st::READ, st::CALLCHAIN, st::RAW, st::BRANCH_STACK, st::REGS_USER, st::STACK_USER, st::REGS_INTR, st::AUX];
pub fn heap_shape(m: u64, rest: u64) -> Shape {
    let s: u64 = HEAP.iter().enumerate().map(|(j, b)| (m >> j & 1) * b).sum();
    let all: u64 = HEAP.iter().sum();
    let cfg = Cfg { st: s | if rest == 1 { st::ALL & !all } else { 0 }, rf: rf::ALL, bst: BR_HW_INDEX, ru: 0x15, ri: 0x3, ..Default::default() };
    Shape { name: format!("sample with memory-owning fields {m:#x}, others {rest}"), ty: 9, misc: 0, cfg, body: Body::Sample(Sm::S) }
}

/// A record with one part of about `n` bytes.
pub fn sized(part: usize, n: usize) -> Option<Shape> {
    let mut cfg = Cfg { rf: rf::GROUP | rf::ID, ..Default::default() };
    let mut sm = Sm::Z;
    let named = |ty: u32, name: usize, pad: usize, cfg: Cfg| Shape { name: format!("type {ty} with a name of {name} bytes and {pad} of padding"), ty, misc: 0, cfg, body: Body::N { name, pad } };
    let s = match part {
        0..=4 => named([1, 3, 10, 17, 19][part], n, 1 + n % 8, super::c01::cfg(n % 2 == 0)),
        5 => named(3, n % 9, n, Cfg::default()),
        6 => named(1234, n, 0, Cfg::default()),
        7 => Shape { name: format!("text poke of {n} bytes"), ty: 20, misc: 0, cfg, body: Body::Text { old: n / 3, new: n - n / 3 } },
        14 => Shape { name: format!("{} namespaces", n / 16), ty: 16, misc: 0, cfg, body: Body::Ns(n / 16) },
        _ => {
            let what = match part {
                8 => (cfg.st, sm.raw) = (st::RAW, n),
                9 => (cfg.st, sm.cc) = (st::CALLCHAIN, n / 8),
                10 => (cfg.st, sm.lbr) = (st::BRANCH_STACK, n / 24),
                11 => (cfg.st, sm.stack, sm.dyn_) = (st::STACK_USER, n, n.saturating_sub(n % 5)),
                12 => (cfg.st, sm.aux) = (st::AUX, n),
                _ => (cfg.st, sm.nr) = (st::READ, n / 16),
            };
            let () = what;
            cfg.st |= st::CGROUP;
            Shape { name: format!("sample with part {part} of {n} bytes"), ty: 9, misc: 0, cfg, body: Body::Sample(sm) }
        }
    };
    (s.bytes(false).len() < 65536).then_some(s)
}

fn identity(w: &mut W, d: &[u8], cf: &Cfg, ek: EK, way: usize) -> R {
    let others = cf.st & !SID;
        let r: Result<(Sample, SampleId), String> = crate::on3!(&d[..], cf, ek, &Src::Slice, p => {
            match p.parse::<Sample>() {
                Ok(x) => {
                    let id = match way {
                        0 => SampleId::from_sample(&x),
                        1 => SampleId::from(&x),
                        _ => SampleId::from(x.clone()),
                    };
                    Ok((x, id))
                }
                Err(e) => Err(e.to_string()),
            }
        });
        let (x, id) = r?;
        w.traces += 1;
        w.trans += 2;
        w.state(mix(cf.st) ^ way as u64);
        let id2 = id;
        let got = (id2.pid(), id2.tid(), id2.time(), id2.id(), id2.stream_id(), id2.cpu());
        let want = (x.pid(), x.tid(), x.time(), x.id(), x.stream_id(), x.cpu());
        if got != want || id.clone().time() != x.time() {
            return Err(format!("identity of a sample with {:#x}, way {way}: {got:?}, the sample has {want:?}", cf.st));
        }
        // and both agree with the bytes
        let mut a = Dump::default();
        let mut sp = Spec::new(&d, ek.big());
        sp.sample(cf, &mut a).map_err(errs)?;
        let f = |k: K| a.w.chunks(2).take_while(|_| true).find(|q| q[0] == k as u64).map(|q| q[1]);
        // dumps with variable parts are only scanned up to those parts
        if others & (st::READ | st::CALLCHAIN | st::RAW) == 0 && (f(K::pid) != want.0.map(u64::from) || f(K::time) != want.2 || f(K::cpu) != want.5.map(u64::from)) {
            return Err(format!("sample with {:#x}: {want:?}, model {}", cf.st, a.show()));
        }
        Ok(())
    }
fn mapping(w: &mut W, d: &[u8], ek: EK, k: usize, way: usize, own: bool) -> R {
        let mut a = std::mem::take(&mut w.a);
        let mut b = std::mem::take(&mut w.b);
        a.w.reserve(ROOM);
        b.w.reserve(ROOM);
        a.clear();
        let mut sp = Spec::new(d, ek.big());
        sp.pos = 8;
        let (pid, tid) = (sp.u32().unwrap(), sp.u32().unwrap());
        a.u(K::pid, pid as u64);
        a.u(K::tid, tid as u64);
        for k in [K::addr, K::len, K::pgoff] {
            let v = sp.u64().unwrap();
            a.u(k, v);
        }
        sp.pos += 32;
        a.by(K::filename, sp.rest_trim());
        let r = many(k, d.len(), &mut |src| {
            let before = alloc::current();
            let mut keep: Option<Mmap<'static>> = None;
            let mut data = d.to_vec();
            let r = crate::on3!(&data[..], &Cfg::default(), ek, src, p => {
                let rec = match p.parse::<Record>() {
                    Ok(Record::Mmap2(m)) => m,
                    x => return Err(format!("{x:?} instead of MMAP2")),
                };
                let m = match way {
                    0 => {
                        let m = rec.to_mmap();
                        // the original is still there and unchanged
                        if (rec.pid, rec.addr, &*rec.filename) != (m.pid, m.addr, &*m.filename) {
                            return Err("to_mmap disturbs the original".into());
                        }
                        m
                    }
                    1 => rec.into_mmap(),
                    _ => Mmap::from(rec),
                };
                if own {
                    keep = Some(m.into_owned());
                    b.clear();
                } else {
                    b.clear();
                    m.d(&mut b);
                }
                Ok::<(), String>(())
            });
            r?;
            if let Some(m) = keep {
                data.fill(0xEE);
                m.d(&mut b);
            }
            drop(data);
            let leak = alloc::current() - before;
            if a != b {
                return Err(format!("MMAP2 to MMAP, way {way} {src:?}: {}, expected {}", b.show(), a.show()));
            }
            if leak != 0 {
                return Err(format!("MMAP2 to MMAP, way {way} {src:?}: {leak} bytes are still held"));
            }
            Ok(())
        });
        w.traces += 1;
        w.trans += 3;
        w.state(a.hash() ^ way as u64);
        w.a = a;
        w.b = b;
        r
    }

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let sh = shapes();
    let ns = sh.len() as u64;
    {
        let sh = sh.clone();
        let srcs: &'static [usize] = t.pick(&[0, 1, 4, 7], &[0, 1, 2, 3, 4, 5, 7, 9]);
        let n = srcs.len() as u64;
        v.push(suite("chains", format!("{ns} record shapes x {n} sources x 3 byte orders x every chain of up to two copies/moves, making it owned (input destroyed) or not, up to two more, wrapping in the record enum with 3 ways of copying it"), ns * n * 3 * 13 * 2 * 13 * 3, move |i, w| {
            let mut c = Ch(i);
            let plan = Plan { before: c.u(13), own: c.b(), after: c.u(13), wrap: c.u(3) };
            let k = *c.of(srcs);
            let ek = *c.of(&EK3);
            convert(w, c.of(&sh), ek, k, plan)
        }));
    }
    {
        let vs = values(sh.clone());
        v.push(suite("field_values", format!("{ns} record shapes x {VALUES} x 2 sources x 6 copies, owned copies and conversions"), vs.total * 2 * 6, move |i, w| {
            let mut c = Ch(i);
            let k = *c.of(&[0, 4]);
            let ek = if k == 0 { EK::Native } else { EK::Big };
            let (before, own, after, wrap) = *c.of(&[(0, true, 0, 0), (1, false, 0, 0), (2, true, 1, 1), (3, false, 2, 2), (0, false, 0, 1), (4, true, 4, 2)]);
            let (s, m) = vs.get(c.0);
            convert_with(w, s, m, ek, k, Plan { before, own, after, wrap }).map_err(|e| format!("{m:?}: {e}"))
        }));
    }
    {
        let ns = notables(sh.clone());
        v.push(suite("notable_values", format!("{} x 2 sources x 3 copies, owned copies and conversions", ns.what()), ns.total * 2 * 3, move |i, w| {
            let mut c = Ch(i);
            let k = *c.of(&[0, 4]);
            let ek = if k == 0 { EK::Native } else { EK::Big };
            let (before, own, after, wrap) = *c.of(&[(1, true, 0, 0), (0, false, 0, 1), (4, true, 2, 2)]);
            let (s, m) = ns.get(c.0);
            convert_with(w, s, m, ek, k, Plan { before, own, after, wrap }).map_err(|e| format!("{m:x?}: {e}"))
        }));
        let ps = pairs(sh.clone());
        v.push(suite("field_pairs", format!("{} x 2 copies and conversions", ps.what()), ps.total * 2, move |i, w| {
            let mut c = Ch(i);
            let (before, own, after, wrap) = *c.of(&[(1, true, 0, 0), (0, false, 4, 1)]);
            let (s, m) = ps.get(c.0);
            convert_with(w, s, m, EK::Native, 0, Plan { before, own, after, wrap }).map_err(|e| format!("{m:x?}: {e}"))
        }));
    }
    // every size class of every part which can own memory
    {
        let ls: Arc<Vec<usize>> = super::c04::sizes_to(t.pick(100, 600), 60000).into();
        let n = ls.len() as u64;
        let (np, srcs): (u64, &'static [usize]) = (15, &[0, 2, 4, 7]);
        v.push(suite("sizes", format!("names, padding, poked bytes, namespaces, raw, callchain, branch, stack, aux, group and unknown data of {n} sizes up to 60000 x 4 sources x 2 byte orders x 5 chains of copies, owned copies and wrapping"), np * n * 4 * 2 * 5, move |i, w| {
            let mut c = Ch(i);
            let (before, own, after, wrap) = *c.of(&[(0, true, 0, 0), (1, false, 0, 1), (2, true, 1, 2), (4, true, 0, 1), (3, true, 4, 0)]);
            let k = *c.of(srcs);
            let ek = *c.of(&[EK::Native, EK::Big]);
            let part = c.u(15);
            let n = *c.of(&ls);
            match sized(part, n) {
                Some(s) if n <= 3000 || k != 4 => convert(w, &s, ek, k, Plan { before, own, after, wrap }),
                _ => Ok(()),
            }
        }));
    }
    v.push(suite("heap_fields", "samples with every subset of the 8 memory-owning fields x other fields all or none x 5 sources x 3 byte orders x 13 chains x 3 wraps", 256 * 2 * 5 * 3 * 13 * 3, |i, w| {
        let mut c = Ch(i);
        let s = heap_shape(c.n(256), c.n(2));
        let k = *c.of(&[0, 1, 3, 4, 7]);
        let ek = *c.of(&EK3);
        let plan = Plan { before: c.u(13), own: false, after: 0, wrap: c.u(3) };
        convert(w, &s, ek, k, plan)
    }));
    {
        let sets = match t {
            Tier::Quick => near_sets(25, 5),
            Tier::Thorough => (0..1 << 25).collect(),
        };
        let what = t.pick("at most 5 fields present or at most 5 absent", "all 2^25 field sets");
        v.push(suite("sample_subsets", format!("samples with {what}: cloned, boxed, released"), sets.len() as u64, move |i, w| {
            let s = sets[i as usize];
            let cfg = Cfg { st: s, rf: rf::ALL, bst: BR_HW_INDEX, ru: 5, ri: 3, ..Default::default() };
            let s = Shape { name: format!("sample_type {s:#x}"), ty: 9, misc: 0, cfg, body: Body::Sample(Sm::S) };
            convert(w, &s, EK::CustL, 1, Plan { before: 4, own: false, after: 2, wrap: 1 })
        }));
    }
    {
        let sh = sh.clone();
        let rows: Vec<u64> = sh.iter().map(|s| s.bytes(false).len() as u64).collect();
        let total: u64 = rows.iter().sum();
        v.push(suite("failures", format!("{ns} record shapes ending early at every byte (declared size matching or not) x 8 sources x 3 byte orders x 6 interfaces: everything released"), total * 2 * 8 * 3 * 6, move |i, w| {
            let mut c = Ch(i);
            let fix = c.b();
            let k = c.u(8);
            let ek = *c.of(&EK3);
            let api = *c.of(&APIS);
            let (j, n) = pick(&rows, c.0);
            let s = &sh[j];
            let mut d = s.bytes(ek.big());
            d.truncate(n as usize);
            if fix && n >= 8 {
                let z = n as u16;
                d[6..8].copy_from_slice(&if ek.big() { z.to_be_bytes() } else { z.to_le_bytes() });
            }
            balance(w, &d, &s.cfg, ek, k, api, &|| format!("{} ending at {n}", s.name))
        }));
    }
    v.push(suite("heap_failures", "samples with every subset of the 8 memory-owning fields ending at every 4th byte x 3 sources x 2 byte orders", 256 * 96 * 3 * 2, |i, w| {
        let mut c = Ch(i);
        let n = 8 + 4 * c.u(96);
        let s = heap_shape(c.n(256), 0);
        let k = *c.of(&[0, 1, 4]);
        let ek = *c.of(&[EK::Native, EK::Big]);
        let mut d = s.bytes(ek.big());
        if n > d.len() {
            return Ok(());
        }
        d.truncate(n);
        let z = n as u16;
        d[6..8].copy_from_slice(&if ek.big() { z.to_be_bytes() } else { z.to_le_bytes() });
        balance(w, &d, &s.cfg, ek, k, Api::Visit, &|| format!("{} ending at {n}", s.name))
    }));
    {
        let sh = sh.clone();
        v.push(suite("faults", format!("{ns} record shapes x 6 chunked sources x every call of the source failing x 3 interfaces: everything released"), ns * 6 * 3, move |i, w| {
            let mut c = Ch(i);
            let k = *c.of(&[1, 3, 4, 7, 9, 10]);
            let api = *c.of(&[Api::Visit, Api::Rec, Api::Meta]);
            let s = c.of(&sh);
            let d = s.bytes(false);
            let mut b = std::mem::take(&mut w.b);
            b.w.reserve(ROOM);
            let mut runs = 0;
            let r = many(k, d.len(), &mut |src| {
                let Src::Chunks { cuts, tmp, hint } = src else { return Ok(()) };
                for n in 0.. {
                    let seen = Cell::new(Seen::default());
                    let before = alloc::current();
                    let mut cs = ChunkSrc::new(&d, cuts, *tmp, *hint, &seen);
                    cs.fail = Some((n, Fault::Io));
                    let _ = with_endian!(EK::Native, e => ask(&mut Parser::new(cs, config(&s.cfg, e)), api, None, &mut b)).is_ok();
                    let leak = alloc::current() - before;
                    runs += 1;
                    if leak != 0 {
                        return Err(format!("{} {api:?} {src:?}, call {n} fails: {leak} bytes are still held after everything was dropped", s.name));
                    }
                    if seen.get().fired == 0 {
                        break;
                    }
                }
                Ok(())
            });
            w.b = b;
            w.traces += runs;
            w.trans += 2 * runs;
            w.state(mix(runs));
            r
        }));
    }
    v.push(suite("mapping", "MMAP2 to MMAP in 3 ways, owned or borrowed, names 0..=24 x padding 0..=3 x build id / inode x sources x byte orders", 3 * 2 * 25 * 4 * 2 * 6 * 3, |i, w| {
        let mut c = Ch(i);
        let way = c.u(3);
        let own = c.b();
        let (name, pad) = (c.u(25), c.u(4));
        let bid = c.b();
        let k = c.u(6);
        let ek = *c.of(&EK3);
        let body = if bid { Body::Build { len: 13, name, pad } } else { Body::N { name, pad } };
        let s = Shape { name: String::new(), ty: 10, misc: (bid as u16) << 14, cfg: Cfg::default(), body };
        mapping(w, &s.bytes(ek.big()), ek, k, way, own)
    }));
    v.push(suite("identity", "identity extracted from samples: all 64 identity sets x 8 sets of other fields x 3 ways x 3 byte orders", 64 * 8 * 3 * 3, |i, w| {
        let mut c = Ch(i);
        let m = c.n(64);
        let others = [0, st::IP, st::ADDR | st::PERIOD, st::CGROUP, st::ALL & !SID, st::CALLCHAIN | st::RAW, st::WEIGHT, st::READ][c.u(8)];
        let way = c.u(3);
        let ek = *c.of(&EK3);
        let ids = [st::TID, st::TIME, st::ID, st::STREAM_ID, st::CPU, st::IDENTIFIER];
        let s: u64 = ids.iter().enumerate().map(|(j, b)| (m >> j & 1) * b).sum();
        let cf = Cfg { st: s | others, rf: rf::ALL, ..Default::default() };
        let mut e = Enc::new(ek.big(), 8);
        sample(&mut e, &cf, &Sm::S);
        identity(w, &e.v, &cf, ek, way)
    }));
    {
        let ids = [st::TID, st::TIME, st::ID, st::STREAM_ID, st::CPU, st::IDENTIFIER];
        let mut sh = vec![];
        for others in [0, st::IP | st::PERIOD] {
            for m in 0..64u64 {
                let s: u64 = ids.iter().enumerate().map(|(j, b)| (m >> j & 1) * b).sum();
                sh.push(Shape { name: format!("sample_type {:#x}", s | others), ty: 9, misc: 0, cfg: Cfg { st: s | others, ..Default::default() }, body: Body::Sample(Sm::Z) });
            }
        }
        let mut m2 = vec![];
        for (name, pad) in [(0, 0), (5, 3)] {
            for bid in [false, true] {
                let body = if bid { Body::Build { len: 20, name, pad } } else { Body::N { name, pad } };
                m2.push(Shape { name: format!("mmap2 build id {bid}"), ty: 10, misc: (bid as u16) << 14, cfg: Cfg::default(), body });
            }
        }
        let one = |x: &Shape, m: Val, i: u64, w: &mut W| {
            let mut c = Ch(i);
            let way = c.u(3);
            let own = c.b();
            let ek = if c.b() { EK::Big } else { EK::Native };
            let d = x.bytes_with(ek.big(), m);
            if x.ty == 9 { identity(w, &d[8..], &x.cfg, ek, way) } else { mapping(w, &d, ek, 0, way, own) }.map_err(|e| format!("{} {m:x?}: {e}", x.name))
        };
        sh.extend(m2);
        let vs = values(sh.clone());
        v.push(suite("conversion_values", format!("identity of samples of all 64 identity sets and MMAP2 to MMAP x {VALUES} x 3 ways x owned or not x 2 byte orders"), vs.total * 12, move |i, w| {
            let (x, m) = vs.get(i / 12);
            one(x, m, i % 12, w)
        }));
        let ns = notables(sh.clone());
        v.push(suite("conversion_notables", format!("identity and MMAP2 to MMAP: {}", ns.what()), ns.total, move |i, w| {
            let (x, m) = ns.get(i);
            one(x, m, i % 12, w)
        }));
        let ps = pairs(sh);
        v.push(suite("conversion_pairs", format!("identity and MMAP2 to MMAP: {}", ps.what()), ps.total, move |i, w| {
            let (x, m) = ps.get(i);
            one(x, m, i % 11, w)
        }));
    }
    v.push(suite("repeated", "repetitions of memory-owning types ending early after every byte x 5 sources x 2 byte orders: everything released", 3 * 200 * 5 * 2, |i, w| {
        let mut c = Ch(i);
        let ty = c.u(3);
        let n = c.u(200);
        let k = *c.of(&[0, 1, 3, 4, 7]);
        let ek = *c.of(&[EK::Native, EK::Big]);
        let mut e = Enc::new(ek.big(), 8);
        let cf = Cfg { rf: rf::GROUP | rf::ID, st: st::RAW | st::CALLCHAIN | st::IP, ..Default::default() };
        for _ in 0..4 {
            match ty {
                0 => read(&mut e, cf.rf, 2),
                1 => sample(&mut e, &cf, &Sm::S),
                _ => {
                    framed(&mut e, 16, 0, |e| body(e, 16, &cf, &Body::Ns(2)));
                }
            }
        }
        let d = e.v;
        if n > d.len() {
            return Ok(());
        }
        let d = &d[..n];
        w.traces += 1;
        w.trans += 2;
        w.state(mix(n as u64) ^ ty as u64);
        many(k, n, &mut |src| {
            let before = alloc::current();
            let ok = crate::on3!(d, &cf, ek, src, p => match ty {
                0 => p.parse_repeated::<ReadGroup>(4).map(|x| x.len()),
                1 => p.parse_repeated::<Sample>(4).map(|x| x.len()),
                _ => p.parse_repeated::<Record>(4).map(|x| x.len()),
            })
            .is_ok();
            let leak = alloc::current() - before;
            if leak != 0 {
                return Err(format!("repetition of type {ty} over {n} bytes {src:?} ({}): {leak} bytes are still held", if ok { "parsed" } else { "failed" }));
            }
            Ok(())
        })
    }));
    v
}
