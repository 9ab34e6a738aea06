//! C19: the unsafe code is sound on every explored input.
//!
//! Values are not judged here (the other properties do that): a case fails only if memory is misused.
//! Natively that shows as an access to the inaccessible memory next to the input, as a damaged red zone, a
//! wrong release (guard allocator), or as a result that depends on what fresh memory happened to contain.
//! The same cases, with smaller bounds, run in the Miri interpreter, where any undefined behaviour is fatal.
use super::c04::many;
use super::{c13, c14, c17};
use crate::alloc;
use crate::dump::Dump;
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::endian::{Endian, Native};
use perf_event_data::parse::*;
use perf_event_data::*;
use std::cell::Cell;
use std::sync::{Arc, OnceLock};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    Miri,
    MiriDeep,
    Quick,
    Thorough,
}
use Level::*;
impl Level {
    fn pick<T>(self, m: T, md: T, q: T, t: T) -> T {
        match self {
            Miri => m,
            MiriDeep => md,
            Quick => q,
            Thorough => t,
        }
    }
}

/// Run `f` with two contents of fresh memory; the outcome must be the same. Panics are not judged here.
fn twice<X: PartialEq>(w: &mut W, f: &mut dyn FnMut() -> X, show: &dyn Fn(&X) -> String) -> R {
    let mut one = |fill| {
        alloc::set_fill(fill);
        let r = catch_unwind(AssertUnwindSafe(&mut *f)).ok();
        alloc::set_fill(0xA5);
        r
    };
    let a = one(0xA5);
    w.traces += 1;
    w.trans += 1;
    if cfg!(miri) {
        return Ok(());
    }
    let b = one(0x3C);
    if a != b {
        let s = |x: &Option<X>| x.as_ref().map_or("panic".to_string(), show);
        return Err(format!("the result depends on the contents of fresh memory: {} / {}", s(&a), s(&b)));
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn go(w: &mut W, d: &[u8], c: &Cfg, ek: EK, api: Api, src: &Src, start: bool, what: &dyn Fn() -> String) -> R {
    if api.hdr() && d.len() < 8 {
        return Ok(());
    }
    let buf = Exact::new(d, start);
    let d = buf.get();
    let mut o = std::mem::take(&mut w.b);
    let mut h = 0;
    let r = twice(
        w,
        &mut || {
            let r = exec(d, c, ek, api, src, &[], &mut o);
            h = o.hash();
            (r.err, r.left, h)
        },
        &|x| format!("{x:x?}"),
    );
    w.b = o;
    w.state(h);
    r.map_err(|e| format!("{} {ek:?} {api:?} {src:?}: {e}\n config {c:x?}\n input {}", what(), crate::dump::hex(d, 300)))
}

/// A shape with its bytes in both orders, encoded once.
pub struct Sh(Shape, [OnceLock<Vec<u8>>; 2]);
impl Sh {
    fn bytes(&self, big: bool) -> Vec<u8> {
        self.1[big as usize].get_or_init(|| self.0.bytes(big)).clone()
    }
    fn len(&self) -> u64 {
        self.1[0].get_or_init(|| self.0.bytes(false)).len() as u64
    }
}
impl std::ops::Deref for Sh {
    type Target = Shape;
    fn deref(&self) -> &Shape {
        &self.0
    }
}

/// Shapes that exercise a different path each.
fn few(all: &[Arc<Sh>]) -> Vec<Arc<Sh>> {
    let keep = [
        "type 1 name 13+3", "type 3 name 3+5+id", "mmap2 build id 7", "mmap2 build id 20+id", "namespaces 2", "namespaces 7+id", "text_poke 3/5", "text_poke 0/6", "text_poke 5/0+id", "unknown 13",
        "unknown 0+id", "type 8", "sample bit 4", "sample bit 5", "sample bit 10", "sample bit 11", "sample bit 12", "sample bit 13", "sample bit 20", "sample all", "sample all, empty parts",
        "sample all, single read, no hw index", "sample callchain+raw",
    ];
    let v: Vec<Arc<Sh>> = all.iter().filter(|s| keep.contains(&&s.name[..])).cloned().collect();
    assert_eq!(v.len(), keep.len());
    v
}

/// A source that panics at one of its calls.
struct Bomb<'p, 's>(ChunkSrc<'p, 's>, u32, bool);
unsafe impl<'p> ParseBuf<'p> for Bomb<'p, '_> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        self.1 = self.1.wrapping_sub(1);
        if self.1 == u32::MAX && !self.2 {
            panic!("source panics")
        }
        self.0.chunk()
    }
    fn advance(&mut self, n: usize) {
        self.0.advance(n);
        if self.1 == 0 && self.2 {
            panic!("source panics")
        }
    }
    fn remaining_hint(&self) -> Option<usize> {
        self.0.remaining_hint()
    }
}

/// A user type that owns memory and fails or panics when it meets certain bytes.
#[derive(PartialEq, Debug)]
struct Owner(Box<u64>, Vec<u8>);
thread_local! { static FUSE: Cell<(u32, bool)> = const { Cell::new((0, false)) } }
impl<'p> Parse<'p> for Owner {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        let b = Box::new(p.parse_u8()? as u64);
        let (n, loud) = FUSE.with(|f| f.get());
        if n == 0 {
            if loud {
                panic!("element panics")
            }
            return Err(ParseError::eof());
        }
        FUSE.with(|f| f.set((n - 1, loud)));
        Ok(Owner(b, p.parse_bytes(1)?.into_owned()))
    }
}
/// A user type without size.
#[derive(PartialEq, Debug, Clone, Copy)]
struct Unit;
impl<'p> Parse<'p> for Unit {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        p.parse_u8()?;
        Ok(Unit)
    }
}

const ALL64: [usize; 64] = {
    let mut a = [0; 64];
    let mut i = 0;
    while i < 64 {
        a[i] = i;
        i += 1;
    }
    a
};

pub fn build(l: Level) -> Vec<Suite> {
    let mut v = vec![];
    let miri = matches!(l, Miri | MiriDeep);
    let all: Vec<Arc<Sh>> = shapes().into_iter().map(|s| Arc::new(Sh(s, Default::default()))).collect();
    let sh = l.pick(few(&all), few(&all), all.clone(), all.clone());
    let ns = sh.len() as u64;
    let eks: &'static [EK] = l.pick(&[EK::Native, EK::Big], &[EK::Native, EK::Big], &[EK::Native, EK::Big, EK::CustL], &[EK::Native, EK::Big, EK::CustL]);
    let ne = eks.len() as u64;
    let apis: &'static [Api] = l.pick(&[Api::Visit], &[Api::Visit, Api::MetaH], &APIS, &APIS);
    let na = apis.len() as u64;

    {
        let sh = all.clone();
        let ns = sh.len() as u64;
        let srcs: &'static [usize] = l.pick(&[0, 4], &[0, 1, 4, 7], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
        let k = srcs.len() as u64;
        let apis = l.pick(&[Api::Visit][..], apis, apis, apis);
        let sides = if miri { "before or after" } else { "before and after" };
        let na = apis.len() as u64;
        v.push(suite("shapes", format!("{ns} record shapes x {k} sources x {ne} byte orders x {na} interfaces x inaccessible memory {sides}"), ns * k * ne * na * if miri { 1 } else { 2 }, move |i, w| {
            let mut c = Ch(i);
            let start = if miri { i % 3 == 0 } else { c.b() };
            let k = *c.of(srcs);
            let ek = *c.of(eks);
            let api = *c.of(apis);
            let s = c.of(&sh);
            let d = s.bytes(ek.big());
            many(k, d.len() - if api.hdr() { 8 } else { 0 }, &mut |x| go(w, &d, &s.cfg, ek, api, x, start, &|| s.name.clone()))
        }));
    }
    if !miri {
        let ls: Arc<Vec<usize>> = super::c04::sizes_to(l.pick(0, 0, 60, 400), 60000).into();
        let n = ls.len() as u64;
        v.push(suite("sizes", format!("15 variable parts of records and samples of {n} sizes up to 60000 x 12 sources x 2 byte orders x 2 interfaces"), 15 * n * 12 * 2 * 2, move |i, w| {
            let mut c = Ch(i);
            let api = if c.b() { Api::Rec } else { Api::Visit };
            let start = i % 3 == 0;
            let ek = if c.b() { EK::Big } else { EK::Native };
            let k = *c.of(&[0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 12, 15]);
            let part = c.u(15);
            let len = *c.of(&ls);
            if len > 2000 && [4, 6, 12, 15].contains(&k) {
                return Ok(());
            }
            let Some(s) = super::c14::sized(part, len) else { return Ok(()) };
            let d = s.bytes(ek.big());
            many(k, d.len(), &mut |x| go(w, &d, &s.cfg, ek, api, x, start, &|| s.name.clone()))
        }));
    }
    {
        // large payloads: one or two of each kind in the interpreter as well
        if miri {
            let ls: &'static [usize] = l.pick(&[1040][..], &[1040, 4104], &[], &[]);
            v.push(suite("sizes", format!("15 variable parts of records and samples of sizes {ls:?} x 4 sources"), 15 * ls.len() as u64 * 4, move |i, w| {
                let mut c = Ch(i);
                let k = *c.of(&[0, 1, 7, 10]);
                let part = c.u(15);
                let len = *c.of(ls);
                let Some(s) = super::c14::sized(part, len) else { return Ok(()) };
                let d = s.bytes(false);
                many(k, d.len(), &mut |x| go(w, &d, &s.cfg, EK::Native, Api::Visit, x, i & 1 == 0, &|| s.name.clone()))
            }));
        }
    }
    {
        // chunk boundaries
        let sh = sh.clone();
        let two = l.pick(false, false, true, true);
        let rows: Vec<u64> = sh
            .iter()
            .map(|s| {
                let n = s.len();
                if two {
                    n * (n - 1) / 2
                } else {
                    n - 1
                }
            })
            .collect();
        let total: u64 = rows.iter().sum();
        let step = l.pick(11, 1, 1, 1);
        let modes: &'static [(EK, bool)] = l.pick(&[(EK::Native, true)], &[(EK::Native, true), (EK::Big, false)], &[(EK::Native, true)], &[(EK::Native, false), (EK::Native, true), (EK::Big, true)]);
        let nm = modes.len() as u64;
        let b = if two { "one or two" } else { "one" };
        v.push(suite("boundaries", format!("{ns} record shapes x every placement (step {step}) of {b} chunk boundaries x all borrowed/temporary assignments x {nm} modes"), total / step * if two { 8 } else { 4 } * nm, move |i, w| {
            let mut c = Ch(i);
            let tmp = c.n(if two { 8 } else { 4 });
            let (ek, hint) = *c.of(modes);
            let (j, mut x) = super::c02::pick(&rows, c.0 * step);
            let s = &sh[j];
            let d = s.bytes(ek.big());
            let n = d.len() as u64;
            let cuts = if two {
                let mut a = 1;
                while x >= n - a {
                    x -= n - a;
                    a += 1;
                }
                [a as usize, (a + x) as usize]
            } else {
                [x as usize + 1; 2]
            };
            let cuts = if cuts[0] == cuts[1] { &cuts[..1] } else { &cuts };
            if cuts[cuts.len() - 1] >= d.len() {
                return Ok(());
            }
            go(w, &d, &s.cfg, ek, Api::Visit, &Src::Chunks { cuts, tmp, hint }, i & 1 == 0, &|| format!("{} cut at {cuts:?}", s.name))
        }));
    }
    {
        // inputs that end early, with the size telling the truth or not
        let sh = sh.clone();
        let rows: Vec<u64> = sh.iter().map(|s| s.len()).collect();
        let total: u64 = rows.iter().sum();
        let srcs: &'static [usize] = l.pick(&[0, 4], &[0, 4], &[0, 1, 2, 4, 5, 7, 8, 9], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]);
        let k = srcs.len() as u64;
        let step = l.pick(11, 2, 1, 1);
        v.push(suite("truncated", format!("{ns} record shapes ending at every byte (step {step}), declared size matching or not x {k} sources x {ne} byte orders x {na} interfaces"), total / step * 2 * k * ne * na, move |i, w| {
            let mut c = Ch(i);
            let fix = c.b();
            let k = *c.of(srcs);
            let ek = *c.of(eks);
            let api = *c.of(apis);
            let (j, n) = super::c02::pick(&rows, c.0 * step);
            let s = &sh[j];
            let mut d = s.bytes(ek.big());
            d.truncate(n as usize);
            if fix && n >= 8 {
                let z = n as u16;
                d[6..8].copy_from_slice(&if ek.big() { z.to_be_bytes() } else { z.to_le_bytes() });
            }
            if d.len() < 8 && api.hdr() {
                return Ok(());
            }
            many(k, d.len().saturating_sub(if api.hdr() { 8 } else { 0 }), &mut |x| go(w, &d, &s.cfg, ek, api, x, i & 1 == 0, &|| format!("{} ending at {n}", s.name)))
        }));
    }
    {
        // hostile words anywhere
        let sh = sh.clone();
        let rows: Vec<u64> = sh.iter().map(|s| s.len() / 4).collect();
        let total: u64 = rows.iter().sum();
        let words: &'static [u64] = l.pick(&super::c08::WORDS[..0], &super::c08::WORDS[..], &super::c08::WORDS[..], &super::c08::WORDS[..]);
        let nw = words.len() as u64;
        let srcs: &'static [usize] = l.pick(&[0], &[0], &[0, 1, 4, 7, 9], &[0, 1, 2, 4, 7, 9, 13]);
        let k = srcs.len() as u64;
        let extremes: &'static [u64] = &[0x0101_0101_0101_0101, u64::MAX, 1 << 63, 1 << 61, (1 << 61) + 1, 64];
        let extremes = if l == Miri { &extremes[..3] } else { extremes };
        let nx = extremes.len() as u64;
        let nb = l.pick(1, 2, 2, 2);
        v.push(suite("hostile", format!("{ns} record shapes with the word at every 4th byte replaced by one of {} values x {k} sources x {nb} byte orders", nw + nx), total * (nw + nx) * k * nb, move |i, w| {
            let mut c = Ch(i);
            let x = c.u((nw + nx) as usize);
            let x = if x < nw as usize { words[x] } else { extremes[x - nw as usize] };
            let k = *c.of(srcs);
            let ek = if c.n(nb) == 1 { EK::Big } else { EK::Native };
            let (j, n) = super::c02::pick(&rows, c.0);
            let s = &sh[j];
            let mut d = s.bytes(ek.big());
            let at = 8 + 4 * n as usize;
            if at + 8 > d.len() {
                return Ok(());
            }
            d[at..at + 8].copy_from_slice(&if ek.big() { x.to_be_bytes() } else { x.to_le_bytes() });
            many(k, d.len(), &mut |src| go(w, &d, &s.cfg, ek, Api::Visit, src, i & 1 == 0, &|| format!("{} with {x:#x} at {at}", s.name)))
        }));
    }
    {
        // copies, owned copies, drop orders, formatting
        let sh = all.clone();
        let ns = sh.len() as u64;
        let chains: &'static [(usize, bool, usize, usize)] = l.pick(
            &[(1, true, 2, 1), (5, false, 0, 2)],
            &[(1, true, 2, 1), (5, false, 0, 2), (4, true, 0, 0), (3, false, 8, 1)],
            &[(1, true, 2, 1), (5, false, 0, 2), (4, true, 0, 0), (3, false, 8, 1)],
            &[(1, true, 2, 1), (5, false, 0, 2), (4, true, 0, 0), (3, false, 8, 1), (7, true, 7, 2), (8, false, 4, 0)],
        );
        let nc = chains.len() as u64;
        let srcs: &'static [usize] = l.pick(&[4], &[0, 1, 4], &[0, 1, 3, 4, 7], &[0, 1, 3, 4, 7]);
        let k = srcs.len() as u64;
        v.push(suite("copies", format!("{ns} record shapes x {nc} chains of copies, owned copies and wrapping x {k} sources x {ne} byte orders"), ns * nc * k * ne, move |i, w| {
            let mut c = Ch(i);
            let (before, own, after, wrap) = *c.of(chains);
            let k = *c.of(srcs);
            let ek = *c.of(eks);
            let s = c.of(&sh);
            let mut w2 = W::scratch();
            let r = twice(w, &mut || c14::convert(&mut w2, s, ek, k, c14::Plan { before, own, after, wrap }), &|x| format!("{x:?}"));
            r.map_err(|e| format!("{} {ek:?} source {k}: {e}", s.name))
        }));
    }
    {
        let m = l.pick(16u64, 64, 256, 256);
        v.push(suite("heap_fields", format!("samples with {m} subsets of the 8 memory-owning fields x other fields all or none x 2 sources x 2 chains"), m * 2 * 2 * 2, move |i, w| {
            let mut c = Ch(i);
            let mut x = c.n(m);
            match m {
                64 => x = (x & 0x0f) | (x & 0x30) << 2,
                16 => x = (x & 1) | (x & 2) << 1 | (x & 4) << 2 | (x & 8) << 4,
                _ => {}
            }
            let s = c14::heap_shape(x, c.n(2));
            let k = *c.of(&[0, 4]);
            let (before, wrap) = *c.of(&[(4, 1), (5, 2)]);
            let mut w2 = W::scratch();
            twice(w, &mut || c14::convert(&mut w2, &s, EK::Native, k, c14::Plan { before, own: false, after: 0, wrap }), &|x| format!("{x:?}")).map_err(|e| format!("{}: {e}", s.name))
        }));
    }
    {
        let sh = sh.clone();
        let srcs: &'static [usize] = l.pick(&[0], &[0, 4], &[0, 1, 4, 7], &[0, 1, 4, 7]);
        let k = srcs.len() as u64;
        v.push(suite("formatting", format!("{ns} record shapes x {k} sources: formatted for debugging, and the metadata"), ns * k, move |i, w| {
            let mut c = Ch(i);
            let k = *c.of(srcs);
            let s = c.of(&sh);
            let d = s.bytes(false);
            let mut text = String::new();
            many(k, d.len(), &mut |src| {
                let buf = Exact::new(&d, true);
                let d = buf.get();
                twice(
                    w,
                    &mut || {
                        text = crate::on_src!(d, config(&s.cfg, CustL), src, p => match p.parse::<Record>() {
                            Ok(r) => format!("{r:?}"),
                            Err(e) => format!("{e:?}"),
                        });
                        text.clone()
                    },
                    &|x| x.clone(),
                )
            })
            .map_err(|e| format!("{}: {e}", s.name))
        }));
    }
    {
        // primitives
        let ops: Vec<c17::Op> = c17::OPS.iter().chain(c17::OPS2.iter()).copied().collect();
        let few: Vec<c17::Op> = ops.iter().copied().filter(|o| !matches!(o, c17::Op::U8 | c17::Op::IfT | c17::Op::IfF | c17::Op::IfWithT | c17::Op::With | c17::Op::RepU32(_) | c17::Op::MetaTrim | c17::Op::IfWithF)).collect();
        let ops = l.pick(few, ops.clone(), ops.clone(), ops);
        let n = ops.len() as u64;
        let lens: &'static [usize] = l.pick(&[29], &[16, 29], &[0, 7, 16, 29, 40], &[0, 3, 7, 8, 16, 21, 29, 40]);
        let srcs: &'static [usize] = l.pick(&[8], &[0, 2, 5, 8], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]);
        let (nl, k) = (lens.len() as u64, srcs.len() as u64);
        let ek1: &'static [EK] = l.pick(&[EK::Native], eks, eks, eks);
        let ne = ek1.len() as u64;
        v.push(suite("primitives", format!("all pairs of {n} parser operations x {nl} lengths x {k} sources x {ne} byte orders"), n * n * nl * k * ne, move |i, w| {
            let mut c = Ch(i);
            let len = *c.of(lens);
            let k = *c.of(srcs);
            let ek = *c.of(ek1);
            let seq = [*c.of(&ops), *c.of(&ops)];
            let mut w2 = W::scratch();
            twice(w, &mut || c17::run(&mut w2, &seq, 0, len, ek, k).is_ok(), &|x| format!("{x}")).map_err(|e| format!("{seq:?} on {len} bytes {ek:?} source {k}: {e}"))
        }));
    }
    {
        let k = l.pick(3usize, 8, 16, 16);
        v.push(suite("attributes", format!("attribute structs of 9 published and 4 other sizes, cut to 5 lengths x {k} sources x 2 byte orders"), 13 * 5 * k as u64 * 2, move |i, w| {
            let mut c = Ch(i);
            let z = c.u(13);
            let size = c13::SIZES.get(z).copied().unwrap_or_else(|| [0, 65, 144, u32::MAX][z - 9]);
            let cut = c.u(5);
            let src = c.u(k);
            let ek = if c.b() { EK::Big } else { EK::Native };
            let mut d = if size > 200 { c13::serialized(64, ek.big(), 1, 4) } else { c13::serialized(size, ek.big(), 1, 4) };
            if size > 200 {
                d[4..8].fill(0xff);
            }
            let n = d.len() * (5 - cut) / 5;
            let buf = Exact::new(&d[..n], true);
            let d = buf.get();
            let mut w2 = W::scratch();
            let src = if miri { [0, 4, 7, 1, 3, 5, 8, 14][src] } else { src };
            many(src, n, &mut |x| twice(w, &mut || c13::attr_check(&mut w2, d, ek, x, &String::new).is_ok(), &|x| format!("{x}"))).map_err(|e| format!("attribute size {size}, {n} bytes, {ek:?}: {e}"))
        }));
    }
    {
        // sources that fail or panic at every call
        let sh = sh.clone();
        let calls = l.pick(9u64, 24, 40, 80);
        let step = l.pick(5usize, 5, 3, 3);
        v.push(suite("failing_sources", format!("{ns} record shapes in chunks of {step} x the n-th call (n < {calls}) of the source fails / panics in chunk / panics in advance x borrowed, temporary, mixed"), ns * calls * 3 * 3, move |i, w| {
            let mut c = Ch(i);
            let way = c.u(3);
            let tmp = *c.of(&[0, u64::MAX, 0x5555_5555_5555_5555]);
            let n = c.n(calls) as u32;
            let s = c.of(&sh);
            let d = s.bytes(false);
            let cuts: Vec<usize> = (1..).map(|j| j * step).take_while(|p| *p < d.len()).collect();
            let mut o = Dump::default();
            let hint = n % 2 == 0;
            twice(
                w,
                &mut || {
                    let seen = Cell::new(Seen::default());
                    let mut src = ChunkSrc::new(&d, &cuts, tmp, hint, &seen);
                    if way == 0 {
                        src.fail = Some((n, Fault::Marker));
                    }
                    let mut p = Parser::new(Bomb(src, if way == 0 { u32::MAX - 1 } else { n }, way == 2), config(&s.cfg, perf_event_data::endian::Native));
                    let r = catch_unwind(AssertUnwindSafe(|| ask(&mut p, Api::Visit, None, &mut o).is_ok()));
                    (r.ok(), o.hash())
                },
                &|x| format!("{x:?}"),
            )
            .map_err(|e| format!("{} call {n} way {way}: {e}", s.name))
        }));
    }
    {
        // element types of every alignment at every address
        let offs: &'static [usize] = l.pick(&[0, 1, 8, 32], &[0, 1, 2, 4, 6, 8, 16, 24, 32, 63], &ALL64, &ALL64);
        let no = offs.len() as u64;
        let skips: &'static [usize] = l.pick(&[0, 8], &[0, 1, 8], &[0, 1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 64], &[0, 1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 64]);
        let nk = skips.len() as u64;
        let srcs: &'static [usize] = l.pick(&[0], &[0, 8], &[0, 1, 2, 4, 8, 9, 10, 12], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
        let ks = srcs.len() as u64;
        let nl = l.pick(3u64, 4, 4, 6);
        v.push(suite("element_layouts", format!("typed arrays of 10 user types of alignment 1 to 64 (3 of them without size), 0..{nl} elements, after {nk} distances, {no} addresses modulo 64 x {ks} sources x in place or converted x {ne} byte orders"), 10 * nl * nk * no * ks * 2 * ne, move |i, w| {
            let mut c = Ch(i);
            let direct = c.b();
            let ek = *c.of(eks);
            let n = c.n(nl) as usize;
            let skip = *c.of(skips);
            let ty = c.u(10);
            let k = *c.of(srcs);
            let off = *c.of(offs);
            // room for the elements, and in every third case too little
            let len = (skip + n * [3, 6, 12, 8, 16, 32, 64, 0, 0, 0][ty]).saturating_sub(usize::from(i % 3 == 0));
            let v: Vec<u8> = (0..len + 128).map(|x| x as u8 ^ 0x5a).collect();
            let a = v.as_ptr() as usize;
            let at = (64 - a % 64) % 64 + off;
            let d = &v[at..at + len];
            w.traces += 1;
            w.state(mix(i % 7919));
            many(k, len, &mut |src| match ty {
                0 => layout::<A1>(w, d, skip, n, ek, src, direct),
                1 => layout::<A2>(w, d, skip, n, ek, src, direct),
                2 => layout::<A4>(w, d, skip, n, ek, src, direct),
                3 => layout::<A8>(w, d, skip, n, ek, src, direct),
                4 => layout::<A16>(w, d, skip, n, ek, src, direct),
                5 => layout::<A32>(w, d, skip, n, ek, src, direct),
                6 => layout::<A64>(w, d, skip, n, ek, src, direct),
                7 => layout::<Z1>(w, d, skip, n, ek, src, direct),
                8 => layout::<Z8>(w, d, skip, n, ek, src, direct),
                _ => layout::<Z64>(w, d, skip, n, ek, src, direct),
            })
            .map_err(|e| format!("type {ty}, {n} elements after {skip} bytes at address {off} mod 64, {ek:?}, source {k}: {e}"))
        }));
    }
    {
        let mut x = vec![];
        super::c21::auto!(x: Parser<Local, Native>, Parser<&'static [u8], Tied<Rc8>>, ParseConfig<Tied<Rc8>>, Parser<&'static Local, Native>, Parser<Single, Native>, Parser<&'static [u8], Tied<Cell<u8>>>, ParseConfig<Tied<Cell<u8>>>);
        let x: Vec<(&'static str, bool, bool)> = x;
        v.push(suite("thread_bound", "parsers and configurations over sources and byte orders that must stay on their thread (or must not be shared) are themselves not Send (not Sync)", x.len() as u64, move |i, w| {
            let (n, s, y) = x[i as usize];
            w.trans += 2;
            w.traces += 1;
            w.state(i);
            // the first four hold an Rc, the others a Cell, which may be sent
            if y || (s && i < 4) { Err(format!("{n}: Send = {s}, Sync = {y} although what it holds is bound to a thread")) } else { Ok(()) }
        }));
    }
    v.push(suite("user_types", "repetitions of user types that own memory, fail or panic at the n-th element, or have no size, x counts 0..6 and huge x 4 sources", 3 * 8 * 8 * 4 * 2, move |i, w| {
        let mut c = Ch(i);
        let ty = c.u(3);
        let n = c.u(8);
        let n = if n == 7 { usize::MAX } else { n };
        let fuse = c.u(8) as u32;
        let k = [0, 1, 4, 7][c.u(4)];
        let loud = c.b();
        let d: Vec<u8> = (1..12).collect();
        let cf = Cfg::default();
        many(k, d.len(), &mut |src| {
            twice(
                w,
                &mut || {
                    FUSE.with(|f| f.set((fuse, loud)));
                    crate::on_src!(&d[..], config(&cf, perf_event_data::endian::Native), src, p => catch_unwind(AssertUnwindSafe(|| match ty {
                        0 => p.parse_repeated::<Owner>(n).map(|v| v.len() + v.iter().map(|o| *o.0 as usize + o.1[0] as usize).sum::<usize>()).unwrap_or(usize::MAX),
                        1 => p.parse_repeated::<Unit>(n).map(|v| v.len()).unwrap_or(usize::MAX),
                        _ => p.parse_repeated::<Vec1>(n).map(|v| v.iter().map(|x| x.0.len()).sum()).unwrap_or(usize::MAX),
                    })).ok())
                },
                &|x| format!("{x:?}"),
            )
        })
        .map_err(|e| format!("type {ty} count {n} fuse {fuse}: {e}"))
    }));
    v
}

/// A user type of 24 bytes that takes a single byte from the source.
#[derive(Debug)]
struct Vec1(Vec<u8>);
impl<'p> Parse<'p> for Vec1 {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        Ok(Vec1(p.parse_bytes(1)?.into_owned()))
    }
}

/// A user type with an alignment of its own, read as its bytes.
macro_rules! aligned { ($($n:ident $a:literal $z:literal),*) => { $(
    #[repr(C, align($a))]
    #[derive(Clone, Copy)]
    struct $n([u8; $z]);
    impl<'p> Parse<'p> for $n {
        fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
            const { assert!(std::mem::size_of::<$n>() == $z) }
            Ok($n(p.parse()?))
        }
    }
)* } }
aligned!(A1 1 3, A2 2 6, A4 4 12, A8 8 8, A16 16 16, A32 32 32, A64 64 64, Z1 1 0, Z8 8 0, Z64 64 0);

/// Typed arrays of `T`, in place or not: what comes back is aligned, of the right length and, in place, it lies where the input does.
fn layout<T: for<'p> Parse<'p> + Copy>(w: &mut W, d: &[u8], skip: usize, n: usize, ek: EK, src: &Src, direct: bool) -> R {
    let (size, align) = (std::mem::size_of::<T>(), std::mem::align_of::<T>());
    let cf = Cfg::default();
    let in_place = |s: &[T]| -> R {
        let p = s.as_ptr() as usize;
        if p % align != 0 {
            return Err(format!("a slice of alignment {align} at address {p:#x}"));
        }
        if s.len() != n {
            return Err(format!("a slice of {} elements, expected {n}", s.len()));
        }
        if n * size > 0 && p != d.as_ptr() as usize + skip {
            return Err(format!("a slice at {p:#x}, the input is at {:#x}", d.as_ptr() as usize + skip));
        }
        // read every byte of it
        std::hint::black_box(s.iter().map(|x| unsafe { std::slice::from_raw_parts(x as *const T as *const u8, size) }.iter().map(|x| *x as u64).sum::<u64>()).sum::<u64>());
        Ok(())
    };
    w.trans += 2;
    crate::on3!(d, &cf, ek, src, p => {
        if p.parse_bytes(skip).is_err() {
            return Ok(());
        }
        if direct {
            match unsafe { p.parse_slice_direct::<T>(n) } {
                Ok(Some(s)) => in_place(s),
                _ => Ok(()),
            }
        } else {
            match unsafe { p.parse_slice::<T>(n) } {
                Ok(std::borrow::Cow::Borrowed(s)) => in_place(s),
                Ok(std::borrow::Cow::Owned(v)) if v.len() != n || v.as_ptr() as usize % align != 0 => Err(format!("{} elements at {:?}, expected {n}", v.len(), v.as_ptr())),
                _ => Ok(()),
            }
        }
    })
}

/// A source that must stay on its thread, one that must not be shared, and byte orders of those kinds.
#[allow(dead_code)]
struct Local(std::rc::Rc<u8>);
unsafe impl<'p> ParseBuf<'p> for Local {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        Ok(ParseBufChunk::Temporary(&[]))
    }
    fn advance(&mut self, _: usize) {}
}
#[allow(dead_code)]
struct Single(Cell<u8>);
/// A byte order that must stay on its thread, or must not be shared.
#[allow(dead_code)]
#[derive(Clone)]
struct Tied<T: Clone + 'static>(T);
unsafe impl<T: Clone + 'static> Endian for Tied<T> {
    fn is_native(&self) -> bool {
        false
    }
    fn convert_u16(&self, b: [u8; 2]) -> u16 {
        u16::from_be_bytes(b)
    }
    fn convert_u32(&self, b: [u8; 4]) -> u32 {
        u32::from_be_bytes(b)
    }
    fn convert_u64(&self, b: [u8; 8]) -> u64 {
        u64::from_be_bytes(b)
    }
}
type Rc8 = std::rc::Rc<u8>;

pub fn suites(t: Tier) -> Vec<Suite> {
    build(t.pick(Quick, Thorough))
}
