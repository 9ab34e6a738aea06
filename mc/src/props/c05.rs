//! C05: byte order is applied uniformly to every multi-byte value.
use super::c02::{one, pick, FULL};
use super::c04::{bare, coded, many, Coded};
use crate::dump::Dump;
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::parse::Parser;
use perf_event_data::*;
use std::borrow::Cow;

const NO: Allow = Allow { f1: false };

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let mut all = shapes();
    all.push(Shape { name: "sample all but branches".into(), ty: 9, misc: 0, cfg: Cfg { st: st::ALL & !st::BRANCH_STACK, ..FULL }, body: Body::Sample(Sm::S) });
    let sh: std::sync::Arc<Vec<Coded>> = coded(all.clone()).into();
    let ns = sh.len() as u64;
    {
        let sh = sh.clone();
        v.push(suite("shapes", format!("{ns} record shapes x 7 byte orders (native, little, big, run-time little/big, user-written little/big) x 16 sources x 6 interfaces"), ns * 7 * 16 * 6, move |i, w| {
            let mut c = Ch(i);
            let ek = *c.of(&EKS);
            let k = c.u(16);
            let api = *c.of(&APIS);
            let s = c.of(&sh[..]);
            let d = s.get(ek.big());
            many(k, d.len() - if api.hdr() { 8 } else { 0 }, &mut |src| check(w, d, &s.s.cfg, ek, api, src, NO, &|| s.s.name.clone()))
        }));
    }
    {
        let sh = sh.clone();
        // values in big-endian branch flag words are finding KF1, decided in branch_flags below
        let rows: Vec<u64> = sh.iter().map(|s| if s.s.cfg.st & st::BRANCH_STACK != 0 && s.s.ty == 9 { 0 } else { (s.le.len() * 8) as u64 }).collect();
        let total: u64 = rows.iter().sum();
        v.push(suite("bit_flips", "every single bit of every shape flipped x 6 byte orders x 2 sources", total * 6 * 2, move |i, w| {
            let mut c = Ch(i);
            let ek = *c.of(&EKS[1..]);
            let k = c.u(2);
            let (j, x) = pick(&rows, c.0);
            let s = &sh[j];
            let mut d = s.get(ek.big()).to_vec();
            d[x as usize / 8] ^= 1 << (x % 8);
            // F1: a flipped length may move an array to an odd address; only in-place reads are affected
            let native = ek.native() && k == 0;
            many(if k == 0 { 0 } else { 4 }, d.len(), &mut |src| check(w, &d, &s.s.cfg, ek, Api::Visit, src, Allow { f1: native }, &|| format!("{} with bit {x} flipped", s.s.name)))
        }));
    }
    {
        let vs = notables(all.iter().filter(|s| s.cfg.st & st::BRANCH_STACK == 0 || s.ty != 9).cloned().collect());
        v.push(suite("notable_values", format!("{} x 4 byte orders x 2 sources", vs.what()), vs.total * 4 * 2, move |i, w| {
            let mut c = Ch(i);
            let ek = *c.of(&[EK::Big, EK::DynB, EK::DynL, EK::CustB]);
            let k = c.u(2) * 2;
            let (s, m) = vs.get(c.0);
            let d = s.bytes_with(ek.big(), m);
            many(k, d.len(), &mut |src| check(w, &d, &s.cfg, ek, Api::Visit, src, NO, &|| format!("{} with {m:x?}", s.name)))
        }));
    }
    // a byte order that is neither: the caller's conversion functions decide, each for its width
    {
        let sh = all.clone();
        let le = sh.len() as u64;
        v.push(suite("odd_order", format!("{le} record shapes in a byte order of the caller's own that is neither little nor big endian and differs in kind between 16, 32 and 64 bits x 16 sources x 6 interfaces"), le * 16 * 6, move |i, w| {
            let _on = OddOn::new();
            let mut c = Ch(i);
            let k = c.u(16);
            let api = *c.of(&APIS);
            let s = c.of(&sh[..]);
            let d = s.bytes(false);
            many(k, d.len() - if api.hdr() { 8 } else { 0 }, &mut |src| check(w, &d, &s.cfg, EK::Odd, api, src, NO, &|| format!("{} in the odd byte order", s.name)))
        }));
        let vs = notables(all.clone());
        v.push(suite("odd_values", format!("{} in the odd byte order x 2 sources", vs.what()), vs.total * 2, move |i, w| {
            let _on = OddOn::new();
            let mut c = Ch(i);
            let k = c.u(2) * 4;
            let (s, m) = vs.get(c.0);
            let d = s.bytes_with(false, m);
            many(k, d.len(), &mut |src| check(w, &d, &s.cfg, EK::Odd, Api::Visit, src, NO, &|| format!("{} with {m:x?} in the odd byte order", s.name)))
        }));
        let sets = near_sets(25, t.pick(3, 5));
        v.push(suite("odd_sets", format!("{} sample_type sets (at most {} fields, or all but as many) in the odd byte order x 3 sources", sets.len(), t.pick(3, 5)), sets.len() as u64 * 3, move |i, w| {
            let _on = OddOn::new();
            let mut c = Ch(i);
            let k = *c.of(&[0, 1, 2]);
            let s = *c.of(&sets);
            one(w, &Cfg { st: s, ..FULL }, &Sm::S, EK::Odd, Api::Visit, k, &|| format!("sample_type {s:#x} in the odd byte order"))
        }));
    }
    let modes: &'static [(EK, usize)] = t.pick(&[(EK::Big, 0)], &[(EK::Big, 0), (EK::DynB, 2), (EK::DynL, 0), (EK::CustB, 1)]);
    v.push(suite("all_sets", format!("all 2^25 sample_type sets x {} byte orders", modes.len()), (1 << 25) * modes.len() as u64, move |i, w| {
        let s = i & st::ALL;
        let (ek, k) = modes[(i >> 25) as usize];
        one(w, &Cfg { st: s, ..FULL }, &Sm::S, ek, Api::Visit, k, &|| format!("sample_type {s:#x} {ek:?}"))
    }));
    {
        let bodies: Vec<Shape> = all.into_iter().filter(|s| !s.cfg.sid_all || s.ty == 9).collect();
        let rows: Vec<u64> = bodies.iter().map(|x| x.bytes(false).len() as u64 - 7).collect();
        let total: u64 = rows.iter().sum();
        v.push(suite("bare_bodies", "every body parsed directly, cut off at every length x 3 byte orders x 4 sources", total * 12, move |i, w| {
            let mut c = Ch(i);
            let ek = *c.of(&[EK::Native, EK::Big, EK::CustL]);
            let k = *c.of(&[0, 1, 4, 6]);
            let (j, x) = pick(&rows, c.0);
            bare(w, &bodies[j], x as usize, k, ek)
        }));
    }

    // the conversion functions themselves
    v.push(suite("convert_u16", "all 65536 byte pairs x 7 byte orders", 65536 * 7, |i, w| {
        let mut c = Ch(i);
        let b = (c.n(65536) as u16).to_le_bytes();
        conv(w, EKS[c.u(7)], 2, &b)
    }));
    v.push(suite("convert_u32", "every value of every pair of bytes over backgrounds 00/ff x 7 byte orders", 12 * 65536 * 2 * 7, |i, w| {
        let mut c = Ch(i);
        let x = c.n(65536) as u16;
        let (p, q) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][c.u(12) / 2];
        let mut b = [if c.b() { 0xff } else { 0 }; 4];
        b[p] = x as u8;
        b[q] = (x >> 8) as u8;
        conv(w, EKS[c.u(7)], 4, &b)
    }));
    v.push(suite("convert_u64", "every value of every byte pair over background i*17 x 7 byte orders", 64 * 65536 * 7, |i, w| {
        let mut c = Ch(i);
        let x = c.n(65536) as u16;
        let (p, q) = (c.u(8), c.u(8));
        let mut b: [u8; 8] = std::array::from_fn(|i| i as u8 * 17 + 1);
        b[p] = x as u8;
        b[q] = (x >> 8) as u8;
        conv(w, EKS[c.u(7)], 8, &b)
    }));
    v.push(suite("in_place", "typed slices of u8/u16/u32/u64/arrays x length 0..5 x 8 alignments x 7 byte orders: reinterpretation only in host order, same values as element-wise", 5 * 6 * 8 * 7, |i, w| {
        let mut c = Ch(i);
        let ty = c.u(5);
        let n = c.u(6);
        let al = c.u(8);
        let ek = EKS[c.u(7)];
        in_place(w, ty, n, al, ek)
    }));

    {
        let ls: std::sync::Arc<Vec<usize>> = super::c04::sizes_to(t.pick(100, 600), 60000).into();
        let n = ls.len() as u64;
        v.push(suite("sizes", format!("15 variable parts of {n} sizes up to 60000 x 3 byte orders x 4 sources x 2 interfaces"), 15 * n * 3 * 4 * 2, move |i, w| {
            let mut c = Ch(i);
            let ek = *c.of(&[EK::Native, EK::Big, EK::CustL]);
            let k = *c.of(&[0, 2, 7, 5]);
            let api = *c.of(&[Api::Visit, Api::MetaH]);
            let part = c.u(15);
            let Some(s) = super::c14::sized(part, *c.of(&ls)) else { return Ok(()) };
            let d = s.bytes(ek.big());
            let skip = if api.hdr() { 8 } else { 0 };
            many(k, d.len() - skip, &mut |src| check(w, &d, &s.cfg, ek, api, src, NO, &|| s.name.clone()))
        }));
    }
    // serialized attributes (the flag word of a big-endian machine is finding KF2)
    v.push(suite("attributes", "serialized attributes of 12 sizes: background 00/ff/distinct x each bit of each byte inverted or none x 7 byte orders from a slice, big-endian from 15 other sources", 12 * 3 * (129 * 8) * 22, |i, w| {
        let mut c = Ch(i);
        let k = c.u(22);
        let (ek, k) = if k < 7 { (EKS[k], 0) } else { (EK::Big, k - 6) };
        let size = *c.of(&[64u32, 72, 80, 96, 104, 112, 120, 128, 136, 137, 144, 200]);
        let bg = c.u(3);
        let mut d = super::c13::serialized(size, ek.big(), 11, 3);
        let n = size.min(136) as usize;
        match bg {
            0 => d[8..n].fill(0),
            1 => d[8..n].fill(0xff),
            _ => (),
        }
        // position 0: nothing inverted
        let at = c.0 as usize;
        if at > 0 {
            match d.get_mut(at / 8 + 7) {
                Some(b) if at / 8 + 7 < n => *b ^= 1 << (at % 8),
                _ => return Ok(()),
            }
        }
        many(k, d.len(), &mut |s| super::c13::attr_check(w, &d, ek, s, &|| format!("attributes of size {size}, bit {at} inverted")))
    }));
    // KF1
    v.push(suite("branch_flags", "branch flag words: every bit, every pair of bits, both halves walking x 7 byte orders x in-place / element-wise; big-endian words are finding KF1", 64 * 64 * 7 * 2, |i, w| {
        let mut c = Ch(i);
        let bits = 1u64 << c.n(64) | 1 << c.n(64);
        let ek = EKS[c.u(7)];
        let k = c.u(2);
        branch_word(w, bits, ek, k)
    }));
    v
}

/// The model and the encoder use the odd byte order as long as this lives.
struct OddOn;
impl OddOn {
    fn new() -> OddOn {
        ODD_ON.set(true);
        OddOn
    }
}
impl Drop for OddOn {
    fn drop(&mut self) {
        ODD_ON.set(false)
    }
}

fn conv(w: &mut W, ek: EK, n: usize, b: &[u8]) -> R {
    let mut want = 0u64;
    for j in 0..n {
        let x = if ek.big() { b[j] } else { b[n - 1 - j] };
        want = want << 8 | x as u64;
    }
    let (got, parsed, nat) = with_endian!(ek, e => {
        let g = match n {
            2 => e.convert_u16(b.try_into().unwrap()) as u64,
            4 => e.convert_u32(b.try_into().unwrap()) as u64,
            _ => e.convert_u64(b.try_into().unwrap()),
        };
        let nat = e.is_native();
        let mut p = Parser::new(b, config(&Cfg::default(), e));
        let q = match n {
            2 => p.parse::<u16>().map(|x| x as u64),
            4 => p.parse::<u32>().map(|x| x as u64),
            _ => p.parse::<u64>(),
        };
        (g, q.ok(), nat)
    });
    w.trans += 2;
    w.traces += 1;
    w.state(want ^ n as u64);
    if got != want || parsed != Some(want) {
        return Err(format!("{ek:?} bytes {b:02x?}: expected {want:#x}, converted {got:#x}, parsed {parsed:x?}"));
    }
    // claiming to be native in another order would be undefined behaviour
    if nat != ek.native() {
        return Err(format!("{ek:?}.is_native() = {nat}"));
    }
    Ok(())
}

fn in_place(w: &mut W, ty: usize, n: usize, al: usize, ek: EK) -> R {
    let d: Vec<u8> = (0..64).map(|i| (i * 7 + 1) as u8).collect();
    let buf = Buf::new(&d, al);
    let d = buf.get();
    macro_rules! go {
        ($t:ty, $sz:expr, $conv:expr) => {{
            let want: Vec<$t> = (0..n).map(|j| $conv(&d[j * $sz..(j + 1) * $sz])).collect();
            with_endian!(ek, e => {
                let cf = config(&Cfg::default(), e);
                let mut p = Parser::new(d, cf.clone());
                let got = unsafe { p.parse_slice_direct::<$t>(n) }.map_err(|e| e.to_string())?;
                let ok = n == 0 || (ek.big() == cfg!(target_endian = "big") && d.as_ptr() as usize % std::mem::align_of::<$t>() == 0);
                if let Some(g) = got {
                    if g != &want[..] || !(ok || $sz == 1) {
                        return Err(format!("{ek:?}: {n} x {} at +{al} reinterpreted in place as {g:x?}, expected {want:x?}", stringify!($t)));
                    }
                }
                let mut p = Parser::new(d, cf.clone());
                let g: Vec<$t> = p.parse_repeated(n).map_err(|e| e.to_string())?;
                if g != want {
                    return Err(format!("{ek:?}: {n} x {} at +{al} parsed as {g:x?}, expected {want:x?}", stringify!($t)));
                }
                // F1: contiguous, native, misaligned data
                if !(ek.native() && d.as_ptr() as usize % std::mem::align_of::<$t>() != 0) {
                    let mut p = Parser::new(d, cf);
                    let g: Cow<[$t]> = unsafe { p.parse_slice(n) }.map_err(|e| e.to_string())?;
                    if *g != want[..] {
                        return Err(format!("{ek:?}: slice of {n} x {} at +{al} parsed as {g:x?}, expected {want:x?}", stringify!($t)));
                    }
                }
            })
        }};
    }
    let num = |b: &[u8]| {
        let mut v = 0u64;
        for j in 0..b.len() {
            v = v << 8 | if ek.big() { b[j] } else { b[b.len() - 1 - j] } as u64;
        }
        v
    };
    w.trans += 3;
    w.traces += 3;
    w.state((ty * 6 + n) as u64);
    match ty {
        0 => go!(u8, 1, |b: &[u8]| b[0]),
        1 => go!(u16, 2, |b: &[u8]| num(b) as u16),
        2 => go!(u32, 4, |b: &[u8]| num(b) as u32),
        3 => go!(u64, 8, |b: &[u8]| num(b)),
        _ => go!([u8; 3], 3, |b: &[u8]| [b[0], b[1], b[2]]),
    }
    Ok(())
}

fn branch_word(w: &mut W, bits: u64, ek: EK, k: usize) -> R {
    let big = ek.big();
    let mut d = vec![];
    for x in [0x1122_3344_5566_7788u64, 0x99aa_bbcc_ddee_ff01, bits] {
        d.extend_from_slice(&if big { x.to_be_bytes() } else { x.to_le_bytes() });
    }
    // what the kernel of that byte order means by this word
    let f = |lo: u32, n: u32, be_lo: u32| (if big { bits >> be_lo } else { bits >> lo }) & ((1 << n) - 1);
    let strict = (f(0, 1, 63), f(1, 1, 62), f(2, 1, 61), f(3, 1, 60), f(4, 16, 44), f(20, 4, 40));
    let g = |lo: u32, n: u32| bits >> lo & ((1 << n) - 1);
    let numeric = (g(0, 1), g(1, 1), g(2, 1), g(3, 1), g(4, 16), g(20, 4));
    let got = with_endian!(ek, e => {
        let mut p = Parser::new(&d[..], config(&Cfg::default(), e));
        let b: BranchEntry = if k == 0 {
            p.parse().map_err(|e| e.to_string())?
        } else {
            unsafe { p.parse_slice::<BranchEntry>(1) }.map_err(|e| e.to_string())?[0]
        };
        if (b.from(), b.to()) != (0x1122_3344_5566_7788, 0x99aa_bbcc_ddee_ff01) {
            return Err(format!("{ek:?}: branch entry from {:#x} to {:#x}", b.from(), b.to()));
        }
        (b.mispred() as u64, b.predicted() as u64, b.in_tx() as u64, b.abort() as u64, b.cycles() as u64, u8::from(b.ty()) as u64)
    });
    w.trans += 7;
    w.traces += 1;
    let mut h = Dump::default();
    h.ws(crate::dump::K::lbr, &[strict.0, strict.1, strict.2, strict.3, strict.4, strict.5]);
    w.state(h.hash());
    if got == strict {
        return Ok(());
    }
    if big && got == numeric {
        return w.known("KF1", || format!("big-endian branch flag word {bits:#018x}: {got:x?}, a big-endian kernel means {strict:x?}"));
    }
    Err(format!("{ek:?}: branch flag word {bits:#018x}: model {strict:x?}, implementation {got:x?}"))
}
