//! C13: serialized perf_event_attr structs.
use super::c02::pick;
use super::c04::{many, EK3};
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_open_sys::bindings::perf_event_attr;

pub const SIZES: [u32; 9] = [64, 72, 80, 96, 104, 112, 120, 128, 136];
/// (offset, width) of the fields; reserved ones are left out
const FIELDS: [(usize, usize); 19] = [
    (0, 4), (4, 4), (8, 8), (16, 8), (24, 8), (32, 8), (40, 8), (48, 4), (52, 4), (56, 8), (64, 8), (72, 8), (80, 8), (88, 4), (92, 4), (96, 8), (104, 4), (108, 2), (112, 4),
];
const MORE: [(usize, usize); 2] = [(120, 8), (128, 8)];

/// The bits of the flag word as a big-endian kernel packs them, in little-endian bitfield positions.
fn be_flags(v: u64) -> u64 {
    let mut out = 0;
    let mut o = 0;
    while o < 64 {
        let w = if o == 15 { 2 } else if o == 38 { 26 } else { 1 };
        out |= (v >> (64 - o - w) & ((1u64 << w) - 1)) << o;
        o += w;
    }
    out
}

#[derive(Clone, Copy, PartialEq, Eq)]
struct Want {
    bytes: [u8; 136],
    used: usize,
}
/// The model: what a serialized struct decodes to.
fn decode(b: &[u8], big: bool, kf2: bool) -> Result<Want, u8> {
    if b.len() < 8 {
        return Err(EOF);
    }
    let g = |o: usize, w: usize| -> u64 {
        let s = &b[o..o + w];
        if big {
            s.iter().fold(0, |a, x| a << 8 | *x as u64)
        } else {
            s.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
        }
    };
    let size = g(4, 4) as usize;
    if size <= 136 && !SIZES.contains(&(size as u32)) {
        return Err(INV | UDATA);
    }
    if b.len() < size {
        return Err(EOF | if b.len() > 136 && b[136..].iter().any(|x| *x != 0) { UDATA } else { 0 });
    }
    if size > 136 && b[136..size].iter().any(|x| *x != 0) {
        return Err(UDATA);
    }
    let mut out = [0u8; 136];
    for (o, w) in FIELDS.into_iter().chain(MORE) {
        if o + w <= size {
            let mut v = g(o, w);
            if o == 40 && big && !kf2 {
                v = be_flags(v)
            }
            out[o..o + w].copy_from_slice(&v.to_le_bytes()[..w]);
        }
    }
    Ok(Want { bytes: out, used: size })
}

fn raw(a: &perf_event_attr) -> [u8; 136] {
    assert_eq!(std::mem::size_of::<perf_event_attr>(), 136);
    let mut b = [0u8; 136];
    unsafe { std::ptr::copy_nonoverlapping(a as *const _ as *const u8, b.as_mut_ptr(), 136) };
    // reserved fields carry no information
    b[110] = 0;
    b[111] = 0;
    b[116..120].fill(0);
    b
}

pub fn attr_check(w: &mut W, d: &[u8], ek: EK, src: &Src, what: &dyn Fn() -> String) -> R {
    let m = decode(d, ek.big(), false);
    macro_rules! go {
        ($p:expr) => {{
            let mut p = $p;
            let r = p.parse::<perf_event_attr>().map(|a| raw(&a)).map_err(|e| kind(&e));
            (r, p.parse_rest().map(|x| x.to_vec()).ok())
        }};
    }
    let (r, left) = match src {
        Src::Slice => with_endian!(ek, e => go!(perf_event_data::parse::Parser::new(d, config(&Cfg::default(), e)))),
        _ => crate::on3!(d, &Cfg::default(), ek, src, p => go!(p)),
    };
    w.traces += 1;
    w.trans += 22;
    let ok = |m: &Result<Want, u8>| match (m, &r) {
        (Ok(a), Ok(b)) => a.bytes == *b && left.as_deref() == Some(&d[a.used..]),
        (Err(a), Err(b)) => a & b != 0,
        _ => false,
    };
    w.state(match &m {
        Ok(a) => a.bytes.chunks(8).fold(a.used as u64, |h, c| mix(h ^ u64::from_le_bytes(c.try_into().unwrap()))),
        Err(e) => *e as u64 ^ mix(d.len() as u64),
    });
    if ok(&m) {
        w.note(|| format!("{}: {} -> {}", what(), crate::dump::hex(d, 64), m.map_or_else(errs, |a| format!("{} bytes", a.used))));
        return Ok(());
    }
    if ek.big() {
        let m = decode(d, true, true);
        if ok(&m) {
            return w.known("KF2", || what());
        }
    }
    let show = |x: Result<[u8; 136], u8>| x.map_or_else(errs, |b| crate::dump::hex(&b, 136));
    Err(format!(
        "{}, {ek:?} {src:?}\n input[{}] {}\n model: {}\n implementation: {} (then {:?} bytes left, model {:?})",
        what(), d.len(), crate::dump::hex(d, 300), show(m.map(|a| a.bytes)), show(r), left.map(|l| l.len()), m.ok().map(|a| d.len() - a.used)
    ))
}

/// A struct of `size` bytes with all fields set (tail zero), flags word zero when big (finding KF2), then `after` bytes.
pub fn serialized(size: u32, big: bool, salt: u64, after: usize) -> Vec<u8> {
    let mut e = Enc::new(big, salt);
    e.w32();
    e.u32(size);
    let n = (size as usize).max(8);
    e.fill(n.min(136) - 8);
    if n > 48 && big {
        e.v[40..48].fill(0);
    }
    e.v.resize(n, 0);
    e.v.extend((0..after).map(|i| 0xd0 + i as u8));
    e.v
}

/// One struct in uniform chunks, followed by foreign bytes (for C04).
pub fn delivered(w: &mut W, size: usize, k: usize, tmp: u64, hint: bool, ek: EK) -> R {
    let d = serialized(size as u32, ek.big(), 9, 7);
    let cuts: Vec<usize> = (1..).map(|j| j * k).take_while(|p| *p < d.len()).collect();
    attr_check(w, &d, ek, &Src::Chunks { cuts: &cuts, tmp, hint }, &|| format!("struct of size {size} in chunks of {k}"))
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let top = t.pick(700u64, 5000);
    v.push(suite("sizes", format!("every size 0..{top} x 4 contents x enough data, one byte too few, or much more x 3 byte orders x 16 sources"), top * 4 * 3 * 3 * 16, |i, w| {
        let mut c = Ch(i);
        let k = c.u(16);
        let ek = *c.of(&EK3);
        let room = c.u(3);
        let fill = c.u(4);
        let size = c.0 as u32;
        let mut d = serialized(size, ek.big(), 3, 0);
        match fill {
            0 => d[8..].fill(0),
            1 => d[8..].fill(if ek.big() { 0 } else { 0xff }),
            2 => (),
            _ => {
                if let Some(b) = d.get_mut(136) {
                    *b = 1
                }
            }
        }
        match room {
            0 => (),
            1 => drop(d.pop()),
            _ => d.extend([7; 64]),
        }
        many(k, d.len(), &mut |s| attr_check(w, &d, ek, s, &|| format!("size {size}")))
    }));
    v.push(suite("huge_sizes", "32 sizes up to 2^32-1 x 6 amounts of data x 3 byte orders x 5 sources", 32 * 6 * 3 * 5, |i, w| {
        let mut c = Ch(i);
        let k = *c.of(&[0, 2, 3, 6, 9]);
        let ek = *c.of(&EK3);
        let have = *c.of(&[0usize, 56, 128, 1000, 5000, 70000]);
        let b = c.0 as u32;
        let size = (1u64 << b).wrapping_sub((b % 3) as u64) as u32 | if b == 31 { u32::MAX } else { 0 };
        let mut e = Enc::new(ek.big(), 0);
        e.u32(1);
        e.u32(size);
        e.zeros(have);
        let d = e.v;
        if have > 5000 && k == 3 {
            return Ok(());
        }
        many(k, d.len(), &mut |s| attr_check(w, &d, ek, s, &|| format!("declared size {size}, {have} bytes follow")))
    }));
    // every byte of every size
    {
        let sizes: Vec<u32> = SIZES.iter().copied().chain([137, 144, 160, 256]).collect();
        let rows: Vec<u64> = sizes.iter().map(|s| *s as u64 - 8).collect();
        let total: u64 = rows.iter().sum();
        v.push(suite("walking_bytes", "13 sizes x every byte position x all 256 values x zero or full background x 3 byte orders", total * 256 * 2 * 3, move |i, w| {
            let mut c = Ch(i);
            let x = c.n(256) as u8;
            let bg = c.b();
            let ek = *c.of(&EK3);
            let (j, at) = pick(&rows, c.0);
            let size = sizes[j];
            let mut d = serialized(size, ek.big(), 9, 5);
            if !bg {
                d[8..size as usize].fill(0)
            }
            d[8 + at as usize] = x;
            attr_check(w, &d, ek, &Src::Slice, &|| format!("size {size}, byte {} = {x:#x}", 8 + at))
        }));
    }
    v.push(suite("flag_words", "the flag word: all pairs of bits, set or cleared x 3 byte orders x 2 sizes", 64 * 64 * 2 * 3 * 2, |i, w| {
        let mut c = Ch(i);
        let (a, b) = (c.n(64), c.n(64));
        let inv = c.b();
        let ek = *c.of(&EK3);
        let size = *c.of(&[64, 136]);
        let mut d = serialized(size, ek.big(), 2, 3);
        let v = 1u64 << a | 1 << b;
        let v = if inv { !v } else { v };
        d[40..48].copy_from_slice(&if ek.big() { v.to_be_bytes() } else { v.to_le_bytes() });
        attr_check(w, &d, ek, &Src::Slice, &|| format!("flag word {v:#x}"))
    }));
    {
        let sizes: Vec<u32> = SIZES.iter().copied().chain([8, 65, 100, 137, 144, 200]).collect();
        let rows: Vec<u64> = sizes.iter().map(|s| *s as u64 + 1).collect();
        let total: u64 = rows.iter().sum();
        v.push(suite("truncations", "15 sizes x every truncation x 3 byte orders x 16 sources", total * 3 * 16, move |i, w| {
            let mut c = Ch(i);
            let k = c.u(16);
            let ek = *c.of(&EK3);
            let (j, n) = pick(&rows, c.0);
            let d = serialized(sizes[j], ek.big(), 4, 0);
            let d = &d[..n as usize];
            many(k, d.len(), &mut |s| attr_check(w, d, ek, s, &|| format!("size {} cut to {n}", sizes[j])))
        }));
    }
    v.push(suite("tails", "sizes 137..=400 x every single non-zero tail byte x 3 values x 2 byte orders x 5 sources", 264 * 264 * 3 * 2 * 5, |i, w| {
        let mut c = Ch(i);
        let size = 137 + c.n(264) as u32;
        let at = 136 + c.u(264);
        let x = *c.of(&[1u8, 0x80, 0xff]);
        let ek = *c.of(&[EK::Native, EK::Big]);
        let k = *c.of(&[0, 2, 4, 6, 8]);
        // at == size: the byte lies behind the struct
        if at > size as usize {
            return Ok(());
        }
        let mut d = serialized(size, ek.big(), 8, 1);
        d[at] = x;
        many(k, d.len(), &mut |s| attr_check(w, &d, ek, s, &|| format!("size {size}, tail byte {at} = {x:#x}")))
    }));
    {
        // pairs that cancel when bytes, words or signs are summed or xored
        const V: [(u8, u8); 8] = [(1, 1), (1, 255), (0x80, 0x80), (0xff, 0xff), (0x10, 0xf0), (0x7f, 0x81), (4, 4), (255, 1)];
        let sizes = [144usize, 152, 192, 264, 337, 400];
        let rows: Vec<u64> = sizes.iter().map(|s| ((s - 136) * (s - 137) / 2) as u64).collect();
        let total: u64 = rows.iter().sum();
        v.push(suite("tail_pairs", "6 sizes x every pair of tail bytes x 8 pairs of non-zero values x 2 byte orders x 4 sources", total * 8 * 2 * 4, move |i, w| {
            let mut c = Ch(i);
            let (p, q) = *c.of(&V);
            let ek = *c.of(&[EK::Native, EK::Big]);
            let k = *c.of(&[0, 2, 6, 9]);
            let (j, x) = pick(&rows, c.0);
            let size = sizes[j];
            let mut hi = (((8.0 * x as f64 + 1.0).sqrt() + 1.0) / 2.0) as u64;
            while hi * (hi + 1) / 2 <= x {
                hi += 1
            }
            while hi * (hi - 1) / 2 > x {
                hi -= 1
            }
            let lo = (x - hi * (hi - 1) / 2) as usize;
            let hi = hi as usize;
            let mut d = serialized(size as u32, ek.big(), 8, 1);
            d[136 + lo] = p;
            d[136 + hi] = q;
            many(k, d.len(), &mut |s| attr_check(w, &d, ek, s, &|| format!("size {size}, tail bytes {} = {p:#x} and {} = {q:#x}", 136 + lo, 136 + hi)))
        }));
        v.push(suite("tail_words", "6 sizes x every aligned 2-, 4- and 8-byte tail word and every run from it to the end, filled with 6 values x 2 byte orders x 4 sources", 6 * 34 * 4 * 6 * 2 * 4, move |i, w| {
            let mut c = Ch(i);
            let size = *c.of(&sizes);
            let at = 136 + 8 * c.u(34);
            let n = [2, 4, 8, 400][c.u(4)];
            let x = *c.of(&[1u8, 0x55, 0x80, 0xaa, 0xff, 0x20]);
            let ek = *c.of(&[EK::Native, EK::Big]);
            let k = *c.of(&[0, 2, 6, 9]);
            if at >= size {
                return Ok(());
            }
            let mut d = serialized(size as u32, ek.big(), 8, 1);
            d[at..(at + n).min(size)].fill(x);
            many(k, d.len(), &mut |s| attr_check(w, &d, ek, s, &|| format!("size {size}, {n} tail bytes from {at} = {x:#x}")))
        }));
    }
    v.push(suite("long_tails", "32 sizes from 401 to 70000 x no or one non-zero byte at 40 places of the tail (both ends, around powers of two) x 2 byte orders x 5 sources", 32 * 41 * 2 * 5, |i, w| {
        const S: [u32; 32] = [401, 448, 511, 512, 513, 520, 640, 1000, 1023, 1024, 1025, 1160, 2000, 2048, 2049, 3000, 4095, 4096, 4097, 4104, 4232, 5000, 8192, 8328, 9000, 16384, 20000, 32768, 40000, 65535, 65536, 70000];
        let mut c = Ch(i);
        let size = *c.of(&S);
        let p = c.u(41);
        let ek = *c.of(&[EK::Native, EK::Big]);
        let k = *c.of(&[0, 2, 4, 6, 9]);
        let n = size as usize;
        let at = match p {
            0..=3 => 136 + p,
            4..=7 => n - 1 - (p - 4),
            8..=39 => {
                let b = 1usize << (7 + (p - 8) / 3);
                [b - 1, b, b + 136][(p - 8) % 3]
            }
            _ => 0,
        };
        if (at != 0 && !(136..n).contains(&at)) || (n > 10000 && k == 4) {
            return Ok(());
        }
        let mut d = serialized(size, ek.big(), 8, 1);
        if at != 0 {
            d[at] = 4;
        }
        many(k, d.len(), &mut |s| attr_check(w, &d, ek, s, &|| format!("size {size}, tail byte {at}")))
    }));
    v.push(suite("boundaries", "10 sizes x every placement of one or two chunk boundaries x 8 borrowed/temporary patterns x 2 byte orders", 10 * 160 * 160 * 8 * 2, |i, w| {
        let mut c = Ch(i);
        let size = if let Some(s) = SIZES.get(c.u(10)) { *s } else { 152 };
        let (a, b) = (1 + c.u(160), 1 + c.u(160));
        let tmp = c.n(8);
        let ek = *c.of(&[EK::Native, EK::Big]);
        if a > b || b >= size as usize + 5 {
            return Ok(());
        }
        let d = serialized(size, ek.big(), 6, 5);
        let two = [a, b];
        let cuts = if a == b { &two[..1] } else { &two[..] };
        attr_check(w, &d, ek, &Src::Chunks { cuts, tmp, hint: tmp & 1 == 1 }, &|| format!("size {size} cut at {a}, {b}"))
    }));
    v.push(suite("sequences", "three structs in a row, every triple of 12 sizes x 3 byte orders x 16 sources: each starts where the previous ended", 12 * 12 * 12 * 3 * 16, |i, w| {
        let mut c = Ch(i);
        let sz = [64u32, 72, 80, 96, 104, 112, 120, 128, 136, 137, 144, 208];
        let s = [*c.of(&sz), *c.of(&sz), *c.of(&sz)];
        let ek = *c.of(&EK3);
        let k = c.u(16);
        let mut d = vec![];
        for (j, x) in s.into_iter().enumerate() {
            d.extend(serialized(x, ek.big(), j as u64 + 20, 0))
        }
        many(k, d.len(), &mut |src| {
            let got = crate::on3!(&d[..], &Cfg::default(), ek, src, p => {
                let g = |p: &mut perf_event_data::parse::Parser<_, _>| p.parse::<perf_event_attr>().map(|a| raw(&a)).map_err(|e| e.to_string());
                let a = [g(&mut p), g(&mut p), g(&mut p)];
                (a, p.parse_rest().map(|x| x.len()).unwrap_or(usize::MAX))
            });
            w.traces += 1;
            w.trans += 66;
            let mut at = 0;
            for (j, r) in got.0.iter().enumerate() {
                let m = decode(&d[at..], ek.big(), false).map_err(|e| format!("model: {}", errs(e)))?;
                if r.as_ref() != Ok(&m.bytes) {
                    return Err(format!("struct {j} of sizes {s:?}, {ek:?} {src:?}: {r:x?}, expected {}", crate::dump::hex(&m.bytes, 136)));
                }
                at += m.used;
            }
            w.state(mix(at as u64));
            if got.1 != 0 {
                return Err(format!("sizes {s:?}, {ek:?} {src:?}: {} bytes left over", got.1));
            }
            Ok(())
        })
    }));
    v
}
