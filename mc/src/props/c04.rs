//! C04: parsing does not depend on how the bytes are delivered.
use super::c02::pick;
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;

const F1: Allow = Allow { f1: true };
pub const EK3: [EK; 3] = [EK::Native, EK::Big, EK::CustL];
pub const PLANS: [&[usize]; 8] = [&[], &[1], &[2], &[3, 1], &[7], &[8], &[5, 1, 2], &[1, 100]];
pub const CAPS: [usize; 14] = [1, 2, 3, 5, 7, 8, 9, 16, 17, 31, 64, 100, 1024, 8192];

/// A shape encoded in both orders, followed by foreign bytes.
pub struct Coded {
    pub s: Shape,
    pub le: Vec<u8>,
    pub be: Vec<u8>,
}
pub const TAIL: usize = 11;
impl Coded {
    pub fn get(&self, big: bool) -> &[u8] {
        if big {
            &self.be
        } else {
            &self.le
        }
    }
}
pub fn coded(v: Vec<Shape>) -> Vec<Coded> {
    v.into_iter()
        .map(|s| {
            let mk = |big| {
                let mut b = s.bytes(big);
                b.extend((0..TAIL).map(|i| 0xC0 + i as u8));
                b
            };
            Coded { le: mk(false), be: mk(true), s }
        })
        .collect()
}

/// Placements of two boundaries 0 < a <= b < n (equal means one boundary).
fn two(n: u64, mut x: u64) -> (usize, usize) {
    // row a has n - a entries
    let mut a = 1;
    while x >= n - a {
        x -= n - a;
        a += 1;
    }
    (a as usize, (a + x) as usize)
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let sh: std::sync::Arc<Vec<Coded>> = coded(shapes()).into();
    let ns = sh.len() as u64;

    {
        let sh = sh.clone();
        const TMP: [u64; 6] = [0, u64::MAX, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa, 1, 0xffff_ffff_ffff_fffe];
        v.push(suite("uniform_chunks", format!("{ns} record shapes x chunk size 1..=40 x 6 borrowed/temporary patterns x hint x 3 byte orders x 6 interfaces"), ns * 40 * 6 * 2 * 3 * 6, move |i, w| {
            let mut c = Ch(i);
            let k = 1 + c.u(40);
            let tmp = *c.of(&TMP);
            let hint = c.b();
            let ek = *c.of(&EK3);
            let api = *c.of(&APIS);
            let x = c.of(&sh[..]);
            let d = x.get(ek.big());
            let start = if api.hdr() { 8 } else { 0 };
            let cuts: Vec<usize> = (1..).map(|j| j * k).take_while(|p| *p < d.len() - start).collect();
            check(w, d, &x.s.cfg, ek, api, &Src::Chunks { cuts: &cuts, tmp, hint }, F1, &|| format!("{} in chunks of {k}", x.s.name))
        }));
    }
    {
        let sh = sh.clone();
        v.push(suite("windows", format!("{ns} record shapes x sliding windows of 1..=40 bytes (no fixed boundaries) x borrowed/temporary x hint x 2 byte orders x 6 interfaces"), ns * 40 * 2 * 2 * 2 * 6, move |i, w| {
            let mut c = Ch(i);
            let size = 1 + c.u(40);
            let tmp = c.b();
            let hint = c.b();
            let ek = if c.b() { EK::Big } else { EK::CustL };
            let api = *c.of(&APIS);
            let x = c.of(&sh[..]);
            let d = x.get(ek.big());
            check(w, d, &x.s.cfg, ek, api, &Src::Win { size, tmp, hint }, F1, &|| format!("{} through windows of {size}", x.s.name))
        }));
    }
    {
        let sh = sh.clone();
        let modes: &'static [(EK, Api, bool)] = match t {
            Tier::Quick => &[(EK::Native, Api::Visit, false), (EK::Big, Api::Rec, true), (EK::Native, Api::MetaH, false)],
            Tier::Thorough => &[
                (EK::Native, Api::Visit, false),
                (EK::Native, Api::Visit, true),
                (EK::Big, Api::Rec, false),
                (EK::CustL, Api::Meta, false),
                (EK::Native, Api::VisitH, false),
                (EK::Native, Api::MetaH, true),
            ],
        };
        let rows: Vec<u64> = sh.iter().map(|x| { let n = x.le.len() as u64; n * (n - 1) / 2 }).collect();
        let total: u64 = rows.iter().sum();
        let nm = modes.len() as u64;
        v.push(suite("two_boundaries", format!("{ns} record shapes x every placement of one or two chunk boundaries x all 8 borrowed/temporary assignments x {nm} modes (byte order, interface, hint)"), total * 8 * nm, move |i, w| {
            let mut c = Ch(i);
            let tmp = c.n(8);
            let (ek, api, hint) = *c.of(modes);
            let (j, x) = pick(&rows, c.0);
            let x2 = &sh[j];
            let d = x2.get(ek.big());
            let (a, b) = two(d.len() as u64, x);
            let start = if api.hdr() { 8 } else { 0 };
            if b + start >= d.len() {
                return Ok(());
            }
            let cuts: &[usize] = if a == b { &[a] } else { &[a, b] };
            check(w, d, &x2.s.cfg, ek, api, &Src::Chunks { cuts, tmp, hint }, F1, &|| format!("{} cut at {a} and {b}", x2.s.name))
        }));
    }
    {
        // three boundaries inside short records
        let lim = t.pick(60usize, 110);
        let idx: Vec<usize> = (0..sh.len()).filter(|j| sh[*j].le.len() <= lim).collect();
        let rows: Vec<u64> = idx.iter().map(|j| { let n = sh[*j].le.len() as u64; (n - 1) * (n - 2) * (n - 3) / 6 }).collect();
        let total: u64 = rows.iter().sum();
        let sh = sh.clone();
        v.push(suite("three_boundaries", format!("{} short record shapes x every placement of three boundaries x all 16 borrowed/temporary assignments", idx.len()), total * 16, move |i, w| {
            let mut c = Ch(i);
            let tmp = c.n(16);
            let (j, mut x) = pick(&rows, c.0);
            let x2 = &sh[idx[j]];
            let n = x2.le.len() as u64;
            let mut a = 1;
            loop {
                let m = (n - 1 - a) * (n - 2 - a) / 2;
                if x < m {
                    break;
                }
                x -= m;
                a += 1;
            }
            let mut b = a + 1;
            while x >= n - 1 - b {
                x -= n - 1 - b;
                b += 1;
            }
            let cuts = [a as usize, b as usize, (b + 1 + x) as usize];
            check(w, &x2.le, &x2.s.cfg, EK::Native, Api::Visit, &Src::Chunks { cuts: &cuts, tmp, hint: false }, F1, &|| format!("{} cut at {cuts:?}", x2.s.name))
        }));
    }
    {
        let sh = sh.clone();
        let lens: Vec<u64> = sh.iter().map(|x| x.le.len() as u64).collect();
        let total: u64 = lens.iter().sum();
        v.push(suite("alignments", format!("{ns} record shapes x 8 base alignments x every single boundary or none x borrowed/temporary pieces x 3 byte orders x visitor and metadata interfaces"), total * 8 * 4 * 3 * 2, move |i, w| {
            let mut c = Ch(i);
            let al = c.u(8);
            let tmp = c.n(4);
            let ek = *c.of(&EK3);
            let api = *c.of(&[Api::Visit, Api::Meta]);
            let (j, x) = pick(&lens, c.0);
            let s = &sh[j];
            let buf = Buf::new(s.get(ek.big()), al);
            let cut = [x as usize];
            let cuts: &[usize] = if x == 0 { &[] } else { &cut };
            let src = if x == 0 && tmp == 0 { Src::Slice } else { Src::Chunks { cuts, tmp, hint: false } };
            check(w, buf.get(), &s.s.cfg, ek, api, &src, F1, &|| format!("{} at address 8k+{al}, cut at {x}", s.s.name))
        }));
    }
    {
        let sh = sh.clone();
        v.push(suite("readers", format!("{ns} record shapes x 14 buffer capacities x 8 short-read plans x 3 byte orders x 6 interfaces"), ns * 14 * 8 * 3 * 6, move |i, w| {
            let mut c = Ch(i);
            let cap = *c.of(&CAPS);
            let plan = *c.of(&PLANS);
            let ek = *c.of(&EK3);
            let api = *c.of(&APIS);
            let s = c.of(&sh[..]);
            check(w, s.get(ek.big()), &s.s.cfg, ek, api, &Src::Reader { cap, plan }, F1, &|| format!("{} through a BufReader", s.s.name))
        }));
    }
    {
        let sh = sh.clone();
        let lens: Vec<u64> = sh.iter().map(|x| (x.le.len() - TAIL) as u64).collect();
        let total: u64 = lens.iter().sum();
        v.push(suite("truncated", format!("{ns} record shapes cut off at every length x 8 sources x 3 byte orders x 3 interfaces: the same error from every source"), total * 8 * 9, move |i, w| {
            let mut c = Ch(i);
            let k = c.u(8);
            let ek = *c.of(&EK3);
            let api = *c.of(&[Api::Visit, Api::Rec, Api::MetaH]);
            let (j, x) = pick(&lens, c.0);
            let s = &sh[j];
            if api.hdr() && x < 8 {
                return Ok(());
            }
            let d = &s.get(ek.big())[..x as usize];
            let n = d.len() - if api.hdr() { 8 } else { 0 };
            many(k, n, &mut |src| check(w, d, &s.s.cfg, ek, api, src, F1, &|| format!("{} truncated to {x}", s.s.name)))
        }));
    }

    // large records: internal size thresholds
    const SIZES: [usize; 18] = [1000, 1024, 4095, 4096, 4097, 8183, 8184, 8192, 8200, 16368, 16376, 16384, 16392, 20000, 32768, 40000, 65000, 65520];
    v.push(suite("large_records", "18 sizes up to 65528 x 7 kinds of payload x 14 sources x 3 byte orders", 18 * 7 * 14 * 3, move |i, w| {
        let mut c = Ch(i);
        let n = *c.of(&SIZES);
        let kind = c.u(7);
        let k = c.u(14);
        let ek = *c.of(&EK3);
        large(w, n, kind, k, ek)
    }));

    // unframed: bodies parsed directly from a source which does not know its length
    let bodies: Vec<Shape> = shapes().into_iter().filter(|s| !s.cfg.sid_all || s.ty == 9).collect();
    let nb = bodies.len() as u64;
    let lens: Vec<u64> = bodies.iter().map(|x| x.bytes(false).len() as u64 - 8).collect();
    let total: u64 = lens.iter().map(|l| l + 1).sum();
    let rows: Vec<u64> = lens.iter().map(|l| l + 1).collect();
    v.push(suite("bare_bodies", format!("{nb} bodies parsed without a frame, cut off at every length x 16 sources x 3 byte orders"), total * 16 * 3, move |i, w| {
        let mut c = Ch(i);
        let k = c.u(16);
        let ek = *c.of(&EK3);
        let (j, x) = pick(&rows, c.0);
        let s = &bodies[j];
        bare(w, s, x as usize, k, ek)
    }));

    // names: padding longer than a word, delivered in pieces
    let (nlen, npad) = t.pick((20u64, 26u64), (40, 80));
    v.push(suite("names", format!("5 named types x name length 0..{nlen} x padding 0..{npad} x trailer x 16 sources x 3 byte orders"), 5 * nlen * npad * 2 * 16 * 3, move |i, w| {
        let mut c = Ch(i);
        let k = c.u(16);
        let ek = *c.of(&EK3);
        let cfg = super::c01::cfg(c.b());
        let ty = *c.of(&[1u32, 3, 10, 17, 19]);
        let s = Shape { name: String::new(), ty, misc: 0, cfg, body: Body::N { pad: c.u(npad as usize), name: c.u(nlen as usize) } };
        let d = s.bytes(ek.big());
        many(k, d.len(), &mut |src| check(w, &d, &s.cfg, ek, Api::Visit, src, F1, &|| format!("type {ty} {:?}", s.body)))
    }));
    // the same with padding and names of every size class
    let pads: std::sync::Arc<Vec<usize>> = sizes_to(t.pick(300, 1200), 60000).into();
    let np = pads.len() as u64;
    const NL: [usize; 6] = [0, 1, 5, 20, 300, 4000];
    v.push(suite("long_padding", format!("5 named types x 6 name lengths up to 4000 x {np} paddings up to 60000 x trailer x 14 sources x 2 byte orders"), 5 * 6 * np * 2 * 14 * 2, move |i, w| {
        let mut c = Ch(i);
        let k = c.u(14);
        let ek = *c.of(&[EK::Native, EK::Big]);
        let cfg = super::c01::cfg(c.b());
        let ty = *c.of(&[1u32, 3, 10, 17, 19]);
        let name = *c.of(&NL);
        let s = Shape { name: String::new(), ty, misc: 0, cfg, body: Body::N { name, pad: *c.of(&pads) } };
        let d = s.bytes(ek.big());
        if d.len() > 65535 || (d.len() > 5000 && [3, 4, 13].contains(&k)) {
            return Ok(());
        }
        many(k, d.len(), &mut |src| check(w, &d, &s.cfg, ek, Api::Visit, src, F1, &|| format!("type {ty} {:?}", s.body)))
    }));
    let (nlen, npad) = t.pick((6u64, 20u64), (12, 40));
    v.push(suite("name_boundaries", format!("COMM with name length 0..{nlen} and padding 0..{npad} x every placement of one or two boundaries in the body x 8 borrowed/temporary patterns"), nlen * npad * 64 * 64 / 2 * 8, move |i, w| {
        let mut c = Ch(i);
        let tmp = c.n(8);
        let (a, b) = two(64, c.n(2016));
        let s = Shape { name: String::new(), ty: 3, misc: 0, cfg: Cfg::default(), body: Body::N { pad: c.u(npad as usize), name: c.u(nlen as usize) } };
        let d = s.bytes(false);
        if b + 15 >= d.len() {
            return Ok(());
        }
        let cuts: &[usize] = if a == b { &[a + 15] } else { &[a + 15, b + 15] };
        check(w, &d, &s.cfg, EK::Native, Api::Visit, &Src::Chunks { cuts, tmp, hint: false }, F1, &|| format!("COMM {:?} cut at {cuts:?}", s.body))
    }));
    // special field contents
    let vs = values(shapes());
    v.push(suite("field_values", format!("{} record shapes x {VALUES} x 16 sources x 2 byte orders", vs.sh.len()), vs.total * 16 * 2, move |i, w| {
        let mut c = Ch(i);
        let k = c.u(16);
        let ek = *c.of(&[EK::Native, EK::Big]);
        let (s, m) = vs.get(c.0);
        let d = s.bytes_with(ek.big(), m);
        many(k, d.len(), &mut |src| check(w, &d, &s.cfg, ek, Api::Visit, src, F1, &|| format!("{} with {m:?}", s.name)))
    }));
    let ns = notables(shapes());
    v.push(suite("notable_values", format!("{} x 4 sources x 2 byte orders", ns.what()), ns.total * 4 * 2, move |i, w| {
        let mut c = Ch(i);
        let k = *c.of(&[3, 5, 8, 13]);
        let ek = *c.of(&[EK::Native, EK::Big]);
        let (s, m) = ns.get(c.0);
        let d = s.bytes_with(ek.big(), m);
        many(k, d.len(), &mut |src| check(w, &d, &s.cfg, ek, Api::Visit, src, F1, &|| format!("{} with {m:x?}", s.name)))
    }));
    // serialized attributes
    let mut sizes: Vec<usize> = vec![0, 63];
    sizes.extend(super::c13::SIZES.map(|x| x as usize));
    sizes.extend([137, 144, 200]);
    let nsz = sizes.len() as u64;
    v.push(suite("attributes", format!("attribute structs of {nsz} sizes x chunk size 1..=48 x 6 borrowed/temporary patterns x hint x 3 byte orders"), nsz * 48 * 6 * 2 * 3, move |i, w| {
        let mut c = Ch(i);
        let k = 1 + c.u(48);
        let tmp = *c.of(&[0, u64::MAX, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa, 1, 0xffff_ffff_ffff_fffe]);
        let hint = c.b();
        let ek = *c.of(&EK3);
        let size = *c.of(&sizes);
        super::c13::delivered(w, size, k, tmp, hint, ek)
    }));
    v
}

/// Every size up to `all`, then those around powers of two and round numbers up to `max`.
pub fn sizes_to(all: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    let mut edge = vec![500, 1000, 10_000, 20_000, 40_000, 50_000, 60_000];
    edge.extend((8..17).flat_map(|b| [1usize << b, 3 << (b - 1)]));
    v.extend(edge.iter().flat_map(|e| [e - 9, e - 8, e - 1, *e, e + 1, e + 7, e + 8]).filter(|x| *x > all && *x <= max));
    v.sort();
    v.dedup();
    v
}

/// A selection of sources for data of length n.
pub fn many(k: usize, n: usize, f: &mut dyn FnMut(&Src) -> R) -> R {
    let cuts = |step: usize| -> Vec<usize> { (1..).map(|j| j * step).take_while(|p| *p < n).collect() };
    match k {
        0 => f(&Src::Slice),
        1 => f(&Src::Chunks { cuts: &[], tmp: 1, hint: false }),
        2 => f(&Src::Chunks { cuts: &[], tmp: 0, hint: false }),
        3 => f(&Src::Chunks { cuts: &cuts(1), tmp: 0, hint: false }),
        4 => f(&Src::Chunks { cuts: &cuts(3), tmp: u64::MAX, hint: true }),
        5 => f(&Src::Reader { cap: 8, plan: &[] }),
        6 => f(&Src::Reader { cap: 64, plan: &[7, 1] }),
        7 => f(&Src::Chunks { cuts: &cuts(7), tmp: 0x5555_5555_5555_5555, hint: false }),
        8 => f(&Src::Chunks { cuts: &cuts(8), tmp: 0, hint: true }),
        9 => f(&Src::Chunks { cuts: &cuts(8), tmp: u64::MAX, hint: false }),
        10 => f(&Src::Chunks { cuts: &cuts(16), tmp: 0xaaaa_aaaa_aaaa_aaaa, hint: true }),
        11 => f(&Src::Chunks { cuts: &cuts(5), tmp: 0, hint: false }),
        12 => f(&Src::Reader { cap: 4096, plan: &[1] }),
        13 => f(&Src::Reader { cap: 3, plan: &[2] }),
        14 => f(&Src::Win { size: 1, tmp: true, hint: true }),
        _ => f(&Src::Win { size: 12, tmp: true, hint: false }),
    }
}

/// A record of (about, for those with arrays) n bytes whose bulk is of one of 7 kinds.
pub fn bulk(n: usize, kind: usize, big: bool) -> (&'static str, Vec<u8>, Cfg) {
    let mut cfg = Cfg { rf: rf::GROUP | rf::ID, ..Default::default() };
    let mut e = Enc::new(big, 77);
    let (ty, name) = match kind {
        0 => (1234, "unknown"),
        1 => (1, "mmap"),
        2 => (9, "raw sample"),
        3 => (9, "callchain sample"),
        4 => (9, "stack sample"),
        5 => (9, "branch sample"),
        _ => (9, "group sample"),
    };
    let mut sm = Sm::Z;
    match kind {
        2 => (cfg.st, sm.raw) = (st::RAW, n - 21),
        3 => (cfg.st, sm.cc) = (st::CALLCHAIN, n / 8 - 2),
        4 => (cfg.st, sm.stack, sm.dyn_) = (st::STACK_USER, n - 24, n - 33),
        5 => (cfg.st, sm.lbr) = (st::BRANCH_STACK, n / 24 - 1),
        6 => (cfg.st, sm.nr) = (st::READ, n / 16 - 2),
        _ => (),
    }
    cfg.st |= if ty == 9 { st::CGROUP } else { 0 };
    framed(&mut e, ty, 0, |e| match kind {
        0 => body(e, ty, &cfg, &Body::N { name: n - 8, pad: 0 }),
        1 => body(e, ty, &cfg, &Body::N { name: n - 45, pad: 5 }),
        _ => sample(e, &cfg, &sm),
    });
    (name, e.v, cfg)
}

fn large(w: &mut W, n: usize, kind: usize, k: usize, ek: EK) -> R {
    let (name, mut d, cfg) = bulk(n, kind, ek.big());
    d.extend([1, 2, 3]);
    let len = d.len();
    let at = |step: usize| -> Vec<usize> { (1..).map(|j| j * step).take_while(|p| *p < len).collect() };
    let (cuts, tmp, hint) = match k {
        0 | 1 => (vec![], 1, false),
        2 => (vec![], 0, false),
        3 => (at(8192), 0, false),
        4 => (at(4096), u64::MAX, true),
        5 => (vec![8], 0, false),
        6 => (vec![8], 3, true),
        7 => (vec![len - 8], 2, false),
        8 => (at(1000), 0x5555_5555_5555_5555, false),
        _ => (at(63), 0, true),
    };
    let src = match k {
        0 => Src::Slice,
        9 => Src::Reader { cap: 8192, plan: &[] },
        10 => Src::Reader { cap: 16, plan: &[] },
        11 => Src::Reader { cap: 100_000, plan: &[4096] },
        13 => Src::Win { size: 100, tmp: true, hint: false },
        _ => Src::Chunks { cuts: &cuts, tmp, hint },
    };
    check(w, &d, &cfg, ek, Api::Visit, &src, F1, &|| format!("{name} record of {n} bytes"))
}

/// Parse a body of `x` bytes with the typed interface and no frame around it.
pub fn bare(w: &mut W, s: &Shape, x: usize, k: usize, ek: EK) -> R {
    let full = s.bytes(ek.big());
    bare_data(w, s.ty, &full[8..8 + x], &s.cfg, k, ek, Allow::default(), &|| format!("bare body of {}, {x} bytes", s.name))
}

pub fn bare_data(w: &mut W, ty: u32, d: &[u8], cfg: &Cfg, k: usize, ek: EK, allow: Allow, what: &dyn Fn() -> String) -> R {
    bare_each(w, ty, d, cfg, &mut |f| many(k, d.len(), f), ek, allow, what)
}
/// The same from one given source.
pub fn bare_src(w: &mut W, ty: u32, d: &[u8], cfg: &Cfg, src: &Src, ek: EK, allow: Allow, what: &dyn Fn() -> String) -> R {
    bare_each(w, ty, d, cfg, &mut |f| f(src), ek, allow, what)
}
#[allow(clippy::type_complexity)]
fn bare_each(w: &mut W, ty: u32, d: &[u8], cfg: &Cfg, each: &mut dyn FnMut(&mut dyn FnMut(&Src) -> R) -> R, ek: EK, allow: Allow, what: &dyn Fn() -> String) -> R {
    let mut a = std::mem::take(&mut w.a);
    let mut b = std::mem::take(&mut w.b);
    a.clear();
    let mut m = Spec::new(d, ek.big());
    // without a frame there are no misc flags
    let r = m.body(ty, 0, cfg, &mut a);
    w.trans += m.steps + 1;
    w.traces += 1;
    w.state(if let Err(e) = r { e as u64 } else { a.hash() });
    let left = m.left();
    let res = each(&mut |src| {
        b.clear();
        let (err, l) = crate::on3!(d, cfg, ek, src, p => {
            let e = typed(&mut p, ty, &mut b).err().map_or(0, |e| kind(&e));
            (e, p.parse_rest().map(|r| r.len()).unwrap_or(usize::MAX))
        });
        let same = |r: M<()>, a: &crate::dump::Dump, left: usize| match r {
            Ok(()) => err == 0 && *a == b && l == left,
            Err(e) => err & e != 0,
        };
        if same(r, &a, left) {
            return Ok(());
        }
        if allow.f1 && ek.native() {
            let lay = match src {
                Src::Slice => Some(Lay::one(d.as_ptr() as usize, d.len())),
                Src::Chunks { cuts, tmp, .. } => Some(ChunkSrc::lay(d, cuts, *tmp)),
                _ => None,
            };
            if let Some(lay) = lay {
                let mut q = crate::dump::Dump::default();
                let mut m = Spec::new(d, ek.big());
                m.lay = Some(&lay);
                let r = m.body(ty, 0, cfg, &mut q);
                if m.quirk && same(r, &q, m.left()) {
                    return w.known("F1", || what());
                }
            }
        }
        Err(format!(
            "{}, {ek:?} {src:?} {cfg:x?}\n input {}\n model: {} {} left {left}\n implementation: {} {} left {l}",
            what(), crate::dump::hex(d, 512), errs(r.err().unwrap_or(0)), a.show(), errs(err), b.show()
        ))
    });
    w.a = a;
    w.b = b;
    res
}
