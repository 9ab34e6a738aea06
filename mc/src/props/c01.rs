//! C01: non-sample records decode to exactly the kernel ABI fields.
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;

const TYS: [u32; 23] = [1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 0, 22, 0x8000_0001];
const EKS3: [EK; 3] = [EK::Native, EK::Big, EK::CustL];
const API3: [Api; 3] = [Api::Visit, Api::Rec, Api::Meta];
const NAMED: [u32; 5] = [1, 3, 10, 17, 19];

pub fn cfg(sid: bool) -> Cfg {
    Cfg { rf: RF1, sid_all: sid, st: if sid { SID } else { 0 }, ..Default::default() }
}

/// One of: contiguous, contiguous but temporary, cut in the middle, bytewise.
pub fn with_src(k: usize, n: usize, f: &mut dyn FnMut(&Src) -> R) -> R {
    match k {
        0 => f(&Src::Slice),
        1 => f(&Src::Chunks { cuts: &[], tmp: 1, hint: false }),
        2 => f(&Src::Chunks { cuts: &[n / 2], tmp: 0, hint: true }),
        _ => {
            let cuts: Vec<usize> = (1..n).collect();
            f(&Src::Chunks { cuts: &cuts, tmp: 0, hint: false })
        }
    }
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let all = Allow::default();

    // every type, every body length
    const MISC: [u16; 5] = [0, 1 << 13, 1 << 14, 3 << 13, 0xffff];
    let maxlen = t.pick(100u64, 200);
    let n = maxlen * 23 * 5 * 2 * 3 * 3 * 4;
    v.push(suite("lengths", format!("23 types x body length 0..{maxlen} x 5 misc x trailer on/off x 3 byte orders x 3 interfaces x 4 sources"), n, move |i, w| {
        let mut c = Ch(i);
        let len = c.u(maxlen as usize);
        let ty = *c.of(&TYS);
        let misc = *c.of(&MISC);
        let sid = c.b();
        let ek = *c.of(&EKS3);
        let api = *c.of(&API3);
        let k = c.u(4);
        let cf = cfg(sid);
        let mut e = Enc::new(ek.big(), 7);
        framed(&mut e, ty, misc, |e| {
            let at = e.v.len();
            let b = match ty {
                10 if misc & MISC_BUILD_ID != 0 => Body::Build { len: 17, name: 200, pad: 0 },
                16 => Body::Ns(3),
                20 => Body::Text { old: 7, new: 14 },
                _ => Body::N { name: 200, pad: 0 },
            };
            body(e, ty, &cf, &b);
            let have = e.v.len() - at;
            if have < len {
                e.fill(len - have)
            }
            e.v.truncate(at + len);
            trailer(e, &cf);
        });
        let d = e.v;
        with_src(k, d.len(), &mut |s| check(w, &d, &cf, ek, api, s, all, &|| format!("type {ty} misc {misc:#x} body length {len} trailer {sid}")))
    }));

    // every pattern of NUL / non-NUL name bytes
    let nl = t.pick(10u32, 14);
    let n = (2u64 << nl) * 5 * 2 * 3;
    v.push(suite("names", format!("5 named types x all NUL/non-NUL patterns of length 0..={nl} x trailer x 3 sources"), n, move |i, w| {
        let mut c = Ch(i);
        let pat = c.n(2 << nl);
        if pat < 1 {
            return Ok(());
        }
        let len = 63 - pat.leading_zeros();
        let ty = *c.of(&NAMED);
        let sid = c.b();
        let k = c.u(3);
        let cf = cfg(sid);
        let mut e = Enc::new(false, 3);
        framed(&mut e, ty, 0, |e| {
            body(e, ty, &cf, &N0);
            for j in 0..len {
                e.u8(if pat >> j & 1 == 1 { b'a' + j as u8 } else { 0 });
            }
            trailer(e, &cf);
        });
        let d = e.v;
        with_src(k, d.len(), &mut |s| check(w, &d, &cf, EK::Native, Api::Visit, s, all, &|| format!("type {ty} name pattern {pat:b}")))
    }));

    // long names
    let n = 5 * 340 * 12 * 2 * 4;
    v.push(suite("long_names", "5 named types x name length 0..329 and 10 sizes up to 65000 x padding 0..11 x trailer x 4 sources", n, move |i, w| {
        let mut c = Ch(i);
        let l = c.u(340);
        let name = if l < 330 { l } else { [511, 512, 1023, 4095, 4096, 4097, 8192, 16384, 20000, 65000][l - 330] };
        let ty = *c.of(&NAMED);
        let pad = c.u(12);
        let sid = c.b();
        let k = c.u(4);
        if k == 3 && name > 1100 {
            return Ok(());
        }
        let s = Shape { name: String::new(), ty, misc: 0, cfg: cfg(sid), body: Body::N { name, pad } };
        let d = s.bytes(false);
        with_src(k, d.len(), &mut |x| check(w, &d, &s.cfg, EK::Native, Api::Visit, x, all, &|| format!("type {ty} name {name}+{pad}")))
    }));

    // build ids
    let n = 256 * 4 * 2 * 3 * 36;
    v.push(suite("build_id", "every build-id length byte x 4 misc x trailer x 3 sources x 36 truncations of the body", n, move |i, w| {
        let mut c = Ch(i);
        let len = c.n(256) as u8;
        let misc = *c.of(&[1u16 << 14, 0xffff, 0xbfff, 0]);
        let sid = c.b();
        let k = c.u(3);
        let cut = c.u(36);
        let cf = cfg(sid);
        let mut e = Enc::new(false, 9);
        framed(&mut e, 10, misc, |e| {
            body(e, 10, &cf, &Body::Build { len, name: 0, pad: 0 });
            let l = e.v.len();
            if cut < 34 {
                e.v.truncate(l - cut);
            } else {
                e.name(6);
                e.zeros(if cut == 34 { 2 } else { 0 });
            }
            trailer(e, &cf);
        });
        let d = e.v;
        with_src(k, d.len(), &mut |x| check(w, &d, &cf, EK::Native, Api::Visit, x, all, &|| format!("mmap2 build id length {len} misc {misc:#x} cut {cut}")))
    }));

    // text poke
    let tp = t.pick(42u64, 80);
    let n = tp * tp * 10 * 4 * 2;
    v.push(suite("text_poke", format!("old and new lengths 0..{tp} squared x 9 truncations / exact / extra x 4 sources x 2 byte orders"), n, move |i, w| {
        let mut c = Ch(i);
        let old = c.u(tp as usize);
        let new = c.u(tp as usize);
        let cut = c.u(10);
        let k = c.u(4);
        let ek = if c.b() { EK::Big } else { EK::Native };
        let cf = cfg(false);
        let mut e = Enc::new(ek.big(), 11);
        framed(&mut e, 20, 0, |e| {
            body(e, 20, &cf, &Body::Text { old, new });
            if cut == 9 {
                e.fill(8)
            } else {
                let l = e.v.len();
                e.v.truncate(l - cut);
            }
        });
        let d = e.v;
        with_src(k, d.len(), &mut |x| check(w, &d, &cf, ek, Api::Visit, x, all, &|| format!("text_poke {old}/{new} cut {cut}")))
    }));
    const BIG: [(usize, usize); 12] =
        [(0, 65503), (65503, 0), (30000, 30000), (1, 20000), (20000, 1), (255, 256), (256, 255), (4096, 0), (0, 4096), (32767, 32700), (32768, 1), (1, 32768)];
    v.push(suite("text_poke_big", "12 large old/new pairs x 3 sources x truncation of the padding x 2 byte orders", 12 * 3 * 2 * 2, move |i, w| {
        let mut c = Ch(i);
        let (old, new) = *c.of(&BIG);
        let k = c.u(3);
        let cut = c.b();
        let ek = if c.b() { EK::Big } else { EK::Native };
        let cf = cfg(false);
        let mut e = Enc::new(ek.big(), 12);
        framed(&mut e, 20, 0, |e| {
            body(e, 20, &cf, &Body::Text { old, new });
            if cut {
                e.v.pop();
            }
        });
        let d = e.v;
        with_src(k, d.len(), &mut |x| check(w, &d, &cf, ek, Api::Visit, x, all, &|| format!("text_poke {old}/{new} cut {cut}")))
    }));

    // namespaces: declared versus present
    const NRS: [u64; 26] = [
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 100, 4000, 4094, 4095, 1 << 32, 1 << 59, 1 << 60, (1 << 60) + 1, 1 << 61, 1 << 63, u64::MAX,
    ];
    v.push(suite("namespaces", "26 declared counts x 0..19 present entries (and 4000) x 0/8 slack bytes x 4 sources x 3 byte orders x trailer", 26 * 20 * 2 * 4 * 3 * 2, move |i, w| {
        let mut c = Ch(i);
        let nr = *c.of(&NRS);
        let p = c.u(20);
        let present = if p == 19 { 4000 } else { p };
        let slack = c.u(2) * 8;
        let k = c.u(4);
        let ek = *c.of(&EKS3);
        let cf = cfg(c.b());
        if k == 3 && present > 1000 {
            return Ok(());
        }
        let mut e = Enc::new(ek.big(), 13);
        framed(&mut e, 16, 0, |e| {
            e.w32();
            e.w32();
            e.u64(nr);
            for _ in 0..present * 2 {
                e.w64()
            }
            e.fill(slack);
            trailer(e, &cf);
        });
        let d = e.v;
        with_src(k, d.len(), &mut |x| check(w, &d, &cf, ek, Api::Visit, x, all, &|| format!("namespaces declared {nr} present {present}+{slack}")))
    }));

    // every bit of every record
    let shapes = non_samples();
    let offs: Vec<u64> = shapes.iter().map(|s| s.bytes(false).len() as u64 * 8).collect();
    let total: u64 = offs.iter().sum();
    v.push(suite("bit_flips", format!("every single bit of {} record shapes flipped x 3 byte orders x 2 sources", shapes.len()), total * 6, move |i, w| {
        let mut c = Ch(i);
        let ek = *c.of(&EKS3);
        let k = c.u(2);
        let mut x = c.0;
        let mut j = 0;
        while x >= offs[j] {
            x -= offs[j];
            j += 1;
        }
        let s = &shapes[j];
        let mut d = s.bytes(ek.big());
        d[x as usize / 8] ^= 1 << (x % 8);
        with_src(k, d.len(), &mut |y| check(w, &d, &s.cfg, ek, Api::Visit, y, all, &|| format!("{} with bit {x} flipped", s.name)))
    }));

    // every misc value
    v.push(suite("misc", "all 65536 misc values x 22 types x trailer", 65536 * 22 * 2, move |i, w| {
        let mut c = Ch(i);
        let misc = c.n(65536) as u16;
        let ty = *c.of(&TYS[..22]);
        let cf = cfg(c.b());
        let b = match ty {
            10 if misc & MISC_BUILD_ID != 0 => Body::Build { len: 20, name: 5, pad: 3 },
            16 => Body::Ns(2),
            20 => Body::Text { old: 2, new: 3 },
            _ => Body::N { name: 5, pad: 3 },
        };
        let s = Shape { name: String::new(), ty, misc, cfg: cf, body: b };
        let d = s.bytes(false);
        check(w, &d, &s.cfg, EK::Native, Api::Visit, &Src::Slice, all, &|| format!("type {ty} misc {misc:#x}"))
    }));

    let ns = notables(non_samples());
    v.push(suite("notable_values", format!("{} x 3 byte orders x 2 sources", ns.what()), ns.total * 3 * 2, move |i, w| {
        let mut c = Ch(i);
        let ek = *c.of(&EKS3);
        let k = c.u(2) * 2;
        let (s, m) = ns.get(c.0);
        let d = s.bytes_with(ek.big(), m);
        with_src(k, d.len(), &mut |x| check(w, &d, &s.cfg, ek, Api::Visit, x, all, &|| format!("{} with {m:x?}", s.name)))
    }));
    let ps = pairs(non_samples());
    v.push(suite("field_pairs", format!("{} x native and custom order", ps.what()), ps.total * 2, move |i, w| {
        let mut c = Ch(i);
        let ek = *c.of(&[EK::Native, EK::CustL]);
        let (s, m) = ps.get(c.0);
        let d = s.bytes_with(ek.big(), m);
        with_src(0, d.len(), &mut |x| check(w, &d, &s.cfg, ek, Api::Visit, x, all, &|| format!("{} with {m:x?}", s.name)))
    }));
    // special field contents
    let vs = values(non_samples());
    v.push(suite("field_values", format!("{} record shapes x {VALUES} x 3 byte orders x 3 interfaces x 4 sources", vs.sh.len()), vs.total * 3 * 3 * 4, move |i, w| {
        let mut c = Ch(i);
        let ek = *c.of(&EKS3);
        let api = *c.of(&API3);
        let k = c.u(4);
        let (s, m) = vs.get(c.0);
        let d = s.bytes_with(ek.big(), m);
        with_src(k, d.len(), &mut |x| check(w, &d, &s.cfg, ek, api, x, all, &|| format!("{} with {m:?}", s.name)))
    }));
    v
}
