//! C10: dispatch of record types to handlers.
use super::c01::{cfg, with_src};
use super::c04::{many, EK3};
use crate::dump::{meta, method, Dump, D, K};
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::*;
use std::borrow::Cow;

const ALL: Allow = Allow { f1: false };

/// A well-formed body for any type code.
fn usual(ty: u32) -> Body {
    match ty {
        16 => Body::Ns(2),
        20 => Body::Text { old: 3, new: 5 },
        9 => Body::Sample(Sm::S),
        _ => Body::N { name: 5, pad: 3 },
    }
}
fn make(ty: u32, misc: u16, cf: &Cfg, unknown_len: usize, big: bool) -> Vec<u8> {
    let mut e = Enc::new(big, 3);
    framed(&mut e, ty, misc, |e| {
        let known = (1..=21).contains(&ty);
        let b = match ty {
            10 if misc & MISC_BUILD_ID != 0 => Body::Build { len: 20, name: 5, pad: 3 },
            _ if known => usual(ty),
            _ => Body::N { name: unknown_len, pad: 0 },
        };
        body(e, ty, cf, &b);
        if ty != 1 && ty != 9 {
            trailer(e, cf)
        }
    });
    e.v
}

/// What a visitor returned and what its handler saw.
struct Got {
    code: u64,
}

macro_rules! single {
    ($($v:ident $f:ident $n:expr, $t:ty;)*) => {
        $(
        struct $v<'o>(&'o mut Dump);
        impl<'a> Visitor<'a> for $v<'_> {
            type Output = Got;
            fn visit_unimplemented(self, m: RecordMetadata) -> Got {
                self.0.u(K::method, method::UNIMPLEMENTED);
                meta(&m, self.0);
                Got { code: method::UNIMPLEMENTED }
            }
            fn $f(self, r: $t, m: RecordMetadata) -> Got {
                self.0.u(K::method, $n);
                r.d(self.0);
                meta(&m, self.0);
                Got { code: $n }
            }
        }
        )*
        /// Parse with the visitor that implements only handler `only`.
        fn visit<'p, B: parse::ParseBuf<'p>, E: endian::Endian>(p: &mut parse::Parser<B, E>, only: u64, o: &mut Dump) -> parse::ParseResult<Got> {
            o.clear();
            $( if only == $n { return p.parse_record($v(o)); } )*
            if only == 14 { return p.parse_record(VSwitch(o)); }
            p.parse_record(VNone(o))
        }
    };
}
struct VNone<'o>(&'o mut Dump);
impl<'a> Visitor<'a> for VNone<'_> {
    type Output = Got;
    fn visit_unimplemented(self, m: RecordMetadata) -> Got {
        self.0.u(K::method, method::UNIMPLEMENTED);
        meta(&m, self.0);
        Got { code: method::UNIMPLEMENTED }
    }
}
struct VSwitch<'o>(&'o mut Dump);
impl<'a> Visitor<'a> for VSwitch<'_> {
    type Output = Got;
    fn visit_unimplemented(self, m: RecordMetadata) -> Got {
        VNone(self.0).visit_unimplemented(m)
    }
    fn visit_switch(self, m: RecordMetadata) -> Got {
        self.0.u(K::method, 14);
        meta(&m, self.0);
        Got { code: 14 }
    }
}
const UNK: u64 = method::UNKNOWN;
single! {
    V1 visit_mmap 1, Mmap<'a>; V2 visit_lost 2, Lost; V3 visit_comm 3, Comm<'a>; V4 visit_exit 4, Exit;
    V5 visit_throttle 5, Throttle; V6 visit_unthrottle 6, Throttle; V7 visit_fork 7, Fork; V8 visit_read 8, Read;
    V9 visit_sample 9, Sample<'a>; V10 visit_mmap2 10, Mmap2<'a>; V11 visit_aux 11, Aux; V12 visit_itrace_start 12, ITraceStart;
    V13 visit_lost_samples 13, LostSamples; V15 visit_switch_cpu_wide 15, SwitchCpuWide; V16 visit_namespaces 16, Namespaces<'a>;
    V17 visit_ksymbol 17, KSymbol<'a>; V18 visit_bpf_event 18, BpfEvent; V19 visit_cgroup 19, CGroup<'a>; V20 visit_text_poke 20, TextPoke<'a>;
    V21 visit_aux_output_hw_id 21, AuxOutputHwId; V0 visit_unknown UNK, Cow<'a, [u8]>;
}

/// Sources whose 64-bit arrays are either aligned or not read in place (finding F1 is not met here).
fn one_handler(w: &mut W, only: u64, d: &[u8], cf: &Cfg, ek: EK, src: &Src) -> R {
    let big = ek.big();
    let mut a = std::mem::take(&mut w.a);
    let mut b = std::mem::take(&mut w.b);
    let m = frame(d, 0, None, cf, big, View::Meta, Opt::default(), &mut a);
    let (ty, misc, _) = peek(d, big).unwrap();
    let own = if (1..=21).contains(&ty) { ty as u64 } else { UNK };
    let want = if m.err != 0 {
        None
    } else if own == only {
        Some(only)
    } else if own == 10 && only == 1 {
        // MMAP2 forwarded to the MMAP handler: the same mapping
        let mut s = Spec::new(d, big);
        s.pos = 8;
        s.end = d.len() - cf.trailer();
        let g = |s: &mut Spec| -> M<(u32, u32, u64, u64, u64)> { Ok((s.u32()?, s.u32()?, s.u64()?, s.u64()?, s.u64()?)) };
        let (pid, tid, addr, len, pgoff) = g(&mut s).unwrap();
        s.pos += 32;
        a.clear();
        a.u(K::method, 1);
        a.u(K::pid, pid as u64);
        a.u(K::tid, tid as u64);
        a.u(K::addr, addr);
        a.u(K::len, len);
        a.u(K::pgoff, pgoff);
        a.by(K::filename, s.rest_trim());
        a.u(K::ty, ty as u64);
        a.u(K::misc, misc as u64);
        s.end = d.len();
        s.sample_id(cf, &mut a).unwrap();
        Some(1)
    } else {
        a.clear();
        a.u(K::method, method::UNIMPLEMENTED);
        a.u(K::ty, ty as u64);
        a.u(K::misc, misc as u64);
        if ty != 1 && ty != 9 {
            let mut s = Spec::new(d, big);
            s.pos = d.len() - cf.trailer();
            s.sample_id(cf, &mut a).unwrap();
        }
        Some(method::UNIMPLEMENTED)
    };
    let r = crate::on3!(d, cf, ek, src, p => visit(&mut p, only, &mut b));
    w.trans += m.steps + 1;
    w.traces += 1;
    w.state(a.hash() ^ only);
    let res = match (&r, want) {
        (Ok(g), Some(x)) if g.code == x && a == b => Ok(()),
        (Err(_), None) => Ok(()),
        _ => Err(format!(
            "type {ty} misc {misc:#x} given to a visitor that implements only handler {only}: expected {} ; got {} {}\n input {}",
            want.map_or("an error".into(), |_| a.show()),
            r.as_ref().map_or_else(|e| e.to_string(), |g| format!("handler {:#x}", g.code)),
            b.show(),
            crate::dump::hex(d, 300)
        )),
    };
    w.a = a;
    w.b = b;
    res
}

fn code(k: u64) -> u32 {
    // all codes with at most three bits set, and their complements
    let n = 1 + 32 + 496 + 4960;
    let (x, inv) = (k % n, k / n);
    let mut c = 0u32;
    if x >= 1 && x < 33 {
        c = 1 << (x - 1)
    } else if x >= 33 && x < 33 + 496 {
        let (mut y, mut a) = (x - 33, 0);
        while y >= 31 - a {
            y -= 31 - a;
            a += 1;
        }
        c = 1 << a | 1 << (a + 1 + y)
    } else if x >= 33 + 496 {
        let mut y = x - 33 - 496;
        'o: for a in 0..32 {
            for b in a + 1..32 {
                for d in b + 1..32 {
                    if y == 0 {
                        c = 1 << a | 1 << b | 1 << d;
                        break 'o;
                    }
                    y -= 1;
                }
            }
        }
    }
    if inv == 1 {
        !c
    } else {
        c
    }
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let bits = t.pick(23, 32);
    v.push(suite("codes", format!("all type codes below 2^{bits}: own handler or the unknown one, with the complete body"), 1 << bits, |i, w| {
        let ty = i as u32;
        let cf = cfg(false);
        let api = if ty >> 3 & 1 == 0 { Api::Visit } else { Api::Rec };
        let d = make(ty, 0, &cf, (ty % 3) as usize * 4, false);
        check(w, &d, &cf, EK::CustL, api, &Src::Slice, ALL, &|| format!("type code {ty:#x}"))
    }));
    let n = 2 * (1 + 32 + 496 + 4960);
    v.push(suite("code_patterns", "all type codes with at most three bits set or clear x 2 bodies x trailer x 2 byte orders x 6 interfaces x 4 sources", n * 2 * 2 * 2 * 6 * 4, |i, w| {
        let mut c = Ch(i);
        let len = [0, 11][c.u(2)];
        let cf = cfg(c.b());
        let ek = *c.of(&[EK::CustL, EK::Big]);
        let api = *c.of(&APIS);
        let k = c.u(4);
        let ty = code(c.0);
        let d = make(ty, 0x5a5a & !MISC_BUILD_ID, &cf, len, ek.big());
        with_src(k, d.len() - if api.hdr() { 8 } else { 0 }, &mut |s| check(w, &d, &cf, ek, api, s, ALL, &|| format!("type code {ty:#x}")))
    }));
    v.push(suite("small_codes", "type codes 0..=40 and 64 around 2^8, 2^16, 2^31 x 3 bodies x trailer x 3 byte orders x 6 interfaces x 16 sources", (41 + 64 * 3) * 3 * 2 * 3 * 6 * 16, |i, w| {
        let mut c = Ch(i);
        let len = [0, 1, 16][c.u(3)];
        let cf = cfg(c.b());
        let ek = *c.of(&EK3);
        let api = *c.of(&APIS);
        let k = c.u(16);
        let x = c.0 as u32;
        let ty = if x <= 40 { x } else { [1u32 << 8, 1 << 16, 1 << 31][((x - 41) / 64) as usize].wrapping_add((x - 41) % 64).wrapping_sub(32) };
        let d = make(ty, 0, &cf, len, ek.big());
        many(k, d.len() - if api.hdr() { 8 } else { 0 }, &mut |s| {
            let buf = Buf::new(&d, 0);
            check(w, buf.get(), &cf, ek, api, s, Allow { f1: true }, &|| format!("type code {ty:#x}"))
        })
    }));
    v.push(suite("misc", "all 2^16 misc values x types 0..=24 x trailer x visitor and record interfaces", 65536 * 25 * 2 * 2, |i, w| {
        let mut c = Ch(i);
        let misc = c.n(65536) as u16;
        let ty = c.n(25) as u32;
        let cf = cfg(c.b());
        let api = *c.of(&[Api::Visit, Api::Rec]);
        let d = make(ty, misc, &cf, 3, false);
        check(w, &d, &cf, EK::CustL, api, &Src::Slice, ALL, &|| format!("type {ty} misc {misc:#x}"))
    }));
    v.push(suite("unknown_bodies", "unknown types x body lengths 0..=600 x trailer x 3 byte orders x 3 interfaces x 16 sources", 601 * 4 * 2 * 3 * 3 * 16, |i, w| {
        let mut c = Ch(i);
        let len = c.u(601);
        let ty = *c.of(&[0u32, 22, 64, u32::MAX]);
        let cf = cfg(c.b());
        let ek = *c.of(&EK3);
        let api = *c.of(&[Api::Visit, Api::Rec, Api::Meta]);
        let k = c.u(16);
        let mut d = make(ty, 7, &cf, len, ek.big());
        // trailing NULs are data here
        let n = d.len() - cf.trailer();
        if len > 2 {
            d[n - 1] = 0;
            d[n - 2] = 0;
        }
        many(k, d.len(), &mut |s| check(w, &d, &cf, ek, api, s, ALL, &|| format!("unknown type {ty:#x} with a body of {len} bytes")))
    }));
    {
        let ls: std::sync::Arc<Vec<usize>> = super::c04::sizes_to(t.pick(100, 600), 60000).into();
        let n = ls.len() as u64;
        v.push(suite("sizes", format!("15 variable parts of records and samples of {n} sizes up to 60000 x 6 interfaces x 4 sources x 2 byte orders"), 15 * n * 6 * 4 * 2, move |i, w| {
            let mut c = Ch(i);
            let ek = *c.of(&[EK::Native, EK::Big]);
            let k = *c.of(&[0, 2, 7, 5]);
            let api = *c.of(&APIS);
            let part = c.u(15);
            let Some(s) = super::c14::sized(part, *c.of(&ls)) else { return Ok(()) };
            let d = s.bytes(ek.big());
            let skip = if api.hdr() { 8 } else { 0 };
            many(k, d.len() - skip, &mut |src| check(w, &d, &s.cfg, ek, api, src, Allow { f1: true }, &|| s.name.clone()))
        }));
    }
    v.push(suite("partial_visitors", "23 visitors implementing one handler or none x 27 types x 6 misc x trailer x 3 byte orders x 6 sources", 23 * 27 * 6 * 2 * 3 * 6, |i, w| {
        let mut c = Ch(i);
        let only = c.n(23);
        let only = if only == 22 { 99 } else { only };
        let x = c.u(27);
        let ty = if x < 25 { x as u32 } else { [1 << 16, u32::MAX][x - 25] };
        let misc = *c.of(&[0, 1, 1 << 13, 1 << 14, 1 << 15, 0xffff]);
        let cf = cfg(c.b());
        let ek = *c.of(&EK3);
        let k = c.u(6);
        let d = make(ty, misc, &cf, 9, ek.big());
        let buf = Buf::new(&d, 0);
        many(k * 3 % 16, d.len(), &mut |s| {
            // keep 64-bit arrays aligned or out of the in-place path (finding F1)
            if ek == EK::Native && !matches!(s, Src::Slice) {
                return Ok(());
            }
            one_handler(w, only, buf.get(), &cf, ek, s)
        })
    }));
    v.push(suite("mmap2_forward", "MMAP2 to visitors with only the MMAP handler or none: inode and build-id forms, names 0..=20 bytes x padding 0..=8 x trailer x byte orders x sources", 2 * 2 * 21 * 9 * 2 * 3 * 4, |i, w| {
        let mut c = Ch(i);
        let only = [1, 99][c.u(2)];
        let bid = c.b();
        let name = c.u(21);
        let pad = c.u(9);
        let cf = cfg(c.b());
        let ek = *c.of(&EK3);
        let k = c.u(4);
        let b = if bid { Body::Build { len: 20, name, pad } } else { Body::N { name, pad } };
        let s = Shape { name: String::new(), ty: 10, misc: if bid { 1 << 14 } else { 2 }, cfg: cf, body: b };
        let d = s.bytes(ek.big());
        with_src(k, d.len(), &mut |s| one_handler(w, only, &d, &cf, ek, s))
    }));
    v
}
