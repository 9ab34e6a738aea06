//! C07: the sample_id trailer is taken from the end of every record that has one.
use super::c04::{many, EK3};
use crate::dump::D;
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::endian::Native;
use perf_event_data::*;

const TYS: [u32; 24] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 0xffff_ffff];
const IDBITS: [u64; 6] = [st::TID, st::TIME, st::ID, st::STREAM_ID, st::CPU, st::IDENTIFIER];

fn set(m: u64) -> u64 {
    IDBITS.iter().enumerate().map(|(j, b)| (m >> j & 1) * b).sum()
}
/// identity set m, together with no / all / every second other sample bit
fn conf(m: u64, others: u64, sid: bool) -> Cfg {
    let o = match others {
        0 => 0,
        1 => st::ALL & !SID,
        2 => 0x55_5555 & !SID,
        _ => 0xaa_aaaa & !SID,
    };
    Cfg { st: set(m) | o, rf: RF1, sid_all: sid, bst: BR_HW_INDEX, ru: 3, ri: 1 }
}

/// A record of this type with a trailer.
fn built(ty: u32, cf: &Cfg, big: bool) -> Vec<u8> {
    let b = match ty {
        9 => Body::Sample(Sm::S),
        16 => Body::Ns(1),
        20 => Body::Text { old: 3, new: 5 },
        _ => Body::N { name: 9, pad: 3 },
    };
    let mut e = Enc::new(big, 47);
    framed(&mut e, ty, 0, |e| {
        body(e, ty, cf, &b);
        if ty != 1 && ty != 9 {
            trailer(e, cf)
        }
    });
    e.v
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    v.push(suite("sets", "24 types x 64 identity sets x 4 sets of other sample bits x sample_id_all x 4 body variants x 3 byte orders x 3 interfaces x 4 sources", 24 * 64 * 4 * 2 * 4 * 3 * 3 * 4, |i, w| {
        let mut c = Ch(i);
        let ty = *c.of(&TYS);
        let cf = conf(c.n(64), c.n(4), c.b());
        let var = c.u(4);
        let ek = *c.of(&EK3);
        let api = *c.of(&[Api::Visit, Api::Meta, Api::Rec]);
        let k = *c.of(&[0, 1, 3, 6]);
        let (misc, b) = match (ty, var) {
            (10, 1 | 2) => (1 << 14, Body::Build { len: 20, name: 9, pad: 3 }),
            (15, 1 | 3) => (1 << 13, N0),
            (16, n) => (0, Body::Ns(n * 2)),
            (20, n) => (0, Body::Text { old: n, new: 3 * n }),
            (9, _) => (0, Body::Sample(Sm::S)),
            (_, n) => (0, Body::N { name: 5 * n, pad: n }),
        };
        let mut e = Enc::new(ek.big(), 31);
        framed(&mut e, ty, misc, |e| {
            body(e, ty, &cf, &b);
            if ty != 1 && ty != 9 {
                trailer(e, &cf)
            }
        });
        let d = e.v;
        many(k, d.len(), &mut |s| check(w, &d, &cf, ek, api, s, Allow::default(), &|| format!("type {ty} variant {var}")))
    }));
    v.push(suite("misc", "24 types x all 65536 misc values x 4 identity sets with sample_id_all: misc has no say in whether there is a trailer", 24 * 65536 * 4, |i, w| {
        let mut c = Ch(i);
        let ty = *c.of(&TYS);
        let m = *c.of(&[0x3fu64, 1, 0x24, 0]);
        let misc = c.n(65536) as u16;
        let cf = conf(m, 0, true);
        let b = match (ty, misc >> 14 & 1) {
            (10, 1) => Body::Build { len: 20, name: 9, pad: 3 },
            (16, _) => Body::Ns(2),
            (20, _) => Body::Text { old: 3, new: 5 },
            (9, _) => Body::Sample(Sm::S),
            _ => Body::N { name: 5, pad: 3 },
        };
        let mut e = Enc::new(false, 41);
        framed(&mut e, ty, misc, |e| {
            body(e, ty, &cf, &b);
            if ty != 1 && ty != 9 {
                trailer(e, &cf)
            }
        });
        let d = e.v;
        let api = if misc & 1 == 0 { Api::Visit } else { Api::Meta };
        check(w, &d, &cf, EK::Native, api, &Src::Slice, Allow::default(), &|| format!("type {ty} misc {misc:#x}"))
    }));
    let top = t.pick(88u64, 160);
    v.push(suite("lengths", format!("24 types x 64 identity sets x sample_id_all x every record body length 0..{top} x 3 interfaces x 3 sources"), 24 * 64 * 2 * top * 3 * 3, move |i, w| {
        let mut c = Ch(i);
        let ty = *c.of(&TYS);
        let cf = conf(c.n(64), 0, c.b());
        let len = c.u(top as usize);
        let api = *c.of(&[Api::Visit, Api::Meta, Api::RecH]);
        let k = *c.of(&[0, 1, 7]);
        let mut e = Enc::new(false, 17);
        framed(&mut e, ty, 0, |e| e.fill(len));
        let d = e.v;
        let n = d.len() - if api.hdr() { 8 } else { 0 };
        many(k, n, &mut |s| check(w, &d, &cf, EK::Native, api, s, Allow { f1: false }, &|| format!("type {ty}, {len} bytes")))
    }));
    {
        let ls: std::sync::Arc<Vec<usize>> = super::c04::sizes_to(t.pick(100, 600), 60000).into();
        let n = ls.len() as u64;
        v.push(suite("sizes", format!("names, padding, poked bytes, namespaces and unknown data of {n} sizes up to 60000 x 8 identity sets x sample_id_all x 3 byte orders x 3 interfaces x 4 sources"), 9 * n * 8 * 2 * 3 * 3 * 4, move |i, w| {
            let mut c = Ch(i);
            let k = *c.of(&[0, 1, 5, 7]);
            let ek = *c.of(&EK3);
            let api = *c.of(&[Api::Visit, Api::Meta, Api::RecH]);
            let cf = conf(*c.of(&[0, 1, 5, 0x20, 0x21, 0x2a, 0x3e, 0x3f]), 0, c.b());
            let part = *c.of(&[0, 1, 2, 3, 4, 5, 6, 7, 14]);
            let len = *c.of(&ls);
            if len > 2000 && (k == 5 || ek == EK::CustL) {
                return Ok(());
            }
            let Some(mut s) = super::c14::sized(part, len) else { return Ok(()) };
            s.cfg = cf;
            if len < 65000 {
                let d = s.bytes(ek.big());
                let skip = if api.hdr() { 8 } else { 0 };
                many(k, d.len() - skip, &mut |x| check(w, &d, &cf, ek, api, x, Allow::default(), &|| s.name.clone()))
            } else {
                Ok(())
            }
        }));
    }
    v.push(suite("slack", "12 fixed-size types x 64 identity sets x 0..24 unclaimed bytes before the trailer x 3 byte orders x 4 sources", 12 * 64 * 25 * 3 * 4, |i, w| {
        let mut c = Ch(i);
        let ty = *c.of(&[2u32, 4, 5, 6, 7, 8, 11, 12, 13, 15, 18, 21]);
        let cf = conf(c.n(64), 0, true);
        let slack = c.u(25);
        let ek = *c.of(&EK3);
        let k = *c.of(&[0, 1, 3, 5]);
        let mut e = Enc::new(ek.big(), 23);
        framed(&mut e, ty, 0, |e| {
            body(e, ty, &cf, &N0);
            e.fill(slack);
            trailer(e, &cf)
        });
        let d = e.v;
        many(k, d.len(), &mut |s| check(w, &d, &cf, ek, Api::Visit, s, Allow::default(), &|| format!("type {ty}, {slack} unclaimed bytes")))
    }));
    v.push(suite("trailer_bits", "64 identity sets x every bit of the trailer flipped x 4 types x 3 byte orders x 2 sources", 64 * 384 * 4 * 3 * 2, |i, w| {
        let mut c = Ch(i);
        let m = c.n(64);
        let bit = c.u(384);
        let ty = *c.of(&[2u32, 3, 14, 99]);
        let ek = *c.of(&EK3);
        let k = *c.of(&[0, 7]);
        let cf = conf(m, 0, true);
        if bit >= cf.trailer() * 8 {
            return Ok(());
        }
        let mut e = Enc::new(ek.big(), 29);
        framed(&mut e, ty, 0, |e| {
            body(e, ty, &cf, &Body::N { name: 6, pad: 2 });
            trailer(e, &cf)
        });
        let mut d = e.v;
        let at = d.len() - cf.trailer() + bit / 8;
        d[at] ^= 1 << (bit % 8);
        many(k, d.len(), &mut |s| check(w, &d, &cf, ek, Api::Visit, s, Allow::default(), &|| format!("type {ty}, trailer bit {bit} flipped")))
    }));
    {
        // values a decoder could take for "nothing", alone, in pairs, and together with the body's
        const SPECIAL: [u32; 7] = [0, u32::MAX, 1, 1 << 31, i32::MAX as u32, 2, 0xffff];
        let pairs: Vec<(usize, usize)> = (0..12).flat_map(|a| (a..12).map(move |b| (a, b))).collect();
        let np = pairs.len() as u64;
        let deep = t.pick(5u64, 7);
        v.push(suite("trailer_values", format!("24 types x 64 identity sets x every pair of 32-bit trailer words ({np}) x {deep} x {deep} special values; natively or byte by byte in the other order"), 24 * 64 * np * deep * deep, move |i, w| {
            let mut c = Ch(i);
            let (va, vb) = (SPECIAL[c.u(deep as usize)], SPECIAL[c.u(deep as usize)]);
            let (a, b) = *c.of(&pairs);
            let cf = conf(c.n(64), 0, true);
            let ty = *c.of(&TYS);
            let n = cf.trailer() / 4;
            if b >= n || (a == b && va != vb) {
                return Ok(());
            }
            let ek = if i & 7 == 3 { EK::Big } else { EK::Native };
            let mut d = built(ty, &cf, ek.big());
            if ty == 1 || ty == 9 {
                return Ok(());
            }
            let at = d.len() - 4 * n;
            for (k, v) in [(a, va), (b, vb)] {
                d[at + 4 * k..][..4].copy_from_slice(&v.to_ne_bytes());
            }
            check(w, &d, &cf, ek, Api::Visit, &Src::Slice, Allow::default(), &|| format!("type {ty}, trailer words {a} = {va:#x} and {b} = {vb:#x}"))
        }));
        v.push(suite("body_and_trailer", "22 types x 64 identity sets x each of the first 16 body words x each of 12 trailer words: both special (5 x 5 values), or the trailer word the same as the body's or one more", 24 * 64 * 16 * 12 * 27, move |i, w| {
            let mut c = Ch(i);
            let k = c.u(27);
            let (b, a) = (c.u(12), c.u(16));
            let cf = conf(c.n(64), 0, true);
            let ty = *c.of(&TYS);
            let n = cf.trailer() / 4;
            if b >= n || ty == 1 || ty == 9 {
                return Ok(());
            }
            let mut d = built(ty, &cf, false);
            let at = d.len() - 4 * n;
            if 8 + 4 * (a + 1) > at || ty == 16 && a == 2 {
                return Ok(());
            }
            let (x, y) = if k < 25 {
                (SPECIAL[k / 5], SPECIAL[k % 5])
            } else {
                let x = u32::from_le_bytes(d[8 + 4 * a..][..4].try_into().unwrap());
                (x, x.wrapping_add(k as u32 - 25))
            };
            d[8 + 4 * a..][..4].copy_from_slice(&x.to_le_bytes());
            d[at + 4 * b..][..4].copy_from_slice(&y.to_le_bytes());
            check(w, &d, &cf, EK::Little, Api::Meta, &Src::Slice, Allow::default(), &|| format!("type {ty}, body word {a} = {x:#x}, trailer word {b} = {y:#x}"))
        }));
    }
    v.push(suite("direct", "SampleId parsed directly: 64 identity sets x other bits x sample_id_all x 0..56 bytes x 16 sources x 3 byte orders; length used = estimate_len", 64 * 4 * 2 * 57 * 16 * 3, |i, w| {
        let mut c = Ch(i);
        let cf = conf(c.n(64), c.n(4), c.b());
        let n = c.u(57);
        let k = c.u(16);
        let ek = *c.of(&EK3);
        let mut e = Enc::new(ek.big(), 37);
        trailer(&mut e, &cf);
        e.fill(64);
        e.v.truncate(n);
        let d = e.v;
        let mut s = Spec::new(&d, ek.big());
        w.a.clear();
        let m = s.sample_id(&cf, &mut w.a);
        w.trans += s.steps + 1;
        w.traces += 1;
        w.state(w.a.hash());
        let est = SampleId::estimate_len(&config(&cf, Native));
        if m.is_ok() && est != s.pos {
            return Err(format!("estimate_len = {est}, the trailer has {} bytes ({cf:x?})", s.pos));
        }
        many(k, n, &mut |x| {
            let b = &mut w.b;
            let r = crate::on3!(&d[..], &cf, ek, x, p => direct::<_, _, SampleId>(&mut p, b, |v, o| v.d(o)));
            agree(&m, &s, &w.a, r, &w.b).map_err(|e| format!("SampleId from {n} bytes, {cf:x?} {ek:?} {x:?}\n {e}"))
        })
    }));
    v.push(suite("estimate_len", "all 2^25 sample_type sets x sample_id_all, plus undefined sample_type bits", 1 << 26 | 40 * 2, |i, w| {
        let (s, sid) = if i < 1 << 26 { (i & st::ALL, i >> 25 == 1) } else { (1 << (25 + (i & 63) / 2), i & 1 == 1) };
        let cf = Cfg { st: s, sid_all: sid, ..Default::default() };
        let est = SampleId::estimate_len(&config(&cf, Native));
        w.trans += 1;
        w.traces += 1;
        w.state(cf.trailer() as u64);
        if est == cf.trailer() {
            Ok(())
        } else {
            Err(format!("estimate_len = {est} for sample_type {s:#x} sample_id_all {sid}, the kernel writes {} bytes", cf.trailer()))
        }
    }));
    v.push(suite("mmap_name", "MMAP records as the kernel writes them (name, NUL padding, trailer): 64 identity sets x sample_id_all x 24 name lengths x 3 trailer contents x 3 byte orders x 6 interfaces x 4 sources; the name is the file name alone", 64 * 2 * 24 * 3 * 3 * 6 * 4, |i, w| {
        let mut c = Ch(i);
        let cf = conf(c.n(64), 0, c.b());
        let name = 1 + c.u(24);
        let tv = c.u(3);
        let ek = *c.of(&EK3);
        let api = *c.of(&APIS);
        let k = *c.of(&[0, 1, 3, 6]);
        let mut e = Enc::new(ek.big(), 43);
        let mut want = vec![];
        let mut all = vec![];
        framed(&mut e, 1, 0, |e| {
            e.w32();
            e.w32();
            for _ in 0..3 {
                e.w64();
            }
            let at = e.v.len();
            want = (0..name).map(|j| b'a' + j as u8).collect();
            e.v.extend_from_slice(&want);
            e.v.push(0);
            while e.v.len() % 8 != 0 {
                e.v.push(0);
            }
            let t = e.v.len();
            trailer(e, &cf);
            match tv {
                0 => (),
                1 => e.v[t..].fill(0),
                _ => e.v[t..].iter_mut().step_by(2).for_each(|b| *b = 0),
            }
            all = e.v[at..].to_vec();
        });
        let d = e.v;
        let skip = if api.hdr() { 8 } else { 0 };
        // what remains when the trailer is taken for part of the name
        let n = all.iter().rposition(|b| *b != 0).map_or(0, |j| j + 1);
        all.truncate(n);
        many(k, d.len() - skip, &mut |x| {
            w.traces += 1;
            w.trans += 2;
            w.state(mix(name as u64) ^ mix(cf.st) ^ tv as u64);
            let r = exec(&d, &cf, ek, api, x, &[], &mut w.b);
            if r.err != 0 || !r.tail_ok {
                return Err(format!("an MMAP record with a name of {name} bytes and a trailer fails: {} {} ({ek:?} {api:?} {x:?})", errs(r.err), r.msg));
            }
            let got = w.b.bytes_of(crate::dump::K::filename).unwrap_or_default();
            if got == want {
                Ok(())
            } else if got == all {
                w.known("KF5", || format!("name {:?} read as {} bytes with sample_id_all and sample_type {:#x}", String::from_utf8_lossy(&want), all.len(), cf.st))
            } else {
                Err(format!("an MMAP record named {:?} yields {} ({ek:?} {api:?} {x:?})", String::from_utf8_lossy(&want), crate::dump::hex(&got, 80)))
            }
        })
    }));
    v
}
