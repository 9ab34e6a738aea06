//! C20: caller-owned contiguous data is borrowed, not copied.
use super::c04::{coded, Coded, TAIL};
use crate::alloc;
use crate::dump::{D, K, NAMES};
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::parse::*;
use perf_event_data::*;
use std::borrow::Cow;

const F1: Allow = Allow { f1: true };

fn words(k: u16) -> bool {
    [K::callchain, K::ru_regs, K::ri_regs, K::lbr, K::ns].iter().any(|x| *x as u16 == k)
}
/// Fields that are documented inline values, not references.
fn inline(k: u16) -> bool {
    [K::build_id, K::bpf_tag, K::os_name, K::ns_net, K::ns_uts, K::ns_ipc, K::ns_pid, K::ns_user, K::ns_cgroup].iter().any(|x| *x as u16 == k)
}

/// Compare where the model found each field (in `buf`) with where the implementation's reference points.
fn places(model: &[(u16, usize, usize)], real: &[(u16, usize, usize)], buf: &[u8], contiguous: bool, native: bool) -> R {
    let r = buf.as_ptr_range();
    let inside = |a: usize| a >= r.start as usize && a < r.end as usize;
    let mut used = vec![false; real.len()];
    for &(k, a, n) in model {
        if inline(k) {
            continue;
        }
        let name = NAMES[k as usize];
        let Some(j) = (0..real.len()).find(|j| !used[*j] && real[*j].0 == k) else {
            return Err(format!("field {name} is missing"));
        };
        used[j] = true;
        let (_, b, len) = real[j];
        if len != n {
            return Err(format!("field {name} has {len} bytes, expected {n}"));
        }
        if n == 0 {
            continue;
        }
        let off = a - r.start as usize;
        if inside(b) {
            if b != a {
                return Err(format!("field {name} ({n} bytes at offset {off}) is a reference to offset {}", b - r.start as usize));
            }
        } else if contiguous && (!words(k) || (native && a % 8 == 0)) {
            return Err(format!("field {name} ({n} bytes at offset {off}) of a contiguous caller-owned record was copied"));
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn located(w: &mut W, d: &[u8], c: &Cfg, ek: EK, api: Api, src: &Src, contiguous: bool, what: &dyn Fn() -> String) -> R {
    w.a.loc = Some(w.a.loc.take().unwrap_or_default());
    w.b.loc = Some(w.b.loc.take().unwrap_or_default());
    check(w, d, c, ek, api, src, F1, what)?;
    let (a, b) = (w.a.loc.as_ref().unwrap(), w.b.loc.as_ref().unwrap());
    let start = if api.hdr() { 8 } else { 0 };
    let mut strict = Default::default();
    let m = frame(&d[start..], 0, if api.hdr() { peek(d, ek.big()) } else { None }, c, ek.big(), api.view(), Opt::default(), &mut strict);
    // where they differ, `check` has just established that it is finding F1
    if m.err != 0 || strict != w.b {
        return Ok(());
    }
    places(a, b, d, contiguous, ek.native()).map_err(|e| format!("{}\n byte order {ek:?}, api {api:?}, source {src:?}, address % 8 = {}\n config {c:x?}\n input {}\n {e}", what(), d.as_ptr() as usize % 8, crate::dump::hex(d, 512)))
}

/// One payload shape by number: (name, how many sizes).
const FAMILIES: [(u32, usize); 13] = [(1, 81), (3, 81), (10, 81), (17, 81), (19, 81), (0x77, 41), (16, 12), (20, 441), (9, 41), (109, 441), (209, 41), (309, 16), (409, 27)];
fn family(f: u32, k: usize, sid: bool) -> Shape {
    let c = Cfg { sid_all: sid, st: if sid { SID } else { 0 }, ..Default::default() };
    let s0 = Sm::Z;
    let smp = |st: u64, s: Sm, ru: u64| (9, Cfg { st: st | st::ADDR | st::CGROUP, ru, ..Default::default() }, Body::Sample(s));
    let (ty, cfg, body) = match f {
        16 => (16, c, Body::Ns(k)),
        20 => (20, c, Body::Text { old: k / 21, new: k % 21 }),
        0x77 => (0x77, c, Body::N { name: k, pad: 0 }),
        9 => smp(st::RAW, Sm { raw: k, ..s0 }, 0),
        109 => smp(st::STACK_USER, Sm { stack: k / 21, dyn_: k % 21, ..s0 }, 0),
        209 => smp(st::AUX, Sm { aux: k, ..s0 }, 0),
        309 => smp(st::CALLCHAIN, Sm { cc: k, ..s0 }, 0),
        409 => smp(st::BRANCH_STACK | st::REGS_USER | st::REGS_INTR, Sm { lbr: k / 9, abi_u: 1, abi_i: 2, ..s0 }, (1 << (k % 9)) - 1),
        _ => (f, c, Body::N { name: k % 27, pad: k / 27 * 4 }),
    };
    Shape { name: format!("family {f} size {k}"), ty, misc: 0, cfg, body }
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let sh: std::sync::Arc<Vec<Coded>> = coded(shapes()).into();
    let ns = sh.len() as u64;
    {
        let sh = sh.clone();
        v.push(suite("shapes", format!("{ns} record shapes x 8 alignments x 7 byte orders x 6 interfaces x slice / one borrowed chunk / borrowed chunk ending with the record, with or without hint"), ns * 8 * 7 * 6 * 5, move |i, w| {
            let mut c = Ch(i);
            let al = c.u(8);
            let ek = *c.of(&EKS);
            let api = *c.of(&APIS);
            let k = c.u(5);
            let x = c.of(&sh[..]);
            let b = Buf::new(x.get(ek.big()), al);
            let d = b.get();
            let start = if api.hdr() { 8 } else { 0 };
            let cut = [d.len() - TAIL - start];
            let cut: &[usize] = if cut[0] == 0 { &[] } else { &cut };
            let src = match k {
                0 => Src::Slice,
                1 => Src::Chunks { cuts: &[], tmp: 0, hint: false },
                2 => Src::Chunks { cuts: &[], tmp: 0, hint: true },
                3 => Src::Chunks { cuts: cut, tmp: 2, hint: false },
                _ => Src::Chunks { cuts: cut, tmp: 0, hint: true },
            };
            located(w, d, &x.s.cfg, ek, api, &src, true, &|| x.s.name.clone())
        }));
    }
    {
        let total: u64 = FAMILIES.iter().map(|f| f.1 as u64).sum();
        let rows: Vec<u64> = FAMILIES.iter().map(|f| f.1 as u64).collect();
        v.push(suite("sizes", format!("{total} payload sizes (names with padding, text, raw, stack x dyn_size, aux, callchain, branches x registers, namespaces, unknown) x trailer x 8 alignments x 3 byte orders x 6 interfaces x slice/chunk"), total * 2 * 8 * 3 * 6 * 2, move |i, w| {
            let mut c = Ch(i);
            let sid = c.b();
            let al = c.u(8);
            let ek = *c.of(&[EK::Native, EK::Big, EK::CustL]);
            let api = *c.of(&APIS);
            let chunk = c.b();
            let (j, k) = super::c02::pick(&rows, c.0);
            let s = family(FAMILIES[j].0, k as usize, sid);
            let mut e = s.bytes(ek.big());
            e.extend([0xC0; 3]);
            let b = Buf::new(&e, al);
            let src = if chunk { Src::Chunks { cuts: &[], tmp: 0, hint: false } } else { Src::Slice };
            located(w, b.get(), &s.cfg, ek, api, &src, true, &|| s.name.clone())
        }));
    }
    {
        // borrowing does not depend on what the bytes are
        let vs = values(shapes());
        v.push(suite("contents", format!("{ns} record shapes with all fields zero, all ones, small, high or equal, and each field in turn zero, all ones or the same as the one before x 2 alignments x 3 byte orders x 2 interfaces x slice / one borrowed chunk"), vs.total * 2 * 3 * 2 * 2, move |i, w| {
            let mut c = Ch(i);
            let al = 4 * c.u(2);
            let ek = *c.of(&[EK::Native, EK::Big, EK::CustL]);
            let api = *c.of(&[Api::Visit, Api::Rec]);
            let chunk = c.b();
            let (s, m) = vs.get(c.0);
            let mut e = s.bytes_with(ek.big(), m);
            e.extend([0xC0; 3]);
            let b = Buf::new(&e, al);
            let src = if chunk { Src::Chunks { cuts: &[], tmp: 0, hint: false } } else { Src::Slice };
            located(w, b.get(), &s.cfg, ek, api, &src, true, &|| format!("{} {m:?}", s.name))
        }));
        let total: u64 = FAMILIES.iter().map(|f| f.1 as u64).sum();
        let rows: Vec<u64> = FAMILIES.iter().map(|f| f.1 as u64).collect();
        v.push(suite("size_contents", format!("{total} payload sizes x all fields zero, all ones, small, high or equal x 2 byte orders x slice/chunk"), total * 5 * 2 * 2, move |i, w| {
            let mut c = Ch(i);
            let m = *c.of(&[Val::Zeros, Val::Ones, Val::Small, Val::High, Val::Same]);
            let ek = *c.of(&[EK::Native, EK::Big]);
            let chunk = c.b();
            let (j, k) = super::c02::pick(&rows, c.0);
            let s = family(FAMILIES[j].0, k as usize, false);
            let mut e = s.bytes_with(ek.big(), m);
            e.extend([0xC0; 3]);
            let b = Buf::new(&e, 0);
            let src = if chunk { Src::Chunks { cuts: &[], tmp: 0, hint: false } } else { Src::Slice };
            located(w, b.get(), &s.cfg, ek, Api::Visit, &src, true, &|| format!("{} {m:?}", s.name))
        }));
    }
    {
        let ls: std::sync::Arc<Vec<usize>> = super::c04::sizes_to(t.pick(100, 600), 60000).into();
        let n = ls.len() as u64;
        v.push(suite("large", format!("15 variable parts of records and samples of {n} sizes up to 60000 x 8 alignments x 2 byte orders x 2 interfaces x slice / one borrowed chunk / borrowed chunk with hint"), 15 * n * 8 * 2 * 2 * 3, move |i, w| {
            let mut c = Ch(i);
            let al = c.u(8);
            let ek = *c.of(&[EK::Native, EK::Big]);
            let api = *c.of(&[Api::Visit, Api::MetaH]);
            let k = c.u(3);
            let part = c.u(15);
            let n = *c.of(&ls);
            if n > 2000 && al % 4 != 0 {
                return Ok(());
            }
            let Some(s) = super::c14::sized(part, n) else { return Ok(()) };
            let mut e = s.bytes(ek.big());
            e.extend([0xC0; 3]);
            let b = Buf::new(&e, al);
            let src = match k {
                0 => Src::Slice,
                _ => Src::Chunks { cuts: &[], tmp: 0, hint: k == 2 },
            };
            located(w, b.get(), &s.cfg, ek, api, &src, true, &|| s.name.clone())
        }));
    }
    {
        // records with two variable sizes, in every proportion
        let ls: std::sync::Arc<Vec<usize>> = super::c04::sizes_to(t.pick(8, 40), 60000).into();
        let n = ls.len() as u64;
        v.push(suite("proportions", format!("stack dumps by valid part, names by padding, old by new text, raw by aux data, each of {n} sizes up to 60000 and of 0, 1, 7, 8, 1/16, 1/8, 1/2, all but 1 and all of the whole x 2 alignments x 2 byte orders x slice / one borrowed chunk"), n * (n + 9) * 4 * 2 * 2 * 2, move |i, w| {
            let mut c = Ch(i);
            let al = 4 * c.u(2);
            let ek = *c.of(&[EK::Native, EK::Big]);
            let chunk = c.b();
            let part = c.u(4);
            let n = *c.of(&ls);
            let x = c.u(ls.len() + 9);
            let x = if x >= 9 { ls[x - 9] } else { [0, 1, 7, 8, n / 16, n / 8, n / 2, n.saturating_sub(1), n][x] };
            let mut cfg = Cfg::default();
            let mut sm = Sm::Z;
            let (ty, body) = match part {
                0 => {
                    cfg.st = st::STACK_USER | st::CGROUP;
                    (sm.stack, sm.dyn_) = (n, x.min(n));
                    (9, Body::Sample(sm))
                }
                1 => (3, Body::N { name: n, pad: x }),
                2 => (20, Body::Text { old: n, new: x }),
                _ => {
                    cfg.st = st::RAW | st::AUX | st::CGROUP;
                    (sm.raw, sm.aux) = (n, x);
                    (9, Body::Sample(sm))
                }
            };
            if n + x > 65000 {
                return Ok(());
            }
            let s = Shape { name: format!("part {part} of {n} and {x} bytes"), ty, misc: 0, cfg, body };
            let mut e = s.bytes(ek.big());
            if e.len() >= 65536 {
                return Ok(());
            }
            e.extend([0xC0; 3]);
            let b = Buf::new(&e, al);
            let src = if chunk { Src::Chunks { cuts: &[], tmp: 0, hint: false } } else { Src::Slice };
            located(w, b.get(), &s.cfg, ek, Api::Visit, &src, true, &|| s.name.clone())
        }));
    }
    {
        // a reference must be right also when the record comes in pieces
        let sh = sh.clone();
        let rows: Vec<u64> = sh.iter().map(|x| x.le.len() as u64).collect();
        let total: u64 = rows.iter().map(|n| n * (n - 1) / 2).sum();
        let rows2: Vec<u64> = rows.iter().map(|n| n * (n - 1) / 2).collect();
        let apis: &'static [Api] = t.pick(&[Api::Visit, Api::MetaH], &APIS);
        let na = apis.len() as u64;
        v.push(suite("pieces", format!("{ns} record shapes x every placement of one or two boundaries, all pieces borrowed or the middle temporary x 2 byte orders x {na} interfaces: every reference points at its field"), total * 2 * 2 * na, move |i, w| {
            let mut c = Ch(i);
            let tmp = 2 * c.n(2);
            let ek = if c.b() { EK::Big } else { EK::Native };
            let api = *c.of(apis);
            let (j, mut x) = super::c02::pick(&rows2, c.0);
            let y = &sh[j];
            let d = y.get(ek.big());
            let n = d.len() as u64;
            let mut a = 1;
            while x >= n - a {
                x -= n - a;
                a += 1;
            }
            let (a, b) = (a as usize, (a + x) as usize);
            let start = if api.hdr() { 8 } else { 0 };
            if b + start >= d.len() {
                return Ok(());
            }
            let cuts: &[usize] = if a == b { &[a] } else { &[a, b] };
            let buf = Buf::new(d, 0);
            let d = buf.get();
            // the record itself ends before the tail; it is whole if no boundary falls inside it
            let whole = cuts[0] >= d.len() - TAIL - start;
            located(w, d, &y.s.cfg, ek, api, &Src::Chunks { cuts, tmp, hint: false }, whole, &|| format!("{} cut at {cuts:?}", y.s.name))
        }));
    }
    {
        // later records of a stream, with the first read through either interface
        let sh = sh.clone();
        let pl: Vec<usize> = (0..sh.len()).filter(|i| sh[*i].s.cfg.sid_all == sh[0].s.cfg.sid_all && sh[*i].s.ty != 9).collect();
        let np = pl.len() as u64;
        v.push(suite("streams", format!("all ordered pairs of {np} shapes in one buffer x 3 byte orders x 3 interfaces for the first x slice / one borrowed chunk / a chunk per record: references of the second"), np * np * 3 * 3 * 3, move |i, w| {
            let mut c = Ch(i);
            let ek = *c.of(&[EK::Native, EK::Big, EK::CustL]);
            let first = *c.of(&[Api::Visit, Api::Rec, Api::Meta]);
            let k = c.u(3);
            let x = &sh[*c.of(&pl)];
            let y = &sh[*c.of(&pl)];
            let dx = x.get(ek.big());
            let dx = &dx[..dx.len() - TAIL];
            let mut all = dx.to_vec();
            all.extend_from_slice(y.get(ek.big()));
            let b = Buf::new(&all, 0);
            let d = b.get();
            let cut = [dx.len()];
            let src = match k {
                0 => Src::Slice,
                1 => Src::Chunks { cuts: &[], tmp: 0, hint: false },
                _ => Src::Chunks { cuts: &cut, tmp: 0, hint: true },
            };
            let (mut a, mut o) = (std::mem::take(&mut w.a), std::mem::take(&mut w.b));
            a.loc = Some(vec![]);
            o.loc = Some(vec![]);
            let m = frame(d, dx.len(), None, &y.s.cfg, ek.big(), View::Meta, Opt::default(), &mut a);
            let res = crate::on3!(d, &y.s.cfg, ek, &src, p => ask(&mut p, first, None, &mut o).and_then(|_| ask(&mut p, Api::Visit, None, &mut o)));
            w.trans += m.steps + 4;
            w.traces += 1;
            w.state(a.hash());
            // an odd-sized first record may misalign the second one's arrays: finding F1, reported by the other suites
            let lay = Lay::one(d.as_ptr() as usize, d.len());
            let q = |at| frame(d, at, None, &y.s.cfg, ek.big(), View::Meta, Opt { lay: Some(&lay), ..Default::default() }, &mut Default::default()).quirk;
            let r = if ek.native() && (q(0) || q(dx.len())) {
                Ok(())
            } else {
                match res {
                    Ok(()) if a == o => places(a.loc.as_ref().unwrap(), o.loc.as_ref().unwrap(), d, true, ek.native()),
                    Ok(()) => Err(format!("model {}\n implementation {}", a.show(), o.show())),
                    Err(e) => Err(format!("refused: {e}")),
                }
            };
            w.a = a;
            w.b = o;
            r.map_err(|e| format!("{} then {}, {ek:?} {first:?} {src:?}\n {e}", x.s.name, y.s.name))
        }));
    }
    // groups hide their array: a borrowed one holds no memory
    v.push(suite("groups", "group reads of 64..96 counters x 16 formats x direct / in a sample x slice / one borrowed chunk: holds less memory than its array", 32 * 16 * 2 * 2, move |i, w| {
        let mut c = Ch(i);
        let f = rf::GROUP | c.n(8) | c.n(2) << 4;
        let nr = 64 + c.u(32);
        let smp = c.b();
        let chunk = c.b();
        let cf = Cfg { rf: f, st: st::READ, ..Default::default() };
        let mut e = Enc::new(cfg!(target_endian = "big"), 20);
        read(&mut e, f, nr);
        let b = Buf::new(&e.v, 0);
        let d = b.get();
        let src = if chunk { Src::Chunks { cuts: &[], tmp: 0, hint: true } } else { Src::Slice };
        w.traces += 1;
        w.trans += nr as u64;
        w.state(i);
        let room = (nr * 8) as isize;
        crate::on_src!(d, config(&cf, perf_event_data::endian::Native), &src, p => {
            let at = alloc::current();
            let held;
            let n;
            if smp {
                let s: Sample = p.parse().map_err(|e| e.to_string())?;
                held = alloc::current() - at;
                n = s.values().map_or(0, |g| g.len());
            } else {
                let g: ReadGroup = p.parse().map_err(|e| e.to_string())?;
                held = alloc::current() - at;
                n = g.len();
            }
            if n != nr {
                return Err(format!("{n} counters, expected {nr}"));
            }
            if held >= room {
                return Err(format!("a group of {nr} counters in caller-owned aligned native memory holds {held} bytes of its own (sample: {smp}, chunk source: {chunk}, read_format {f:#x})"));
            }
            Ok(())
        })
    }));
    // the primitives themselves
    v.push(suite("primitives", "byte runs, rest, trimmed rest and in-place slices of 1, 2, 4 and 8-byte elements after skipping 0..16 bytes x lengths 0..24 x 8 alignments x 7 byte orders x slice / one borrowed chunk", 17 * 25 * 8 * 7 * 2 * 7, move |i, w| {
        let mut c = Ch(i);
        let op = c.u(7);
        let chunk = c.b();
        let ek = *c.of(&EKS);
        let al = c.u(8);
        let n = c.u(25);
        let skip = c.u(17);
        let mut d: Vec<u8> = (0..40).map(|x| x + 1).collect();
        d.extend([0, 0]);
        let b = Buf::new(&d, al);
        let d = b.get();
        let src = if chunk { Src::Chunks { cuts: &[], tmp: 0, hint: false } } else { Src::Slice };
        let cf = Cfg::default();
        w.traces += 1;
        w.trans += 2;
        w.state(mix(i));
        let want = &d[skip..];
        with_endian!(ek, e => crate::on_src!(d, config(&cf, e), &src, p => {
            for _ in 0..skip {
                p.parse_u8().map_err(|e| e.to_string())?;
            }
            fn cow<T: Clone>(r: ParseResult<Cow<[T]>>, n: usize, want: &[u8], must: bool) -> R {
                let r = r.map_err(|e| e.to_string())?;
                if r.len() != n {
                    return Err(format!("{} elements, expected {n}", r.len()));
                }
                let (a, b) = (r.as_ptr() as usize, want.as_ptr_range());
                let b = b.start as usize..b.end as usize;
                if n > 0 && (b.contains(&a) && a != b.start || !b.contains(&a) && must) {
                    return Err(format!("data at {:#x}, expected {:#x}", a, b.start));
                }
                Ok(())
            }
            /// In place is only demanded of aligned native data; a reference must be the right one.
            fn dir<T: Copy>(r: ParseResult<Option<&[T]>>, n: usize, want: &[u8], native: bool) -> R {
                let r = r.map_err(|e| e.to_string())?;
                let ok = native && want.as_ptr() as usize % std::mem::align_of::<T>() == 0;
                match r {
                    Some(s) => cow(Ok(Cow::Borrowed(s)), n, want, true),
                    None if ok && n > 0 => Err(format!("{n} aligned native elements were not lent in place")),
                    None => Ok(()),
                }
            }
            let trimmed = want.len() - 2;
            let r = match op {
                0 => cow(p.parse_bytes(n), n, want, true),
                1 => cow(p.parse_rest(), want.len(), want, true),
                2 => cow(p.parse_rest_trim_nul(), trimmed, want, true),
                3 => dir(unsafe { p.parse_slice_direct::<u8>(n) }, n, want, ek.native()),
                4 => dir(unsafe { p.parse_slice_direct::<u16>(n / 2) }, n / 2, want, ek.native()),
                5 => dir(unsafe { p.parse_slice_direct::<u32>(n / 4) }, n / 4, want, ek.native()),
                _ => dir(unsafe { p.parse_slice_direct::<u64>(n / 8) }, n / 8, want, ek.native()),
            };
            r.map_err(|e| format!("operation {op} length {n} after {skip} bytes, alignment {al}, {ek:?}, {src:?}: {e}"))
        }))
    }));
    let _ = |s: &Sample| s.d(&mut Default::default());
    v
}
