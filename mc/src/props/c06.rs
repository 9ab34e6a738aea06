//! C06: streams of records stay in sync and records are isolated from each other.
use crate::dump::{self, Dump};
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::perf_event_header;

/// How one record of a stream is consumed.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Visit,
    Rec,
    /// metadata, then the typed body
    Meta,
    /// header parsed by the caller
    Hdr,
    /// metadata, body ignored
    Skip,
    /// metadata, part of the body read
    Half,
    /// metadata, raw body read and the end of the record probed
    Raw,
    /// header parsed by the caller, then metadata
    HdrMeta,
}
const HOWS: [How; 8] = [How::Visit, How::Rec, How::Meta, How::Hdr, How::Skip, How::Half, How::Raw, How::HdrMeta];

#[derive(Clone)]
pub struct Letter {
    name: &'static str,
    le: Vec<u8>,
    be: Vec<u8>,
    /// not a framed record: pid/tid parsed as SwitchCpuWide directly
    bare: bool,
}

fn letter(name: &'static str, f: impl Fn(&mut Enc)) -> Letter {
    let mk = |big| {
        let mut e = Enc::new(big, 1000 + name.len() as u64);
        f(&mut e);
        e.v
    };
    Letter { name, le: mk(false), be: mk(true), bare: false }
}

/// sample_id_all on, so that every record has a trailer
fn cfg(sid: bool) -> Cfg {
    Cfg { st: st::TID | st::CALLCHAIN | st::RAW | st::IDENTIFIER, rf: RF1, sid_all: sid, ..Default::default() }
}

fn alphabet(c: Cfg) -> Vec<Letter> {
    let rec = |name, ty, misc, b: Body| {
        letter(name, move |e| {
            framed(e, ty, misc, |e| {
                body(e, ty, &c, &b);
                if ty != 1 && ty != 9 {
                    trailer(e, &c)
                }
            })
        })
    };
    let raw = |name, ty: u32, misc: u16, f: Box<dyn Fn(&mut Enc)>| letter(name, move |e| framed(e, ty, misc, |e| f(e)));
    let s = Sm { cc: 2, raw: 5, ..Sm::Z };
    let mut v = vec![
        rec("LOST", 2, 0, N0),
        rec("COMM, all misc bits", 3, 0xffff, Body::N { name: 5, pad: 3 }),
        rec("MMAP2", 10, 0, Body::N { name: 3, pad: 2 }),
        rec("MMAP2 with build id", 10, 1 << 14, Body::Build { len: 20, name: 3, pad: 1 }),
        rec("SWITCH_CPU_WIDE out", 15, 1 << 13, N0),
        rec("SWITCH_CPU_WIDE in", 15, 0, N0),
        rec("SAMPLE", 9, 2, Body::Sample(s)),
        raw("SAMPLE with a hostile callchain", 9, 0, Box::new(|e| { e.u64(7); e.u64(1); e.u64(1 << 40); e.u64(5) })),
        rec("unknown, 5 bytes", 77, 0x4000, Body::N { name: 5, pad: 0 }),
        raw("LOST too short", 2, 0, Box::new(|e| e.fill(3))),
        raw("LOST with slack", 2, 0, Box::new(move |e| { e.w64(); e.w64(); e.fill(9); trailer(e, &c) })),
        letter("size 7", |e| { e.u32(2); e.u16(0); e.u16(7) }),
        raw("MMAP2 with a bad build id", 10, 1 << 14, Box::new(move |e| { body(e, 10, &c, &Body::Build { len: 21, name: 1, pad: 0 }); trailer(e, &c) })),
        rec("MMAP, all misc bits", 1, 0xffff, Body::N { name: 4, pad: 0 }),
        rec("TEXT_POKE", 20, 0, Body::Text { old: 3, new: 2 }),
        rec("NAMESPACES", 16, 0, Body::Ns(2)),
    ];
    let mut b = letter("bare pid/tid", |e| { e.w32(); e.w32() });
    b.bare = true;
    v.push(b);
    v
}

/// Consume one step; what it yields is dumped. Returns 0 or the error category.
fn step<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, how: How, bare: bool, o: &mut Dump) -> Result<u8, String> {
    o.clear();
    if bare {
        return Ok(match p.parse::<SwitchCpuWide>() {
            Ok(s) => {
                dump::D::d(&s, o);
                0
            }
            Err(e) => kind(&e),
        });
    }
    let r = match how {
        How::Visit => ask(p, Api::Visit, None, o),
        How::Rec => ask(p, Api::Rec, None, o),
        How::Meta => ask(p, Api::Meta, None, o),
        How::Hdr => p.parse::<perf_event_header>().and_then(|h| p.parse_record_with_header(dump::Cap(o), h)),
        How::HdrMeta => p.parse::<perf_event_header>().and_then(|h| ask(p, Api::MetaH, Some((h.type_, h.misc, h.size)), o)),
        How::Skip => p.parse_metadata().map(|(_, m)| dump::meta(&m, o)),
        How::Half => p.parse_metadata().map(|(mut q, m)| {
            let _ = q.parse_u16();
            dump::meta(&m, o)
        }),
        How::Raw => match p.parse_metadata() {
            Ok((mut q, m)) => {
                let body = q.parse_rest().map_err(|e| format!("parse_rest of a record failed: {e}"))?;
                o.by(dump::K::unknown, &body);
                dump::meta(&m, o);
                // nothing but the end may follow
                match q.parse_u8() {
                    Err(e) if kind(&e) == EOF => (),
                    x => return Err(format!("reading past the end of a record gives {x:?}")),
                }
                Ok(())
            }
            Err(e) => Err(e),
        },
    };
    Ok(r.err().map_or(0, |e| kind(&e)))
}

/// The model's view of one step at `at`; returns (error set, bytes consumed).
fn model(d: &[u8], at: usize, c: &Cfg, big: bool, how: How, bare: bool, lay: Option<&Lay>, o: &mut Dump) -> (u8, usize, u64, bool) {
    if bare {
        o.clear();
        let mut s = Spec::new(d, big);
        s.pos = at;
        let (p, t) = (s.u32().unwrap(), s.u32().unwrap());
        o.u(dump::K::switch_out, 0);
        o.u(dump::K::pid, p as u64);
        o.u(dump::K::tid, t as u64);
        return (0, 8, 2, false);
    }
    let (view, raw) = match how {
        How::Rec => (View::Rec, 0),
        How::Skip | How::Half => (View::Meta, 1),
        How::Raw => (View::Meta, 2),
        _ => (View::Meta, 0),
    };
    let opt = Opt { lay, ..Default::default() };
    if raw == 0 {
        let m = frame(d, at, None, c, big, view, opt, o);
        return (m.err, m.used.unwrap(), m.steps, m.quirk);
    }
    // metadata only: the body is whatever lies between header and trailer
    o.clear();
    let mut s = Spec::new(d, big);
    s.pos = at;
    let (ty, misc, size) = (s.u32().unwrap(), s.u16().unwrap(), s.u16().unwrap() as usize);
    if size < 8 {
        return (INV, 8, s.steps, false);
    }
    let t = if ty == 1 || ty == 9 { 0 } else { c.trailer() };
    if t > size - 8 {
        return (INV, size, s.steps, false);
    }
    s.end = at + size - t;
    if raw == 2 {
        let b = s.rest();
        o.by(dump::K::unknown, b);
    }
    o.u(dump::K::ty, ty as u64);
    o.u(dump::K::misc, misc as u64);
    s.pos = at + size - t;
    s.end = at + size;
    if ty != 1 && ty != 9 {
        s.sample_id(c, o).unwrap();
    }
    (0, size, s.steps, false)
}

/// One stream: pieces = (is a bare pair, how).
fn stream(w: &mut W, d: &[u8], c: &Cfg, steps: &[(bool, How)], ek: EK, src: &Src, what: &dyn Fn() -> String) -> R {
    let mut a = std::mem::take(&mut w.a);
    let mut b = std::mem::take(&mut w.b);
    let mut h = 0u64;
    let (mut trans, mut quirk) = (0, 0);
    let lay = match src {
        Src::Slice => Some(Lay::one(d.as_ptr() as usize, d.len())),
        Src::Chunks { cuts, tmp, .. } => Some(ChunkSrc::lay(d, cuts, *tmp)),
        _ => None,
    };
    let res = crate::on3!(d, c, ek, src, p => {
        let mut at = 0;
        let mut res = Ok(());
        for (n, (bare, how)) in steps.iter().enumerate() {
            let (err, used, st, _) = model(d, at, c, ek.big(), *how, *bare, None, &mut a);
            trans += st + 1;
            h = mix(h ^ if err == 0 { a.hash() } else { err as u64 });
            let got = match step(&mut p, *how, *bare, &mut b) {
                Ok(x) => x,
                Err(e) => { res = Err(format!("{}\n step {n} ({how:?}): {e}", what())); break }
            };
            let same = |err: u8, a: &Dump| if err == 0 { got == 0 && *a == b } else { got & err != 0 };
            if !same(err, &a) {
                let mut known = false;
                if let (Some(l), true) = (&lay, ek.native()) {
                    let (e2, _, _, q) = model(d, at, c, ek.big(), *how, *bare, Some(l), &mut a);
                    if q && same(e2, &a) {
                        quirk += 1;
                        known = true;
                    }
                    model(d, at, c, ek.big(), *how, *bare, None, &mut a);
                }
                if !known {
                    res = Err(format!("{}\n step {n} ({how:?}) at byte {at}, {ek:?} {src:?}\n config {c:x?}\n stream {}\n model: {} {}\n implementation: {} {}",
                        what(), dump::hex(d, 1024), errs(err), if err == 0 { a.show() } else { String::new() }, errs(got), if got == 0 { b.show() } else { String::new() }));
                    break;
                }
            }
            at += used;
        }
        if res.is_ok() {
            res = match p.parse_rest() {
                Ok(r) if *r == d[at..] => Ok(()),
                Ok(r) => Err(format!("{}\n after all steps {} bytes are left, expected {}", what(), r.len(), d.len() - at)),
                Err(e) => Err(format!("{}\n reading the rest failed: {e}", what())),
            };
        }
        res
    });
    w.trans += trans;
    w.traces += 1;
    w.state(h);
    for _ in 0..quirk {
        w.known("F1", || what())?;
    }
    w.note(|| format!("{} [{ek:?} {src:?}] all steps agree", what()));
    w.a = a;
    w.b = b;
    res
}

const NSRC: usize = 7;
fn source(k: usize, n: usize, f: &mut dyn FnMut(EK, &Src) -> R) -> R {
    let cuts = |step: usize| -> Vec<usize> { (1..).map(|j| j * step).take_while(|p| *p < n).collect() };
    match k {
        0 => f(EK::Native, &Src::Slice),
        1 => f(EK::Big, &Src::Slice),
        2 => f(EK::Native, &Src::Chunks { cuts: &[], tmp: 1, hint: false }),
        3 => f(EK::Native, &Src::Chunks { cuts: &cuts(7), tmp: 0, hint: true }),
        4 => f(EK::CustL, &Src::Chunks { cuts: &cuts(13), tmp: 0x5555_5555_5555_5555, hint: false }),
        5 => f(EK::Native, &Src::Reader { cap: 16, plan: &[3] }),
        _ => f(EK::Big, &Src::Win { size: 9, tmp: true, hint: true }),
    }
}

fn run(w: &mut W, al: &[Letter], c: &Cfg, picks: &[(usize, How)], k: usize) -> R {
    let mut d = vec![];
    let big = matches!(k, 1 | 6);
    let mut steps = vec![];
    for (l, how) in picks {
        let x = &al[*l];
        d.extend_from_slice(if big { &x.be } else { &x.le });
        steps.push((x.bare, *how));
    }
    d.extend_from_slice(&[9, 8, 7]);
    source(k, d.len(), &mut |ek, s| stream(w, &d, c, &steps, ek, s, &|| format!("stream {:?}", picks.iter().map(|(l, h)| format!("{}:{h:?}", al[*l].name)).collect::<Vec<_>>())))
}

/// Records inside the body of another one, read with the parser that `parse_metadata` hands out; then a record after it.
fn nested(w: &mut W, al: &[Letter], c: &Cfg, outer: &[(u32, u16)], inner: &[(usize, How)], last: usize, k: usize) -> R {
    let big = matches!(k, 1 | 6);
    let get = |l: usize| if big { &al[l].be } else { &al[l].le };
    let mut d: Vec<u8> = vec![];
    for (l, _) in inner {
        d.extend_from_slice(get(*l));
    }
    let len = d.len();
    for (ty, misc) in outer.iter().rev() {
        let mut e = Enc::new(big, 5);
        framed(&mut e, *ty, *misc, |e| {
            e.v.extend_from_slice(&d);
            if !matches!(ty, 1 | 9) {
                trailer(e, c)
            }
        });
        d = e.v;
    }
    let end = d.len();
    d.extend_from_slice(get(last));
    let d = d;
    let what = || format!("records {:?} inside {outer:x?}, then {}", inner.iter().map(|(l, h)| format!("{}:{h:?}", al[*l].name)).collect::<Vec<_>>(), al[last].name);
    let mut x = Nest { al, c, d: &d, ek: EK::Native, lay: None, src: String::new(), what: &what, a: std::mem::take(&mut w.a), b: std::mem::take(&mut w.b), h: 0, trans: 0, quirk: 0 };
    let res = source(k, d.len(), &mut |ek, src| {
        x.ek = ek;
        x.src = format!("{src:?}");
        x.lay = match src {
            Src::Slice => Some(Lay::one(d.as_ptr() as usize, d.len())),
            Src::Chunks { cuts, tmp, .. } => Some(ChunkSrc::lay(&d, cuts, *tmp)),
            _ => None,
        };
        let at = 8 * outer.len();
        crate::on3!(&d[..], c, ek, src, p => {
            let bad = |e: ParseError| format!("{}: the enclosing record is refused: {e}", what());
            let seen = {
                let (mut q, m) = p.parse_metadata().map_err(bad)?;
                if outer.len() == 1 {
                    x.inner(&mut q, at, len, inner)?;
                    vec![m]
                } else {
                    let (mut q, m2) = q.parse_metadata().map_err(bad)?;
                    let (mut q, m3) = q.parse_metadata().map_err(bad)?;
                    x.inner(&mut q, at, len, inner)?;
                    vec![m, m2, m3]
                }
            };
            for (m, (ty, misc)) in seen.iter().zip(outer) {
                if (m.ty(), m.misc()) != (*ty, *misc) {
                    return Err(format!("{}: an enclosing record is reported as {} {:#x}", what(), m.ty(), m.misc()));
                }
            }
            x.go(&mut p, end, How::Visit, last, "the record after it")?;
            Ok(())
        })
    });
    w.trans += x.trans;
    w.traces += 1;
    w.state(x.h);
    w.a = x.a;
    w.b = x.b;
    for _ in 0..x.quirk {
        w.known("F1", || what())?;
    }
    res
}

struct Nest<'x> {
    al: &'x [Letter],
    c: &'x Cfg,
    d: &'x [u8],
    ek: EK,
    lay: Option<Lay>,
    src: String,
    what: &'x dyn Fn() -> String,
    a: Dump,
    b: Dump,
    h: u64,
    trans: u64,
    quirk: u32,
}
impl Nest<'_> {
    fn go<'p, B: ParseBuf<'p>, E: Endian>(&mut self, p: &mut Parser<B, E>, at: usize, how: How, l: usize, n: &str) -> Result<usize, String> {
        let Nest { al, c, d, ek, lay, src, what, a, b, .. } = self;
        let bare = al[l].bare;
        let (err, used, st, _) = model(d, at, c, ek.big(), how, bare, None, a);
        self.trans += st + 1;
        self.h = mix(self.h ^ if err == 0 { a.hash() } else { err as u64 });
        let got = step(p, how, bare, b).map_err(|e| format!("{}\n {n} ({how:?}): {e}", what()))?;
        if !(if err == 0 { got == 0 && a == b } else { got & err != 0 }) {
            let mut known = false;
            if let (Some(l), true) = (&lay, ek.native()) {
                let (e2, _, _, q) = model(d, at, c, ek.big(), how, bare, Some(l), a);
                known = q && (if e2 == 0 { got == 0 && a == b } else { got & e2 != 0 });
            }
            if !known {
                model(d, at, c, ek.big(), how, bare, None, a);
                return Err(format!("{}\n {n} ({how:?}) at byte {at}, {ek:?} {src}\n config {c:x?}\n stream {}\n model: {} {}\n implementation: {} {}",
                    what(), dump::hex(d, 1024), errs(err), if err == 0 { a.show() } else { String::new() }, errs(got), if got == 0 { b.show() } else { String::new() }));
            }
            self.quirk += 1;
        }
        Ok(used)
    }
    fn inner<'p, B: ParseBuf<'p>, E: Endian>(&mut self, q: &mut Parser<B, E>, start: usize, len: usize, inner: &[(usize, How)]) -> R {
        let mut at = start;
        for (l, how) in inner {
            at += self.go(q, at, *how, *l, "an inner record")?;
        }
        match q.parse_rest() {
            Ok(r) if r.len() == start + len - at => Ok(()),
            x => Err(format!("{}: after the inner records {x:?} is left", (self.what)())),
        }
    }
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    for sid in [true, false] {
        let c = cfg(sid);
        let al = alphabet(c);
        let n = al.len() as u64;
        let a2 = al.clone();
        v.push(suite(if sid { "triples" } else { "triples_plain" }, format!("every sequence of 3 of {n} records (valid, invalid, oversized, misc flags, bare data) x 8 ways of reading the first, 8 the second, 2 the last x {NSRC} sources, sample_id_all={sid}"), n * n * n * 8 * 8 * 2 * NSRC as u64, move |i, w| {
            let mut ch = Ch(i);
            let k = ch.u(NSRC);
            let hows = [*ch.of(&HOWS), *ch.of(&HOWS), *ch.of(&[How::Visit, How::Meta])];
            let p: Vec<(usize, How)> = hows.iter().map(|h| (ch.u(a2.len()), *h)).collect();
            run(w, &a2, &c, &p, k)
        }));
        if sid || t == Tier::Thorough {
            let ways = t.pick(2usize, 4);
            let n4 = (n * ways as u64).pow(4);
            v.push(suite(if sid { "quadruples" } else { "quadruples_plain" }, format!("every sequence of 4 of {n} records x {ways} ways of reading each x 2 sources, sample_id_all={sid}"), n4 * 2, move |i, w| {
                let mut ch = Ch(i);
                let k = *ch.of(&[0, 4]);
                let hs = [How::Visit, How::Meta, How::Rec, How::Half];
                let p: Vec<(usize, How)> = (0..4).map(|_| (ch.u(al.len()), hs[ch.u(ways)])).collect();
                run(w, &al, &c, &p, k)
            }));
        }
    }

    // all pairs of record shapes with a common configuration
    for sid in [false, true] {
        let sh: Vec<Shape> = non_samples().into_iter().filter(|s| s.cfg.sid_all == sid).collect();
        let n = sh.len() as u64;
        v.push(suite(if sid { "pairs_trailer" } else { "pairs" }, format!("every ordered pair of {n} record shapes x 8 x 2 ways x {NSRC} sources"), n * n * 16 * NSRC as u64, move |i, w| {
            let mut ch = Ch(i);
            let k = ch.u(NSRC);
            let steps = [(false, *ch.of(&HOWS)), (false, *ch.of(&[How::Visit, How::Meta]))];
            let (a, b) = (ch.of(&sh), ch.of(&sh));
            let big = matches!(k, 1 | 6);
            let mut d = a.bytes(big);
            d.extend(b.bytes(big));
            d.extend_from_slice(&[9, 8, 7]);
            source(k, d.len(), &mut |ek, s| stream(w, &d, &a.cfg, &steps, ek, s, &|| format!("{} ({:?}) then {} ({:?})", a.name, steps[0].1, b.name, steps[1].1)))
        }));
    }

    // records inside records
    for sid in [true, false] {
        let c = cfg(sid);
        let al = alphabet(c);
        let n = al.len() as u64;
        const OUT: [(u32, u16); 8] = [(77, 0), (77, 0xffff), (10, 1 << 14), (3, 1 << 13), (9, 1 << 14), (1, 1 << 13), (0, 3 << 13), (15, 1 << 13)];
        let no = t.pick(3usize, 8);
        let a2 = al.clone();
        v.push(suite(if sid { "nested" } else { "nested_plain" }, format!("every sequence of 2 of {} records x 8 x 8 ways of reading them, inside a record of {no} types and misc values, then one of {n} records x {NSRC} sources, sample_id_all={sid}", n - 1), no as u64 * (n - 1) * (n - 1) * 64 * n * NSRC as u64, move |i, w| {
            let mut ch = Ch(i);
            let k = ch.u(NSRC);
            let o = *ch.of(&OUT[..no]);
            let inner = [(ch.u(a2.len() - 1), *ch.of(&HOWS)), (ch.u(a2.len() - 1), *ch.of(&HOWS))];
            nested(w, &a2, &c, &[o], &inner, ch.u(a2.len()), k)
        }));
        v.push(suite(if sid { "nested_deep" } else { "nested_deep_plain" }, format!("one of {} records x 8 ways of reading it, inside three records of 8 types and misc values each x {NSRC} sources, sample_id_all={sid}", n - 1), 512 * (n - 1) * 8 * NSRC as u64, move |i, w| {
            let mut ch = Ch(i);
            let k = ch.u(NSRC);
            let o = [*ch.of(&OUT), *ch.of(&OUT), *ch.of(&OUT)];
            let inner = [(ch.u(al.len() - 1), *ch.of(&HOWS))];
            nested(w, &al, &c, &o, &inner, 5, k)
        }));
    }

    // any declared size, then a sentinel
    let top = t.pick(160u64, 400);
    v.push(suite("declared_sizes", format!("types 0..=22 x every declared size 0..{top} x 3 misc values x 3 fillings x trailer x 8 ways, followed by a sentinel record x {NSRC} sources"), 23 * top * 3 * 3 * 2 * 8 * NSRC as u64, move |i, w| {
        let mut ch = Ch(i);
        let k = ch.u(NSRC);
        let ty = ch.n(23) as u32;
        let size = ch.u(top as usize);
        let misc = *ch.of(&[0u16, 1 << 14, 1 << 13]);
        let fill = ch.u(3);
        let sid = ch.b();
        let how = *ch.of(&HOWS);
        let c = cfg(sid);
        let big = matches!(k, 1 | 6);
        let mut e = Enc::new(big, 3);
        e.u32(ty);
        e.u16(misc);
        e.u16(size as u16);
        match fill {
            0 => e.fill(size.saturating_sub(8)),
            1 => e.zeros(size.saturating_sub(8)),
            _ => e.v.resize(size.max(8), 1),
        }
        framed(&mut e, 10, 1 << 14, |e| {
            body(e, 10, &c, &Body::Build { len: 9, name: 3, pad: 0 });
            trailer(e, &c)
        });
        framed(&mut e, 15, 0, |e| {
            body(e, 15, &c, &N0);
            trailer(e, &c)
        });
        let d = e.v;
        source(k, d.len(), &mut |ek, s| stream(w, &d, &c, &[(false, how), (false, How::Visit), (false, How::Meta)], ek, s, &|| format!("type {ty} misc {misc:#x} size {size} filling {fill} ({how:?}) then MMAP2 with build id, SWITCH_CPU_WIDE in")))
    }));

    {
        let ls: std::sync::Arc<Vec<usize>> = super::c04::sizes_to(t.pick(60, 400), 60000).into();
        let n = ls.len() as u64;
        v.push(suite("sizes", format!("9 records with a variable part of {n} sizes up to 60000 x trailer x 8 ways, followed by two sentinel records x {NSRC} sources"), 9 * n * 2 * 8 * NSRC as u64, move |i, w| {
            let mut ch = Ch(i);
            let k = ch.u(NSRC);
            let how = *ch.of(&HOWS);
            let c = cfg(ch.b());
            let part = *ch.of(&[0, 1, 2, 3, 4, 5, 6, 7, 14]);
            let len = *ch.of(&ls);
            if len > 3000 && [3, 5, 6].contains(&k) {
                return Ok(());
            }
            let Some(mut s) = super::c14::sized(part, len) else { return Ok(()) };
            s.cfg = c;
            let big = matches!(k, 1 | 6);
            let mut e = Enc::new(big, 3);
            s.put(&mut e);
            framed(&mut e, 10, 1 << 14, |e| {
                body(e, 10, &c, &Body::Build { len: 9, name: 3, pad: 0 });
                trailer(e, &c)
            });
            framed(&mut e, 15, 0, |e| {
                body(e, 15, &c, &N0);
                trailer(e, &c)
            });
            let d = e.v;
            source(k, d.len(), &mut |ek, s2| stream(w, &d, &c, &[(false, how), (false, How::Visit), (false, How::Meta)], ek, s2, &|| format!("{} ({how:?}) then MMAP2 with build id, SWITCH_CPU_WIDE in", s.name)))
        }));
    }
    // long streams with one parser: position arithmetic over many records
    v.push(suite("long_streams", format!("streams of 1..=400 records cycling through the alphabet with stride 1..16 x {NSRC} sources"), 400 * 16 * NSRC as u64, move |i, w| {
        let mut ch = Ch(i);
        let k = ch.u(NSRC);
        let n = 1 + ch.u(400);
        let stride = 1 + ch.u(16);
        if n > 40 && n % 13 != 0 {
            return Ok(());
        }
        let c = cfg(stride % 2 == 0);
        let al = alphabet(c);
        let p: Vec<(usize, How)> = (0..n).map(|j| ((j * stride + j / al.len()) % al.len(), HOWS[(j / 3) % 8])).collect();
        run(w, &al, &c, &p, k)
    }));
    v
}
