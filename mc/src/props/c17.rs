//! C17: the parser's primitives are one byte cursor under any sequence of calls.
use super::c04::EK3;
use crate::dump::{Cap, Dump};
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::*;
use perf_event_open_sys::bindings::perf_event_header;
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    U8,
    U16,
    U32,
    U64,
    Arr0,
    Arr3,
    Arr9,
    Header,
    Bytes(usize),
    Rest,
    Trim,
    DirU8(usize),
    DirU32(usize),
    DirU64(usize),
    DirA3(usize),
    SlU8(usize),
    SlU16(usize),
    SlU64(usize),
    RepU16(usize),
    RepA3(usize),
    RepU32(usize),
    IfT,
    IfF,
    IfWithT,
    IfWithF,
    With,
    Meta,
    MetaRest,
    MetaU8,
    MetaTrim,
    Rec,
    DirZ(usize),
    SlZ(usize),
    RepZ(usize),
}
use Op::*;
pub const OPS: [Op; 36] = [
    U8, U16, U32, U64, Arr0, Arr3, Arr9, Header, Bytes(0), Bytes(1), Bytes(5), Bytes(11), Bytes(usize::MAX), Rest, Trim, DirU8(3), DirU32(2), DirU64(1), DirU64(0), DirA3(2), SlU8(4),
    SlU16(3), SlU64(1), SlU64(0), SlU64(usize::MAX), RepU16(2), RepA3(2), RepU32(0), IfT, IfF, IfWithT, With, Meta, MetaRest, MetaU8, Rec,
];
/// A second set for shorter sequences.
pub const OPS2: [Op; 19] = [DirU8(0), DirU32(usize::MAX), DirU64(2), DirA3(usize::MAX), SlU8(0), SlU8(usize::MAX), SlU64(2), RepU16(usize::MAX), RepA3(0), IfWithF, MetaTrim, Bytes(8), Bytes(3), Rec, DirZ(5), DirZ(usize::MAX), SlZ(0), SlZ(3), RepZ(4)];

/// The model: a position in the bytes.
#[derive(Clone)]
struct Model<'a> {
    d: &'a [u8],
    pos: usize,
    big: bool,
    native: bool,
    /// model finding F1 with this layout
    lay: Option<&'a Lay>,
    quirk: bool,
}
type Step = Result<bool, String>;

impl Model<'_> {
    fn left(&self) -> usize {
        self.d.len() - self.pos
    }
    fn take(&mut self, n: usize) -> Option<&[u8]> {
        if n > self.left() {
            return None;
        }
        self.pos += n;
        Some(&self.d[self.pos - n..self.pos])
    }
    fn int(&mut self, n: usize) -> Option<u64> {
        let big = self.big;
        let b = self.take(n)?;
        Some(if big { b.iter().fold(0, |a, x| a << 8 | *x as u64) } else { b.iter().rev().fold(0, |a, x| a << 8 | *x as u64) })
    }
    fn ints(&mut self, size: usize, n: usize) -> Option<Vec<u64>> {
        if n.checked_mul(size).is_none_or(|x| x > self.left()) {
            return None;
        }
        (0..n).map(|_| self.int(size)).collect()
    }
    /// Would the implementation hit F1 here?
    fn f1(&mut self, bytes: usize, align: usize) -> bool {
        if !self.native || bytes == 0 {
            return false;
        }
        let Some(l) = self.lay else { return false };
        match l.at(self.pos) {
            Some((true, addr, left)) if left >= bytes && addr % align != 0 => {
                self.quirk = true;
                self.pos += bytes;
                true
            }
            _ => false,
        }
    }
}

/// A result the model wants, against what came.
fn eq<X: PartialEq + std::fmt::Debug>(want: Option<X>, got: ParseResult<X>, allow: u8, op: Op) -> Step {
    match (want, got) {
        (Some(a), Ok(b)) if a == b => Ok(true),
        (Some(a), Ok(b)) => Err(format!("{op:?} returns {b:x?}, expected {a:x?}")),
        (Some(a), Err(e)) => Err(format!("{op:?} fails with {e} ({:?}), expected {a:x?}", e.kind())),
        (None, Err(e)) if kind(&e) & allow != 0 => Ok(false),
        (None, Err(e)) => Err(format!("{op:?} beyond the end fails with {e} ({:?})", e.kind())),
        (None, Ok(b)) => Err(format!("{op:?} beyond the end returns {b:x?}")),
    }
}

fn direct<T: Copy + PartialEq + std::fmt::Debug>(m: &mut Model, op: Op, n: usize, conv: impl Fn(&[u8]) -> T, got: ParseResult<Option<&[T]>>) -> Step {
    let size = std::mem::size_of::<T>();
    let bytes = n.checked_mul(size);
    match got {
        Ok(None) => {
            if let Some(b) = bytes {
                m.f1(b, std::mem::align_of::<T>());
            }
            Ok(true)
        }
        Ok(Some(s)) => {
            let Some(_) = bytes.and_then(|b| m.take(b)) else { return Err(format!("{op:?} beyond the end returns {s:x?}")) };
            if !m.native && n > 0 && size > 1 && std::mem::align_of::<T>() > 1 {
                return Err(format!("{op:?} reinterprets memory although the byte order is not the host's"));
            }
            let b = &m.d[m.pos - bytes.unwrap()..m.pos];
            let want: Vec<T> = b.chunks_exact(size).map(conv).collect();
            if s != &want[..] {
                return Err(format!("{op:?} returns {s:x?}, expected {want:x?}"));
            }
            Ok(true)
        }
        Err(e) => {
            let room = bytes.is_some_and(|b| b <= m.left());
            if room {
                return Err(format!("{op:?} fails with {e} although the data is there"));
            }
            if kind(&e) & (EOF | if bytes.is_none() { INV } else { 0 }) == 0 {
                return Err(format!("{op:?} beyond the end fails with {e} ({:?})", e.kind()));
            }
            Ok(false)
        }
    }
}

/// One operation on both sides; `false` ends the sequence (the call failed as expected).
fn step<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, m: &mut Model, op: Op, w: &mut W) -> Step {
    w.trans += 1;
    fn n8(v: Option<Vec<u64>>) -> Option<Vec<u8>> {
        v.map(|v| v.into_iter().map(|x| x as u8).collect())
    }
    let over = |size: usize, n: usize| EOF | if n.checked_mul(size).is_none() { INV } else { 0 };
    match op {
        U8 => eq(m.int(1), p.parse_u8().map(u64::from), EOF, op),
        U16 => eq(m.int(2), p.parse_u16().map(u64::from), EOF, op),
        U32 => eq(m.int(4), p.parse::<u32>().map(u64::from), EOF, op),
        U64 => eq(m.int(8), p.parse_u64(), EOF, op),
        Arr0 => eq(Some([0u8; 0]), p.parse::<[u8; 0]>(), EOF, op),
        Arr3 => eq(m.take(3).map(|b| b.to_vec()), p.parse::<[u8; 3]>().map(|x| x.to_vec()), EOF, op),
        Arr9 => eq(m.take(9).map(|b| b.to_vec()), p.parse::<[u8; 9]>().map(|x| x.to_vec()), EOF, op),
        Header => {
            let want = if m.left() < 8 { None } else { Some((m.int(4).unwrap(), m.int(2).unwrap(), m.int(2).unwrap())) };
            eq(want, p.parse::<perf_event_header>().map(|h| (h.type_ as u64, h.misc as u64, h.size as u64)), EOF, op)
        }
        Bytes(n) => eq(m.take(n).map(|b| b.to_vec()), p.parse_bytes(n).map(|b| b.into_owned()), EOF, op),
        Rest => {
            let n = m.left();
            eq(m.take(n).map(|b| b.to_vec()), p.parse_rest().map(|b| b.into_owned()), 0, op)
        }
        Trim => {
            let n = m.left();
            let b = m.take(n).unwrap();
            let k = b.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
            eq(Some(b[..k].to_vec()), p.parse_rest_trim_nul().map(|b| b.into_owned()), 0, op)
        }
        DirU8(n) => direct(m, op, n, |b| b[0], unsafe { p.parse_slice_direct::<u8>(n) }),
        DirU32(n) => direct(m, op, n, |b| u32::from_ne_bytes(b.try_into().unwrap()), unsafe { p.parse_slice_direct::<u32>(n) }),
        DirU64(n) => direct(m, op, n, |b| u64::from_ne_bytes(b.try_into().unwrap()), unsafe { p.parse_slice_direct::<u64>(n) }),
        DirA3(n) => direct(m, op, n, |b| <[u8; 3]>::try_from(b).unwrap(), unsafe { p.parse_slice_direct::<[u8; 3]>(n) }),
        SlU8(n) => eq(n8(m.ints(1, n)), unsafe { p.parse_slice::<u8>(n) }.map(|x| x.into_owned()), over(1, n), op),
        SlU16(n) => {
            m.f1(n.saturating_mul(2), 2);
            eq(m.ints(2, n), unsafe { p.parse_slice::<u16>(n) }.map(|x| x.iter().map(|y| *y as u64).collect()), over(2, n), op)
        }
        SlU64(n) => {
            m.f1(n.saturating_mul(8), 8);
            eq(m.ints(8, n), unsafe { p.parse_slice::<u64>(n) }.map(|x| x.into_owned()), over(8, n), op)
        }
        RepU16(n) => eq(m.ints(2, n), p.parse_repeated::<u16>(n).map(|x| x.iter().map(|y| *y as u64).collect()), over(2, n), op),
        RepU32(n) => eq(m.ints(4, n), p.parse_repeated::<u32>(n).map(|x| x.iter().map(|y| *y as u64).collect()), over(4, n), op),
        RepA3(n) => eq(m.take(3 * n).map(|b| b.to_vec()), p.parse_repeated::<[u8; 3]>(n).map(|x| x.concat()), EOF, op),
        // values without size: no bytes, but as many values as asked for
        DirZ(n) => match unsafe { p.parse_slice_direct::<[u64; 0]>(n) } {
            Ok(None) => Ok(true),
            Ok(Some(s)) if s.len() == n && s.as_ptr() as usize % 8 == 0 => Ok(true),
            r => Err(format!("{op:?} returns {:x?}", r.map(|s| s.map(|s| (s.len(), s.as_ptr()))))),
        },
        SlZ(n) => eq(Some(n), unsafe { p.parse_slice::<[u8; 0]>(n) }.map(|x| x.len()), 0, op),
        RepZ(n) => eq(Some(n), p.parse_repeated::<[u8; 0]>(n).map(|x| x.len()), 0, op),
        IfT => eq(m.int(2).map(Some), p.parse_if::<u16>(true).map(|x| x.map(u64::from)), EOF, op),
        IfF => eq(Some(None), p.parse_if::<u64>(false), 0, op),
        IfWithT => {
            let want = if m.left() < 2 { None } else { Some(Some((m.int(1).unwrap(), m.int(1).unwrap()))) };
            eq(want, p.parse_if_with(true, |p| Ok((p.parse_u8()? as u64, p.parse_u8()? as u64))), EOF, op)
        }
        IfWithF => eq(
            Some(None),
            p.parse_if_with(false, |p| {
                p.parse_u64()?;
                Ok(())
            }),
            0,
            op,
        ),
        With => {
            let want = if m.left() < 3 { None } else { Some((m.int(1).unwrap(), m.int(2).unwrap())) };
            eq(want, p.parse_with(|p| Ok((p.parse_u8()? as u64, p.parse_u16()? as u64))), EOF, op)
        }
        Meta | MetaRest | MetaU8 | MetaTrim => {
            if m.left() < 8 {
                return match p.parse_metadata() {
                    Err(e) if kind(&e) == EOF => Ok(false),
                    Err(e) => Err(format!("{op:?} without a whole header fails with {e}")),
                    Ok(_) => Err(format!("{op:?} succeeds without a whole header")),
                };
            }
            let ty = m.int(4).unwrap();
            let misc = m.int(2).unwrap();
            let size = m.int(2).unwrap() as usize;
            let r = p.parse_metadata();
            if size < 8 {
                return match r {
                    Err(e) if kind(&e) == INV => Ok(true),
                    Err(e) => Err(format!("{op:?} of a record with size {size} fails with {e}")),
                    Ok(_) => Err(format!("{op:?} accepts a record with size {size}")),
                };
            }
            let Some(b) = m.take(size - 8).map(|b| b.to_vec()) else {
                return match r {
                    Err(e) if kind(&e) == EOF => Ok(false),
                    Err(e) => Err(format!("{op:?} of a record beyond the end fails with {e}")),
                    Ok((mut q, _)) => match q.parse_rest() {
                        Ok(_) => Err(format!("{op:?} accepts a record of size {size} beyond the end")),
                        Err(e) if kind(&e) == EOF => Ok(false),
                        Err(e) => Err(format!("{op:?} of a record beyond the end: {e}")),
                    },
                };
            };
            let (mut q, md) = match r {
                Ok(x) => x,
                Err(e) => return Err(format!("{op:?} of a record of size {size} fails with {e}")),
            };
            if (md.ty() as u64, md.misc() as u64) != (ty, misc) {
                return Err(format!("{op:?}: metadata {md:?}, expected type {ty} misc {misc}"));
            }
            match op {
                MetaRest => eq(Some(b), q.parse_rest().map(|x| x.into_owned()), 0, op)?,
                MetaTrim => {
                    let k = b.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
                    eq(Some(b[..k].to_vec()), q.parse_rest_trim_nul().map(|x| x.into_owned()), 0, op)?
                }
                MetaU8 => {
                    for x in &b {
                        eq(Some(*x), q.parse_u8(), 0, op)?;
                    }
                    eq(None, q.parse_u8(), EOF, op)?
                }
                _ => true,
            };
            Ok(true)
        }
        Rec => {
            let mut a = std::mem::take(&mut w.a);
            let mut b = std::mem::take(&mut w.b);
            b.clear();
            let f = frame(&m.d[m.pos..], 0, None, &Cfg::default(), m.big, View::Meta, Opt::default(), &mut a);
            let r = p.parse_record(Cap(&mut b));
            let res = match (&r, f.err) {
                (Ok(()), 0) if a == b => Ok(true),
                (Ok(()), 0) => Err(format!("{op:?} returns {}, expected {}", b.show(), a.show())),
                (Err(e), 0) => Err(format!("{op:?} fails with {e}, expected {}", a.show())),
                (Ok(()), e) => Err(format!("{op:?} returns {}, expected error {}", b.show(), errs(e))),
                (Err(e), x) if kind(e) & x != 0 => Ok(true),
                (Err(e), x) => Err(format!("{op:?} fails with {e}, expected {}", errs(x))),
            };
            w.a = a;
            w.b = b;
            match f.used {
                Some(u) => {
                    m.pos += u;
                    res
                }
                None => res.map(|_| false),
            }
        }
    }
}

fn finish<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, m: &Model) -> R {
    match p.parse_rest() {
        Ok(r) if *r == m.d[m.pos..] => Ok(()),
        Ok(r) => Err(format!("position: {} bytes are left ({}), expected {} ({})", r.len(), crate::dump::hex(&r, 40), m.left(), crate::dump::hex(&m.d[m.pos..], 40))),
        Err(e) => Err(format!("reading the rest fails with {e}")),
    }
}

fn seq<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, m: &mut Model, ops: &[Op], w: &mut W) -> R {
    for op in ops {
        let at = m.pos;
        if !step(p, m, *op, w).map_err(|e| format!("at offset {at}: {e}"))? {
            return Ok(());
        }
    }
    finish(p, m)
}

/// 12-byte records of an unassigned type, one after the other; NULs at the end.
fn data(kind: usize, n: usize, big: bool) -> Vec<u8> {
    let mut v = vec![];
    let mut j = 0u32;
    while v.len() < n {
        j += 1;
        let i = j as u8;
        match kind {
            0 => {
                let (t, z) = if big { ([0, 0, 0, 99], [0, 12]) } else { ([99, 0, 0, 0], [12, 0]) };
                v.extend_from_slice(&t);
                v.extend_from_slice(&[0, i]);
                v.extend_from_slice(&z);
                v.extend_from_slice(&[i ^ 0x40, 0, i ^ 0x80, 0]);
            }
            1 => v.extend_from_slice(&mix(j as u64 + 77).to_le_bytes()),
            2 => v.push(0),
            3 => v.push(0xff),
            4 => v.push(j as u8 & 1),
            5 => v.push((j == 1) as u8),
            _ => v.push((j as usize == n) as u8),
        }
    }
    v.truncate(n);
    if kind == 0 {
        for x in v.iter_mut().rev().take(2) {
            *x = 0
        }
    }
    v
}

/// Sources for sequences: (alignment of the bytes, source)
pub const NSRC: usize = 14;
fn source(k: usize, n: usize, f: &mut dyn FnMut(usize, &Src) -> R) -> R {
    let cuts = |step: usize| -> Vec<usize> { (1..).map(|j| j * step).take_while(|p| *p < n).collect() };
    match k {
        0 => f(0, &Src::Slice),
        1 => f(4, &Src::Slice),
        2 => f(1, &Src::Slice),
        3 => f(0, &Src::Chunks { cuts: &cuts(1), tmp: 0, hint: true }),
        4 => f(0, &Src::Chunks { cuts: &cuts(3), tmp: 0, hint: false }),
        5 => f(0, &Src::Chunks { cuts: &cuts(5), tmp: u64::MAX, hint: true }),
        6 => f(0, &Src::Chunks { cuts: &cuts(8), tmp: 0, hint: true }),
        7 => f(0, &Src::Chunks { cuts: &cuts(8), tmp: 0x5555_5555_5555_5555, hint: false }),
        8 => f(0, &Src::Chunks { cuts: &cuts(7), tmp: 0xaaaa_aaaa_aaaa_aaaa, hint: true }),
        9 => f(0, &Src::Chunks { cuts: &[], tmp: 1, hint: true }),
        10 => f(0, &Src::Reader { cap: 4, plan: &[3, 1] }),
        11 => f(0, &Src::Reader { cap: 64, plan: &[] }),
        12 => f(0, &Src::Win { size: 6, tmp: true, hint: false }),
        _ => f(0, &Src::Chunks { cuts: &cuts(13), tmp: 2, hint: true }),
    }
}

fn long_source(k: usize, n: usize, f: &mut dyn FnMut(usize, &Src) -> R) -> R {
    let cuts = |step: usize| -> Vec<usize> { (1..).map(|j| j * step).take_while(|p| *p < n).collect() };
    match k {
        0 => f(0, &Src::Slice),
        1 => f(3, &Src::Slice),
        2 => f(0, &Src::Chunks { cuts: &[], tmp: 1, hint: false }),
        3 => f(0, &Src::Chunks { cuts: &cuts(7), tmp: 0x5555_5555_5555_5555, hint: true }),
        4 => f(0, &Src::Chunks { cuts: &cuts(64), tmp: 0, hint: false }),
        5 => f(0, &Src::Chunks { cuts: &cuts(100), tmp: u64::MAX, hint: true }),
        6 => f(0, &Src::Chunks { cuts: &cuts(4096), tmp: 0, hint: true }),
        7 => f(0, &Src::Chunks { cuts: &cuts(4096), tmp: u64::MAX, hint: false }),
        8 => f(0, &Src::Chunks { cuts: &[n.div_ceil(2).max(1).min(n)], tmp: 2, hint: true }),
        9 => f(0, &Src::Chunks { cuts: &cuts(1000), tmp: 0xaaaa_aaaa_aaaa_aaaa, hint: false }),
        10 => f(0, &Src::Reader { cap: 8192, plan: &[] }),
        11 => f(0, &Src::Reader { cap: 64, plan: &[50] }),
        12 => f(0, &Src::Win { size: 300, tmp: true, hint: true }),
        _ => f(0, &Src::Chunks { cuts: &cuts(16384), tmp: 0, hint: false }),
    }
}

pub fn run(w: &mut W, ops: &[Op], dk: usize, n: usize, ek: EK, k: usize) -> R {
    run_on(w, ops, dk, n, ek, k, source)
}
type Sources = fn(usize, usize, &mut dyn FnMut(usize, &Src) -> R) -> R;
fn run_on(w: &mut W, ops: &[Op], dk: usize, n: usize, ek: EK, k: usize, source: Sources) -> R {
    let cf = Cfg::default();
    let v = data(dk, n, ek.big());
    source(k, n, &mut |al, src| {
        let buf = Buf::new(&v, al);
        let d = buf.get();
        let mut m = Model { d, pos: 0, big: ek.big(), native: ek.native(), lay: None, quirk: false };
        w.traces += 1;
        let r = on3!(d, &cf, ek, src, p => seq(&mut p, &mut m, ops, w));
        w.state(mix(m.pos as u64) ^ mix(k as u64 + 99) ^ mix(ops[ops.len() - 1].clone().id()) ^ (r.is_ok() as u64) << 7);
        let Err(msg) = r else {
            w.note(|| format!("{ops:?} on {n} bytes {ek:?} {src:?}: ends at {}", m.pos));
            return Ok(());
        };
        // is it finding F1?
        let lay = match src {
            Src::Slice => Some(Lay::one(d.as_ptr() as usize, d.len())),
            Src::Chunks { cuts, tmp, .. } => Some(ChunkSrc::lay(d, cuts, *tmp)),
            _ => None,
        };
        if let (Some(lay), true) = (lay, ek.native()) {
            let mut m = Model { d, pos: 0, big: ek.big(), native: true, lay: Some(&lay), quirk: false };
            let r = on3!(d, &cf, ek, src, p => seq(&mut p, &mut m, ops, w));
            if r.is_ok() && m.quirk {
                return w.known("F1", || format!("{ops:?} on {n} bytes at address {al} mod 8"));
            }
        }
        Err(format!("{ops:?} on {n} bytes ({}) {ek:?} {src:?}, address {al} mod 8\n {msg}", crate::dump::hex(&v, 64)))
    })
}
/// `pre`, then an operation that fails: what can be read afterwards?  (Parser::parse: "If the type fails to parse then
/// this parser will not be modified.")  Returns how far the parser was and how far it is now, if the call failed.
fn failed<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, m: &mut Model, pre: Op, op: Op, w: &mut W) -> Result<Option<(usize, usize)>, String> {
    let d = m.d;
    if !matches!(step(p, m, pre, w), Ok(true)) {
        return Ok(None);
    }
    let at = m.pos;
    if !matches!(step(p, m, op, w), Ok(false)) {
        return Ok(None);
    }
    let rest = p.parse_rest().map_err(|e| format!("reading on after a failed call fails with {e}"))?;
    if rest.len() > d.len() || *rest != d[d.len() - rest.len()..] {
        return Err(format!("what is read after a failed call is not a continuation of the input: {}", crate::dump::hex(&rest, 60)));
    }
    let now = d.len() - rest.len();
    // bytes may repeat; take the original position if the rest allows it
    if now < at {
        return Err(format!("after a failed call the parser stands at {now}, before the {at} bytes already read"));
    }
    if p.parse_u8().is_ok() {
        return Err("there is more behind the rest".into());
    }
    Ok(Some((at, now)))
}

impl Op {
    fn id(self) -> u64 {
        OPS.iter().chain(OPS2.iter()).position(|o| *o == self).unwrap_or(0) as u64
    }
}

/// A cloneable chunked source.
struct CloneSrc<'p, 's>(ChunkSrc<'p, 's>, usize);
impl<'p, 's> Clone for CloneSrc<'p, 's> {
    fn clone(&self) -> Self {
        let mut c = ChunkSrc::new(self.0.data, self.0.cuts, self.0.tmp, self.0.hint, self.0.seen);
        if self.1 > 0 {
            c.advance(self.1);
        }
        CloneSrc(c, self.1)
    }
}
unsafe impl<'p> ParseBuf<'p> for CloneSrc<'p, '_> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        self.0.chunk()
    }
    fn advance(&mut self, n: usize) {
        self.1 += n;
        self.0.advance(n)
    }
    fn remaining_hint(&self) -> Option<usize> {
        self.0.remaining_hint()
    }
}

/// prefix; clone; `a` on the clone and `b` on the original, in either order.
fn cloned<'p, B: ParseBuf<'p> + Clone, E: Endian>(mut p: Parser<B, E>, mut m: Model, pre: Op, a: &[Op], b: &[Op], orig_first: bool, w: &mut W) -> Result<bool, String> {
    if !step(&mut p, &mut m, pre, w)? {
        return Ok(m.quirk);
    }
    let mut q = p.clone();
    let mut n = m.clone();
    if orig_first {
        seq(&mut p, &mut m, b, w).map_err(|e| format!("original first: {e}"))?;
        seq(&mut q, &mut n, a, w).map_err(|e| format!("clone after the original: {e}"))?;
    } else {
        seq(&mut q, &mut n, a, w).map_err(|e| format!("clone first: {e}"))?;
        seq(&mut p, &mut m, b, w).map_err(|e| format!("original after the clone: {e}"))?;
    }
    Ok(m.quirk || n.quirk)
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    const LENS: [usize; 5] = [0, 7, 16, 29, 40];
    let no = OPS.len() as u64;
    let depth = t.pick(3u32, 4);
    let total = no.pow(depth) * (2 * LENS.len() * 3 * NSRC) as u64;
    v.push(suite("sequences", format!("all sequences of {depth} out of {no} operations x 2 contents x 5 lengths x 3 byte orders x {NSRC} sources"), total, move |i, w| {
        let mut c = Ch(i);
        let dk = c.u(2);
        let n = *c.of(&LENS);
        let ek = EK3[c.u(3)];
        let k = c.u(NSRC);
        let ops: Vec<Op> = (0..depth).map(|_| *c.of(&OPS)).collect();
        run(w, &ops, dk, n, ek, k)
    }));
    // every pair over the larger set of operations, at every length and byte order
    let all: Vec<Op> = OPS.iter().chain(OPS2.iter()).copied().collect();
    let na = all.len() as u64;
    let all2 = all.clone();
    v.push(suite("pairs", format!("all pairs of {na} operations x 2 contents x lengths 0..40 x 3 byte orders x {NSRC} sources"), na * na * 2 * 41 * 3 * NSRC as u64, move |i, w| {
        let mut c = Ch(i);
        let dk = c.u(2);
        let n = c.u(41);
        let ek = EK3[c.u(3)];
        let k = c.u(NSRC);
        let ops = [*c.of(&all), *c.of(&all)];
        run(w, &ops, dk, n, ek, k)
    }));
    // deep sequences over few operations
    const FEW: [Op; 6] = [U8, U32, Bytes(5), DirU32(2), SlU16(3), Meta];
    let deep = t.pick(6u32, 8);
    v.push(suite("deep", format!("all sequences of {deep} out of 6 operations x 2 contents x 2 byte orders x {NSRC} sources on 40 bytes"), 6u64.pow(deep) * 2 * 2 * NSRC as u64, move |i, w| {
        let mut c = Ch(i);
        let dk = c.u(2);
        let ek = [EK::Native, EK::Big][c.u(2)];
        let k = c.u(NSRC);
        let ops: Vec<Op> = (0..deep).map(|_| *c.of(&FEW)).collect();
        run(w, &ops, dk, 40, ek, k)
    }));
    // chunk boundaries anywhere
    const MID: [Op; 12] = [U16, U64, Arr3, Bytes(5), Trim, DirU32(2), SlU64(1), RepU16(2), MetaRest, Rec, With, Arr9];
    let mb: u64 = t.pick(12, 16);
    v.push(suite("all_chunkings", format!("all pairs of 12 operations x all {} chunkings of {mb} bytes x 4 borrowed/temporary patterns x 2 byte orders", 1u64 << (mb - 1)), 144 * (1 << (mb - 1)) * 4 * 2, move |i, w| {
        let mut c = Ch(i);
        let tmp = [0, u64::MAX, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa][c.u(4)];
        let ek = [EK::Native, EK::Big][c.u(2)];
        let ops = [*c.of(&MID), *c.of(&MID)];
        let mask = c.0;
        let mut cb = [0usize; 16];
        let mut nc = 0;
        for j in 1..mb {
            if mask >> (j - 1) & 1 == 1 {
                cb[nc] = j as usize;
                nc += 1;
            }
        }
        let src = Src::Chunks { cuts: &cb[..nc], tmp, hint: mask & 1 == 0 };
        let v = data(0, mb as usize, ek.big());
        let buf = Buf::new(&v, 0);
        let d = buf.get();
        let cf = Cfg::default();
        let mut m = Model { d, pos: 0, big: ek.big(), native: ek.native(), lay: None, quirk: false };
        w.traces += 1;
        let r = on3!(d, &cf, ek, &src, p => seq(&mut p, &mut m, &ops, w));
        w.state(mix(mask) ^ m.pos as u64);
        let Err(msg) = r else { return Ok(()) };
        if ek.native() {
            let lay = ChunkSrc::lay(d, &cb[..nc], tmp);
            let mut m = Model { d, pos: 0, big: ek.big(), native: true, lay: Some(&lay), quirk: false };
            let r = on3!(d, &cf, ek, &src, p => seq(&mut p, &mut m, &ops, w));
            if r.is_ok() && m.quirk {
                return w.known("F1", || format!("{ops:?} with cuts {:?}", &cb[..nc]));
            }
        }
        Err(format!("{ops:?} {ek:?} {src:?}\n {msg}"))
    }));
    // clones
    const CL: [Op; 12] = [U8, U16, U64, Bytes(5), Rest, DirU32(2), SlU64(1), RepU16(2), Meta, MetaRest, Rec, IfF];
    let nc = CL.len() as u64;
    v.push(suite("clones", "every operation, then a clone; two operations on the clone, two on the original, in both orders x 5 sources x 2 byte orders", nc.pow(5) * 2 * 5 * 2, move |i, w| {
        let mut c = Ch(i);
        let first = c.b();
        let ks = c.u(5);
        let ek = [EK::Native, EK::Big][c.u(2)];
        let pre = *c.of(&CL);
        let a = [*c.of(&CL), *c.of(&CL)];
        let b = [*c.of(&CL), *c.of(&CL)];
        let v = data(0, 48, ek.big());
        let buf = Buf::new(&v, 0);
        let d = buf.get();
        let seen = Cell::new(Seen::default());
        let (cuts, tmp): (&[usize], u64) = [(&[][..], 0), (&[5, 10, 15, 20, 33][..], 0), (&[8, 16, 24, 40][..], u64::MAX), (&[3, 14, 30][..], 5), (&[][..], 1)][ks];
        let lay = ChunkSrc::lay(d, cuts, tmp);
        let cf = Cfg::default();
        let go = |lay: Option<&Lay>, w: &mut W| -> Result<bool, String> {
            let m = Model { d, pos: 0, big: ek.big(), native: ek.native(), lay, quirk: false };
            match (ks, ek.big()) {
                (0, false) => cloned(Parser::new(d, config(&cf, perf_event_data::endian::Native)), m, pre, &a, &b, first, w),
                (0, true) => cloned(Parser::new(d, config(&cf, perf_event_data::endian::Big)), m, pre, &a, &b, first, w),
                (_, false) => cloned(Parser::new(CloneSrc(ChunkSrc::new(d, cuts, tmp, true, &seen), 0), config(&cf, perf_event_data::endian::Native)), m, pre, &a, &b, first, w),
                (_, true) => cloned(Parser::new(CloneSrc(ChunkSrc::new(d, cuts, tmp, true, &seen), 0), config(&cf, perf_event_data::endian::Big)), m, pre, &a, &b, first, w),
            }
        };
        w.traces += 1;
        w.state(mix(i % 977));
        match go(None, w) {
            Ok(_) => Ok(()),
            Err(msg) => {
                if ek.native() && matches!(go(Some(&lay), w), Ok(true)) {
                    return w.known("F1", || format!("clone after {pre:?}, then {a:?} / {b:?}"));
                }
                Err(format!("{pre:?}, clone, clone does {a:?}, original {b:?} (cuts {cuts:?} tmp {tmp:#x} {ek:?}): {msg}"))
            }
        }
    }));
    v.push(suite("contents", format!("all pairs of {na} operations on zeros, ones, alternating bytes, a lone byte at either end x 12 lengths x 2 byte orders x {NSRC} sources"), na * na * 5 * 12 * 2 * NSRC as u64, move |i, w| {
        let mut c = Ch(i);
        let dk = 2 + c.u(5);
        let n = *c.of(&[1usize, 2, 8, 9, 12, 16, 17, 24, 33, 48, 64, 100]);
        let ek = [EK::Native, EK::Big][c.u(2)];
        let k = c.u(NSRC);
        let ops = [*c.of(&all2), *c.of(&all2)];
        run(w, &ops, dk, n, ek, k)
    }));
    let all3: Vec<Op> = OPS.iter().chain(OPS2.iter()).copied().collect();
    v.push(suite("after_failure", format!("all pairs of {na} operations of which the second fails x 2 contents x lengths 0..60 x 3 byte orders x {NSRC} sources: the parser is as it was"), na * na * 2 * 61 * 3 * NSRC as u64, move |i, w| {
        let mut c = Ch(i);
        let dk = c.u(2);
        let n = c.u(61);
        let ek = EK3[c.u(3)];
        let k = c.u(NSRC);
        let (pre, op) = (*c.of(&all3), *c.of(&all3));
        let v = data(dk, n, ek.big());
        source(k, n, &mut |al, src| {
            let buf = Buf::new(&v, al);
            let d = buf.get();
            let mut m = Model { d, pos: 0, big: ek.big(), native: ek.native(), lay: None, quirk: false };
            w.traces += 1;
            let r = on3!(d, &Cfg::default(), ek, src, p => failed(&mut p, &mut m, pre, op, w));
            match r {
                Ok(None) => Ok(()),
                Ok(Some((at, now))) => {
                    w.state(mix(at as u64) ^ mix(now as u64 + 99) ^ mix(op.id()));
                    if at == now {
                        return Ok(());
                    }
                    w.known("KF4", || format!("{op:?} after {pre:?} on {n} bytes {ek:?} {src:?}: it fails at offset {at} and leaves the parser at {now}"))
                }
                Err(e) => Err(format!("{op:?} after {pre:?} on {n} bytes {ek:?} {src:?}: {e}")),
            }
        })
    }));
    // names: text, then padding
    let nz = t.pick(140u64, 300);
    v.push(suite("trim", format!("0..24 bytes of text (plain, with NULs inside, only NULs), 0..{nz} and larger numbers of NULs x {NSRC} sources x behind 0, 1 or 8 other bytes"), 24 * 3 * (nz + 6) * 3 * NSRC as u64, move |i, w| {
        let mut c = Ch(i);
        let k = c.u(NSRC);
        let pre = [0, 1, 8][c.u(3)];
        let z = match c.n(nz + 6) {
            z if z < nz => z as usize,
            z => [512, 1024, 4095, 4096, 4097, 20000][(z - nz) as usize],
        };
        let kind = c.u(3);
        let n = c.u(24);
        if z > 2000 && matches!(k, 3 | 4 | 10) {
            return Ok(());
        }
        let mut v = vec![7u8; pre];
        v.extend((0..n).map(|j| match kind {
            0 => b'a' + j as u8,
            1 => [0, b'x', 0, 0][j % 4],
            _ => 0,
        }));
        v.resize(v.len() + z, 0);
        let want: Vec<u8> = v[pre..v[pre..].iter().rposition(|b| *b != 0).map_or(pre, |j| pre + j + 1)].to_vec();
        source(k, v.len(), &mut |al, src| {
            let buf = Buf::new(&v, al);
            let d = buf.get();
            w.traces += 1;
            w.trans += 2;
            w.state(mix(want.len() as u64) ^ mix(z as u64) ^ mix(k as u64 + 99));
            let r = on3!(d, &Cfg::default(), EK::Native, src, p => p.parse_bytes(pre).and_then(|_| p.parse_rest_trim_nul().map(|b| b.into_owned())));
            match r {
                Ok(b) if b == want => Ok(()),
                r => Err(format!("parse_rest_trim_nul behind {pre} bytes returns {r:x?}, expected {want:x?} ({src:?})")),
            }
        })
    }));
    // fixed-size arrays
    v.push(suite("arrays", "arrays of 27 sizes from 0 to 300, two one after the other, on 40 bytes more, at the end and one byte short x up to two cuts anywhere x borrowed/temporary", 27 * 3 * 4 * 48 * 48, |i, w| {
        let mut c = Ch(i);
        let room = c.u(3);
        let tmp = [0, u64::MAX, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa][c.u(4)];
        let a = c.u(48);
        let b = c.u(48);
        macro_rules! sizes {
            ($($k:literal => $n:literal),*) => { match c.u(27) { $($k => array::<$n>(w, room, tmp, a, b),)* _ => unreachable!() } };
        }
        sizes!(0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 4, 5 => 5, 6 => 6, 7 => 7, 8 => 8, 9 => 9, 10 => 10, 11 => 11, 12 => 12, 13 => 13, 14 => 15, 15 => 16, 16 => 17, 17 => 20, 18 => 23, 19 => 24, 20 => 31, 21 => 32, 22 => 33, 23 => 63, 24 => 64, 25 => 128, 26 => 300)
    }));
    // user types whose size in memory says nothing about their size in the data
    v.push(suite("user_types", format!("0..70 elements of 6 user types (zero-sized that reads nothing, or a byte; large; variable; failing; nested) by parse_repeated x input of 0..70 bytes x 2 byte orders x {NSRC} sources"), 70 * 6 * 71 * 2 * NSRC as u64, move |i, w| {
        let mut c = Ch(i);
        let k = c.u(NSRC);
        let ek = [EK::Native, EK::Big][c.u(2)];
        let n = c.u(70);
        let n = if n == 69 { 1 << 40 } else { n };
        let kind = c.u(6);
        let len = c.u(71);
        if kind == 0 && n > 70 {
            return Ok(());
        }
        let v = data(1, len, ek.big());
        source(k, len, &mut |al, src| {
            let buf = Buf::new(&v, al);
            let d = buf.get();
            let mut m = Model { d, pos: 0, big: ek.big(), native: ek.native(), lay: None, quirk: false };
            w.traces += 1;
            w.trans += 2;
            let r = on3!(d, &Cfg::default(), ek, src, p => user(&mut p, &mut m, kind, n));
            w.state(mix(m.pos as u64) ^ mix(kind as u64 + 7) ^ mix(n as u64));
            r.map_err(|e| format!("{n} elements of kind {kind} on {len} bytes {ek:?} {src:?}: {e}"))
        })
    }));
    // long runs
    let ls: std::sync::Arc<Vec<usize>> = super::c04::sizes_to(t.pick(64, 300), 70000).into();
    let nl = ls.len() as u64;
    v.push(suite("long_runs", format!("10 operations with {nl} lengths up to 70000 bytes, after one of 5 others, on input ending exactly, one byte short or later x 3 byte orders x 14 sources"), 10 * nl * 5 * 3 * 3 * 14, move |i, w| {
        let mut c = Ch(i);
        let ek = EK3[c.u(3)];
        let k = c.u(14);
        let pre = c.u(5);
        let room = c.u(3);
        let kind = c.u(10);
        let n = *c.of(&ls);
        let (op, size) = match kind {
            0 => (Bytes(n), 1),
            1 => (DirU8(n), 1),
            2 => (DirU32(n / 4), 4),
            3 => (DirU64(n / 8), 8),
            4 => (SlU8(n), 1),
            5 => (SlU16(n / 2), 2),
            6 => (SlU64(n / 8), 8),
            7 => (RepU16(n / 2), 2),
            8 => (RepA3(n / 3), 3),
            _ => (RepU32(n / 4), 4),
        };
        // before, it, after
        let (first, skip) = [(Arr0, 0), (U8, 1), (U64, 8), (Bytes(5), 5), (Arr3, 3)][pre];
        let need = skip + n / size * size;
        let total = match room {
            0 => need,
            1 if need > skip => need - 1,
            _ => need + 9,
        };
        if n > 2000 && (k == 3 || pre > 1 || (pre == 1 && room != 0) || (ek == EK::CustL && k > 1)) {
            return Ok(());
        }
        run_on(w, &[first, op, U16], 1, total, ek, k, long_source)
    }));
    // typed values at any position, one after the other
    let sh = typed_shapes();
    let nsh = sh.len() as u64;
    let pres = t.pick(10u64, 25);
    v.push(suite("typed", format!("two values of every type and shape ({nsh}) one after the other behind 0..{pres} bytes of something else x 3 byte orders x {NSRC} sources"), nsh * pres * 3 * NSRC as u64, move |i, w| {
        let mut c = Ch(i);
        let ek = EK3[c.u(3)];
        let k = c.u(NSRC);
        let pre = c.u(pres as usize);
        typed_at(w, &sh[c.0 as usize], pre, ek, k)
    }));
    v
}

fn array<const N: usize>(w: &mut W, room: usize, tmp: u64, a: usize, b: usize) -> R {
    let len = (2 * N + [40, 0, 0][room]).saturating_sub((room == 2) as usize);
    // cuts: the ends of both arrays and their neighbourhoods
    let place = |x: usize| match x {
        0..16 => x,
        16..32 => (N + x).saturating_sub(24),
        _ => (2 * N + x).saturating_sub(40),
    };
    let (a, b) = (place(a), place(b));
    if a > b || b > len || (a == b && a != 0) {
        return Ok(());
    }
    let cuts: Vec<usize> = [a, b].into_iter().filter(|x| *x > 0 && *x < len).collect();
    let v = data(1, len, false);
    let buf = Buf::new(&v, 0);
    let d = buf.get();
    let src = Src::Chunks { cuts: &cuts, tmp, hint: a & 1 == 0 };
    w.traces += 1;
    w.trans += 3;
    w.state(mix(N as u64) ^ mix(a as u64 + 77) ^ mix(b as u64 + 777) ^ mix(len as u64));
    on3!(d, &Cfg::default(), EK::Native, &src, p => {
        for j in 0..2 {
            let at = j * N;
            match p.parse::<[u8; N]>() {
                Ok(x) if at + N <= len && x[..] == d[at..at + N] => (),
                Err(e) if at + N > len && kind(&e) == EOF => return Ok(()),
                r => return Err(format!("array of {N} at {at} of {len} bytes, cuts {cuts:?} tmp {tmp:#x}: {r:x?}")),
            }
        }
        match p.parse_rest() {
            Ok(r) if r[..] == d[2 * N..] => Ok(()),
            r => Err(format!("after two arrays of {N}: the rest is {r:x?} (cuts {cuts:?} tmp {tmp:#x})")),
        }
    })
}

/// reads nothing
struct Nothing;
impl<'p> Parse<'p> for Nothing {
    fn parse<B: ParseBuf<'p>, E: Endian>(_: &mut Parser<B, E>) -> ParseResult<Self> {
        Ok(Nothing)
    }
}
/// reads a byte, keeps nothing
struct Skip;
impl<'p> Parse<'p> for Skip {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        p.parse_u8().map(|_| Skip)
    }
}
/// a byte and much more memory
struct Large([u64; 40]);
impl<'p> Parse<'p> for Large {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        Ok(Large([p.parse_u8()? as u64; 40]))
    }
}
/// a length and as many bytes
struct Var(Vec<u8>);
impl<'p> Parse<'p> for Var {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        let n = p.parse_u8()? as usize & 7;
        p.parse_bytes(n).map(|b| Var(b.into_owned()))
    }
}
/// refuses multiples of 16
#[derive(Debug)]
struct Picky(u8);
impl<'p> Parse<'p> for Picky {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        match p.parse_u8()? {
            x if x & 15 == 0 => Err(ParseError::new(std::fmt::Error)),
            x => Ok(Picky(x)),
        }
    }
}
struct Nested(Vec<u16>, Option<u8>);
impl<'p> Parse<'p> for Nested {
    fn parse<B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>) -> ParseResult<Self> {
        let n = p.parse_u8()? as usize & 1;
        Ok(Nested(p.parse_repeated(n)?, p.parse_if(n == 0)?))
    }
}

fn user<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, m: &mut Model, kind_: usize, n: usize) -> R {
    // one element of the model: its value, or the failure (true: the type's own)
    let elem = |m: &mut Model| -> Result<Vec<u64>, bool> {
        match kind_ {
            0 => Ok(vec![]),
            1 => m.int(1).map(|_| vec![]).ok_or(false),
            2 => m.int(1).map(|x| vec![x; 40]).ok_or(false),
            3 => {
                let k = m.int(1).ok_or(false)? as usize & 7;
                m.take(k).map(|b| b.iter().map(|x| *x as u64).collect()).ok_or(false)
            }
            4 => match m.int(1).ok_or(false)? {
                x if x & 15 == 0 => Err(true),
                x => Ok(vec![x]),
            },
            _ => {
                let k = m.int(1).ok_or(false)? & 1;
                m.int(if k == 1 { 2 } else { 1 }).map(|x| vec![k, x]).ok_or(false)
            }
        }
    };
    let want: Result<Vec<Vec<u64>>, bool> = (0..n).map(|_| elem(m)).collect();
    let got: ParseResult<Vec<Vec<u64>>> = match kind_ {
        0 => p.parse_repeated::<Nothing>(n).map(|v| v.iter().map(|_| vec![]).collect()),
        1 => p.parse_repeated::<Skip>(n).map(|v| v.iter().map(|_| vec![]).collect()),
        2 => p.parse_repeated::<Large>(n).map(|v| v.iter().map(|x| x.0.to_vec()).collect()),
        3 => p.parse_repeated::<Var>(n).map(|v| v.iter().map(|x| x.0.iter().map(|b| *b as u64).collect()).collect()),
        4 => p.parse_repeated::<Picky>(n).map(|v| v.iter().map(|x| vec![x.0 as u64]).collect()),
        _ => p.parse_repeated::<Nested>(n).map(|v| v.iter().map(|x| match x.1 {
            Some(b) => vec![0, b as u64],
            None => vec![1, x.0[0] as u64],
        }).collect()),
    };
    match (want, got) {
        (Ok(a), Ok(b)) if a == b => finish(p, m),
        (Err(false), Err(e)) if kind(&e) == EOF => Ok(()),
        (Err(true), Err(e)) if e.kind() == ErrorKind::External => Ok(()),
        (a, b) => Err(format!("returns {b:x?}, expected {a:x?}")),
    }
}

fn typed_shapes() -> Vec<Shape> {
    let mut v: Vec<Shape> = shapes().into_iter().filter(|s| s.misc == 0 && (s.ty == 9 || !s.cfg.sid_all)).collect();
    for raw in 0..10 {
        let cfg = Cfg { st: st::TID | st::RAW | st::CGROUP | st::AUX, ..Cfg::default() };
        v.push(Shape { name: format!("sample raw {raw}"), ty: 9, misc: 0, cfg, body: Body::Sample(Sm { raw, aux: raw, ..Sm::S }) });
    }
    v
}

/// `pre` bytes, then two values of the shape's type, then the rest.
fn typed_at(w: &mut W, sh: &Shape, pre: usize, ek: EK, k: usize) -> R {
    let mut e = Enc::new(ek.big(), 5);
    e.fill(pre);
    body(&mut e, sh.ty, &sh.cfg, &sh.body);
    body(&mut e, sh.ty, &sh.cfg, &sh.body);
    e.fill(3);
    let v = e.v;
    let cf = sh.cfg;
    source(k, v.len(), &mut |al, src| {
        let buf = Buf::new(&v, al);
        let d = buf.get();
        w.traces += 1;
        w.trans += 3;
        let mut got = (Dump::default(), Dump::default());
        let (b1, b2) = (&mut got.0, &mut got.1);
        let r: (u8, Option<Vec<u8>>) = on3!(d, &cf, ek, src, p => {
            p.parse_bytes(pre).map_err(|e| format!("skipping {pre} bytes: {e}"))?;
            match typed(&mut p, sh.ty, b1).and_then(|_| typed(&mut p, sh.ty, b2)) {
                Ok(()) => (0, p.parse_rest().ok().map(|r| r.into_owned())),
                Err(e) => (kind(&e), None),
            }
        });
        let model = |lay: Option<&Lay>| -> (R, bool) {
            let mut s = Spec::new(d, ek.big());
            s.pos = pre;
            s.lay = lay;
            let mut want = (Dump::default(), Dump::default());
            let m = s.body(sh.ty, 0, &cf, &mut want.0).and_then(|_| s.body(sh.ty, 0, &cf, &mut want.1));
            let res = match m {
                Err(x) if r.0 & x != 0 => Ok(()),
                Err(x) => Err(format!("expected error {}, got {} {} {}", errs(x), errs(r.0), got.0.show(), got.1.show())),
                Ok(()) if r.0 != 0 => Err(format!("expected {} {}, got error {}", want.0.show(), want.1.show(), errs(r.0))),
                Ok(()) if want != got => Err(format!("expected {}\n  then {}\n got {}\n  then {}", want.0.show(), want.1.show(), got.0.show(), got.1.show())),
                Ok(()) if r.1.as_deref() != Some(&d[s.pos..]) => Err(format!("the rest is {:x?}, expected {:x?}", r.1, &d[s.pos..])),
                Ok(()) => Ok(()),
            };
            (res, s.quirk)
        };
        w.state(mix(got.0.hash()) ^ mix(pre as u64 + 1) ^ mix(k as u64 + 99));
        let Err(msg) = model(None).0 else { return Ok(()) };
        let lay = match src {
            Src::Slice => Some(Lay::one(d.as_ptr() as usize, d.len())),
            Src::Chunks { cuts, tmp, .. } => Some(ChunkSrc::lay(d, cuts, *tmp)),
            _ => None,
        };
        if let (Some(lay), true) = (lay, ek.native()) {
            if let (Ok(()), true) = model(Some(&lay)) {
                return w.known("F1", || format!("{} behind {pre} bytes, {src:?}", sh.name));
            }
        }
        Err(format!("{} twice behind {pre} bytes, {ek:?} {src:?}, address {al} mod 8: {}\n {msg}", sh.name, crate::dump::hex(&v, 80)))
    })
}
