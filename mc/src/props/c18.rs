//! C18: group iteration is a well-behaved double-ended sequence.
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::endian::Native;
use perf_event_data::parse::*;
use perf_event_data::*;
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
    /// go on with a clone; the original is run dry first
    Clone,
    /// run a clone dry from both ends, go on with the original
    Probe,
    Take(usize),
    Find,
    RFind,
    Skip1,
    All,
    RevNext,
}
use Op::*;
const OPS: [Op; 20] = [
    Next, Back, Nth(0), Nth(1), Nth(2), Nth(4), Nth(usize::MAX), NthBack(0), NthBack(1), NthBack(2), NthBack(4), NthBack(usize::MAX), Clone, Probe, Take(1), Take(2), Find, RFind, All, RevNext,
];
/// A smaller set for longer sequences.
const CORE: [Op; 8] = [Next, Back, Nth(1), Nth(2), NthBack(1), NthBack(2), Clone, Skip1];

type Ent = (u64, Option<u64>, Option<u64>);
fn ent(e: GroupEntry) -> Ent {
    (e.value(), e.id(), e.lost())
}

/// The model: the entries and the window [lo, hi) of those not yielded yet.
#[derive(Clone)]
struct Model<'a> {
    all: &'a [Ent],
    lo: usize,
    hi: usize,
}
impl Model<'_> {
    fn rest(&self) -> &[Ent] {
        &self.all[self.lo..self.hi]
    }
    fn nth(&mut self, n: usize) -> Option<Ent> {
        self.lo = self.lo.saturating_add(n).min(self.hi);
        let r = self.rest().first().copied();
        self.lo = (self.lo + 1).min(self.hi);
        r
    }
    fn nth_back(&mut self, n: usize) -> Option<Ent> {
        self.hi = self.hi.saturating_sub(n).max(self.lo);
        let r = self.rest().last().copied();
        if r.is_some() {
            self.hi -= 1
        }
        r
    }
}

fn step(op: Op, it: &mut GroupIter, m: &mut Model) -> R {
    fn one(op: Op, a: Option<GroupEntry>, b: Option<Ent>) -> R {
        let a = a.map(ent);
        if a != b {
            return Err(format!("{op:x?} yielded {a:x?}, expected {b:x?}"));
        }
        Ok(())
    }
    match op {
        Next => one(op, it.next(), m.nth(0)),
        Back => one(op, it.next_back(), m.nth_back(0)),
        Nth(n) => one(op, it.nth(n), m.nth(n)),
        NthBack(n) => one(op, it.nth_back(n), m.nth_back(n)),
        RevNext => one(op, it.by_ref().rev().next(), m.nth_back(0)),
        Clone => {
            let c = it.clone();
            let mut old = std::mem::replace(it, c);
            while old.next().is_some() {}
            Ok(())
        }
        Probe => {
            let mut c = it.clone();
            let mut k = m.clone();
            loop {
                one(op, c.next(), k.nth(0))?;
                let x = c.next_back();
                let y = k.nth_back(0);
                one(op, x, y)?;
                if y.is_none() {
                    break;
                }
            }
            Ok(())
        }
        Take(n) => {
            let v: Vec<Ent> = it.by_ref().take(n).map(ent).collect();
            let n = n.min(m.hi - m.lo);
            if v != m.rest()[..n] {
                return Err(format!("take yielded {v:x?}, expected {:x?}", &m.rest()[..n]));
            }
            m.lo += n;
            Ok(())
        }
        Find => {
            let t = m.all.get(2).map(|e| e.0).unwrap_or(!0);
            let k = m.rest().iter().position(|e| e.0 == t);
            let r = it.find(|e| e.value() == t);
            one(op, r, k.map(|k| m.rest()[k]))?;
            m.lo = k.map_or(m.hi, |k| m.lo + k + 1);
            Ok(())
        }
        RFind => {
            let t = m.all.get(1).map(|e| e.0).unwrap_or(!0);
            let k = m.rest().iter().rposition(|e| e.0 == t);
            let r = it.rfind(|e| e.value() == t);
            one(op, r, k.map(|k| m.rest()[k]))?;
            m.hi = k.map_or(m.lo, |k| m.lo + k);
            Ok(())
        }
        Skip1 => {
            let r = it.by_ref().skip(1).next();
            one(op, r, m.nth(1))
        }
        All => {
            // stops after the first entry whose value is not the third's
            let t = m.all.get(2).map(|e| e.0).unwrap_or(!0);
            let r = it.all(|e| e.value() == t);
            let k = m.rest().iter().position(|e| e.0 != t);
            if r != k.is_none() {
                return Err(format!("all returned {r}"));
            }
            m.lo = k.map_or(m.hi, |k| m.lo + k + 1);
            Ok(())
        }
    }
}

/// Everything that can be asked without changing the iterator.
fn observe(it: &GroupIter, m: &Model) -> R {
    let n = m.hi - m.lo;
    let want = m.rest();
    let bad = |what: &str, got: String| Err(format!("{what} is {got}, {n} entries remain: {want:x?}"));
    if it.len() != n {
        return bad("len", it.len().to_string());
    }
    if it.size_hint() != (n, Some(n)) {
        return bad("size_hint", format!("{:?}", it.size_hint()));
    }
    if it.clone().count() != n {
        return bad("count", it.clone().count().to_string());
    }
    let last = it.clone().last().map(ent);
    if last != want.last().copied() {
        return bad("last", format!("{last:x?}"));
    }
    if !it.clone().map(ent).eq(want.iter().copied()) {
        return bad("the rest", format!("{:x?}", it.clone().map(ent).collect::<Vec<_>>()));
    }
    if !it.clone().rev().map(ent).eq(want.iter().rev().copied()) {
        return bad("the rest backwards", format!("{:x?}", it.clone().rev().map(ent).collect::<Vec<_>>()));
    }
    let mut k = vec![];
    it.clone().for_each(|e| k.push(ent(e)));
    if k != want {
        return bad("what for_each visits", format!("{k:x?}"));
    }
    let f = it.clone().rfold(Vec::new(), |mut v, e| {
        v.push(ent(e));
        v
    });
    if !f.iter().eq(want.iter().rev()) {
        return bad("rfold", format!("{f:x?}"));
    }
    for s in 2..4 {
        if !it.clone().step_by(s).map(ent).eq(want.iter().copied().step_by(s)) {
            return bad("step_by", s.to_string());
        }
    }
    // once empty, always empty, from both ends
    let mut d = it.clone();
    while d.next().is_some() {}
    for _ in 0..2 {
        if d.next().is_some() || d.next_back().is_some() || d.nth(0).is_some() || d.nth_back(0).is_some() || d.len() != 0 || d.size_hint() != (0, Some(0)) {
            return bad("an exhausted clone", "not exhausted".into());
        }
    }
    Ok(())
}

fn with_group(f: u64, nr: usize, src: usize, g: &mut dyn FnMut(&ReadGroup, &[Ent], Option<u64>, Option<u64>) -> R) -> R {
    with_words(f, nr, src, None, g)
}
/// `words`: what the words of the entries are, by number (otherwise all different).
fn with_words(f: u64, nr: usize, src: usize, words: Option<&dyn Fn(usize) -> u64>, g: &mut dyn FnMut(&ReadGroup, &[Ent], Option<u64>, Option<u64>) -> R) -> R {
    let mut e = Enc::new(cfg!(target_endian = "big"), 18);
    read(&mut e, f, nr);
    if let Some(k) = words {
        let first = 8 * (1 + (f & rf::TE != 0) as usize + (f & rf::TR != 0) as usize);
        for (j, x) in e.v[first..].chunks_mut(8).enumerate() {
            x.copy_from_slice(&k(j).to_ne_bytes())
        }
    }
    let d = Buf::new(&e.v, 0);
    let d = d.get();
    // the entries straight from the words
    let wd = |i: usize| u64::from_ne_bytes(d[8 * i..8 * i + 8].try_into().unwrap());
    let mut p = 1;
    let opt = |b: u64, p: &mut usize| {
        (f & b != 0).then(|| {
            *p += 1;
            wd(*p - 1)
        })
    };
    let te = opt(rf::TE, &mut p);
    let tr = opt(rf::TR, &mut p);
    let mut all = Vec::with_capacity(nr);
    for _ in 0..nr {
        let v = wd(p);
        p += 1;
        let id = opt(rf::ID, &mut p);
        let lost = opt(rf::LOST, &mut p);
        all.push((v, id, lost));
    }
    if wd(0) != nr as u64 || p * 8 != d.len() {
        return Err("harness: the encoded group is not what was asked for".into());
    }
    let cf = Cfg { rf: f, ..Default::default() };
    let seen = Cell::new(Seen::default());
    let fail = |e| format!("a well-formed group was refused: {e}");
    match src {
        0 => {
            let x: ReadGroup = Parser::new(d, config(&cf, Native)).parse().map_err(fail)?;
            g(&x, &all, te, tr)
        }
        1 => {
            let x: ReadGroup = Parser::new(ChunkSrc::window(d, 7, true, false, &seen), config(&cf, Native)).parse().map_err(fail)?;
            g(&x, &all, te, tr)
        }
        2 => {
            let x: ReadGroup = Parser::new(d, config(&cf, CustL)).parse().map_err(fail)?;
            g(&x.clone(), &all, te, tr)
        }
        _ => {
            let x: ReadGroup = Parser::new(d, config(&cf, Native)).parse().map_err(fail)?;
            g(&x.into_owned(), &all, te, tr)
        }
    }
}
fn format_of(c: &mut Ch, times: bool) -> u64 {
    let mut f = rf::GROUP;
    for b in [rf::ID, rf::LOST] {
        if c.b() {
            f |= b
        }
    }
    if times {
        for b in [rf::TE, rf::TR] {
            if c.b() {
                f |= b
            }
        }
    }
    f
}

/// Contents of a group: all different, or with equal neighbours (entries or words) in some places.
const PATS: u64 = 6;
fn pattern(p: u64, s: usize) -> impl Fn(usize) -> u64 {
    move |j| match p {
        1 => 0,
        2 => u64::MAX,
        // entries in equal pairs
        3 => mix((j / s / 2 * s + j % s) as u64),
        // alternating entries, so also equal ends
        4 => mix((j / s % 2 * s + j % s) as u64),
        // entries alike except for their last word
        5 if j % s == s - 1 => (j / s) as u64,
        5 => 7,
        _ => mix(j as u64 + 1),
    }
}
fn entry_len(f: u64) -> usize {
    1 + (f & rf::ID != 0) as usize + (f & rf::LOST != 0) as usize
}

fn seqs(name: &'static str, ops: &'static [Op], d: u32, sizes: usize, pats: std::ops::Range<u64>) -> Suite {
    let n: u64 = (0..=d).map(|k| (ops.len() as u64).pow(k)).sum();
    let np = pats.end - pats.start;
    let how = if np == 1 { String::new() } else { format!(" x {np} contents with equal entries") };
    suite(
        name,
        format!("all sequences of 0..={d} of {} iterator operations x groups of 0..{} counters x 4 entry formats{how}; all observers after the last step", ops.len(), sizes - 1),
        n * sizes as u64 * 4 * np,
        move |i, w| {
            let mut c = Ch(i);
            let pat = pats.start + c.n(np);
            let f = format_of(&mut c, false) | rf::TE;
            let nr = c.u(sizes);
            let mut x = c.0;
            let mut k = 0;
            while x >= (ops.len() as u64).pow(k) {
                x -= (ops.len() as u64).pow(k);
                k += 1;
            }
            let mut ch = Ch(x);
            let mut seq = [Next; 12];
            for s in &mut seq[..k as usize] {
                *s = *ch.of(ops)
            }
            let seq = &seq[..k as usize];
            with_words(f, nr, 0, (pat != 0).then_some(&pattern(pat, entry_len(f))), &mut |g, all, _, _| {
                let mut m = Model { all, lo: 0, hi: nr };
                let mut it = g.entries();
                let at = |e: String| format!("group of {nr}, read_format {f:#x}, contents {pat}, {seq:?}: {e}");
                for op in seq {
                    step(*op, &mut it, &mut m).map_err(at)?;
                    let n = m.hi - m.lo;
                    if it.len() != n || it.size_hint() != (n, Some(n)) {
                        return Err(at(format!("after {op:?}: len {} size_hint {:?}, {n} remain", it.len(), it.size_hint())));
                    }
                }
                observe(&it, &m).map_err(at)?;
                w.trans += k as u64 + 1;
                w.traces += 1;
                w.state(mix(f) ^ mix((nr * 10000 + m.lo * 100 + m.hi) as u64));
                Ok(())
            })
        },
    )
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    v.push(seqs("sequences", &OPS, t.pick(4, 5), t.pick(6, 7), 0..1));
    v.push(seqs("long_sequences", &CORE, t.pick(7, 8), t.pick(6, 8), 0..1));
    v.push(seqs("sequences_of_equals", &OPS, t.pick(3, 4), t.pick(6, 7), 1..PATS));
    let words = t.pick(9u32, 12);
    // (format, counters, first case)
    let mut rows = vec![];
    let mut total = 0;
    for f in [0, rf::ID, rf::LOST, rf::ID | rf::LOST] {
        let s = entry_len(f);
        for nr in 0..=words as usize / s {
            rows.push((f | rf::GROUP, nr, total));
            total += 3u64.pow((nr * s) as u32);
        }
    }
    v.push(suite("contents", format!("every assignment of three values (0, 7, all ones) to the words of groups of up to {words} words x 4 entry formats x 4 ways of holding the data: every entry and every observer"), total * 4, move |i, w| {
        let mut c = Ch(i);
        let src = c.u(4);
        let j = rows.partition_point(|r| r.2 <= c.0) - 1;
        let (f, nr, first) = rows[j];
        let x = c.0 - first;
        let word = |k: usize| [0, 7, u64::MAX][(x / 3u64.pow(k as u32) % 3) as usize];
        w.traces += 1;
        w.trans += nr as u64;
        w.state(mix(i));
        with_words(f, nr, src, Some(&word), &mut |g, all, _, _| {
            let at = |e: String| format!("group of {nr}, read_format {f:#x}, source {src}, entries {all:x?}: {e}");
            for k in 0..nr + 1 {
                if g.get(k).map(ent) != all.get(k).copied() {
                    return Err(at(format!("get({k}) is {:x?}", g.get(k))));
                }
            }
            observe(&g.entries(), &Model { all, lo: 0, hi: nr }).map_err(at)
        })
    }));
    let sizes = t.pick(140usize, 400);
    v.push(suite(
        "sizes",
        format!("groups of 0..{sizes} counters x 16 formats x 4 ways of holding the data (borrowed, assembled from chunks, cloned, owned): nth/nth_back/get for every index, then every observer; times"),
        sizes as u64 * 16 * 4,
        move |i, w| {
            let mut c = Ch(i);
            let f = format_of(&mut c, true);
            let src = c.u(4);
            let nr = c.u(sizes);
            w.traces += 1;
            w.state(i);
            with_group(f, nr, src, &mut |g, all, te, tr| {
                let at = |e: String| format!("group of {nr}, read_format {f:#x}, source {src}: {e}");
                if g.len() != nr || g.is_empty() != (nr == 0) {
                    return Err(at(format!("len {} is_empty {}", g.len(), g.is_empty())));
                }
                if (g.time_enabled(), g.time_running()) != (te, tr) {
                    return Err(at("times differ".into()));
                }
                observe(&g.entries(), &Model { all, lo: 0, hi: nr }).map_err(at)?;
                for k in (0..nr + 2).chain([usize::MAX / 3, usize::MAX / 2, usize::MAX / 8 + 1, usize::MAX - 1, usize::MAX]) {
                    w.trans += 3;
                    if g.get(k).map(ent) != all.get(k).copied() {
                        return Err(at(format!("get({k}) is {:x?}", g.get(k))));
                    }
                    for op in [Nth(k), NthBack(k)] {
                        let mut m = Model { all, lo: 0, hi: nr };
                        let mut it = g.entries();
                        step(op, &mut it, &mut m).map_err(at)?;
                        if it.len() != m.hi - m.lo || !it.map(ent).eq(m.rest().iter().copied()) {
                            return Err(at(format!("after {op:?} the rest is wrong")));
                        }
                    }
                }
                Ok(())
            })
        },
    ));
    const BIG: [usize; 21] = [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8188, 8192, 16384, 32768, 65535, 65536, 65537];
    v.push(suite(
        "large_groups",
        "groups of 21 sizes up to 65537 x 16 formats x 4 ways of holding the data: every observer, then all pairs of {nth, nth_back, next, next_back} by some 30 distances and what remains",
        21 * 16 * 4,
        move |i, w| {
            let mut c = Ch(i);
            let f = format_of(&mut c, true);
            let src = c.u(4);
            let nr = *c.of(&BIG);
            w.traces += 1;
            w.state(i);
            with_group(f, nr, src, &mut |g, all, _, _| {
                let at = |e: String| format!("group of {nr}, read_format {f:#x}, source {src}: {e}");
                if g.len() != nr {
                    return Err(at(format!("len {}", g.len())));
                }
                observe(&g.entries(), &Model { all, lo: 0, hi: nr }).map_err(at)?;
                let mut ks = vec![0, 1, 2, nr / 2, nr - 2, nr - 1, nr, nr + 1, usize::MAX];
                ks.extend((3..17).map(|b| 1usize << b).flat_map(|x| [x - 1, x]).filter(|x| *x < nr));
                for k in &ks {
                    if g.get(*k).map(ent) != all.get(*k).copied() {
                        return Err(at(format!("get({k}) is {:x?}", g.get(*k))));
                    }
                }
                for a in &ks {
                    for b in &ks {
                        for ops in [[Nth(*a), Nth(*b)], [Nth(*a), NthBack(*b)], [NthBack(*a), Nth(*b)], [NthBack(*a), NthBack(*b)]] {
                            let mut m = Model { all, lo: 0, hi: nr };
                            let mut it = g.entries();
                            w.trans += 4;
                            for op in ops.into_iter().chain([Next, Back]) {
                                step(op, &mut it, &mut m).map_err(|e| at(format!("{ops:?}: {e}")))?;
                                if it.len() != m.hi - m.lo || it.size_hint() != (m.hi - m.lo, Some(m.hi - m.lo)) {
                                    return Err(at(format!("{ops:?}: {} left, expected {}", it.len(), m.hi - m.lo)));
                                }
                            }
                        }
                    }
                }
                Ok(())
            })
        },
    ));
    v
}
