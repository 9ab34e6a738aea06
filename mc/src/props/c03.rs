//! C03: counter read values decode and convert losslessly for every read_format.
use super::c01::with_src;
use crate::dump::{Dump, D, K};
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::*;

const EKX: [EK; 3] = [EK::Native, EK::Big, EK::CustL];
const HOSTILE: [u64; 26] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 8189, 8191, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 58, 1 << 60, 1 << 61, (1 << 61) + 1, u64::MAX / 3,
    u64::MAX / 3 + 1, 1 << 63, u64::MAX - 1, u64::MAX,
];

/// read_format words: all known combinations, with no / one / all unknown bits.
fn rf_of(c: &mut Ch, unknown: u64) -> u64 {
    let f = c.n(32);
    match c.n(unknown) {
        0 => f,
        x if x <= 59 => f | 1 << (x + 4),
        _ => f | !rf::ALL,
    }
}

fn word(i: usize, set: usize) -> u64 {
    match set {
        0 => mix(i as u64 + 1),
        1 => 0,
        2 => u64::MAX,
        _ => i as u64,
    }
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];

    v.push(suite("read_records", "READ records: all 32 formats x none/each/all unknown bits x 0..9 words x 4 sources x 3 byte orders x trailer", 32 * 61 * 10 * 4 * 3 * 2, move |i, w| {
        let mut c = Ch(i);
        let f = rf_of(&mut c, 61);
        let n = c.u(10);
        let k = c.u(4);
        let ek = *c.of(&EKX);
        let sid = c.b();
        let cf = Cfg { rf: f, sid_all: sid, st: if sid { SID } else { 0 }, ..Default::default() };
        let mut e = Enc::new(ek.big(), 3);
        framed(&mut e, 8, 0, |e| {
            for _ in 0..n {
                e.w64()
            }
            trailer(e, &cf)
        });
        let d = e.v;
        with_src(k, d.len(), &mut |x| check(w, &d, &cf, ek, Api::Visit, x, Allow::default(), &|| format!("READ, read_format {f:#x}, {n} words")))
    }));

    v.push(suite("values", "single reads parsed directly: all formats x unknown bits x 0..44 bytes x 4 value patterns x 4 sources x 3 byte orders", 32 * 61 * 45 * 4 * 4 * 3, move |i, w| {
        let mut c = Ch(i);
        let f = rf_of(&mut c, 61);
        let n = c.u(45);
        let set = c.u(4);
        let k = c.u(4);
        let ek = *c.of(&EKX);
        let cf = Cfg { rf: f, ..Default::default() };
        let mut e = Enc::new(ek.big(), 3);
        for j in 0..6 {
            e.u64(word(j, set))
        }
        e.v.truncate(n);
        let d = e.v;
        let mut s = Spec::new(&d, ek.big());
        w.a.clear();
        let m = s.read_value(f, &mut w.a);
        w.trans += s.steps + 1;
        w.traces += 1;
        w.state(w.a.hash());
        with_src(k, d.len(), &mut |x| {
            let b = &mut w.b;
            let r = on3!(&d[..], &cf, ek, x, p => direct::<_, _, ReadValue>(&mut p, b, |v, o| v.d(o)));
            agree(&m, &s, &w.a, r, &w.b).map_err(|e| format!("single read, read_format {f:#x}, {n} bytes, {ek:?} {x:?}\n {e}"))
        })
    }));

    let ng = t.pick(6u64, 10);
    v.push(suite("groups", format!("group reads parsed directly: all formats x unknown bits x declared 0..{ng} x present words 0..25 x 4 sources x 3 byte orders"), 32 * 61 * ng * 26 * 4 * 3, move |i, w| {
        let mut c = Ch(i);
        let f = rf_of(&mut c, 61);
        let nr = c.n(ng);
        let n = c.u(26);
        let k = c.u(4);
        let ek = *c.of(&EKX);
        group(w, f, nr, n, k, ek, 0)
    }));
    v.push(suite("hostile_counts", "group reads: all formats x 26 hostile counts x present words 0..12 and 3*8189 (first pattern, formats 8 12 28 31, no bytewise source) x 4 sources x 3 byte orders x 3 value patterns", 32 * 26 * 14 * 4 * 3 * 3, move |i, w| {
        let mut c = Ch(i);
        let f = c.n(32);
        let nr = *c.of(&HOSTILE);
        let n = c.u(14);
        let n = if n == 13 { 8189 * 3 } else { n };
        let k = c.u(4);
        let ek = *c.of(&EKX);
        let set = c.u(3);
        if n > 100 && (k == 3 || set != 0 || ek == EK::CustL || ![8, 12, 28, 31].contains(&f)) {
            return Ok(());
        }
        group(w, f, nr, n, k, ek, set)
    }));

    // lookups and conversions, with every assignment of ids from a small alphabet
    let nl = t.pick(4u32, 5);
    let n: u64 = (0..=nl).map(|k| 4u64.pow(k)).sum();
    v.push(suite("lookups", format!("groups of 0..={nl} counters with every assignment of ids from 4 values x 16 formats x 2 sources: get, get_by_id, len, entries, conversions, copies"), n * 16 * 2, move |i, w| {
        let mut c = Ch(i);
        let mut f = rf::GROUP;
        for b in [rf::TE, rf::TR, rf::ID, rf::LOST] {
            if c.b() {
                f |= b
            }
        }
        let k = c.u(2);
        let mut x = c.0;
        let mut nr = 0;
        while x >= 4u64.pow(nr) {
            x -= 4u64.pow(nr);
            nr += 1;
        }
        const IDS: [u64; 4] = [0, 1, 7, u64::MAX];
        let mut ch = Ch(x);
        let ids: Vec<u64> = (0..nr).map(|_| *ch.of(&IDS)).collect();
        lookups(w, f, &ids, k).map_err(|e| format!("group of ids {ids:?}, read_format {f:#x}, source {k}: {e}"))
    }));

    // larger groups: ids are found wherever they stand, the first of two equal ones wins
    let ng: std::sync::Arc<Vec<usize>> = super::c04::sizes_to(t.pick(70, 300), t.pick(1100, 5000)).into();
    let n = ng.len() as u64;
    v.push(suite("large_lookups", format!("groups of {n} sizes up to {} x 16 formats x 3 sources x ids ascending / descending / each twice: every id and its neighbours looked up, every entry by index, entries, copies, conversions", ng.last().unwrap()), n * 16 * 3 * 3, move |i, w| {
        let mut c = Ch(i);
        let mut f = rf::GROUP;
        for b in [rf::TE, rf::TR, rf::ID, rf::LOST] {
            if c.b() {
                f |= b
            }
        }
        let k = c.u(3);
        let order = c.u(3);
        let nr = *c.of(&ng);
        large_lookups(w, f, nr, order, k).map_err(|e| format!("group of {nr} counters, id order {order}, read_format {f:#x}, source {k}: {e}"))
    }));
    // single value <-> group, all formats and extreme values
    v.push(suite("conversions", "single values: 16 formats x 4^5 field values: to a group and back, clone", 16 * 1024, move |i, w| {
        let mut c = Ch(i);
        let mut f = 0;
        for b in [rf::TE, rf::TR, rf::ID, rf::LOST] {
            if c.b() {
                f |= b
            }
        }
        let vals: Vec<u64> = (0..5).map(|_| *c.of(&[0, 1, 0x8000_0000_0000_0001, u64::MAX])).collect();
        conversions(w, f, &vals).map_err(|e| format!("single value {vals:x?}, read_format {f:#x}: {e}"))
    }));
    v
}

fn group(w: &mut W, f: u64, nr: u64, n: usize, k: usize, ek: EK, set: usize) -> R {
    let cf = Cfg { rf: f, ..Default::default() };
    let mut e = Enc::new(ek.big(), 3);
    if n > 0 {
        e.u64(nr);
        for j in 1..n {
            e.u64(word(j, set))
        }
    }
    let d = e.v;
    let mut s = Spec::new(&d, ek.big());
    w.a.clear();
    let m = s.read_group(f, &mut w.a);
    w.trans += s.steps + 1;
    w.traces += 1;
    w.state(w.a.hash());
    with_src(k, d.len(), &mut |x| {
        let b = &mut w.b;
        let r = on3!(&d[..], &cf, ek, x, p => direct::<_, _, ReadGroup>(&mut p, b, |v, o| v.d(o)));
        agree(&m, &s, &w.a, r, &w.b).map_err(|e| format!("group read, read_format {f:#x}, {nr} declared, {n} words present, {ek:?} {x:?}\n {e}"))
    })
}

/// (value, id, lost) per entry
type Model = Vec<(u64, Option<u64>, Option<u64>)>;

fn entry(e: &GroupEntry) -> (u64, Option<u64>, Option<u64>) {
    (e.value(), e.id(), e.lost())
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: model {want:?}, implementation {got:?}"))
    }
}

fn examine(g: &ReadGroup, te: Option<u64>, tr: Option<u64>, m: &Model, w: &mut W, how: &str) -> R {
    w.trans += 12 + m.len() as u64;
    w.traces += 1;
    same(&format!("{how}: time_enabled"), g.time_enabled(), te)?;
    same(&format!("{how}: time_running"), g.time_running(), tr)?;
    same(&format!("{how}: len"), g.len(), m.len())?;
    same(&format!("{how}: is_empty"), g.is_empty(), m.is_empty())?;
    same(&format!("{how}: entries"), g.entries().map(|e| entry(&e)).collect::<Vec<_>>(), m.clone())?;
    for j in (0..m.len() + 3).chain([usize::MAX, usize::MAX / 2, usize::MAX / 3 + 1, 1 << 61, 1 << 63]) {
        same(&format!("{how}: get({j})"), g.get(j).map(|e| entry(&e)), m.get(j).copied())?;
    }
    for id in [0, 1, 2, 7, u64::MAX - 1, u64::MAX] {
        same(&format!("{how}: get_by_id({id})"), g.get_by_id(id).map(|e| entry(&e)), m.iter().find(|e| e.1 == Some(id)).copied())?;
    }
    Ok(())
}

fn lookups(w: &mut W, f: u64, ids: &[u64], k: usize) -> R {
    let cf = Cfg { rf: f, ..Default::default() };
    let mut e = Enc::new(false, 9);
    e.u64(ids.len() as u64);
    let has = |b| f & b != 0;
    let (tev, trv) = (0x1111, 0x2222);
    if has(rf::TE) {
        e.u64(tev)
    }
    if has(rf::TR) {
        e.u64(trv)
    }
    let mut m: Model = vec![];
    for (j, id) in ids.iter().enumerate() {
        // values and lost counts also collide with the ids searched for
        let (val, lost) = ([7u64, 0, 1, u64::MAX, 5][j], [1u64, 7, 0, 3, u64::MAX][j]);
        e.u64(val);
        if has(rf::ID) {
            e.u64(*id)
        }
        if has(rf::LOST) {
            e.u64(lost)
        }
        m.push((val, has(rf::ID).then_some(*id), has(rf::LOST).then_some(lost)));
    }
    let (te, tr) = (has(rf::TE).then_some(tev), has(rf::TR).then_some(trv));
    let d = e.v;
    w.state(mix(f) ^ m.iter().fold(0, |h, e| mix(h ^ e.1.unwrap_or(77))));
    with_src(k, d.len(), &mut |x| {
        on3!(&d[..], &cf, EK::Native, x, p => {
            let g: ReadGroup = p.parse().map_err(|e| format!("refused: {e}"))?;
            examine(&g, te, tr, &m, w, "parsed")?;
            examine(&g.clone(), te, tr, &m, w, "clone")?;
            examine(&g.clone().into_owned(), te, tr, &m, w, "into_owned")?;
            for (j, e) in g.entries().enumerate() {
                let v = ReadValue::from_group_and_entry(&g, &e);
                w.trans += 1;
                same("from_group_and_entry", (v.value(), v.id(), v.lost(), v.time_enabled(), v.time_running()), (m[j].0, m[j].1, m[j].2, te, tr))?;
                let e2 = e;
                same("copied entry", entry(&e2), m[j])?;
                // and back to a group with that one entry
                examine(&ReadGroup::from(v), te, tr, &vec![m[j]], w, "group of one entry")?;
            }
            for g2 in [g.clone(), g.clone().into_owned()] {
                match ReadValue::try_from(g2) {
                    Ok(v) if m.len() == 1 => same("try_from", (v.value(), v.id(), v.lost(), v.time_enabled(), v.time_running()), (m[0].0, m[0].1, m[0].2, te, tr))?,
                    Ok(_) => return Err(format!("try_from accepts a group of {}", m.len())),
                    Err(e) if m.len() == 1 => return Err(format!("try_from refuses a group of one: {e}")),
                    Err(e) => if e.to_string().is_empty() { return Err("empty error text".into()) },
                }
            }
            Ok(())
        })
    })
}

fn large_lookups(w: &mut W, f: u64, nr: usize, order: usize, k: usize) -> R {
    let cf = Cfg { rf: f, ..Default::default() };
    let has = |b| f & b != 0;
    let mut e = Enc::new(cfg!(target_endian = "big"), 9);
    e.u64(nr as u64);
    if has(rf::TE) {
        e.u64(5)
    }
    if has(rf::TR) {
        e.u64(6)
    }
    let mut m: Model = Vec::with_capacity(nr);
    for j in 0..nr {
        let id = 3 * match order {
            0 => j,
            1 => nr - j,
            _ => j / 2,
        } as u64;
        // values and lost counts look like ids of other counters
        let (val, lost) = (3 * (nr - 1 - j) as u64, 3 * (j as u64 + 1));
        e.u64(val);
        if has(rf::ID) {
            e.u64(id)
        }
        if has(rf::LOST) {
            e.u64(lost)
        }
        m.push((val, has(rf::ID).then_some(id), has(rf::LOST).then_some(lost)));
    }
    let mut first = std::collections::HashMap::new();
    for (j, x) in m.iter().enumerate() {
        if let Some(id) = x.1 {
            first.entry(id).or_insert(j);
        }
    }
    let d = e.v;
    w.state(mix(f) ^ mix((nr * 4 + order) as u64));
    w.traces += 1;
    with_src(k, d.len(), &mut |x| {
        on3!(&d[..], &cf, EK::Native, x, p => {
            let g: ReadGroup = p.parse().map_err(|e| format!("refused: {e}"))?;
            let own = g.clone().into_owned();
            for g in [&g, &own, &own.clone()] {
                w.trans += 4 * nr as u64;
                same("len", (g.len(), g.is_empty()), (nr, nr == 0))?;
                same("times", (g.time_enabled(), g.time_running()), (has(rf::TE).then_some(5), has(rf::TR).then_some(6)))?;
                if !g.entries().map(|e| entry(&e)).eq(m.iter().copied()) {
                    return Err("entries differ".into());
                }
                for j in 0..nr + 2 {
                    same(&format!("get({j})"), g.get(j).map(|e| entry(&e)), m.get(j).copied())?;
                }
                // every id from the first to beyond the last; two of three do not exist
                for id in 0..(3 * nr as u64 + 5).min(1000) {
                    same(&format!("get_by_id({id})"), g.get_by_id(id).map(|e| entry(&e)), first.get(&id).map(|j| m[*j]))?;
                }
                for j in (0..nr).step_by(1 + nr / 64).chain(nr.checked_sub(1)) {
                    let id = m[j].1.unwrap_or(0);
                    same(&format!("get_by_id({id})"), g.get_by_id(id).map(|e| entry(&e)), first.get(&id).map(|j| m[*j]))?;
                    let e = g.get(j).ok_or("no entry")?;
                    let v = ReadValue::from_group_and_entry(g, &e);
                    same("from_group_and_entry", (v.value(), v.id(), v.lost()), m[j])?;
                }
            }
            Ok(())
        })
    })
}

fn conversions(w: &mut W, f: u64, vals: &[u64]) -> R {
    let cf = Cfg { rf: f, ..Default::default() };
    let mut e = Enc::new(false, 9);
    let mut it = vals.iter().copied();
    let value = it.next().unwrap();
    e.u64(value);
    let mut take = |b: u64| {
        let x = it.next().unwrap();
        if f & b != 0 {
            e.u64(x);
            Some(x)
        } else {
            None
        }
    };
    let (te, tr, id, lost) = (take(rf::TE), take(rf::TR), take(rf::ID), take(rf::LOST));
    let d = e.v;
    let want = (value, id, lost, te, tr);
    let show = |v: &ReadValue| (v.value(), v.id(), v.lost(), v.time_enabled(), v.time_running());
    let v: ReadValue = perf_event_data::parse::Parser::new(&d[..], config(&cf, perf_event_data::endian::Native)).parse().map_err(|e| e.to_string())?;
    w.trans += 6;
    w.traces += 1;
    let mut dd = Dump::default();
    v.d(&mut dd);
    w.state(dd.hash() ^ K::value as u64);
    same("parsed", show(&v), want)?;
    same("clone", show(&v.clone()), want)?;
    let g = ReadGroup::from(v);
    examine(&g, te, tr, &vec![(value, id, lost)], w, "group of a single value")?;
    let back = ReadValue::try_from(g).map_err(|e| e.to_string())?;
    same("group and back", show(&back), want)?;
    let g = ReadGroup::from(back);
    let ent = g.get(0).ok_or("no entry")?;
    same("group, entry and back", show(&ReadValue::from_group_and_entry(&g, &ent)), want)
}
