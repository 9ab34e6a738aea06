//! C08: any input yields a record or an error.
use super::c02::{pick, FULL};
use super::c04::{bare_data, bare_src, coded, many, EK3};
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::parse::ErrorKind;

const F1: Allow = Allow { f1: true };
/// Hostile 64-bit words: small counts, boundaries of every length computation, sign and overflow edges.
pub const WORDS: [u64; 16] = [
    0,
    1,
    2,
    3,
    7,
    9,
    0x1_0000_0001,
    1 << 31,
    1 << 32,
    1 << 60,
    1 << 61,
    0x0aaa_aaaa_aaaa_aaab,
    1 << 63,
    u64::MAX / 3 + 1,
    u64::MAX - 7,
    u64::MAX,
];

/// Sample configurations whose bodies contain counts and lengths.
fn sample_cfgs() -> Vec<Cfg> {
    let mut v = vec![];
    for s in [
        st::READ, st::CALLCHAIN, st::RAW, st::BRANCH_STACK, st::REGS_USER, st::STACK_USER, st::REGS_INTR, st::AUX,
        st::CALLCHAIN | st::RAW, st::RAW | st::STACK_USER, st::STACK_USER | st::AUX, st::BRANCH_STACK | st::AUX, st::READ | st::CALLCHAIN,
        st::RAW | st::REGS_INTR, st::STACK_USER | st::REGS_INTR, st::CPU | st::CALLCHAIN, st::IP | st::TID | st::RAW, st::ALL, 0,
    ] {
        for (rf, bst) in [(rf::ALL, BR_HW_INDEX), (RF1, 0), (rf::GROUP, 0)] {
            if s & (st::READ | st::BRANCH_STACK) == 0 && rf != rf::ALL {
                continue;
            }
            v.push(Cfg { st: s, rf, bst, ru: 0b1011, ri: 1 << 63 | 1, sid_all: true });
        }
    }
    v.push(Cfg { st: st::REGS_USER | st::REGS_INTR, ru: u64::MAX, ri: u64::MAX, ..FULL });
    v.push(Cfg { st: st::READ, rf: rf::GROUP | 1 << 40, ..FULL });
    v
}

fn seq(x: u64, n: u64) -> (usize, u64) {
    let (mut k, mut x) = (0, x);
    while x >= n.pow(k) {
        x -= n.pow(k);
        k += 1;
    }
    (k as usize, x)
}
fn nseq(max: u32, n: u64) -> u64 {
    (0..=max).map(|k| n.pow(k)).sum()
}
fn words(big: bool, x: u64) -> Vec<u8> {
    let (k, x) = seq(x, 16);
    let mut c = Ch(x);
    let mut e = Enc::new(big, 0);
    for _ in 0..k {
        e.u64(*c.of(&WORDS))
    }
    e.v
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let deep = t.pick(4u32, 5);
    let cfgs = sample_cfgs();
    let nc = cfgs.len() as u64;
    {
        let cfgs = cfgs.clone();
        v.push(suite("sample_words", format!("SAMPLE records: {nc} configurations x every body of up to {deep} of 16 hostile words x 3 sources"), nc * nseq(deep, 16) * 3, move |i, w| {
            let mut c = Ch(i);
            let cf = *c.of(&cfgs);
            let k = *c.of(&[0, 1, 7]);
            let mut e = Enc::new(false, 0);
            framed(&mut e, 9, 0, |e| e.v.extend(words(false, c.0)));
            let d = e.v;
            many(k, d.len(), &mut |s| check(w, &d, &cf, EK::Native, Api::Visit, s, F1, &|| "hostile sample".into()))
        }));
    }
    let d3 = t.pick(3u32, 4);
    {
        let cfgs = cfgs.clone();
        v.push(suite("sample_words_orders", format!("the same, up to {d3} words, in big-endian and user-written order, 4-byte shifted, 5 sources x 3 interfaces"), nc * nseq(d3, 16) * 2 * 2 * 5 * 3, move |i, w| {
            let mut c = Ch(i);
            let cf = *c.of(&cfgs);
            let k = *c.of(&[0, 1, 3, 6, 8]);
            let ek = *c.of(&[EK::Big, EK::CustL]);
            let shift = c.b();
            let api = *c.of(&[Api::Visit, Api::Rec, Api::MetaH]);
            let mut e = Enc::new(ek.big(), 0);
            framed(&mut e, 9, 0, |e| {
                if shift {
                    e.u32(2)
                }
                e.v.extend(words(ek.big(), c.0))
            });
            let d = e.v;
            let n = d.len() - if api.hdr() { 8 } else { 0 };
            many(k, n, &mut |s| check(w, &d, &cf, ek, api, s, F1, &|| "hostile sample".into()))
        }));
    }
    v.push(suite("record_words", format!("types 0..=22 x every body of up to {deep} of 16 hostile words x build-id flag x trailer x 2 sources"), 23 * nseq(deep, 16) * 4 * 2, move |i, w| {
        let mut c = Ch(i);
        let ty = c.n(23) as u32;
        let misc = if c.b() { 3 << 13 } else { 0 };
        let sid = c.b();
        let k = *c.of(&[0, 7]);
        let cf = Cfg { st: st::TID | st::CPU, rf: RF1, sid_all: sid, ..Default::default() };
        let mut e = Enc::new(false, 0);
        framed(&mut e, ty, misc, |e| e.v.extend(words(false, c.0)));
        let d = e.v;
        many(k, d.len(), &mut |s| check(w, &d, &cf, EK::Native, Api::Visit, s, F1, &|| "hostile record".into()))
    }));
    {
        let cfgs = cfgs.clone();
        v.push(suite("bare_words", format!("types 0..=22 (SAMPLE under {nc} configurations) parsed without a frame from every input of up to {d3} hostile words, 0..7 bytes cut off x 4 sources x 3 byte orders"), (22 + nc) * nseq(d3, 16) * 4 * 4 * 3, move |i, w| {
            let mut c = Ch(i);
            let x = c.u(22 + cfgs.len());
            let (ty, cf) = if x < 22 { ([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22][x], cfgs[0]) } else { (9, cfgs[x - 22]) };
            let cut = *c.of(&[0usize, 1, 4, 7]);
            let k = *c.of(&[0, 2, 9, 13]);
            let ek = *c.of(&EK3);
            let mut d = words(ek.big(), c.0);
            if d.len() < cut {
                return Ok(());
            }
            d.truncate(d.len() - cut);
            bare_data(w, ty, &d, &cf, k, ek, F1, &|| format!("type {ty} without a frame"))
        }));
    }

    // lengths which are close to what is there but no multiple of a word
    let top = t.pick(41u64, 90);
    v.push(suite("small_lengths", format!("6 declared lengths of samples, 2 of text pokes, the build id length and a name: 0..{top} each x second length or bytes present 0..{} x framed or not x 16 sources x 2 byte orders", top + 24), 12 * top * (top + 24) * 2 * 16 * 2, move |i, w| {
        let mut c = Ch(i);
        let k = c.u(16);
        let ek = *c.of(&[EK::Native, EK::Big]);
        let bare = c.b();
        let part = c.u(12);
        let l = c.u(top as usize);
        let x = c.u(top as usize + 24);
        let mut cf = Cfg { rf: rf::GROUP, ..Default::default() };
        let mut e = Enc::new(ek.big(), 5);
        let mut ty = 9;
        cf.st = match part {
            0 => st::RAW,
            1 => st::CALLCHAIN,
            2 => st::BRANCH_STACK,
            3 | 4 => st::STACK_USER,
            5 => st::AUX,
            6 => st::READ,
            7 => st::STACK_USER | st::AUX,
            _ => 0,
        };
        let put = |e: &mut Enc| match part {
            0 => {
                e.u32(l as u32);
                e.fill(x)
            }
            // the second length of the stack
            3 | 7 => {
                e.u64(l as u64);
                e.fill(l);
                if l > 0 {
                    e.u64(x as u64)
                }
                if part == 7 {
                    e.u64(5);
                    e.fill(5)
                }
            }
            8 => {
                e.w64();
                e.u16(l as u16);
                e.u16(x as u16);
                e.fill((4 + l + x).next_multiple_of(8) - 4)
            }
            9 => {
                e.w64();
                e.u16(x as u16 / 2);
                e.u16(x as u16 - x as u16 / 2);
                e.fill(l)
            }
            // a name or its padding ends the record, at any size
            10 => {
                e.w64();
                e.name(l);
                e.zeros(x)
            }
            11 => {
                for _ in 0..4 {
                    e.w64()
                }
                e.u8(l as u8);
                e.fill(3 + 20 + 8);
                e.name(x)
            }
            _ => {
                e.u64(l as u64);
                e.fill(x)
            }
        };
        let mut misc = 0;
        match part {
            8 | 9 => ty = 20,
            10 => ty = 3,
            11 => {
                ty = 10;
                misc = if bare { 0 } else { 1 << 14 }
            }
            _ => (),
        }
        if bare {
            put(&mut e);
            bare_data(w, ty, &e.v, &cf, k, ek, F1, &|| format!("part {part} of length {l}, {x}"))
        } else {
            framed(&mut e, ty, misc, put);
            let d = e.v;
            many(k, d.len(), &mut |s| check(w, &d, &cf, ek, Api::Visit, s, F1, &|| format!("part {part} of length {l}, {x}")))
        }
    }));
    // arbitrary tiny inputs
    v.push(suite("tiny_inputs", "every input of 0..2 bytes, and of 3..9 bytes over {00,01,08,ff} x 6 interfaces x 4 sources x 2 byte orders", (1 + 256 + 65536 + (3..=9).map(|k| 4u64.pow(k)).sum::<u64>()) * 6 * 4 * 2, |i, w| {
        let mut c = Ch(i);
        let api = *c.of(&APIS);
        let k = *c.of(&[0, 1, 3, 6]);
        let ek = *c.of(&[EK::Native, EK::Big]);
        let mut x = c.0;
        let d: Vec<u8> = if x < 1 {
            vec![]
        } else if x < 257 {
            vec![(x - 1) as u8]
        } else if x < 257 + 65536 {
            ((x - 257) as u16).to_le_bytes().to_vec()
        } else {
            x -= 257 + 65536;
            let mut n = 3;
            while x >= 4u64.pow(n) {
                x -= 4u64.pow(n);
                n += 1;
            }
            let mut ch = Ch(x);
            (0..n).map(|_| *ch.of(&[0u8, 1, 8, 0xff])).collect()
        };
        if api.hdr() && d.len() < 8 {
            return Ok(());
        }
        let n = d.len() - if api.hdr() { 8 } else { 0 };
        let cf = Cfg { st: st::TID, sid_all: true, rf: RF1, ..Default::default() };
        many(k, n, &mut |s| check(w, &d, &cf, ek, api, s, F1, &|| "tiny input".into()))
    }));

    // every declared size against every kind of shortage
    v.push(suite("header_sizes", "every header size 0..=65535 x 6 types x bytes available: none, 1 short, exact, more x 3 sources x header given or read", 65536 * 6 * 4 * 3 * 2, |i, w| {
        let mut c = Ch(i);
        let size = c.n(65536) as u16;
        let ty = *c.of(&[2u32, 9, 14, 20, 16, 99]);
        let avail = c.u(4);
        let k = *c.of(&[0, 1, 2]);
        let api = *c.of(&[Api::Visit, Api::MetaH]);
        let n = (size as usize).saturating_sub(8);
        // long bodies that are copied whole are thinned out
        if n > 600 && n % 509 > 3 && (avail > 1 || k == 1) && (ty == 99 || k == 1) {
            return Ok(());
        }
        let have = match avail {
            0 => 0,
            1 => n.saturating_sub(1),
            2 => n,
            _ => n + 5,
        };
        static BIG: [u8; 70000] = [0x03; 70000];
        let mut d = Vec::with_capacity(8 + have);
        d.extend_from_slice(&ty.to_le_bytes());
        d.extend_from_slice(&0u16.to_le_bytes());
        d.extend_from_slice(&size.to_le_bytes());
        d.extend_from_slice(&BIG[..have]);
        let cf = Cfg { st: st::TID | st::AUX, sid_all: true, rf: RF1, ..Default::default() };
        let len = d.len() - if api.hdr() { 8 } else { 0 };
        many(k, len, &mut |s| check(w, &d, &cf, EK::Native, api, s, F1, &|| format!("type {ty} size {size} with {have} bytes available")))
    }));

    // one delivery per byte: the work may be spread over any number of calls of the source, the stack may not grow with it
    let npieces = t.pick(100_000usize, 600_000);
    v.push(suite("many_pieces", format!("15 kinds of unframed values of {npieces} bytes and 7 kinds of records of 65520, delivered in pieces of 1 or 3 bytes by 5 sources x 2 byte orders x intact, cut short, on a stack of 512 KiB"), 22 * 5 * 2 * 2, move |i, w| {
        let mut c = Ch(i);
        let kind = c.u(22);
        let k = c.u(5);
        let ek = *c.of(&[EK::Native, EK::Big]);
        let cut = c.b();
        with_stack(w, 512 << 10, |w| pieces(w, npieces, kind, k, ek, cut)).map_err(|m| m.chars().take(2000).collect())
    }));

    // a source that ends early
    let sh: std::sync::Arc<Vec<super::c04::Coded>> = coded(shapes()).into();
    let lens: Vec<u64> = sh.iter().map(|x| (x.le.len() - super::c04::TAIL) as u64).collect();
    let total: u64 = lens.iter().sum();
    {
        let (sh, lens) = (sh.clone(), lens.clone());
        v.push(suite("ends_early", format!("{} record shapes, source ends at every byte before the declared end x 16 sources x 3 byte orders x 6 interfaces", sh.len()), total * 16 * 18, move |i, w| {
            let mut c = Ch(i);
            let k = c.u(16);
            let ek = *c.of(&EK3);
            let api = *c.of(&APIS);
            let (j, x) = pick(&lens, c.0);
            let s = &sh[j];
            if api.hdr() && x < 8 {
                return Ok(());
            }
            let d = &s.get(ek.big())[..x as usize];
            let n = d.len() - if api.hdr() { 8 } else { 0 };
            many(k, n, &mut |src| check(w, d, &s.s.cfg, ek, api, src, F1, &|| format!("{} ends after {x} bytes", s.s.name)))
        }));
    }
    {
        // two corrupted bytes
        const BYTES: [u8; 5] = [0, 1, 0x7f, 0x80, 0xff];
        let lim = t.pick(72usize, 140);
        let idx: Vec<usize> = (0..sh.len()).filter(|j| sh[*j].le.len() <= lim).collect();
        let rows: Vec<u64> = idx.iter().map(|j| { let n = sh[*j].le.len() as u64; n * n }).collect();
        let total: u64 = rows.iter().sum();
        let sh = sh.clone();
        v.push(suite("two_bad_bytes", format!("{} record shapes of at most {lim} bytes: every pair of positions overwritten with each of 5x5 values", idx.len()), total * 25, move |i, w| {
            let mut c = Ch(i);
            let (p, q) = (*c.of(&BYTES), *c.of(&BYTES));
            let (j, x) = pick(&rows, c.0);
            let s = &sh[idx[j]];
            let n = s.le.len() as u64;
            let (x, y) = ((x / n) as usize, (x % n) as usize);
            if y < x {
                return Ok(());
            }
            let mut d = s.le.clone();
            d[x] = p;
            d[y] = q;
            check(w, &d, &s.s.cfg, EK::Native, Api::Visit, &Src::Slice, F1, &|| format!("{} with byte {x} = {p:#x}, byte {y} = {q:#x}", s.s.name))
        }));
    }

    {
        let sh = sh.clone();
        let bits: Vec<u64> = sh.iter().map(|x| x.le.len() as u64 * 8).collect();
        let total: u64 = bits.iter().sum();
        v.push(suite("misaligned_flips", "every shape at 7 odd addresses with every single bit flipped, and intact", total * 7 * 2, move |i, w| {
            let mut c = Ch(i);
            let al = 1 + c.u(7);
            let flip = c.b();
            let (j, x) = pick(&bits, c.0);
            let s = &sh[j];
            if !flip && x != 0 {
                return Ok(());
            }
            let mut buf = Buf::new(&s.le, al);
            if flip {
                buf.get_mut()[x as usize / 8] ^= 1 << (x % 8);
            }
            check(w, buf.get(), &s.s.cfg, EK::Native, Api::Visit, &Src::Slice, F1, &|| format!("{} at 8k+{al}, bit {x} flipped: {flip}", s.s.name))
        }));
    }

    // the primitives
    v.push(suite("primitive_lengths", "parse_bytes, parse_repeated and parse_slice of u8/u16/u32/u64/[u8;5] with 40 lengths up to usize::MAX x 0..24 bytes available x 16 sources x 3 byte orders", 11 * 40 * 25 * 16 * 3, |i, w| {
        let mut c = Ch(i);
        let op = c.u(11);
        let l = c.u(40);
        let len = match l {
            0..=23 => l,
            24..=39 => [100, 4096, 16384, 16385, 65536, 1 << 31, 1 << 32, (1 << 32) + 1, usize::MAX / 8, usize::MAX / 8 + 1, usize::MAX / 5 + 1, usize::MAX / 4 + 1, usize::MAX / 2 + 1, isize::MAX as usize, usize::MAX - 1, usize::MAX][l - 24],
            _ => unreachable!(),
        };
        let n = c.u(25);
        let k = c.u(16);
        let ek = *c.of(&EK3);
        primitive(w, op, len, n, k, ek)
    }));
    v
}

fn pieces(w: &mut W, n: usize, kind: usize, k: usize, ek: EK, cut: bool) -> R {
    let mut cf = Cfg { rf: rf::GROUP | rf::ID, ..Default::default() };
    let mut e = Enc::new(ek.big(), 3);
    let mut sm = Sm::Z;
    let mut ty = 9;
    match kind {
        0..=6 => {
            ty = [1, 3, 10, 17, 19, 1234, 16][kind];
            body(&mut e, ty, &cf, &if kind == 6 { Body::Ns(n / 16) } else { Body::N { name: n, pad: if kind == 5 { 0 } else { 4000 } } })
        }
        7..=12 => {
            match kind {
                7 => (cf.st, sm.raw) = (st::RAW, n + 1),
                8 => (cf.st, sm.cc) = (st::CALLCHAIN, n / 8),
                9 => (cf.st, sm.stack, sm.dyn_) = (st::STACK_USER, n, n - 33),
                10 => (cf.st, sm.lbr) = (st::BRANCH_STACK, n / 24),
                11 => (cf.st, sm.aux) = (st::AUX, n),
                _ => (cf.st, sm.nr) = (st::READ, n / 16),
            }
            cf.st |= st::IP;
            sample(&mut e, &cf, &sm)
        }
        13 | 14 => {
            e.u32(0);
            e.u32(n as u32);
            e.zeros(n - 8);
            if kind == 14 {
                e.v[n - 1] = 1
            }
        }
        _ => {
            let (_, d, c) = super::c04::bulk(65520, kind - 15, ek.big());
            e.v = d;
            cf = c;
            ty = u32::MAX
        }
    }
    let mut d = e.v;
    if cut {
        d.pop();
    }
    let step = if k == 3 { 3 } else { 1 };
    let cuts: Vec<usize> = if k == 1 || k == 2 || k == 3 { (1..).map(|j| j * step).take_while(|x| *x < d.len()).collect() } else { vec![] };
    let src = match k {
        0 => Src::Win { size: 1, tmp: true, hint: false },
        1 => Src::Chunks { cuts: &cuts, tmp: 0, hint: true },
        2 => Src::Chunks { cuts: &cuts, tmp: 0, hint: false },
        3 => Src::Chunks { cuts: &cuts, tmp: 0x5555_5555_5555_5555, hint: false },
        _ => Src::Reader { cap: 1, plan: &[] },
    };
    match kind {
        13 | 14 => {
            w.trans += 1;
            w.traces += 1;
            w.state(kind as u64);
            let r = crate::on3!(&d[..], &cf, ek, &src, p => p.parse::<perf_event_open_sys::bindings::perf_event_attr>().map(|a| a.size));
            let want = if cut { Err(ErrorKind::Eof) } else if kind == 13 { Ok(n as u32) } else { Err(ErrorKind::UnsupportedData) };
            let got = r.map_err(|e| e.kind());
            if got != want {
                return Err(format!("attribute struct of {n} bytes, {ek:?} {src:?}: expected {want:?}, got {got:?}"));
            }
            Ok(())
        }
        15.. => check(w, &d, &cf, ek, Api::Visit, &src, F1, &|| format!("record of 65520 bytes, kind {}", kind - 15)),
        _ => bare_src(w, ty, &d, &cf, &src, ek, F1, &|| format!("type {ty}, st {:#x}, of {n} bytes in small pieces, cut short: {cut}", cf.st)),
    }
}

fn primitive(w: &mut W, op: usize, len: usize, n: usize, k: usize, ek: EK) -> R {
    let d: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(37) + 1).collect();
    let size = [1usize, 1, 2, 4, 8, 5, 1, 2, 4, 8, 5][op];
    let need = len as u128 * size as u128;
    let cf = Cfg::default();
    w.trans += 1;
    w.traces += 1;
    w.state((op * 1000 + n) as u64 ^ mix(len as u64));
    let num = |b: &[u8]| b.iter().enumerate().map(|(i, x)| (*x as u64) << (8 * if ek.big() { b.len() - 1 - i } else { i })).sum::<u64>();
    many(k, n, &mut |src| {
        macro_rules! list { ($e:expr, $f:expr) => { $e.map(|v| v.iter().map($f).collect::<Vec<u64>>()).map_err(|e| kind(&e)) } }
        let arr = |b: &[u8; 5]| b.iter().fold(0u64, |h, x| h << 8 | *x as u64);
        let got: Result<Vec<u64>, u8> = crate::on3!(&d[..], &cf, ek, src, p => unsafe {
            match op {
                0 => list!(p.parse_bytes(len), |x| *x as u64),
                1 => list!(p.parse_repeated::<u8>(len), |x| *x as u64),
                2 => list!(p.parse_repeated::<u16>(len), |x| *x as u64),
                3 => list!(p.parse_repeated::<u32>(len), |x| *x as u64),
                4 => list!(p.parse_repeated::<u64>(len), |x| *x),
                5 => list!(p.parse_repeated::<[u8; 5]>(len), arr),
                6 => list!(p.parse_slice::<u8>(len), |x| *x as u64),
                7 => list!(p.parse_slice::<u16>(len), |x| *x as u64),
                8 => list!(p.parse_slice::<u32>(len), |x| *x as u64),
                9 => list!(p.parse_slice::<u64>(len), |x| *x),
                _ => list!(p.parse_slice::<[u8; 5]>(len), arr),
            }
        });
        let want: Result<Vec<u64>, u8> = if need > n as u128 {
            Err(EOF | if need > usize::MAX as u128 { INV } else { 0 })
        } else {
            Ok((0..len).map(|j| { let b = &d[j * size..(j + 1) * size]; if size == 5 { arr(b.try_into().unwrap()) } else { num(b) } }).collect())
        };
        let ok = match (&got, &want) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => a & b != 0,
            _ => false,
        };
        if !ok {
            let name = ["parse_bytes", "parse_repeated::<u8>", "parse_repeated::<u16>", "parse_repeated::<u32>", "parse_repeated::<u64>", "parse_repeated::<[u8; 5]>", "parse_slice::<u8>", "parse_slice::<u16>", "parse_slice::<u32>", "parse_slice::<u64>", "parse_slice::<[u8; 5]>"][op];
            return Err(format!("{name}({len:#x}) with {n} bytes available, {ek:?} {src:?}: model {want:x?}, implementation {got:x?}"));
        }
        Ok(())
    })
}

