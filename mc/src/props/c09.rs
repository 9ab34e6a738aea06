//! C09: memory use is bounded by the bytes actually supplied.
use super::c04::{many, EK3};
use super::c08::WORDS;
use crate::alloc;
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::endian::Endian;
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::{perf_event_attr, perf_event_header};

const BASE: usize = 64 << 10;
const PER_BYTE: usize = 8;
const PER_CHUNK: usize = 192;

struct Null;
impl<'a> Visitor<'a> for Null {
    type Output = ();
    fn visit_unimplemented(self, _: RecordMetadata) {}
}

/// What is asked of the parser.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Visit,
    Rec,
    Meta,
    Typed(u32),
    Attr,
    Group,
    Bytes(usize),
    Rep(usize, usize),
    Slice(usize, usize),
}

pub fn perform<'p, B: ParseBuf<'p>, E: Endian>(p: &mut Parser<B, E>, op: Op) -> ParseResult<usize> {
    macro_rules! t { ($t:ty) => {{ let _x: $t = p.parse()?; 1 }} }
    Ok(match op {
        Op::Visit => {
            p.parse_record(Null)?;
            1
        }
        Op::Rec => t!(Record),
        Op::Meta => {
            let (mut q, _) = p.parse_metadata()?;
            let _r = q.parse_rest()?;
            1
        }
        Op::Typed(ty) => match ty {
            1 => t!(Mmap),
            3 => t!(Comm),
            9 => t!(Sample),
            10 => t!(Mmap2),
            16 => t!(Namespaces),
            17 => t!(KSymbol),
            19 => t!(CGroup),
            20 => t!(TextPoke),
            _ => p.parse_rest()?.len(),
        },
        Op::Attr => t!(perf_event_attr),
        Op::Group => t!(ReadGroup),
        Op::Bytes(n) => p.parse_bytes(n)?.len(),
        Op::Rep(k, n) => match k {
            0 => p.parse_repeated::<u8>(n)?.len(),
            1 => p.parse_repeated::<u16>(n)?.len(),
            2 => p.parse_repeated::<u32>(n)?.len(),
            3 => p.parse_repeated::<u64>(n)?.len(),
            4 => p.parse_repeated::<BranchEntry>(n)?.len(),
            5 => p.parse_repeated::<[u8; 100]>(n)?.len(),
            _ => p.parse_repeated::<perf_event_header>(n)?.len(),
        },
        Op::Slice(k, n) => unsafe {
            match k {
                0 => p.parse_slice::<u8>(n)?.len(),
                1 => p.parse_slice::<u16>(n)?.len(),
                2 => p.parse_slice::<u32>(n)?.len(),
                3 => p.parse_slice::<u64>(n)?.len(),
                4 => p.parse_slice::<BranchEntry>(n)?.len(),
                5 => p.parse_slice::<[u8; 100]>(n)?.len(),
                _ => p.parse_slice::<perf_event_header>(n)?.len(),
            }
        },
    })
}

fn chunks(s: &Src, n: usize) -> usize {
    match s {
        Src::Slice => 1,
        Src::Chunks { cuts, .. } => cuts.len() + 1,
        Src::Win { size, .. } => n / size + 1,
        Src::Reader { cap, plan } => n / plan.iter().copied().min().unwrap_or(*cap).min(*cap) + 1,
    }
}

fn measure(w: &mut W, d: &[u8], cf: &Cfg, ek: EK, src: &Src, op: Op) -> R {
    let (used, ok) = crate::on3!(d, cf, ek, src, p => {
        let b = alloc::reset_peak();
        let r = perform(&mut p, op).is_ok();
        ((alloc::peak() - b) as usize, r)
    });
    let bound = BASE + PER_BYTE * d.len() + PER_CHUNK * chunks(src, d.len());
    w.trans += 1;
    w.traces += 1;
    w.state(mix(used as u64 / 64) ^ ok as u64);
    w.note(|| format!("{op:?} of {} bytes from {src:?}: peak {used} bytes, bound {bound}", d.len()));
    if used > bound {
        return Err(format!("{op:?} with {} bytes available ({} chunks), {ek:?} {src:?} {cf:x?}: {used} bytes allocated at once, bound {bound}\n input {}", d.len(), chunks(src, d.len()), crate::dump::hex(d, 200)));
    }
    Ok(())
}

/// 64-bit lengths worth trying for a field.
const LENS: [u64; 20] = [
    0, 1, 100, 5000, 1 << 14, 1 << 16, 100_000, 1 << 20, 1 << 22, 1 << 24, 1 << 26, 1 << 28, 1 << 29, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 57, 1 << 60, 1 << 63, u64::MAX,
];

/// sources for big inputs: (kind)
fn big_src(k: usize, n: usize, f: &mut dyn FnMut(&Src) -> R) -> R {
    let cuts = |step: usize| -> Vec<usize> { (1..).map(|j| j * step).take_while(|p| *p < n).collect() };
    match k {
        0 => f(&Src::Slice),
        // (a larger temporary chunk would be copied again for every element)
        1 if n > 20_000 => f(&Src::Win { size: 4096, tmp: true, hint: true }),
        1 => f(&Src::Chunks { cuts: &[], tmp: 1, hint: false }),
        2 => f(&Src::Chunks { cuts: &[], tmp: 0, hint: false }),
        3 => f(&Src::Chunks { cuts: &cuts(1000), tmp: 0, hint: false }),
        4 => f(&Src::Chunks { cuts: &cuts(1000), tmp: u64::MAX, hint: true }),
        5 => f(&Src::Chunks { cuts: &cuts(37), tmp: 0x5555_5555_5555_5555, hint: false }),
        6 => f(&Src::Reader { cap: 8192, plan: &[] }),
        7 => f(&Src::Reader { cap: 64, plan: &[7, 1] }),
        8 => f(&Src::Chunks { cuts: &cuts(8), tmp: 0, hint: true }),
        _ => f(&Src::Win { size: 4096, tmp: true, hint: false }),
    }
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    const AVAIL: [usize; 9] = [0, 8, 16, 40, 500, 4000, 17000, 40000, 60000];

    // one hostile length in each variable part, framed (the record itself is complete)
    v.push(suite("framed_lengths", "9 kinds of variable part x 20 declared lengths up to 2^64-1 x 9 amounts of data present x 10 sources x 3 byte orders x 3 interfaces", 9 * 20 * 9 * 10 * 3 * 3, |i, w| {
        let mut c = Ch(i);
        let part = c.u(9);
        let n = *c.of(&LENS);
        let have = *c.of(&AVAIL);
        let k = c.u(10);
        let ek = *c.of(&EK3);
        let op = *c.of(&[Op::Visit, Op::Rec, Op::Meta]);
        let (ty, cf, d) = field(part, n, have, ek.big());
        let mut e = Enc::new(ek.big(), 0);
        framed(&mut e, ty, 0, |e| e.v.extend_from_slice(&d));
        let d = e.v;
        big_src(k, d.len(), &mut |s| measure(w, &d, &cf, ek, s, op))
    }));
    v.push(suite("bare_lengths", "the same without a frame, from sources that may not know their length, up to 1 MB present", 9 * 20 * 11 * 10 * 3, |i, w| {
        let mut c = Ch(i);
        let part = c.u(9);
        let n = *c.of(&LENS);
        let have = c.u(11);
        let have = if have < 9 { AVAIL[have] } else { [200_000, 1_000_000][have - 9] };
        let k = c.u(10);
        let ek = *c.of(&EK3);
        if have > 60000 && matches!(k, 4 | 5 | 7 | 8) {
            return Ok(());
        }
        let (ty, cf, d) = field(part, n, have, ek.big());
        let op = if part == 3 { Op::Group } else { Op::Typed(ty) };
        let d = if part == 3 { d } else { d };
        big_src(k, d.len(), &mut |s| measure(w, &d, &cf, ek, s, op))
    }));
    v.push(suite("primitives", "parse_bytes, parse_repeated and parse_slice of 7 element types x 20 lengths x 9 amounts of data x 10 sources x 3 byte orders", 15 * 20 * 9 * 10 * 3, |i, w| {
        let mut c = Ch(i);
        let op = c.u(15);
        let n = *c.of(&LENS) as usize;
        let have = *c.of(&AVAIL);
        let k = c.u(10);
        let ek = *c.of(&EK3);
        let op = match op {
            0 => Op::Bytes(n),
            1..=7 => Op::Rep(op - 1, n),
            _ => Op::Slice(op - 8, n),
        };
        let d = vec![3u8; have];
        big_src(k, have, &mut |s| measure(w, &d, &Cfg::default(), ek, s, op))
    }));
    v.push(suite("headers", "frames of 12 types declaring 16 sizes up to 65535 x 12 amounts of data present x 10 sources x 3 interfaces", 12 * 16 * 12 * 10 * 3, |i, w| {
        let mut c = Ch(i);
        let ty = *c.of(&[0u32, 1, 2, 3, 9, 10, 14, 16, 17, 19, 20, 99]);
        let size = *c.of(&[0u16, 7, 8, 9, 16, 24, 63, 64, 256, 4096, 16384, 30000, 40000, 65528, 65534, 65535]);
        let have = *c.of(&[0usize, 1, 8, 16, 55, 56, 248, 5000, 20000, 65520, 65527, 70000]);
        let k = c.u(10);
        let op = *c.of(&[Op::Visit, Op::Rec, Op::Meta]);
        let mut d = ty.to_le_bytes().to_vec();
        d.extend_from_slice(&0u16.to_le_bytes());
        d.extend_from_slice(&size.to_le_bytes());
        d.resize(8 + have, 1);
        let cf = Cfg { st: st::CALLCHAIN | st::TID, sid_all: ty % 2 == 0, ..Default::default() };
        big_src(k, d.len(), &mut |s| measure(w, &d, &cf, EK::Native, s, op))
    }));
    v.push(suite("attrs", "serialized attributes declaring 24 sizes up to 2^32-1 x 9 amounts of data present x 10 sources x 2 byte orders", 24 * 9 * 10 * 2, |i, w| {
        let mut c = Ch(i);
        let size = *c.of(&[0u32, 1, 7, 8, 63, 64, 72, 80, 96, 104, 112, 120, 128, 136, 137, 200, 4096, 60000, 65536, 1 << 20, 1 << 24, 1 << 30, 1 << 31, u32::MAX]);
        let have = *c.of(&AVAIL);
        let k = c.u(10);
        let ek = *c.of(&[EK::Native, EK::Big]);
        let mut e = Enc::new(ek.big(), 0);
        e.u32(1);
        e.u32(size);
        e.zeros(have);
        let d = e.v;
        big_src(k, d.len(), &mut |s| measure(w, &d, &Cfg::default(), ek, s, Op::Attr))
    }));
    // hostile words everywhere
    let depth = t.pick(3u32, 4);
    let n: u64 = (0..=depth).map(|k| 16u64.pow(k)).sum();
    v.push(suite("sample_words", format!("samples of up to {depth} hostile words under 10 configurations x 5 sources x framed or not"), n * 10 * 5 * 2, |i, w| {
        let mut c = Ch(i);
        let s = *c.of(&[st::READ, st::CALLCHAIN, st::RAW, st::BRANCH_STACK, st::STACK_USER, st::AUX, st::CALLCHAIN | st::RAW, st::STACK_USER | st::AUX, st::READ | st::BRANCH_STACK, st::ALL]);
        let k = *c.of(&[0, 1, 3, 6, 9]);
        let fr = c.b();
        let (mut m, mut x) = (0, c.0);
        while x >= 16u64.pow(m) {
            x -= 16u64.pow(m);
            m += 1;
        }
        let mut ch = Ch(x);
        let mut e = Enc::new(false, 0);
        let put = |e: &mut Enc| {
            for _ in 0..m {
                e.u64(*ch.of(&WORDS))
            }
        };
        if fr {
            framed(&mut e, 9, 0, put)
        } else {
            let mut put = put;
            put(&mut e)
        }
        let cf = Cfg { st: s, rf: rf::ALL, bst: BR_HW_INDEX, ru: u64::MAX, ri: 7, ..Default::default() };
        let d = e.v;
        many(k, d.len(), &mut |src| measure(w, &d, &cf, EK::Native, src, if fr { Op::Visit } else { Op::Typed(9) }))
    }));
    let sh = shapes();
    let n = sh.len() as u64;
    v.push(suite("shapes", format!("{n} well-formed record shapes x 16 sources x 3 byte orders x 3 interfaces"), n * 16 * 9, move |i, w| {
        let mut c = Ch(i);
        let k = c.u(16);
        let ek = *c.of(&EK3);
        let op = *c.of(&[Op::Visit, Op::Rec, Op::Meta]);
        let s = c.of(&sh);
        let d = s.bytes(ek.big());
        many(k, d.len(), &mut |src| measure(w, &d, &s.cfg, ek, src, op))
    }));
    v
}

/// A body whose variable part claims `n` elements or bytes while `have` bytes follow.
fn field(part: usize, n: u64, have: usize, big: bool) -> (u32, Cfg, Vec<u8>) {
    let mut e = Enc::new(big, 1);
    let mut cf = Cfg { rf: rf::GROUP | rf::ID | rf::LOST, ..Default::default() };
    let mut ty = 9;
    match part {
        0 => {
            cf.st = st::CALLCHAIN;
            e.u64(n)
        }
        1 => {
            cf.st = st::RAW;
            e.u32(n as u32)
        }
        2 => {
            cf.st = st::BRANCH_STACK;
            e.u64(n)
        }
        3 => {
            cf.st = st::READ;
            e.u64(n)
        }
        4 => {
            cf.st = st::STACK_USER;
            e.u64(n)
        }
        5 => {
            cf.st = st::AUX;
            e.u64(n)
        }
        6 => {
            ty = 16;
            e.u64(0);
            e.u64(n)
        }
        7 => {
            ty = 20;
            e.u64(0);
            e.u16(n as u16);
            e.u16((n >> 3) as u16)
        }
        _ => {
            // names, at most what is there
            ty = [1, 3, 10, 17, 19][(n % 5) as usize];
            e.zeros(64)
        }
    }
    let at = e.v.len();
    e.v.resize(at + have, 2);
    e.v.truncate(65000.max(if have > 65000 { usize::MAX } else { 0 }));
    (ty, cf, e.v)
}
