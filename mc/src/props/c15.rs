//! C15: packed words are decoded bit-exactly. The oracle is written from linux/perf_event.h alone.
use super::c04::{many, EK3};
use crate::enc::Enc;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_data::*;

fn bit(x: u64, at: u32, n: u32) -> u64 {
    x >> at & ((1u64 << n) - 1)
}

/// The bitfield layout of `union perf_mem_data_src`.
pub fn src_word(d: &DataSource, x: u64) -> R {
    let got = [
        d.mem_op().bits(),
        d.mem_lvl().bits(),
        d.mem_snoop().bits(),
        d.mem_lock().bits(),
        d.mem_dtlb().bits(),
        u8::from(d.mem_lvl_num()) as u64,
        d.mem_remote() as u64,
        d.mem_blk().bits(),
        d.mem_hops() as u64,
    ];
    let want = [
        bit(x, 0, 5),
        bit(x, 5, 14),
        bit(x, 19, 5) << 19 | bit(x, 38, 2) << 38,
        bit(x, 24, 2),
        bit(x, 26, 7),
        bit(x, 33, 4),
        bit(x, 37, 1),
        bit(x, 40, 3),
        bit(x, 43, 3),
    ];
    if got != want {
        return Err(format!("data source {x:#018x}: op, lvl, snoop, lock, dtlb, lvl_num, remote, blk, hops = {got:x?}, expected {want:x?}"));
    }
    Ok(())
}
/// `struct perf_branch_entry`.
pub fn branch_word(b: &BranchEntry, from: u64, to: u64, x: u64) -> R {
    let got = [b.from(), b.to(), b.mispred() as u64, b.predicted() as u64, b.in_tx() as u64, b.abort() as u64, b.cycles() as u64, u8::from(b.ty()) as u64];
    let want = [from, to, bit(x, 0, 1), bit(x, 1, 1), bit(x, 2, 1), bit(x, 3, 1), bit(x, 4, 16), bit(x, 20, 4)];
    if got != want {
        return Err(format!("branch flags {x:#018x}: from, to, mispred, predicted, in_tx, abort, cycles, type = {got:x?}, expected {want:x?}"));
    }
    Ok(())
}
pub fn txn_word(t: Txn, x: u64) -> R {
    if t.bits() != x || t.abort() as u64 != x >> 32 {
        return Err(format!("transaction {x:#018x}: bits {:#x} abort {:#x}", t.bits(), t.abort()));
    }
    let fl = [Txn::ELISION, Txn::TRANSACTION, Txn::SYNC, Txn::ASYNC, Txn::RETRY, Txn::CONFLICT, Txn::CAPACITY_WRITE, Txn::CAPACITY_READ];
    for (n, f) in fl.into_iter().enumerate() {
        if t.contains(f) != (x >> n & 1 == 1) {
            return Err(format!("transaction {x:#018x}: flag {n} is {}", t.contains(f)));
        }
    }
    Ok(())
}
pub fn aux_word(f: AuxFlags, x: u64) -> R {
    if f.bits() != x || u8::from(f.pmu_format_type()) as u64 != bit(x, 8, 8) {
        return Err(format!("aux flags {x:#018x}: bits {:#x} pmu format {:#x}", f.bits(), u8::from(f.pmu_format_type())));
    }
    for (n, f1) in [AuxFlags::TRUNCATED, AuxFlags::OVERWRITE, AuxFlags::PARTIAL, AuxFlags::COLLISION].into_iter().enumerate() {
        if f.contains(f1) != (x >> n & 1 == 1) {
            return Err(format!("aux flags {x:#018x}: flag {n} is {}", f.contains(f1)));
        }
    }
    Ok(())
}

/// Decode one word of the given kind with a fresh parser.
fn word(kind: usize, x: u64, big: bool) -> R {
    let b = if big { x.to_be_bytes() } else { x.to_le_bytes() };
    fn go<'p, E: Endian>(kind: usize, x: u64, b: &'p [u8], e: E) -> R {
        let mut p = Parser::new(b, ParseConfig::<Little>::default().with_endian(e));
        let bad = |e: ParseError| format!("a single 64-bit word does not parse: {e}");
        match kind {
            0 => src_word(&p.parse::<DataSource>().map_err(bad)?, x),
            1 => txn_word(p.parse::<Txn>().map_err(bad)?, x),
            2 => aux_word(p.parse::<AuxFlags>().map_err(bad)?, x),
            _ => {
                let a = p.parse::<SampleRegsAbi>().map_err(bad)?;
                if u64::from(a) != x || a != SampleRegsAbi::new(x) {
                    return Err(format!("register abi {x:#x} becomes {:#x}", u64::from(a)));
                }
                for (v, c) in [(0, SampleRegsAbi::NONE), (1, SampleRegsAbi::ABI_32), (2, SampleRegsAbi::ABI_64)] {
                    if (a == c) != (x == v) {
                        return Err(format!("register abi {x:#x} compared with {v}"));
                    }
                }
                Ok(())
            }
        }
    }
    if big {
        go(kind, x, &b, Big)
    } else {
        go(kind, x, &b, Little)
    }
}
fn branch(x: u64, from: u64, to: u64) -> R {
    let mut b = [0u8; 24];
    b[..8].copy_from_slice(&from.to_le_bytes());
    b[8..16].copy_from_slice(&to.to_le_bytes());
    b[16..].copy_from_slice(&x.to_le_bytes());
    let mut p = Parser::new(&b[..], ParseConfig::<Little>::default());
    let e = p.parse::<BranchEntry>().map_err(|e| format!("a branch entry does not parse: {e}"))?;
    branch_word(&e, from, to, x)
}

/// i-th word with at most three bits set over the given background.
fn triple(c: &mut Ch) -> u64 {
    let b = 1u64 << c.n(64) | 1 << c.n(64) | 1 << c.n(64);
    if c.b() {
        !b
    } else {
        b
    }
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    const BATCH: u64 = 4096;
    let win: u32 = t.pick(26, 30);
    const BACK: [u64; 4] = [0, u64::MAX, 0xAAAA_AAAA_AAAA_AAAA, 0x5555_5555_5555_5555];
    // exhaustive windows over all-zero / all-one / alternating surroundings
    let nb = t.pick(2, 4);
    v.push(suite("branch_low", format!("all 2^{win} low flag words of a branch entry x {nb} surroundings"), (1 << win) / BATCH * nb, move |i, w| {
        let mut c = Ch(i);
        let back = BACK[c.u(nb as usize)] & !((1 << win) - 1);
        let base = c.0 * BATCH;
        for k in 0..BATCH {
            let x = back | (base + k);
            branch(x, !x, x.rotate_left(13))?;
        }
        w.trans += BATCH;
        w.traces += BATCH;
        w.state(i ^ 1 << 60);
        Ok(())
    }));
    // data source: bits 0..24, 22..46 and the reserved rest
    let starts: Vec<u32> = if win == 26 { vec![0, 20, 38] } else { vec![0, 16, 34] };
    let ns = starts.len() as u64;
    v.push(suite("data_src_windows", format!("memory data source: every value of every {win}-bit window starting at bits {starts:?} x {nb} surroundings"), (1 << win) / BATCH * nb * ns, move |i, w| {
        let mut c = Ch(i);
        let m = ((1u64 << win) - 1) << starts[c.u(starts.len())];
        let back = BACK[c.u(nb as usize)] & !m;
        let base = c.0 * BATCH;
        for k in 0..BATCH {
            word(0, back | ((base + k) << m.trailing_zeros() & m), false)?;
        }
        w.trans += BATCH;
        w.traces += BATCH;
        w.state(i ^ 2 << 60);
        Ok(())
    }));
    v.push(suite("aux_low", "AUX flags: all 2^20 low words x 2 surroundings x both byte orders", (1 << 20) / BATCH * 4, move |i, w| {
        let mut c = Ch(i);
        let back = BACK[c.u(2)] & !0xf_ffff;
        let big = c.b();
        for k in 0..BATCH {
            word(2, back | (c.0 * BATCH + k), big)?;
        }
        w.trans += BATCH;
        w.traces += BATCH;
        w.state(i ^ 3 << 60);
        Ok(())
    }));
    v.push(suite("txn_halves", "transaction word: every 16-bit quarter exhaustively x 4 surroundings x both byte orders", 4 * 16 * 4 * 2, move |i, w| {
        let mut c = Ch(i);
        let q = c.n(4) * 16;
        let back = BACK[c.u(4)] & !(0xffff << q);
        let big = c.b();
        for k in 0..BATCH {
            word(1, back | (c.0 * BATCH + k) << q, big)?;
        }
        w.trans += BATCH;
        w.traces += BATCH;
        w.state(i ^ 4 << 60);
        Ok(())
    }));
    v.push(suite("bit_triples", "every word with up to three bits set, and every complement x {data source, transaction, AUX flags, register ABI} x both byte orders", 64 * 64 * 64 * 2 * 8, |i, w| {
        let mut c = Ch(i);
        let x = triple(&mut c);
        let big = c.b();
        w.trans += 1;
        w.traces += 1;
        w.state(mix(x) ^ c.0);
        word(c.u(4), x, big)
    }));
    v.push(suite("branch_triples", "every branch flag word with up to three bits set, and every complement x {flags, from, to}", 64 * 64 * 64 * 2 * 3, |i, w| {
        let mut c = Ch(i);
        let x = triple(&mut c);
        w.trans += 1;
        w.traces += 1;
        w.state(mix(x) ^ 0x77);
        match c.n(3) {
            0 => branch(x, 0, u64::MAX),
            1 => branch(0, x, u64::MAX),
            _ => branch(0, u64::MAX, x),
        }
    }));
    v.push(suite("snoop", "MemSnoop::new for all pairs of bytes, and words with one high bit", 65536 + 128, |i, w| {
        let (a, b) = if i < 65536 { (i & 255, i >> 8) } else { (1 << (i % 64), if i < 65600 { 0 } else { 1 << (i % 64) }) };
        let want = (a & 31) << 19 | (b & 3) << 38;
        let s = MemSnoop::new(a, b);
        w.trans += 1;
        w.traces += 1;
        w.state(want ^ 5 << 60);
        if s.bits() != want {
            return Err(format!("MemSnoop::new({a:#x}, {b:#x}) = {:#x}, expected {want:#x}", s.bits()));
        }
        Ok(())
    }));
    v.push(suite("codes", "every 16-bit code of KSYMBOL type, KSYMBOL flags, BPF type, BPF flags, through the records and alone x 2 byte orders; every 8-bit branch type, level number and PMU format", 65536 * 2, |i, w| {
        let mut c = Ch(i);
        let x = c.n(65536) as u16;
        let big = c.b();
        w.trans += 6;
        w.traces += 6;
        w.state(i ^ 6 << 60);
        codes(x, big)
    }));
    // the same words inside samples, through every kind of source
    let n3 = t.pick(64 * 64 * 2, 64 * 64 * 64 * 2);
    v.push(suite("in_samples", "words with up to two (three) bits set inside a sample with DATA_SRC, TRANSACTION and BRANCH_STACK (two entries) x 3 byte orders x 16 sources", n3 * 3 * 16, move |i, w| {
        let mut c = Ch(i);
        let ek = EK3[c.u(3)];
        let k = c.u(16);
        let b = if n3 == 64 * 64 * 2 {
            let b = 1u64 << c.n(64) | 1 << c.n(64);
            if c.b() {
                !b
            } else {
                b
            }
        } else {
            triple(&mut c)
        };
        in_sample(w, b, ek, k)
    }));
    v.push(suite("aux_records", "words with up to two bits set as flags of an AUX record x 3 byte orders x 16 sources", 64 * 64 * 2 * 3 * 16, |i, w| {
        let mut c = Ch(i);
        let ek = EK3[c.u(3)];
        let k = c.u(16);
        let b = 1u64 << c.n(64) | 1 << c.n(64);
        let x = if c.b() { !b } else { b };
        let mut e = Enc::new(ek.big(), 4);
        e.u64(!x);
        e.u64(x.rotate_left(7));
        e.u64(x);
        let d = Buf::new(&e.v, 0);
        let cf = Cfg::default();
        many(k, 24, &mut |src| {
            w.trans += 3;
            w.traces += 1;
            w.state(mix(x) ^ 9);
            on3!(d.get(), &cf, ek, src, p => {
                let a: Aux = p.parse().map_err(|e| format!("{e}"))?;
                if (a.aux_offset, a.aux_size) != (!x, x.rotate_left(7)) {
                    return Err(format!("AUX record around {x:#x}: {a:?}"));
                }
                aux_word(a.flags, x)
            })
        })
    }));
    v.push(suite("constants", "every named constant against the value in linux/perf_event.h", consts().len() as u64, |i, w| {
        let (n, a, b) = consts()[i as usize];
        w.trans += 1;
        w.traces += 1;
        w.state(mix(i) ^ b);
        if a != b {
            return Err(format!("constant {n} is {a:#x}, linux/perf_event.h says {b:#x}"));
        }
        Ok(())
    }));
    v
}

fn in_sample(w: &mut W, x: u64, ek: EK, k: usize) -> R {
    let mut e = Enc::new(ek.big(), 4);
    e.u64(2);
    // big-endian branch flag words are finding KF1 of C05
    let f = if ek.big() { 0 } else { x };
    let y = x.rotate_left(11);
    for v in [x, !x, f, y, !y, !f & if ek.big() { 0 } else { u64::MAX }, x, y] {
        e.u64(v);
    }
    let d = Buf::new(&e.v, 0);
    let cf = Cfg { st: st::BRANCH_STACK | st::DATA_SRC | st::TRANSACTION, ..Default::default() };
    let n = e.v.len();
    many(k, n, &mut |src| {
        w.trans += 3;
        w.traces += 1;
        w.state(mix(x) ^ 8);
        on3!(d.get(), &cf, ek, src, p => {
            let s: Sample = p.parse().map_err(|e| format!("sample does not parse: {e}"))?;
            let l = s.lbr().ok_or("no branch stack")?;
            if l.len() != 2 {
                return Err(format!("{} branch entries", l.len()));
            }
            branch_word(&l[0], x, !x, f)?;
            branch_word(&l[1], y, !y, !f & if ek.big() { 0 } else { u64::MAX })?;
            src_word(&s.data_src().ok_or("no data source")?, x)?;
            txn_word(s.transaction().ok_or("no transaction")?, y)
        })
    })
}

fn codes(x: u16, big: bool) -> R {
    let mut e = Enc::new(big, 1);
    e.u16(x);
    e.u16(!x);
    e.u32(7);
    e.fill(8);
    let mut k = Enc::new(big, 1);
    k.u64(5);
    k.u32(6);
    k.u16(x);
    k.u16(!x);
    k.name(3);
    fn go<E: Endian>(x: u16, bpf: &[u8], ks: &[u8], e: E) -> R {
        let c = ParseConfig::<Little>::default().with_endian(e);
        let bad = |e: ParseError| format!("code {x:#x}: {e}");
        let b: BpfEvent = Parser::new(bpf, c.clone()).parse().map_err(bad)?;
        let s: KSymbol = Parser::new(ks, c.clone()).parse().map_err(bad)?;
        let t1: BpfEventType = Parser::new(bpf, c.clone()).parse().map_err(bad)?;
        let t2: KSymbolType = Parser::new(bpf, c.clone()).parse().map_err(bad)?;
        let t3: KSymbolFlags = Parser::new(bpf, c).parse().map_err(bad)?;
        let got = [u16::from(b.ty), b.flags, u16::from(s.ksym_type), s.flags.bits(), u16::from(t1), u16::from(t2), t3.bits()];
        let want = [x, !x, x, !x, x, x, x];
        if got != want {
            return Err(format!("16-bit codes: {got:x?}, expected {want:x?}"));
        }
        let same = [
            (t1 == BpfEventType::UNKNOWN, x == 0),
            (t1 == BpfEventType::PROG_LOAD, x == 1),
            (t1 == BpfEventType::PROG_UNLOAD, x == 2),
            (t2 == KSymbolType::UNKNOWN, x == 0),
            (t2 == KSymbolType::BPF, x == 1),
            (t2 == KSymbolType::OOL, x == 2),
            (t3.contains(KSymbolFlags::UNREGISTER), x & 1 == 1),
            (t1 == BpfEventType::new(x), true),
            (t2 == KSymbolType::new(x), true),
        ];
        for (n, (a, b)) in same.into_iter().enumerate() {
            if a != b {
                return Err(format!("code {x:#x}: comparison {n} gives {a}"));
            }
        }
        Ok(())
    }
    if big {
        go(x, &e.v, &k.v, Big)?
    } else {
        go(x, &e.v, &k.v, Little)?
    }
    if x < 256 {
        let x = x as u8;
        for (n, v) in [u8::from(BranchType::new(x)), u8::from(MemLevelNum::new(x)), u8::from(AuxPmuFormatType::new(x))].into_iter().enumerate() {
            if v != x {
                return Err(format!("8-bit code {x:#x} number {n} becomes {v:#x}"));
            }
        }
    }
    Ok(())
}

pub fn consts() -> Vec<(&'static str, u64, u64)> {
    let mut v = vec![];
    macro_rules! fl { ($t:ident: $($n:ident = $x:expr),* $(,)?) => { $( v.push((concat!(stringify!($t), "::", stringify!($n)), $t::$n.bits() as u64, $x as u64)); )* } }
    macro_rules! en { ($t:ident, $r:ty: $($n:ident = $x:expr),* $(,)?) => { $( v.push((concat!(stringify!($t), "::", stringify!($n)), <$r>::from($t::$n) as u64, $x as u64)); )* } }
    fl!(SampleFlags: IP = 1 << 0, TID = 1 << 1, TIME = 1 << 2, ADDR = 1 << 3, READ = 1 << 4, CALLCHAIN = 1 << 5, ID = 1 << 6, CPU = 1 << 7, PERIOD = 1 << 8,
        STREAM_ID = 1 << 9, RAW = 1 << 10, BRANCH_STACK = 1 << 11, REGS_USER = 1 << 12, STACK_USER = 1 << 13, WEIGHT = 1 << 14, DATA_SRC = 1 << 15,
        IDENTIFIER = 1 << 16, TRANSACTION = 1 << 17, REGS_INTR = 1 << 18, PHYS_ADDR = 1 << 19, AUX = 1 << 20, CGROUP = 1 << 21, DATA_PAGE_SIZE = 1 << 22,
        CODE_PAGE_SIZE = 1 << 23, WEIGHT_STRUCT = 1 << 24);
    fl!(ReadFormat: TOTAL_TIME_ENABLED = 1, TOTAL_TIME_RUNNING = 2, ID = 4, GROUP = 8, LOST = 16);
    fl!(AuxFlags: TRUNCATED = 1, OVERWRITE = 2, PARTIAL = 4, COLLISION = 8, PMU_FORMAT_MASK = 0xff00);
    en!(AuxPmuFormatType, u8: CORESIGHT = 0, CORESIGHT_RAW = 1);
    en!(KSymbolType, u16: UNKNOWN = 0, BPF = 1, OOL = 2);
    fl!(KSymbolFlags: UNREGISTER = 1);
    en!(BpfEventType, u16: UNKNOWN = 0, PROG_LOAD = 1, PROG_UNLOAD = 2);
    en!(SampleRegsAbi, u64: NONE = 0, ABI_32 = 1, ABI_64 = 2);
    en!(BranchType, u8: UNKNOWN = 0, COND = 1, UNCOND = 2, IND = 3, CALL = 4, IND_CALL = 5, RET = 6, SYSCALL = 7, COND_CALL = 9, COND_RET = 10);
    fl!(MemOp: NA = 1, LOAD = 2, STORE = 4, PFETCH = 8, EXEC = 16);
    fl!(MemLevel: NA = 1, HIT = 2, MISS = 4, L1 = 8, LFB = 0x10, L2 = 0x20, L3 = 0x40, LOC_RAM = 0x80, REM_RAM1 = 0x100, REM_RAM2 = 0x200, REM_CCE1 = 0x400,
        REM_CCE2 = 0x800, IO = 0x1000, UNC = 0x2000);
    fl!(MemLock: NA = 1, LOCKED = 2);
    fl!(MemDtlb: NA = 1, HIT = 2, MISS = 4, L1 = 8, L2 = 0x10, WK = 0x20, OS = 0x40);
    fl!(MemSnoopX: FWD = 1, PEER = 2);
    fl!(MemBlk: NA = 1, DATA = 2, ADDR = 4);
    fl!(MemSnoop: NA = 1u64 << 19, NONE = 2u64 << 19, HIT = 4u64 << 19, MISS = 8u64 << 19, HITM = 16u64 << 19, FWD = 1u64 << 38, PEER = 2u64 << 38);
    fl!(Txn: ELISION = 1, TRANSACTION = 2, SYNC = 4, ASYNC = 8, RETRY = 16, CONFLICT = 32, CAPACITY_WRITE = 64, CAPACITY_READ = 128, ABORT_MASK = 0xffff_ffff_0000_0000u64);
    en!(MemLevelNum, u8: L1 = 1, L2 = 2, L3 = 3, L4 = 4, ANY_CACHE = 0xb, LFB = 0xc, RAM = 0xd, PMEM = 0xe, NA = 0xf);
    v
}
