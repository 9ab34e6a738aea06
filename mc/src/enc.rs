//! Encoders: how the kernel writes the records (both byte orders).
use crate::engine::mix;
use crate::spec::{to_odd, ODD_ON, rf, st, Cfg, BR_COUNTERS, BR_HW_INDEX};

#[derive(Clone)]
pub struct Enc {
    pub v: Vec<u8>,
    pub big: bool,
    ctr: u64,
    n: u32,
    mode: Val,
}
/// What the fields of an encoded record contain.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Val {
    /// values that all differ
    Mixed,
    Zeros,
    Ones,
    /// 1, 2, 3 ...
    Small,
    /// top bit set
    High,
    /// the same value everywhere
    Same,
    /// mixed, but field n is zero / all ones / the same as the one before
    Zero(u32),
    One(u32),
    Prev(u32),
    /// mixed, but field n has this value
    Is(u32, u64),
    /// mixed, but these two fields have these values
    Two(u32, u64, u32, u64),
}
macro_rules! put { ($n:ident, $t:ty) => {
    pub fn $n(&mut self, x: $t) {
        let b = if ODD_ON.get() { to_odd(x.to_le_bytes()) } else if self.big { x.to_be_bytes() } else { x.to_le_bytes() };
        self.v.extend_from_slice(&b)
    }
} }
impl Enc {
    pub fn new(big: bool, salt: u64) -> Self {
        Enc { v: Vec::with_capacity(256), big, ctr: salt << 32, n: 0, mode: Val::Mixed }
    }
    put!(u8, u8);
    put!(u16, u16);
    put!(u32, u32);
    put!(u64, u64);
    /// A fresh value, different from (practically) all others.
    pub fn val(&mut self) -> u64 {
        self.ctr += 1;
        self.n += 1;
        let k = self.n - 1;
        match self.mode {
            Val::Zeros => 0,
            Val::Ones => u64::MAX,
            Val::Small => k as u64 + 1,
            Val::High => 0x8000_8000_8000_8000 | k as u64,
            Val::Same => 0x0101_0101_0101_0101,
            Val::Zero(j) if j == k => 0,
            Val::One(j) if j == k => u64::MAX,
            Val::Prev(j) if j == k => mix(self.ctr - 1),
            Val::Is(j, v) if j == k => v,
            Val::Two(j, v, ..) if j == k => v,
            Val::Two(_, _, j, v) if j == k => v,
            _ => mix(self.ctr),
        }
    }
    pub fn w64(&mut self) {
        let v = self.val();
        self.u64(v)
    }
    pub fn w32(&mut self) {
        let v = self.val() as u32;
        self.u32(v)
    }
    pub fn w16(&mut self) {
        let v = self.val() as u16;
        self.u16(v)
    }
    pub fn fill(&mut self, n: usize) {
        let mut i = 0;
        while i < n {
            let v = self.val().to_le_bytes();
            let k = (n - i).min(8);
            self.v.extend_from_slice(&v[..k]);
            i += k;
        }
    }
    /// Non-NUL bytes.
    pub fn name(&mut self, n: usize) {
        let s = self.v.len();
        self.fill(n);
        for b in &mut self.v[s..] {
            if *b == 0 {
                *b = b'z';
            }
        }
    }
    pub fn zeros(&mut self, n: usize) {
        self.v.resize(self.v.len() + n, 0);
    }
}

/// Variable parts of a sample.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sm {
    pub nr: usize,
    pub cc: usize,
    pub raw: usize,
    pub lbr: usize,
    pub abi_u: u64,
    pub abi_i: u64,
    pub stack: usize,
    pub dyn_: usize,
    pub aux: usize,
}
impl Sm {
    pub const S: Sm = Sm { nr: 2, cc: 3, raw: 5, lbr: 2, abi_u: 2, abi_i: 1, stack: 8, dyn_: 6, aux: 7 };
    pub const Z: Sm = Sm { nr: 0, cc: 0, raw: 0, lbr: 0, abi_u: 0, abi_i: 0, stack: 0, dyn_: 0, aux: 0 };
}

pub fn read(e: &mut Enc, f: u64, nr: usize) {
    if f & rf::GROUP != 0 {
        e.u64(nr as u64);
        if f & rf::TE != 0 {
            e.w64()
        }
        if f & rf::TR != 0 {
            e.w64()
        }
        for _ in 0..nr {
            e.w64();
            if f & rf::ID != 0 {
                e.w64()
            }
            if f & rf::LOST != 0 {
                e.w64()
            }
        }
    } else {
        e.w64();
        for b in [rf::TE, rf::TR, rf::ID, rf::LOST] {
            if f & b != 0 {
                e.w64()
            }
        }
    }
}

pub fn sample(e: &mut Enc, c: &Cfg, s: &Sm) {
    let id = e.val();
    if c.st & st::IDENTIFIER != 0 {
        e.u64(id)
    }
    if c.st & st::IP != 0 {
        e.w64()
    }
    if c.st & st::TID != 0 {
        e.w32();
        e.w32()
    }
    if c.st & st::TIME != 0 {
        e.w64()
    }
    if c.st & st::ADDR != 0 {
        e.w64()
    }
    if c.st & st::ID != 0 {
        e.u64(id)
    }
    if c.st & st::STREAM_ID != 0 {
        e.w64()
    }
    if c.st & st::CPU != 0 {
        e.w32();
        e.w32()
    }
    if c.st & st::PERIOD != 0 {
        e.w64()
    }
    if c.st & st::READ != 0 {
        read(e, c.rf, s.nr)
    }
    if c.st & st::CALLCHAIN != 0 {
        e.u64(s.cc as u64);
        for _ in 0..s.cc {
            e.w64()
        }
    }
    if c.st & st::RAW != 0 {
        e.u32(s.raw as u32);
        e.fill(s.raw);
        let t = (4 + s.raw) % 8;
        if t != 0 {
            e.fill(8 - t)
        }
    }
    if c.st & st::BRANCH_STACK != 0 {
        e.u64(s.lbr as u64);
        if c.bst & BR_HW_INDEX != 0 {
            e.w64()
        }
        for _ in 0..s.lbr {
            e.w64();
            e.w64();
            // big-endian flag words are finding KF1's business
            let f = if e.big { 0 } else { e.val() };
            e.u64(f);
        }
        if c.bst & BR_COUNTERS != 0 {
            for _ in 0..s.lbr {
                e.w64()
            }
        }
    }
    if c.st & st::REGS_USER != 0 {
        e.u64(s.abi_u);
        for _ in 0..if s.abi_u == 0 { 0 } else { c.ru.count_ones() } {
            e.w64()
        }
    }
    if c.st & st::STACK_USER != 0 {
        e.u64(s.stack as u64);
        e.fill(s.stack);
        if s.stack != 0 {
            e.u64(s.dyn_ as u64);
        }
    }
    if c.st & (st::WEIGHT | st::WEIGHT_STRUCT) != 0 {
        e.w64()
    }
    if c.st & st::DATA_SRC != 0 {
        e.w64()
    }
    if c.st & st::TRANSACTION != 0 {
        e.w64()
    }
    if c.st & st::REGS_INTR != 0 {
        e.u64(s.abi_i);
        for _ in 0..if s.abi_i == 0 { 0 } else { c.ri.count_ones() } {
            e.w64()
        }
    }
    for b in [st::PHYS_ADDR, st::CGROUP, st::DATA_PAGE_SIZE, st::CODE_PAGE_SIZE] {
        if c.st & b != 0 {
            e.w64()
        }
    }
    if c.st & st::AUX != 0 {
        e.u64(s.aux as u64);
        e.fill(s.aux);
    }
}

/// Variable parts of a record body.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Body {
    /// `name` non-NUL bytes then `pad` NULs for named records, `name` bytes for unknown ones
    N { name: usize, pad: usize },
    Text { old: usize, new: usize },
    Ns(usize),
    Sample(Sm),
    /// build id length byte
    Build { len: u8, name: usize, pad: usize },
}
pub const N0: Body = Body::N { name: 0, pad: 0 };

#[derive(Clone, Debug)]
pub struct Shape {
    pub name: String,
    pub ty: u32,
    pub misc: u16,
    pub cfg: Cfg,
    pub body: Body,
}

pub fn body(e: &mut Enc, ty: u32, c: &Cfg, b: &Body) {
    let (name, pad) = match *b {
        Body::N { name, pad } | Body::Build { name, pad, .. } => (name, pad),
        _ => (0, 0),
    };
    let named = |e: &mut Enc| {
        e.name(name);
        e.zeros(pad);
    };
    match ty {
        1 => {
            e.w32();
            e.w32();
            e.w64();
            e.w64();
            e.w64();
            named(e)
        }
        2 => {
            e.w64();
            e.w64()
        }
        3 => {
            e.w32();
            e.w32();
            named(e)
        }
        4 | 7 => {
            for _ in 0..4 {
                e.w32()
            }
            e.w64()
        }
        5 | 6 | 11 => {
            for _ in 0..3 {
                e.w64()
            }
        }
        8 => {
            e.w32();
            e.w32();
            read(e, c.rf, 1)
        }
        9 => {
            if let Body::Sample(s) = b {
                sample(e, c, s)
            }
        }
        10 => {
            e.w32();
            e.w32();
            e.w64();
            e.w64();
            e.w64();
            if let Body::Build { len, .. } = b {
                e.u8(*len);
                e.fill(3);
                e.fill(20)
            } else {
                e.w32();
                e.w32();
                e.w64();
                e.w64()
            }
            e.w32();
            e.w32();
            named(e)
        }
        12 | 15 => {
            e.w32();
            e.w32()
        }
        13 | 21 => e.w64(),
        14 => (),
        16 => {
            e.w32();
            e.w32();
            let n = if let Body::Ns(n) = b { *n } else { 0 };
            e.u64(n as u64);
            for _ in 0..2 * n {
                e.w64()
            }
        }
        17 => {
            e.w64();
            e.w32();
            e.w16();
            e.w16();
            named(e)
        }
        18 => {
            e.w16();
            e.w16();
            e.w32();
            e.fill(8)
        }
        19 => {
            e.w64();
            named(e)
        }
        20 => {
            let (o, n) = if let Body::Text { old, new } = b { (*old, *new) } else { (0, 0) };
            e.w64();
            e.u16(o as u16);
            e.u16(n as u16);
            e.fill(o);
            e.fill(n);
            let t = (4 + o + n) % 8;
            if t != 0 {
                e.fill(8 - t)
            }
        }
        _ => {
            e.fill(name);
            e.zeros(pad)
        }
    }
}

pub fn trailer(e: &mut Enc, c: &Cfg) {
    if !c.sid_all {
        return;
    }
    let id = e.val();
    if c.st & st::TID != 0 {
        e.w32();
        e.w32()
    }
    if c.st & st::TIME != 0 {
        e.w64()
    }
    if c.st & st::ID != 0 {
        e.u64(id)
    }
    if c.st & st::STREAM_ID != 0 {
        e.w64()
    }
    if c.st & st::CPU != 0 {
        e.w32();
        e.w32()
    }
    if c.st & st::IDENTIFIER != 0 {
        e.u64(id)
    }
}

/// A header followed by whatever `f` writes; the size is patched in.
pub fn framed(e: &mut Enc, ty: u32, misc: u16, f: impl FnOnce(&mut Enc)) {
    let at = e.v.len();
    e.u32(ty);
    e.u16(misc);
    e.u16(0);
    f(e);
    let n = e.v.len() - at;
    assert!(n <= u16::MAX as usize, "record too large: {n}");
    let mut s = Enc::new(e.big, 0);
    s.u16(n as u16);
    e.v[at + 6..at + 8].copy_from_slice(&s.v);
}

impl Shape {
    pub fn put(&self, e: &mut Enc) {
        framed(e, self.ty, self.misc, |e| {
            body(e, self.ty, &self.cfg, &self.body);
            if self.ty != 1 && self.ty != 9 {
                trailer(e, &self.cfg)
            }
        })
    }
    pub fn bytes(&self, big: bool) -> Vec<u8> {
        self.bytes_with(big, Val::Mixed)
    }
    pub fn bytes_with(&self, big: bool, mode: Val) -> Vec<u8> {
        let mut e = Enc::new(big, self.ty as u64 + 1);
        e.mode = mode;
        self.put(&mut e);
        e.v
    }
    /// Number of values in the encoding.
    fn vals(&self) -> u32 {
        let mut e = Enc::new(false, 0);
        self.put(&mut e);
        e.n
    }
}

/// Shapes x special field contents: everything zero, everything ones, ..., and every single field zero, all ones
/// or equal to its predecessor.
pub struct Values {
    pub sh: Vec<Shape>,
    rows: Vec<u64>,
    pub total: u64,
}
pub fn values(sh: Vec<Shape>) -> std::sync::Arc<Values> {
    let rows: Vec<u64> = sh.iter().map(|s| 5 + 3 * s.vals() as u64).collect();
    let total = rows.iter().sum();
    Values { sh, rows, total }.into()
}
impl Values {
    pub fn get(&self, mut i: u64) -> (&Shape, Val) {
        for (s, r) in self.sh.iter().zip(&self.rows) {
            if i < *r {
                let m = match i {
                    0 => Val::Zeros,
                    1 => Val::Ones,
                    2 => Val::Small,
                    3 => Val::High,
                    4 => Val::Same,
                    _ => match (i - 5) % 3 {
                        0 => Val::Zero((i as u32 - 5) / 3),
                        1 => Val::One((i as u32 - 5) / 3),
                        _ => Val::Prev((i as u32 - 5) / 3),
                    },
                };
                return (s, m);
            }
            i -= r;
        }
        unreachable!()
    }
}
pub const VALUES: &str = "all fields zero / all ones / small / high / equal, and every single field zero, all ones or equal to the one before";

/// Values which kernels and tools treat specially, and values around every power of two.
pub fn notable() -> Vec<u64> {
    let mut v = vec![];
    // PERF_CONTEXT_*, error codes as pointers, -1 ...
    for x in [0u64, 1, 2, 3, 4, 5, 14, 15, 16, 32, 100, 128, 512, 1024, 2048, 2176, 2560, 4095, 4096] {
        v.extend([x, x.wrapping_neg()]);
    }
    for k in 1..64 {
        v.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1, !(1 << k)]);
    }
    // one byte, half or word set; addresses of the kernel, of modules, of user space, non-canonical; words of text
    for k in 0..8 {
        v.extend([0xff << (8 * k), !(0xff << (8 * k))]);
    }
    v.extend([0x7fff_ffff_f000, 0xffff_8000_0000_0000, 0xffff_ffff_8100_0000, 0xffff_ffff_c000_0000, 0x0000_8000_0000_0000]);
    v.extend([0xaaaa_aaaa_aaaa_aaaa, 0x5555_5555_5555_5555, 0x0123_4567_89ab_cdef, 0x8080_8080_8080_8080, 0x7f7f_7f7f_7f7f_7f7f, 0x0000_0001_0000_0001]);
    v.extend([*b"        ", *b"//anon\0\0", *b"[vdso]\0\0", *b"\0\0\0\0\0\0\0/", *b"/\0/\0/\0/\0", *b"(deleted"].map(u64::from_le_bytes));
    v.sort();
    v.dedup();
    v
}
/// Shapes x every single field x every notable value.
pub struct Notable {
    pub sh: Vec<Shape>,
    rows: Vec<u64>,
    vals: Vec<u64>,
    pub total: u64,
}
pub fn notables(sh: Vec<Shape>) -> std::sync::Arc<Notable> {
    let vals = notable();
    let rows: Vec<u64> = sh.iter().map(|s| s.vals() as u64 * vals.len() as u64).collect();
    Notable { total: rows.iter().sum(), sh, rows, vals }.into()
}
impl Notable {
    pub fn get(&self, mut i: u64) -> (&Shape, Val) {
        for (s, r) in self.sh.iter().zip(&self.rows) {
            if i < *r {
                let n = self.vals.len() as u64;
                return (s, Val::Is((i / n) as u32, self.vals[(i % n) as usize]));
            }
            i -= r;
        }
        unreachable!()
    }
    pub fn what(&self) -> String {
        format!("{} record shapes x every field x {} notable values (around powers of two, small and negative numbers, context markers, byte patterns)", self.sh.len(), self.vals.len())
    }
}

/// Shapes x every pair of fields x {equal, both zero, both ones, zero and ones}
pub struct Pairs {
    pub sh: Vec<Shape>,
    rows: Vec<(u64, u64)>,
    pub total: u64,
}
const PAIRS: [(u64, u64); 8] = [(7, 7), (0, 0), (u64::MAX, u64::MAX), (0, u64::MAX), (u64::MAX, 0), (1, 2), (2, 1), (0x1_0000_0001, 1)];
pub fn pairs(sh: Vec<Shape>) -> std::sync::Arc<Pairs> {
    let rows: Vec<(u64, u64)> = sh.iter().map(|s| { let n = s.vals().min(64) as u64; (n, n * n * PAIRS.len() as u64) }).collect();
    Pairs { total: rows.iter().map(|x| x.1).sum(), sh, rows }.into()
}
impl Pairs {
    pub fn get(&self, mut i: u64) -> (&Shape, Val) {
        for (s, (n, r)) in self.sh.iter().zip(&self.rows) {
            if i < *r {
                let (a, b) = PAIRS[i as usize % PAIRS.len()];
                i /= PAIRS.len() as u64;
                return (s, Val::Two((i % n) as u32, a, (i / n) as u32, b));
            }
            i -= r;
        }
        unreachable!()
    }
    pub fn what(&self) -> String {
        format!("{} record shapes x every pair of their first 64 fields x 8 relations (equal, both or one zero or all ones, neighbours either way, equal in the low half)", self.sh.len())
    }
}

/// Everything but READ's group form.
pub const RF1: u64 = rf::ALL & !rf::GROUP;
pub const SID: u64 = st::TID | st::TIME | st::ID | st::STREAM_ID | st::CPU | st::IDENTIFIER;

fn sh(v: &mut Vec<Shape>, name: impl Into<String>, ty: u32, misc: u16, cfg: Cfg, body: Body) {
    v.push(Shape { name: name.into(), ty, misc, cfg, body })
}

/// Representative shapes: every type, with and without trailer, every variant.
pub fn non_samples() -> Vec<Shape> {
    let mut v = vec![];
    let c0 = Cfg { rf: RF1, ..Default::default() };
    let c1 = Cfg { rf: RF1, sid_all: true, st: SID, ..Default::default() };
    for (c, t) in [(c0, ""), (c1, "+id")] {
        for ty in [2, 4, 5, 6, 7, 8, 11, 12, 13, 14, 18, 21] {
            sh(&mut v, format!("type {ty}{t}"), ty, 0, c, N0);
        }
        for ty in [1, 3, 17, 19, 10] {
            for (name, pad) in [(0, 0), (0, 8), (3, 5), (8, 0), (13, 3)] {
                sh(&mut v, format!("type {ty} name {name}+{pad}{t}"), ty, 0, c, Body::N { name, pad });
            }
        }
        for len in [0u8, 7, 20] {
            sh(&mut v, format!("mmap2 build id {len}{t}"), 10, 1 << 14, c, Body::Build { len, name: 5, pad: 3 });
        }
        for misc in [0, 1 << 13, 1 << 14] {
            sh(&mut v, format!("switch_cpu_wide misc {misc:#x}{t}"), 15, misc, c, N0);
        }
        for n in [0, 1, 2, 7] {
            sh(&mut v, format!("namespaces {n}{t}"), 16, 0, c, Body::Ns(n));
        }
        for (old, new) in [(0, 0), (3, 5), (5, 0), (0, 6), (4, 8), (2, 2)] {
            sh(&mut v, format!("text_poke {old}/{new}{t}"), 20, 0, c, Body::Text { old, new });
        }
        for n in [0, 1, 8, 13] {
            sh(&mut v, format!("unknown {n}{t}"), 0x1234, 0xffff, c, Body::N { name: n, pad: 0 });
        }
    }
    v
}

pub fn samples() -> Vec<Shape> {
    let mut v = vec![];
    let full = Cfg { st: st::ALL, rf: rf::ALL, sid_all: true, bst: BR_HW_INDEX, ru: 0x8000_0000_0000_0005, ri: 0x6 };
    for b in 0..25 {
        sh(&mut v, format!("sample bit {b}"), 9, 0, Cfg { st: 1 << b, ..full }, Body::Sample(Sm::S));
    }
    sh(&mut v, "sample all", 9, 0, full, Body::Sample(Sm::S));
    sh(&mut v, "sample none", 9, 0, Cfg { st: 0, ..full }, Body::Sample(Sm::S));
    sh(&mut v, "sample all, empty parts", 9, 0, full, Body::Sample(Sm::Z));
    sh(&mut v, "sample all, single read, no hw index", 9, 0, Cfg { rf: RF1, bst: 0, ..full }, Body::Sample(Sm::S));
    sh(&mut v, "sample callchain+raw", 9, 0, Cfg { st: st::CALLCHAIN | st::RAW | st::CGROUP, ..full }, Body::Sample(Sm::S));
    sh(&mut v, "sample lbr, no hw index", 9, 0, Cfg { st: st::BRANCH_STACK | st::ADDR, bst: 0, ..full }, Body::Sample(Sm::S));
    sh(&mut v, "sample stack full", 9, 0, Cfg { st: st::STACK_USER | st::AUX, ..full }, Body::Sample(Sm { dyn_: 8, ..Sm::S }));
    v
}

pub fn shapes() -> Vec<Shape> {
    let mut v = non_samples();
    v.extend(samples());
    v
}
