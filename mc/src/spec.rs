//! Reference model: a plain byte-cursor decoder for the perf_event ABI, written from
//! `linux/perf_event.h` with literal constants.  It knows nothing about the crate under test.
use crate::dump::{Dump, K};

/// Error categories, as a set.
pub const EOF: u8 = 1;
pub const INV: u8 = 2;
pub const UCFG: u8 = 4;
pub const UDATA: u8 = 8;
pub const EXT: u8 = 16;
pub const OTHER: u8 = 128;

pub fn errs(e: u8) -> String {
    let mut v = vec![];
    for (b, n) in [(EOF, "Eof"), (INV, "InvalidRecord"), (UCFG, "UnsupportedConfig"), (UDATA, "UnsupportedData"), (EXT, "External"), (OTHER, "?")] {
        if e & b != 0 {
            v.push(n)
        }
    }
    if v.is_empty() {
        "ok".into()
    } else {
        v.join("|")
    }
}

/// PERF_SAMPLE_*
pub mod st {
    pub const IP: u64 = 1;
    pub const TID: u64 = 1 << 1;
    pub const TIME: u64 = 1 << 2;
    pub const ADDR: u64 = 1 << 3;
    pub const READ: u64 = 1 << 4;
    pub const CALLCHAIN: u64 = 1 << 5;
    pub const ID: u64 = 1 << 6;
    pub const CPU: u64 = 1 << 7;
    pub const PERIOD: u64 = 1 << 8;
    pub const STREAM_ID: u64 = 1 << 9;
    pub const RAW: u64 = 1 << 10;
    pub const BRANCH_STACK: u64 = 1 << 11;
    pub const REGS_USER: u64 = 1 << 12;
    pub const STACK_USER: u64 = 1 << 13;
    pub const WEIGHT: u64 = 1 << 14;
    pub const DATA_SRC: u64 = 1 << 15;
    pub const IDENTIFIER: u64 = 1 << 16;
    pub const TRANSACTION: u64 = 1 << 17;
    pub const REGS_INTR: u64 = 1 << 18;
    pub const PHYS_ADDR: u64 = 1 << 19;
    pub const AUX: u64 = 1 << 20;
    pub const CGROUP: u64 = 1 << 21;
    pub const DATA_PAGE_SIZE: u64 = 1 << 22;
    pub const CODE_PAGE_SIZE: u64 = 1 << 23;
    pub const WEIGHT_STRUCT: u64 = 1 << 24;
    pub const ALL: u64 = (1 << 25) - 1;
}
/// PERF_FORMAT_*
pub mod rf {
    pub const TE: u64 = 1;
    pub const TR: u64 = 2;
    pub const ID: u64 = 4;
    pub const GROUP: u64 = 8;
    pub const LOST: u64 = 16;
    pub const ALL: u64 = 31;
}
pub const BR_HW_INDEX: u64 = 1 << 17;
pub const BR_COUNTERS: u64 = 1 << 19;
pub const MISC_SWITCH_OUT: u16 = 1 << 13;
pub const MISC_BUILD_ID: u16 = 1 << 14;

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub st: u64,
    pub rf: u64,
    pub sid_all: bool,
    pub bst: u64,
    pub ru: u64,
    pub ri: u64,
}

impl Cfg {
    /// A 136-byte perf_event_attr with these settings (host byte order), by kernel offsets.
    pub fn attr_bytes(&self) -> [u8; 136] {
        let mut a = [0u8; 136];
        let mut put = |o: usize, v: u64| a[o..o + 8].copy_from_slice(&v.to_ne_bytes());
        put(24, self.st);
        put(32, self.rf);
        put(40, (self.sid_all as u64) << 18);
        put(72, self.bst);
        put(80, self.ru);
        put(96, self.ri);
        a[4..8].copy_from_slice(&136u32.to_ne_bytes());
        a
    }
    pub fn trailer(&self) -> usize {
        if self.sid_all {
            8 * (self.st & (st::TID | st::TIME | st::ID | st::STREAM_ID | st::CPU | st::IDENTIFIER)).count_ones() as usize
        } else {
            0
        }
    }
}

/// Where the bytes of a source lie, needed only to describe finding F1 exactly.
#[derive(Clone, Debug, Default)]
pub struct Lay {
    /// (end offset, caller-owned, address of the first byte)
    pub chunks: Vec<(usize, bool, usize)>,
}

impl Lay {
    pub fn one(addr: usize, len: usize) -> Lay {
        Lay { chunks: vec![(len, true, addr)] }
    }
    /// (external, address, bytes left in the chunk) at an absolute offset
    pub fn at(&self, off: usize) -> Option<(bool, usize, usize)> {
        let mut start = 0;
        for &(end, ext, addr) in &self.chunks {
            if off < end {
                return Some((ext, addr + (off - start), end - off));
            }
            start = end;
        }
        None
    }
}

/// Where each byte of a value lies under the odd byte order (`EK::Odd`): neither little nor big endian, and the
/// orders of the three widths have nothing to do with each other.
pub const ODD: [&[usize]; 9] = [&[], &[0], &[1, 0], &[], &[1, 3, 0, 2], &[], &[], &[], &[3, 0, 7, 5, 1, 6, 2, 4]];
thread_local! {
    /// The encoder and the model use the odd byte order on this thread.
    pub static ODD_ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Little-endian bytes of the value that these bytes stand for.
pub fn from_odd<const N: usize>(b: [u8; N]) -> [u8; N] {
    std::array::from_fn(|i| b[ODD[N][i]])
}
pub fn to_odd<const N: usize>(le: [u8; N]) -> [u8; N] {
    let mut b = [0; N];
    for (i, x) in le.into_iter().enumerate() {
        b[ODD[N][i]] = x
    }
    b
}

pub struct Spec<'a> {
    odd: bool,
    pub b: &'a [u8],
    pub pos: usize,
    pub end: usize,
    pub big: bool,
    /// Set to model finding F1 (native byte order only).
    pub lay: Option<&'a Lay>,
    /// Set to model finding KF3.
    pub no_counters: bool,
    pub quirk: bool,
    pub steps: u64,
}

pub type M<T> = Result<T, u8>;

macro_rules! num { ($n:ident, $t:ty, $s:expr) => {
    #[inline]
    pub fn $n(&mut self) -> M<$t> {
        self.steps += 1;
        if self.end - self.pos < $s { return Err(EOF); }
        let a: [u8; $s] = self.b[self.pos..self.pos + $s].try_into().unwrap();
        self.pos += $s;
        Ok(if self.odd { <$t>::from_le_bytes(from_odd(a)) } else if self.big { <$t>::from_be_bytes(a) } else { <$t>::from_le_bytes(a) })
    }
} }

impl<'a> Spec<'a> {
    pub fn new(b: &'a [u8], big: bool) -> Self {
        Spec { odd: ODD_ON.get(), b, pos: 0, end: b.len(), big, lay: None, no_counters: false, quirk: false, steps: 0 }
    }
    num!(u8, u8, 1);
    num!(u16, u16, 2);
    num!(u32, u32, 4);
    num!(u64, u64, 8);

    fn here(&self) -> *const u8 {
        self.b[self.pos..].as_ptr()
    }
    pub fn left(&self) -> usize {
        self.end - self.pos
    }
    pub fn bytes(&mut self, n: u64) -> M<&'a [u8]> {
        self.steps += 1;
        if n > self.left() as u64 {
            return Err(EOF);
        }
        let r = &self.b[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Ok(r)
    }
    pub fn rest(&mut self) -> &'a [u8] {
        self.steps += 1;
        let r = &self.b[self.pos..self.end];
        self.pos = self.end;
        r
    }
    pub fn rest_trim(&mut self) -> &'a [u8] {
        let mut r = self.rest();
        while let [h @ .., 0] = r {
            r = h;
        }
        r
    }
    /// `n` elements of `elem` 64-bit words each.
    pub fn words(&mut self, n: u64, elem: u64, mut f: impl FnMut(&mut Self) -> M<()>) -> M<()> {
        self.steps += 1;
        let bytes = n as u128 * elem as u128 * 8;
        if let (Some(l), true) = (self.lay, bytes > 0 && bytes < 1 << 32) {
            if let Some((ext, addr, room)) = l.at(self.pos) {
                let room = room.min(self.left());
                if ext && room >= bytes as usize && addr % 8 != 0 {
                    self.quirk = true;
                    self.pos += bytes as usize;
                }
            }
        }
        if bytes >= 1 << 63 {
            return Err(EOF | INV);
        }
        if bytes > self.left() as u128 {
            return Err(EOF);
        }
        for _ in 0..n {
            f(self)?;
        }
        Ok(())
    }
    pub fn wlist(&mut self, k: K, n: u64, o: &mut Dump) -> M<()> {
        o.at(k, self.here(), n.wrapping_mul(8) as usize);
        o.w.push(k as u64 | 2 << 32);
        o.w.push(n);
        self.words(n, 1, |s| {
            let v = s.u64()?;
            o.w.push(v);
            Ok(())
        })
    }

    // ------------------------------------------------------------ pieces

    fn single(&mut self, f: u64, o: &mut Dump, as_group: bool) -> M<()> {
        if f & rf::GROUP != 0 || f & !rf::ALL != 0 {
            return Err(UCFG | if self.left() < 8 { EOF } else { 0 });
        }
        let v = self.u64()?;
        let te = self.opt(f & rf::TE != 0)?;
        let tr = self.opt(f & rf::TR != 0)?;
        let id = self.opt(f & rf::ID != 0)?;
        let lost = self.opt(f & rf::LOST != 0)?;
        if as_group {
            o.opt(K::group_te, te);
            o.opt(K::group_tr, tr);
            o.u(K::group_len, 1);
            o.u(K::read_value, v);
        } else {
            o.u(K::read_value, v);
            o.opt(K::read_te, te);
            o.opt(K::read_tr, tr);
        }
        o.opt(K::read_id, id);
        o.opt(K::read_lost, lost);
        Ok(())
    }
    pub fn read_value(&mut self, f: u64, o: &mut Dump) -> M<()> {
        self.single(f, o, false)
    }
    pub fn read_group(&mut self, f: u64, o: &mut Dump) -> M<()> {
        if f & rf::GROUP == 0 || f & !rf::ALL != 0 {
            return Err(UCFG | if self.left() < 8 { EOF } else { 0 });
        }
        let nr = self.u64()?;
        let te = self.opt(f & rf::TE != 0)?;
        let tr = self.opt(f & rf::TR != 0)?;
        o.opt(K::group_te, te);
        o.opt(K::group_tr, tr);
        o.u(K::group_len, nr);
        let (id, lost) = (f & rf::ID != 0, f & rf::LOST != 0);
        self.words(nr, 1 + id as u64 + lost as u64, |s| {
            let v = s.u64()?;
            o.u(K::read_value, v);
            if id {
                let v = s.u64()?;
                o.u(K::read_id, v);
            }
            if lost {
                let v = s.u64()?;
                o.u(K::read_lost, v);
            }
            Ok(())
        })
    }
    fn opt(&mut self, c: bool) -> M<Option<u64>> {
        if c {
            self.u64().map(Some)
        } else {
            Ok(None)
        }
    }
    pub fn regs(&mut self, ka: K, km: K, kr: K, mask: u64, o: &mut Dump) -> M<()> {
        let abi = self.u64()?;
        o.u(ka, abi);
        o.u(km, mask);
        self.wlist(kr, if abi == 0 { 0 } else { mask.count_ones() as u64 }, o)
    }
    pub fn sample(&mut self, c: &Cfg, o: &mut Dump) -> M<()> {
        let s = c.st;
        let mut id = self.opt(s & st::IDENTIFIER != 0)?;
        if s & st::IP != 0 {
            let v = self.u64()?;
            o.u(K::ip, v);
        }
        if s & st::TID != 0 {
            let v = self.u32()?;
            o.u(K::pid, v as u64);
            let v = self.u32()?;
            o.u(K::tid, v as u64);
        }
        if s & st::TIME != 0 {
            let v = self.u64()?;
            o.u(K::time, v);
        }
        if s & st::ADDR != 0 {
            let v = self.u64()?;
            o.u(K::addr, v);
        }
        if s & st::ID != 0 {
            id = Some(self.u64()?);
        }
        if s & st::STREAM_ID != 0 {
            let v = self.u64()?;
            o.u(K::stream_id, v);
        }
        if s & st::CPU != 0 {
            let v = self.u32()?;
            o.u(K::cpu, v as u64);
            self.u32()?;
        }
        if s & st::PERIOD != 0 {
            let v = self.u64()?;
            o.u(K::period, v);
        }
        if s & st::READ != 0 {
            if c.rf & rf::GROUP != 0 {
                self.read_group(c.rf, o)?;
            } else {
                self.single(c.rf, o, true)?;
            }
        }
        if s & st::CALLCHAIN != 0 {
            let n = self.u64()?;
            self.wlist(K::callchain, n, o)?;
        }
        if s & st::RAW != 0 {
            let n = self.u32()? as u64;
            let b = self.bytes(n)?;
            o.by(K::raw, b);
            let t = (4 + n) % 8;
            if t != 0 {
                self.bytes(8 - t)?;
            }
        }
        if s & st::BRANCH_STACK != 0 {
            let n = self.u64()?;
            if c.bst & BR_HW_INDEX != 0 {
                let v = self.u64()?;
                o.u(K::lbr_hw_index, v);
            }
            o.at(K::lbr, self.here(), n.wrapping_mul(24) as usize);
            o.w.push(K::lbr as u64 | 2 << 32);
            o.w.push(n.wrapping_mul(3));
            self.words(n, 3, |s| {
                let (f, t, g) = (s.u64()?, s.u64()?, s.u64()?);
                o.w.extend_from_slice(&[f, t, g & 0xff_ffff]);
                Ok(())
            })?;
            if c.bst & BR_COUNTERS != 0 && !self.no_counters {
                self.bytes(n.saturating_mul(8))?;
            }
        }
        if s & st::REGS_USER != 0 {
            self.regs(K::ru_abi, K::ru_mask, K::ru_regs, c.ru, o)?;
        }
        if s & st::STACK_USER != 0 {
            let n = self.u64()?;
            let b = self.bytes(n)?;
            let d = if n == 0 { 0 } else { self.u64()? };
            if d > n {
                return Err(INV);
            }
            o.by(K::stack_user, &b[..d as usize]);
        }
        if s & (st::WEIGHT | st::WEIGHT_STRUCT) != 0 {
            let v = self.u64()?;
            o.u(K::weight, v);
        }
        if s & st::DATA_SRC != 0 {
            let v = self.u64()?;
            o.u(K::data_src, v & ((1 << 46) - 1));
        }
        if s & st::TRANSACTION != 0 {
            let v = self.u64()?;
            o.u(K::transaction, v);
        }
        if s & st::REGS_INTR != 0 {
            self.regs(K::ri_abi, K::ri_mask, K::ri_regs, c.ri, o)?;
        }
        if s & st::PHYS_ADDR != 0 {
            let v = self.u64()?;
            o.u(K::phys_addr, v);
        }
        if s & st::CGROUP != 0 {
            let v = self.u64()?;
            o.u(K::cgroup, v);
        }
        if s & st::DATA_PAGE_SIZE != 0 {
            let v = self.u64()?;
            o.u(K::data_page_size, v);
        }
        if s & st::CODE_PAGE_SIZE != 0 {
            let v = self.u64()?;
            o.u(K::code_page_size, v);
        }
        if s & st::AUX != 0 {
            let n = self.u64()?;
            let b = self.bytes(n)?;
            o.by(K::aux, b);
        }
        o.opt(K::id, id);
        Ok(())
    }

    fn a32(&mut self, k: K, o: &mut Dump) -> M<()> {
        let v = self.u32()?;
        o.u(k, v as u64);
        Ok(())
    }
    fn a64(&mut self, k: K, o: &mut Dump) -> M<()> {
        let v = self.u64()?;
        o.u(k, v);
        Ok(())
    }

    /// Body of a record of type `ty` between the cursor and `end`.
    pub fn body(&mut self, ty: u32, misc: u16, c: &Cfg, o: &mut Dump) -> M<()> {
        o.u(K::method, if (1..=21).contains(&ty) { ty as u64 } else { 0 });
        match ty {
            1 => {
                self.a32(K::pid, o)?;
                self.a32(K::tid, o)?;
                self.a64(K::addr, o)?;
                self.a64(K::len, o)?;
                self.a64(K::pgoff, o)?;
                o.by(K::filename, self.rest_trim());
            }
            2 => {
                self.a64(K::id, o)?;
                self.a64(K::lost, o)?;
            }
            3 => {
                self.a32(K::pid, o)?;
                self.a32(K::tid, o)?;
                o.by(K::comm, self.rest_trim());
            }
            4 | 7 => {
                self.a32(K::pid, o)?;
                self.a32(K::ppid, o)?;
                self.a32(K::tid, o)?;
                self.a32(K::ptid, o)?;
                self.a64(K::time, o)?;
            }
            5 | 6 => {
                self.a64(K::time, o)?;
                self.a64(K::id, o)?;
                self.a64(K::stream_id, o)?;
            }
            8 => {
                self.a32(K::pid, o)?;
                self.a32(K::tid, o)?;
                self.read_value(c.rf, o)?;
            }
            9 => self.sample(c, o)?,
            10 => {
                self.a32(K::pid, o)?;
                self.a32(K::tid, o)?;
                self.a64(K::addr, o)?;
                self.a64(K::len, o)?;
                self.a64(K::pgoff, o)?;
                let mut bad = 0;
                if misc & MISC_BUILD_ID != 0 {
                    let n = self.u8()?;
                    if n > 20 {
                        bad = INV;
                    }
                    if self.left() < 23 + 8 {
                        return Err(EOF | bad);
                    }
                    self.u8()?;
                    self.u16()?;
                    let b = self.bytes(20)?;
                    if bad == 0 {
                        o.by(K::build_id, &b[..n as usize]);
                    }
                } else {
                    self.a32(K::maj, o)?;
                    self.a32(K::min, o)?;
                    self.a64(K::ino, o)?;
                    self.a64(K::ino_gen, o)?;
                }
                if bad != 0 {
                    return Err(bad);
                }
                self.a32(K::prot, o)?;
                self.a32(K::flags, o)?;
                o.by(K::filename, self.rest_trim());
            }
            11 => {
                self.a64(K::aux_offset, o)?;
                self.a64(K::aux_size, o)?;
                self.a64(K::flags, o)?;
            }
            12 => {
                self.a32(K::pid, o)?;
                self.a32(K::tid, o)?;
            }
            13 => self.a64(K::lost, o)?,
            14 => (),
            15 => {
                o.u(K::switch_out, (misc & MISC_SWITCH_OUT != 0) as u64);
                self.a32(K::pid, o)?;
                self.a32(K::tid, o)?;
            }
            16 => {
                self.a32(K::pid, o)?;
                self.a32(K::tid, o)?;
                let n = self.u64()?;
                let at = o.w.len();
                o.at(K::ns, self.here(), n.wrapping_mul(16) as usize);
                o.w.push(K::ns as u64 | 2 << 32);
                o.w.push(n.wrapping_mul(2));
                self.words(n, 2, |s| {
                    let (a, b) = (s.u64()?, s.u64()?);
                    o.w.extend_from_slice(&[a, b]);
                    Ok(())
                })?;
                // index 5 is the mount namespace, for which there is no accessor
                for (i, k) in [(0, K::ns_net), (1, K::ns_uts), (2, K::ns_ipc), (3, K::ns_pid), (4, K::ns_user), (6, K::ns_cgroup)] {
                    if (i as u64) < n {
                        let e = [o.w[at + 2 + 2 * i], o.w[at + 3 + 2 * i]];
                        o.ws(k, &e);
                    }
                }
            }
            17 => {
                self.a64(K::addr, o)?;
                self.a32(K::len, o)?;
                let v = self.u16()?;
                o.u(K::ksym_type, v as u64);
                let v = self.u16()?;
                o.u(K::flags, v as u64);
                o.by(K::name, self.rest_trim());
            }
            18 => {
                let v = self.u16()?;
                o.u(K::bpf_type, v as u64);
                let v = self.u16()?;
                o.u(K::bpf_flags, v as u64);
                self.a32(K::id, o)?;
                o.by(K::bpf_tag, self.bytes(8)?);
            }
            19 => {
                self.a64(K::id, o)?;
                o.by(K::path, self.rest_trim());
            }
            20 => {
                self.a64(K::addr, o)?;
                let (a, b) = (self.u16()? as u64, self.u16()? as u64);
                let x = self.bytes(a)?;
                let y = self.bytes(b)?;
                o.by(K::old_bytes, x);
                o.by(K::new_bytes, y);
                let t = (4 + a + b) % 8;
                if t != 0 {
                    self.bytes(8 - t)?;
                }
            }
            21 => self.a64(K::hw_id, o)?,
            _ => o.by(K::unknown, self.rest()),
        }
        Ok(())
    }

    /// The identity trailer at the cursor (only with sample_id_all).
    pub fn sample_id(&mut self, c: &Cfg, o: &mut Dump) -> M<()> {
        if !c.sid_all {
            return Ok(());
        }
        if c.st & st::TID != 0 {
            self.a32(K::sid_pid, o)?;
            self.a32(K::sid_tid, o)?;
        }
        if c.st & st::TIME != 0 {
            self.a64(K::sid_time, o)?;
        }
        let mut id = self.opt(c.st & st::ID != 0)?;
        let stream = self.opt(c.st & st::STREAM_ID != 0)?;
        let cpu = if c.st & st::CPU != 0 {
            let v = self.u32()?;
            self.u32()?;
            Some(v)
        } else {
            None
        };
        if c.st & st::IDENTIFIER != 0 {
            let v = self.u64()?;
            id = id.or(Some(v));
        }
        o.opt(K::sid_id, id);
        o.opt(K::sid_stream_id, stream);
        o.opt(K::sid_cpu, cpu);
        Ok(())
    }
}

/// What the interface in use reports next to the body.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum View {
    /// visitor: body, then type, misc and identity
    Meta,
    /// `Record`: body only, unknown records carry their type
    Rec,
}

#[derive(Clone, Copy, Debug)]
pub struct Out {
    /// 0 = success, otherwise the permitted categories
    pub err: u8,
    /// Bytes consumed from the source (header included unless it was given), if determined.
    pub used: Option<usize>,
    pub quirk: bool,
    pub steps: u64,
}

/// Options for describing known findings; default = the strict specification.
#[derive(Clone, Copy, Default)]
pub struct Opt<'a> {
    pub lay: Option<&'a Lay>,
    pub no_counters: bool,
}

/// One framed record starting at `at`; `hdr` if the header was already read by the caller.
pub fn frame(b: &[u8], at: usize, hdr: Option<(u32, u16, u16)>, c: &Cfg, big: bool, view: View, opt: Opt, o: &mut Dump) -> Out {
    let mut s = Spec::new(b, big);
    s.pos = at;
    s.lay = opt.lay;
    s.no_counters = opt.no_counters;
    o.clear();
    let (ty, misc, size) = match hdr {
        Some(h) => h,
        None => {
            if s.left() < 8 {
                return Out { err: EOF, used: None, quirk: false, steps: s.steps + 1 };
            }
            (s.u32().unwrap(), s.u16().unwrap(), s.u16().unwrap())
        }
    };
    if size < 8 {
        return Out { err: INV, used: Some(s.pos - at), quirk: false, steps: s.steps };
    }
    let n = size as usize - 8;
    if s.left() < n {
        return Out { err: EOF, used: None, quirk: false, steps: s.steps };
    }
    s.end = s.pos + n;
    let end = s.end;
    let used = Some(end - at);
    let t = if ty == 1 || ty == 9 { 0 } else { c.trailer() };
    if t > n {
        return Out { err: INV, used, quirk: false, steps: s.steps };
    }
    s.end -= t;
    if let Err(e) = s.body(ty, misc, c, o) {
        return Out { err: e, used, quirk: s.quirk, steps: s.steps };
    }
    match view {
        View::Meta => {
            o.u(K::ty, ty as u64);
            o.u(K::misc, misc as u64);
            if ty != 1 && ty != 9 {
                s.pos = end - t;
                s.end = end;
                s.sample_id(c, o).unwrap();
            }
        }
        View::Rec => {
            if !(1..=21).contains(&ty) {
                o.u(K::ty, ty as u64);
            }
        }
    }
    Out { err: 0, used, quirk: s.quirk, steps: s.steps }
}
