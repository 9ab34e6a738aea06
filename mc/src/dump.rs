//! Canonical flat dump of a parsed value; written both by the model and from the implementation's types.
use perf_event_data::*;
use std::borrow::Cow;

macro_rules! keys { ($($k:ident),* $(,)?) => {
    #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(u16)]
    pub enum K { $($k),* }
    pub const NAMES: &[&str] = &[$(stringify!($k)),*];
} }
keys!(
    method, ty, misc, sid_pid, sid_tid, sid_time, sid_id, sid_stream_id, sid_cpu, pid, tid, ppid, ptid, time, addr, len, pgoff,
    prot, flags, filename, maj, min, ino, ino_gen, build_id, id, lost, comm, stream_id, cpu, period, ip, read_value, read_te, read_tr,
    read_id, read_lost, group_te, group_tr, group_len, group_entries, callchain, raw, lbr, lbr_hw_index, ru_abi, ru_mask, ru_regs,
    stack_user, weight, data_src, transaction, ri_abi, ri_mask, ri_regs, phys_addr, aux, cgroup, data_page_size, code_page_size,
    aux_offset, aux_size, switch_out, ns, ns_net, ns_uts, ns_ipc, ns_pid, ns_user, ns_cgroup, ksym_type, name, bpf_type, bpf_flags, bpf_tag,
    path, old_bytes, new_bytes, hw_id, unknown, os_name, value, bytes, words,
);

#[derive(Default, Clone)]
pub struct Dump {
    pub w: Vec<u64>,
    /// where each byte run or word array lies in memory: (key, address, bytes); only if asked for
    pub loc: Option<Vec<(u16, usize, usize)>>,
}
impl PartialEq for Dump {
    fn eq(&self, o: &Dump) -> bool {
        self.w == o.w
    }
}

impl Dump {
    pub fn clear(&mut self) {
        self.w.clear();
        if let Some(l) = &mut self.loc {
            l.clear()
        }
    }
    /// Note where an array lies whose contents are pushed by the caller.
    #[inline]
    pub fn at(&mut self, k: K, addr: *const u8, bytes: usize) {
        if let Some(l) = &mut self.loc {
            l.push((k as u16, addr as usize, bytes))
        }
    }
    #[inline]
    pub fn u(&mut self, k: K, v: u64) {
        self.w.push(k as u64);
        self.w.push(v);
    }
    pub fn opt(&mut self, k: K, v: Option<impl Into<u64>>) {
        if let Some(v) = v {
            self.u(k, v.into())
        }
    }
    pub fn by(&mut self, k: K, b: &[u8]) {
        self.at(k, b.as_ptr(), b.len());
        self.w.push(k as u64 | 1 << 32);
        self.w.push(b.len() as u64);
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.w.push(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let r = it.remainder();
        if !r.is_empty() {
            let mut a = [0u8; 8];
            a[..r.len()].copy_from_slice(r);
            self.w.push(u64::from_le_bytes(a));
        }
    }
    pub fn ws(&mut self, k: K, b: &[u64]) {
        self.at(k, b.as_ptr() as *const u8, 8 * b.len());
        self.w.push(k as u64 | 2 << 32);
        self.w.push(b.len() as u64);
        self.w.extend_from_slice(b);
    }
    pub fn hash(&self) -> u64 {
        if cfg!(miri) {
            return 0;
        }
        let mut h = 0xcbf29ce484222325u64;
        for &w in &self.w {
            h = (h.rotate_left(5) ^ w).wrapping_mul(0x517cc1b727220a95);
        }
        h
    }
    /// The byte run stored under this key.
    pub fn bytes_of(&self, key: K) -> Option<Vec<u8>> {
        let mut i = 0;
        while i + 1 < self.w.len() {
            let (k, v) = (self.w[i], self.w[i + 1] as usize);
            i += 2;
            let n = match k >> 32 {
                0 => 0,
                1 => v.div_ceil(8),
                _ => v,
            };
            if k == key as u64 | 1 << 32 {
                return Some(self.w[i..i + n].iter().flat_map(|w| w.to_le_bytes()).take(v).collect());
            }
            i += n;
        }
        None
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        let mut i = 0;
        while i + 1 < self.w.len() {
            let k = self.w[i];
            let v = self.w[i + 1];
            i += 2;
            let name = NAMES.get((k & 0xffff) as usize).copied().unwrap_or("?");
            match k >> 32 {
                0 => s += &format!("{name}={v:#x} "),
                1 => {
                    let n = (v as usize).div_ceil(8);
                    let b: Vec<u8> = self.w[i..i + n].iter().flat_map(|w| w.to_le_bytes()).take(v as usize).collect();
                    i += n;
                    s += &format!("{name}[{}]={} ", v, hex(&b, 48));
                }
                _ => {
                    let n = v as usize;
                    let l: Vec<String> = self.w[i..i + n].iter().take(16).map(|w| format!("{w:#x}")).collect();
                    i += n;
                    s += &format!("{name}[{}]=({}{}) ", v, l.join(","), if n > 16 { ",.." } else { "" });
                }
            }
        }
        s
    }
}

pub fn hex(b: &[u8], max: usize) -> String {
    let mut s: String = b.iter().take(max).map(|x| format!("{x:02x}")).collect();
    if b.len() > max {
        s += &format!("..({} bytes)", b.len());
    }
    s
}

pub mod method {
    pub const UNKNOWN: u64 = 0;
    pub const UNIMPLEMENTED: u64 = 1 << 40;
}

pub trait D {
    fn d(&self, o: &mut Dump);
}

impl D for Mmap<'_> {
    fn d(&self, o: &mut Dump) {
        o.u(K::pid, self.pid as u64);
        o.u(K::tid, self.tid as u64);
        o.u(K::addr, self.addr);
        o.u(K::len, self.len);
        o.u(K::pgoff, self.pgoff);
        o.by(K::filename, &self.filename);
        os(o, self.filename_os(), &self.filename);
    }
}
/// The OsStr views must show the very same bytes.
fn os(o: &mut Dump, s: &std::ffi::OsStr, b: &[u8]) {
    use std::os::unix::ffi::OsStrExt;
    if s.as_bytes() != b {
        o.by(K::os_name, s.as_bytes());
    }
}
impl D for Lost {
    fn d(&self, o: &mut Dump) {
        o.u(K::id, self.id);
        o.u(K::lost, self.lost);
    }
}
impl D for Comm<'_> {
    fn d(&self, o: &mut Dump) {
        o.u(K::pid, self.pid as u64);
        o.u(K::tid, self.tid as u64);
        o.by(K::comm, &self.comm);
        os(o, self.comm_os(), &self.comm);
    }
}
impl D for Exit {
    fn d(&self, o: &mut Dump) {
        o.u(K::pid, self.pid as u64);
        o.u(K::ppid, self.ppid as u64);
        o.u(K::tid, self.tid as u64);
        o.u(K::ptid, self.ptid as u64);
        o.u(K::time, self.time);
    }
}
impl D for Throttle {
    fn d(&self, o: &mut Dump) {
        o.u(K::time, self.time);
        o.u(K::id, self.id);
        o.u(K::stream_id, self.stream_id);
    }
}
impl D for ReadValue {
    fn d(&self, o: &mut Dump) {
        o.u(K::read_value, self.value());
        o.opt(K::read_te, self.time_enabled());
        o.opt(K::read_tr, self.time_running());
        o.opt(K::read_id, self.id());
        o.opt(K::read_lost, self.lost());
    }
}
impl D for GroupEntry {
    fn d(&self, o: &mut Dump) {
        o.u(K::read_value, self.value());
        o.opt(K::read_id, self.id());
        o.opt(K::read_lost, self.lost());
    }
}
impl D for ReadGroup<'_> {
    fn d(&self, o: &mut Dump) {
        o.opt(K::group_te, self.time_enabled());
        o.opt(K::group_tr, self.time_running());
        o.u(K::group_len, self.len() as u64);
        for e in self.entries() {
            e.d(o);
        }
    }
}
impl D for Read {
    fn d(&self, o: &mut Dump) {
        o.u(K::pid, self.pid as u64);
        o.u(K::tid, self.tid as u64);
        self.values.d(o);
    }
}
pub fn branch(e: &BranchEntry) -> u64 {
    e.mispred() as u64
        | (e.predicted() as u64) << 1
        | (e.in_tx() as u64) << 2
        | (e.abort() as u64) << 3
        | (e.cycles() as u64) << 4
        | (u8::from(e.ty()) as u64) << 20
}
pub fn datasrc(d: &DataSource) -> u64 {
    d.mem_op().bits()
        | d.mem_lvl().bits() << 5
        | d.mem_snoop().bits()
        | d.mem_lock().bits() << 24
        | d.mem_dtlb().bits() << 26
        | (u8::from(d.mem_lvl_num()) as u64) << 33
        | (d.mem_remote() as u64) << 37
        | d.mem_blk().bits() << 40
        | (d.mem_hops() as u64) << 43
}
impl D for Sample<'_> {
    fn d(&self, o: &mut Dump) {
        o.opt(K::ip, self.ip());
        o.opt(K::pid, self.pid());
        o.opt(K::tid, self.tid());
        o.opt(K::time, self.time());
        o.opt(K::addr, self.addr());
        o.opt(K::stream_id, self.stream_id());
        o.opt(K::cpu, self.cpu());
        o.opt(K::period, self.period());
        if let Some(v) = self.values() {
            v.d(o);
        }
        if let Some(c) = self.callchain() {
            o.ws(K::callchain, c);
        }
        if let Some(c) = self.raw() {
            o.by(K::raw, c);
        }
        o.opt(K::lbr_hw_index, self.lbr_hw_index());
        if let Some(c) = self.lbr() {
            o.at(K::lbr, c.as_ptr() as *const u8, std::mem::size_of_val(c));
            o.w.push(K::lbr as u64 | 2 << 32);
            o.w.push(c.len() as u64 * 3);
            for e in c {
                o.w.push(e.from());
                o.w.push(e.to());
                o.w.push(branch(e));
            }
        }
        if let Some(r) = self.regs_user() {
            o.u(K::ru_abi, u64::from(r.abi));
            o.u(K::ru_mask, r.mask);
            o.ws(K::ru_regs, &r.regs);
        }
        if let Some(c) = self.stack_user() {
            o.by(K::stack_user, c);
        }
        o.opt(K::weight, self.weight());
        if let Some(d) = self.data_src() {
            o.u(K::data_src, datasrc(&d));
        }
        o.opt(K::transaction, self.transaction().map(|t| t.bits()));
        if let Some(r) = self.regs_intr() {
            o.u(K::ri_abi, u64::from(r.abi));
            o.u(K::ri_mask, r.mask);
            o.ws(K::ri_regs, &r.regs);
        }
        o.opt(K::phys_addr, self.phys_addr());
        o.opt(K::cgroup, self.cgroup());
        o.opt(K::data_page_size, self.data_page_size());
        o.opt(K::code_page_size, self.code_page_size());
        if let Some(c) = self.aux() {
            o.by(K::aux, c);
        }
        o.opt(K::id, self.id());
    }
}
impl D for Mmap2<'_> {
    fn d(&self, o: &mut Dump) {
        o.u(K::pid, self.pid as u64);
        o.u(K::tid, self.tid as u64);
        o.u(K::addr, self.addr);
        o.u(K::len, self.len);
        o.u(K::pgoff, self.pgoff);
        o.opt(K::maj, self.maj());
        o.opt(K::min, self.min());
        o.opt(K::ino, self.ino());
        o.opt(K::ino_gen, self.ino_generation());
        if let Some(b) = self.build_id() {
            o.by(K::build_id, b);
        }
        o.u(K::prot, self.prot as u64);
        o.u(K::flags, self.flags as u64);
        o.by(K::filename, &self.filename);
        os(o, self.filename_os(), &self.filename);
    }
}
impl D for Aux {
    fn d(&self, o: &mut Dump) {
        o.u(K::aux_offset, self.aux_offset);
        o.u(K::aux_size, self.aux_size);
        o.u(K::flags, self.flags.bits());
    }
}
impl D for ITraceStart {
    fn d(&self, o: &mut Dump) {
        o.u(K::pid, self.pid as u64);
        o.u(K::tid, self.tid as u64);
    }
}
impl D for LostSamples {
    fn d(&self, o: &mut Dump) {
        o.u(K::lost, self.lost);
    }
}
impl D for SwitchCpuWide {
    fn d(&self, o: &mut Dump) {
        let (out, p, t) = match *self {
            SwitchCpuWide::In { pid, tid } => (0, pid, tid),
            SwitchCpuWide::Out { pid, tid } => (1, pid, tid),
        };
        o.u(K::switch_out, out);
        o.u(K::pid, p as u64);
        o.u(K::tid, t as u64);
        if (self.pid(), self.tid()) != (p, t) {
            o.u(K::value, u64::MAX);
        }
    }
}
impl D for Namespaces<'_> {
    fn d(&self, o: &mut Dump) {
        o.u(K::pid, self.pid as u64);
        o.u(K::tid, self.tid as u64);
        o.at(K::ns, self.namespaces.as_ptr() as *const u8, std::mem::size_of_val(&self.namespaces[..]));
        o.w.push(K::ns as u64 | 2 << 32);
        o.w.push(self.namespaces.len() as u64 * 2);
        for n in self.namespaces.iter() {
            o.w.push(n.dev);
            o.w.push(n.inode);
        }
        for (k, e) in [
            (K::ns_net, self.network()),
            (K::ns_uts, self.uts()),
            (K::ns_ipc, self.ipc()),
            (K::ns_pid, self.pid()),
            (K::ns_user, self.user()),
            (K::ns_cgroup, self.cgroup()),
        ] {
            if let Some(e) = e {
                o.ws(k, &[e.dev, e.inode]);
            }
        }
    }
}
impl D for KSymbol<'_> {
    fn d(&self, o: &mut Dump) {
        o.u(K::addr, self.addr);
        o.u(K::len, self.len as u64);
        o.u(K::ksym_type, u16::from(self.ksym_type) as u64);
        o.u(K::flags, self.flags.bits() as u64);
        o.by(K::name, &self.name);
    }
}
impl D for BpfEvent {
    fn d(&self, o: &mut Dump) {
        o.u(K::bpf_type, u16::from(self.ty) as u64);
        o.u(K::bpf_flags, self.flags as u64);
        o.u(K::id, self.id as u64);
        o.by(K::bpf_tag, &self.tag);
    }
}
impl D for CGroup<'_> {
    fn d(&self, o: &mut Dump) {
        o.u(K::id, self.id);
        o.by(K::path, &self.path);
        os(o, self.path_os().as_os_str(), &self.path);
    }
}
impl D for TextPoke<'_> {
    fn d(&self, o: &mut Dump) {
        o.u(K::addr, self.addr);
        o.by(K::old_bytes, &self.old_bytes);
        o.by(K::new_bytes, &self.new_bytes);
    }
}
impl D for AuxOutputHwId {
    fn d(&self, o: &mut Dump) {
        o.u(K::hw_id, self.hw_id);
    }
}
impl D for Cow<'_, [u8]> {
    fn d(&self, o: &mut Dump) {
        o.by(K::unknown, self);
    }
}
impl D for SampleId {
    fn d(&self, o: &mut Dump) {
        o.opt(K::sid_pid, self.pid());
        o.opt(K::sid_tid, self.tid());
        o.opt(K::sid_time, self.time());
        o.opt(K::sid_id, self.id());
        o.opt(K::sid_stream_id, self.stream_id());
        o.opt(K::sid_cpu, self.cpu());
    }
}
pub fn meta(m: &RecordMetadata, o: &mut Dump) {
    o.u(K::ty, m.ty() as u64);
    o.u(K::misc, m.misc() as u64);
    m.sample_id().d(o);
}

/// Dump a `Record`; `method` is the record type code its variant stands for.
pub fn record(r: &Record<'_>, o: &mut Dump) {
    macro_rules! m { ($n:expr, $x:expr) => {{ o.u(K::method, $n); $x.d(o) }} }
    match r {
        Record::Mmap(x) => m!(1, x),
        Record::Lost(x) => m!(2, x),
        Record::Comm(x) => m!(3, x),
        Record::Exit(x) => m!(4, x),
        Record::Throttle(x) => m!(5, x),
        Record::Unthrottle(x) => m!(6, x),
        Record::Fork(x) => m!(7, x),
        Record::Read(x) => m!(8, x),
        Record::Sample(x) => m!(9, x),
        Record::Mmap2(x) => m!(10, x),
        Record::Aux(x) => m!(11, x),
        Record::ITraceStart(x) => m!(12, x),
        Record::LostSamples(x) => m!(13, x),
        Record::Switch => o.u(K::method, 14),
        Record::SwitchCpuWide(x) => m!(15, x),
        Record::Namespaces(x) => m!(16, x),
        Record::KSymbol(x) => m!(17, x),
        Record::BpfEvent(x) => m!(18, x),
        Record::CGroup(x) => m!(19, x),
        Record::TextPoke(x) => m!(20, x),
        Record::AuxOutputHwId(x) => m!(21, x),
        Record::Unknown { ty, data } => {
            o.u(K::method, method::UNKNOWN);
            data.d(o);
            o.u(K::ty, *ty as u64);
        }
        _ => o.u(K::method, u64::MAX),
    }
}

/// Visitor that dumps which handler was called with what.
pub struct Cap<'o>(pub &'o mut Dump);
macro_rules! cap { ($($f:ident $n:expr, $t:ty;)*) => { $(
    fn $f(self, r: $t, m: RecordMetadata) { self.0.u(K::method, $n); r.d(self.0); meta(&m, self.0); }
)* } }
impl<'a> Visitor<'a> for Cap<'_> {
    type Output = ();
    fn visit_unimplemented(self, m: RecordMetadata) {
        self.0.u(K::method, method::UNIMPLEMENTED);
        meta(&m, self.0);
    }
    cap! {
        visit_mmap 1, Mmap<'a>; visit_lost 2, Lost; visit_comm 3, Comm<'a>; visit_exit 4, Exit;
        visit_throttle 5, Throttle; visit_unthrottle 6, Throttle; visit_fork 7, Fork; visit_read 8, Read;
        visit_sample 9, Sample<'a>; visit_mmap2 10, Mmap2<'a>; visit_aux 11, Aux; visit_itrace_start 12, ITraceStart;
        visit_lost_samples 13, LostSamples; visit_switch_cpu_wide 15, SwitchCpuWide; visit_namespaces 16, Namespaces<'a>;
        visit_ksymbol 17, KSymbol<'a>; visit_bpf_event 18, BpfEvent; visit_cgroup 19, CGroup<'a>; visit_text_poke 20, TextPoke<'a>;
        visit_aux_output_hw_id 21, AuxOutputHwId; visit_unknown method::UNKNOWN, Cow<'a, [u8]>;
    }
    fn visit_switch(self, m: RecordMetadata) {
        self.0.u(K::method, 14);
        meta(&m, self.0);
    }
}
