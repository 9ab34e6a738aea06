//! C16: debug output shows exactly what is there. The text is read back into a tree and compared.
use super::c02::FULL;
use super::c04::{many, EK3};
use super::c15::consts;
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_data::*;
use std::borrow::Cow;
use std::collections::HashMap;
use std::fmt::{Debug, Write};
use std::sync::OnceLock;

// ---------------------------------------------------------------- reading debug output

#[derive(Debug, Clone)]
enum T<'s> {
    Atom(&'s str),
    Str(&'s str),
    List(Vec<T<'s>>),
    Struct(&'s str, Vec<(&'s str, T<'s>)>),
    Tuple(&'s str, Vec<T<'s>>),
}
struct Rd<'s> {
    s: &'s str,
    at: usize,
}
impl<'s> Rd<'s> {
    fn ws(&mut self) {
        while self.at < self.s.len() && self.s.as_bytes()[self.at].is_ascii_whitespace() {
            self.at += 1;
        }
    }
    fn peek(&self) -> u8 {
        self.s.as_bytes().get(self.at).copied().unwrap_or(0)
    }
    fn bad<X>(&self, m: &str) -> Result<X, String> {
        Err(format!("{m} at offset {} of {:?}", self.at, self.s))
    }
    fn value(&mut self) -> Result<T<'s>, String> {
        self.ws();
        match self.peek() {
            b'[' => {
                self.at += 1;
                Ok(T::List(self.items(b']')?))
            }
            b'"' => {
                self.at += 1;
                let st = self.at;
                loop {
                    match self.peek() {
                        0 if self.at >= self.s.len() => return self.bad("unterminated string"),
                        b'\\' => self.at += 2,
                        b'"' => break,
                        _ => self.at += 1,
                    }
                }
                let r = self.s.get(st..self.at).ok_or("odd string")?;
                self.at += 1;
                Ok(T::Str(r))
            }
            _ => {
                let st = self.at;
                while self.at < self.s.len() && !b"{(,}])[\"\n".contains(&self.peek()) {
                    self.at += 1;
                }
                let name = self.s[st..self.at].trim();
                match self.peek() {
                    b'{' => {
                        self.at += 1;
                        Ok(T::Struct(name, self.fields()?))
                    }
                    b'(' => {
                        self.at += 1;
                        Ok(T::Tuple(name, self.items(b')')?))
                    }
                    _ => Ok(T::Atom(name)),
                }
            }
        }
    }
    fn items(&mut self, end: u8) -> Result<Vec<T<'s>>, String> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.peek() == end {
                self.at += 1;
                return Ok(v);
            }
            if self.at >= self.s.len() {
                return self.bad("unterminated list");
            }
            v.push(self.value()?);
            self.ws();
            match self.peek() {
                b',' => self.at += 1,
                c if c == end => (),
                _ => return self.bad("missing comma"),
            }
        }
    }
    fn fields(&mut self) -> Result<Vec<(&'s str, T<'s>)>, String> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.peek() == b'}' {
                self.at += 1;
                return Ok(v);
            }
            if self.s[self.at..].starts_with("..") {
                self.at += 2;
                continue;
            }
            let st = self.at;
            while self.at < self.s.len() && self.peek() != b':' {
                self.at += 1;
            }
            if self.at >= self.s.len() {
                return self.bad("unterminated struct");
            }
            let n = self.s[st..self.at].trim();
            self.at += 1;
            v.push((n, self.value()?));
            self.ws();
            match self.peek() {
                b',' => self.at += 1,
                b'}' => (),
                _ => return self.bad("missing comma"),
            }
        }
    }
}
fn read_tree(s: &str) -> Result<T<'_>, String> {
    let mut r = Rd { s, at: 0 };
    let t = r.value()?;
    r.ws();
    if r.at != s.len() {
        return r.bad("text after the value");
    }
    Ok(t)
}

// ---------------------------------------------------------------- what is expected

#[derive(Debug, Clone)]
enum N {
    Num(u64),
    Bool(bool),
    Text(Vec<u8>),
    Hex(Vec<u8>),
    List(Vec<N>),
    /// bits of a flag set of the named type
    Flags(&'static str, u64),
    /// value of an open enumeration
    Code(&'static str, u64),
    St(Vec<(&'static str, N)>),
    /// enum variant with fields
    Var(&'static str, Vec<(&'static str, N)>),
    Tup(&'static str, Box<N>),
    Unit(&'static str),
    Branch(u64, u64),
}
fn nums<X: Copy + Into<u64>>(b: &[X]) -> N {
    N::List(b.iter().map(|x| N::Num((*x).into())).collect())
}

fn table() -> &'static HashMap<&'static str, u64> {
    static TB: OnceLock<HashMap<&'static str, u64>> = OnceLock::new();
    TB.get_or_init(|| consts().into_iter().map(|(n, _, v)| (n, v)).collect())
}
fn number(a: &str) -> Option<u64> {
    match a.strip_prefix("0x").or(a.strip_prefix("0X")) {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => a.parse().ok(),
    }
}

/// Length of the well-formed UTF-8 character at the start (Unicode table 3-7), 0 if there is none.
fn utf8(b: &[u8]) -> usize {
    let c = |i: usize, lo: u8, hi: u8| b.get(i).is_some_and(|x| (lo..=hi).contains(x));
    match b[0] {
        0..=0x7f => 1,
        0xc2..=0xdf if c(1, 0x80, 0xbf) => 2,
        0xe0 if c(1, 0xa0, 0xbf) && c(2, 0x80, 0xbf) => 3,
        0xe1..=0xec | 0xee..=0xef if c(1, 0x80, 0xbf) && c(2, 0x80, 0xbf) => 3,
        0xed if c(1, 0x80, 0x9f) && c(2, 0x80, 0xbf) => 3,
        0xf0 if c(1, 0x90, 0xbf) && c(2, 0x80, 0xbf) && c(3, 0x80, 0xbf) => 4,
        0xf1..=0xf3 if c(1, 0x80, 0xbf) && c(2, 0x80, 0xbf) && c(3, 0x80, 0xbf) => 4,
        0xf4 if c(1, 0x80, 0x8f) && c(2, 0x80, 0xbf) && c(3, 0x80, 0xbf) => 4,
        _ => 0,
    }
}
/// Does the shown text stand for exactly these bytes?
fn text(shown: &str, b: &[u8]) -> R {
    let bad = |m: &str| Err(format!("bytes {b:02x?} are shown as \"{shown}\": {m}"));
    let mut it = shown.chars();
    let mut at = 0;
    while let Some(c) = it.next() {
        if at >= b.len() {
            return bad("more is shown than is there");
        }
        let n = utf8(&b[at..]);
        let ch = if n > 0 { std::str::from_utf8(&b[at..at + n]).unwrap().chars().next() } else { None };
        let got: char = if c != '\\' {
            if c.is_control() || c == '"' {
                return bad("a control character or quote is not escaped");
            }
            c
        } else {
            match it.next() {
                Some('n') => '\n',
                Some('r') => '\r',
                Some('t') => '\t',
                Some('0') => '\0',
                Some(x @ ('\\' | '"' | '\'')) => x,
                Some('x') => {
                    let h: String = it.by_ref().take(2).collect();
                    let Ok(v) = u8::from_str_radix(&h, 16) else { return bad("odd \\x escape") };
                    if h.len() != 2 || v != b[at] {
                        return bad("an escape shows another byte");
                    }
                    if n > 0 && v >= 0x80 {
                        return bad("valid UTF-8 is shown as bytes");
                    }
                    at += 1;
                    continue;
                }
                Some('u') => {
                    let mut h = String::new();
                    if it.next() != Some('{') {
                        return bad("odd \\u escape");
                    }
                    loop {
                        match it.next() {
                            Some('}') => break,
                            Some(x) => h.push(x),
                            None => return bad("odd \\u escape"),
                        }
                    }
                    match u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                        Some(x) => x,
                        None => return bad("odd \\u escape"),
                    }
                }
                _ => return bad("unknown escape"),
            }
        };
        match ch {
            None => return bad("an invalid byte is not shown as its own escape"),
            Some(ch) if ch != got => return bad("a character is shown as another one"),
            _ => at += n,
        }
    }
    if at != b.len() {
        return bad("bytes are missing");
    }
    Ok(())
}

fn find(t: &T, name: &str, v: u64) -> bool {
    match t {
        T::Struct(_, f) => f.iter().any(|(n, x)| (*n == name && matches!(x, T::Atom(a) if number(a) == Some(v))) || find(x, name, v)),
        T::Tuple(_, f) | T::List(f) => f.iter().any(|x| find(x, name, v)),
        _ => false,
    }
}

fn same(t: &T, n: &N, path: &str) -> R {
    let bad = || Err(format!("{path}: shows {t:?}, expected {n:x?}"));
    match (t, n) {
        (T::Atom(a), N::Num(v)) if number(a) == Some(*v) => Ok(()),
        (T::Atom(a), N::Bool(v)) if *a == v.to_string() => Ok(()),
        (T::Atom(a), N::Unit(v)) if a == v => Ok(()),
        (T::Str(s), N::Text(b)) => text(s, b).map_err(|e| format!("{path}: {e}")),
        (T::Atom(s) | T::Str(s), N::Hex(b)) => {
            let want: String = b.iter().map(|x| format!("{x:02X}")).collect();
            if s.to_ascii_uppercase() == want {
                Ok(())
            } else {
                bad()
            }
        }
        (T::List(l), N::List(m)) if l.len() == m.len() => {
            for (i, (a, b)) in l.iter().zip(m).enumerate() {
                same(a, b, &format!("{path}[{i}]"))?;
            }
            Ok(())
        }
        (T::Tuple(name, v), N::Flags(ty, bits)) if name == ty && v.len() == 1 => {
            let T::Atom(a) = v[0] else { return bad() };
            let mut got = 0;
            for p in a.split('|').map(str::trim).filter(|p| !p.is_empty()) {
                match number(p).or_else(|| table().get(format!("{ty}::{p}").as_str()).copied()) {
                    Some(x) => got |= x,
                    None => return bad(),
                }
            }
            if got == *bits {
                Ok(())
            } else {
                bad()
            }
        }
        (T::Tuple(name, v), N::Code(ty, x)) if name == ty && v.len() == 1 => match v[0] {
            T::Atom(a) if number(a) == Some(*x) => Ok(()),
            _ => bad(),
        },
        (T::Atom(a), N::Code(ty, x)) if a.starts_with(ty) && table().get(a) == Some(x) => Ok(()),
        (T::Struct(..) | T::Tuple(..), N::Branch(from, to)) if find(t, "from", *from) && find(t, "to", *to) => Ok(()),
        (T::Struct(name, f), N::Var(v, g)) if name == v => fields(f, g, path),
        (T::Struct(_, f), N::St(g)) => fields(f, g, path),
        // a struct without visible fields
        (T::Atom(_), N::St(g)) if g.is_empty() => Ok(()),
        (T::Tuple(name, v), N::Tup(m, x)) if name == m && v.len() == 1 => same(&v[0], x, &format!("{path}/{m}")),
        _ => bad(),
    }
}
fn fields(f: &[(&str, T)], g: &[(&'static str, N)], path: &str) -> R {
    for (n, x) in g {
        let mut k = f.iter().filter(|y| y.0 == *n);
        match (k.next(), k.next()) {
            (Some(y), None) => same(&y.1, x, &format!("{path}.{n}"))?,
            (None, _) => return Err(format!("{path}: field {n} is present but not shown ({x:x?})")),
            _ => return Err(format!("{path}: field {n} is shown twice")),
        }
    }
    for y in f {
        if !g.iter().any(|x| x.0 == y.0) {
            return Err(format!("{path}: shows field {} which is not there ({:?})", y.0, y.1));
        }
    }
    Ok(())
}

/// What must be shown, built from the public fields and accessors.
trait Tree {
    fn t(&self) -> N;
}
macro_rules! st { ($($n:ident: $e:expr),* $(,)?) => { N::St(vec![$((stringify!($n), $e)),*]) } }
fn u(x: impl Into<u64>) -> N {
    N::Num(x.into())
}
impl Tree for Mmap<'_> {
    fn t(&self) -> N {
        st!(pid: u(self.pid), tid: u(self.tid), addr: u(self.addr), len: u(self.len), pgoff: u(self.pgoff), filename: N::Text(self.filename.to_vec()))
    }
}
impl Tree for Lost {
    fn t(&self) -> N {
        st!(id: u(self.id), lost: u(self.lost))
    }
}
impl Tree for Comm<'_> {
    fn t(&self) -> N {
        st!(pid: u(self.pid), tid: u(self.tid), comm: N::Text(self.comm.to_vec()))
    }
}
impl Tree for Exit {
    fn t(&self) -> N {
        st!(pid: u(self.pid), ppid: u(self.ppid), tid: u(self.tid), ptid: u(self.ptid), time: u(self.time))
    }
}
impl Tree for Throttle {
    fn t(&self) -> N {
        st!(time: u(self.time), id: u(self.id), stream_id: u(self.stream_id))
    }
}
struct Op(Vec<(&'static str, N)>);
impl Op {
    fn put(&mut self, n: &'static str, v: Option<impl Into<u64>>) {
        self.node(n, v.map(|v| N::Num(v.into())))
    }
    fn node(&mut self, n: &'static str, v: Option<N>) {
        if let Some(v) = v {
            self.0.push((n, v))
        }
    }
}
impl Tree for ReadValue {
    fn t(&self) -> N {
        let mut o = Op(vec![("value", u(self.value()))]);
        o.put("time_enabled", self.time_enabled());
        o.put("time_running", self.time_running());
        o.put("id", self.id());
        o.put("lost", self.lost());
        N::St(o.0)
    }
}
impl Tree for GroupEntry {
    fn t(&self) -> N {
        let mut o = Op(vec![("value", u(self.value()))]);
        o.put("id", self.id());
        o.put("lost", self.lost());
        N::St(o.0)
    }
}
impl Tree for ReadGroup<'_> {
    fn t(&self) -> N {
        let mut o = Op(vec![]);
        o.put("time_enabled", self.time_enabled());
        o.put("time_running", self.time_running());
        o.node("entries", Some(N::List(self.entries().map(|e| e.t()).collect())));
        N::St(o.0)
    }
}
impl Tree for Read {
    fn t(&self) -> N {
        st!(pid: u(self.pid), tid: u(self.tid), values: self.values.t())
    }
}
impl Tree for DataSource {
    fn t(&self) -> N {
        st!(
            mem_op: N::Flags("MemOp", self.mem_op().bits()), mem_lvl: N::Flags("MemLevel", self.mem_lvl().bits()),
            mem_snoop: N::Flags("MemSnoop", self.mem_snoop().bits()), mem_lock: N::Flags("MemLock", self.mem_lock().bits()),
            mem_dtlb: N::Flags("MemDtlb", self.mem_dtlb().bits()), mem_lvl_num: N::Code("MemLevelNum", u8::from(self.mem_lvl_num()) as u64),
            mem_remote: N::Bool(self.mem_remote()), mem_blk: N::Flags("MemBlk", self.mem_blk().bits()), mem_hops: u(self.mem_hops()),
        )
    }
}
impl Tree for Registers<'_> {
    fn t(&self) -> N {
        st!(abi: N::Code("SampleRegsAbi", u64::from(self.abi)), mask: u(self.mask), regs: nums(&self.regs))
    }
}
impl Tree for Sample<'_> {
    fn t(&self) -> N {
        let mut o = Op(vec![]);
        o.put("ip", self.ip());
        o.put("pid", self.pid());
        o.put("tid", self.tid());
        o.put("time", self.time());
        o.put("addr", self.addr());
        o.put("id", self.id());
        o.put("stream_id", self.stream_id());
        o.put("cpu", self.cpu());
        o.put("period", self.period());
        o.node("values", self.values().map(|v| v.t()));
        o.node("callchain", self.callchain().map(nums));
        o.node("raw", self.raw().map(nums));
        o.put("lbr_hw_index", self.lbr_hw_index());
        o.node("lbr", self.lbr().map(|l| N::List(l.iter().map(|b| N::Branch(b.from(), b.to())).collect())));
        o.node("regs_user", self.regs_user().map(|v| v.t()));
        o.node("stack_user", self.stack_user().map(nums));
        o.put("weight", self.weight());
        o.node("data_src", self.data_src().map(|d| d.t()));
        o.node("transaction", self.transaction().map(|x| N::Flags("Txn", x.bits())));
        o.node("regs_intr", self.regs_intr().map(|v| v.t()));
        o.put("phys_addr", self.phys_addr());
        o.node("aux", self.aux().map(nums));
        o.put("cgroup", self.cgroup());
        o.put("data_page_size", self.data_page_size());
        o.put("code_page_size", self.code_page_size());
        N::St(o.0)
    }
}
impl Tree for SampleId {
    fn t(&self) -> N {
        let mut o = Op(vec![]);
        o.put("pid", self.pid());
        o.put("tid", self.tid());
        o.put("time", self.time());
        o.put("id", self.id());
        o.put("stream_id", self.stream_id());
        o.put("cpu", self.cpu());
        N::St(o.0)
    }
}
impl Tree for Mmap2<'_> {
    fn t(&self) -> N {
        let mut o = Op(vec![("pid", u(self.pid)), ("tid", u(self.tid)), ("addr", u(self.addr)), ("len", u(self.len)), ("pgoff", u(self.pgoff))]);
        o.put("maj", self.maj());
        o.put("min", self.min());
        o.put("ino", self.ino());
        o.put("ino_generation", self.ino_generation());
        o.node("build_id", self.build_id().map(|b| N::Hex(b.to_vec())));
        o.put("prot", Some(self.prot));
        o.put("flags", Some(self.flags));
        o.node("filename", Some(N::Text(self.filename.to_vec())));
        N::St(o.0)
    }
}
impl Tree for Aux {
    fn t(&self) -> N {
        st!(aux_offset: u(self.aux_offset), aux_size: u(self.aux_size), flags: N::Flags("AuxFlags", self.flags.bits()))
    }
}
impl Tree for ITraceStart {
    fn t(&self) -> N {
        st!(pid: u(self.pid), tid: u(self.tid))
    }
}
impl Tree for LostSamples {
    fn t(&self) -> N {
        st!(lost: u(self.lost))
    }
}
impl Tree for SwitchCpuWide {
    fn t(&self) -> N {
        match *self {
            SwitchCpuWide::In { pid, tid } => N::Var("In", vec![("pid", u(pid)), ("tid", u(tid))]),
            SwitchCpuWide::Out { pid, tid } => N::Var("Out", vec![("pid", u(pid)), ("tid", u(tid))]),
        }
    }
}
impl Tree for Namespaces<'_> {
    fn t(&self) -> N {
        st!(pid: u(self.pid), tid: u(self.tid), namespaces: N::List(self.namespaces.iter().map(|n| st!(dev: u(n.dev), inode: u(n.inode))).collect()))
    }
}
impl Tree for KSymbol<'_> {
    fn t(&self) -> N {
        st!(addr: u(self.addr), len: u(self.len), ksym_type: N::Code("KSymbolType", u16::from(self.ksym_type) as u64),
            flags: N::Flags("KSymbolFlags", self.flags.bits() as u64), name: N::Text(self.name.to_vec()))
    }
}
impl Tree for BpfEvent {
    fn t(&self) -> N {
        st!(ty: N::Code("BpfEventType", u16::from(self.ty) as u64), flags: u(self.flags), id: u(self.id), tag: nums(&self.tag))
    }
}
impl Tree for CGroup<'_> {
    fn t(&self) -> N {
        st!(id: u(self.id), path: N::Text(self.path.to_vec()))
    }
}
impl Tree for TextPoke<'_> {
    fn t(&self) -> N {
        st!(addr: u(self.addr), old_bytes: nums(&self.old_bytes), new_bytes: nums(&self.new_bytes))
    }
}
impl Tree for AuxOutputHwId {
    fn t(&self) -> N {
        st!(hw_id: u(self.hw_id))
    }
}
impl Tree for RecordMetadata {
    fn t(&self) -> N {
        st!(ty: u(self.ty()), misc: u(self.misc()), sample_id: self.sample_id().t())
    }
}
impl Tree for Record<'_> {
    fn t(&self) -> N {
        macro_rules! v { ($($n:ident)*) => { match self {
            $( Record::$n(x) => N::Tup(stringify!($n), Box::new(x.t())), )*
            Record::Switch => N::Unit("Switch"),
            Record::Unknown { ty, data } => N::Var("Unknown", vec![("ty", u(*ty)), ("data", nums(data))]),
            _ => N::Unit("?"),
        } } }
        v!(Mmap Lost Comm Exit Throttle Unthrottle Fork Read Sample Mmap2 Aux ITraceStart LostSamples SwitchCpuWide Namespaces KSymbol BpfEvent CGroup TextPoke AuxOutputHwId)
    }
}

// ---------------------------------------------------------------- checks

/// A sink that refuses everything after `left` bytes.
struct Tight {
    left: usize,
}
impl Write for Tight {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        Ok(())
    }
}

fn shown<X: Debug + Tree>(w: &mut W, x: &X, pretty: bool) -> R {
    let mut s = String::new();
    let r = if pretty { write!(s, "{x:#?}") } else { write!(s, "{x:?}") };
    if r.is_err() {
        return Err(format!("formatting fails after {s:?}"));
    }
    w.trans += 1;
    w.traces += 1;
    w.state(s.bytes().fold(7, |h: u64, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
    let t = read_tree(&s).map_err(|e| format!("cannot be read back: {e}"))?;
    same(&t, &x.t(), "value").map_err(|e| format!("{e}\n in {s}"))
}

fn both(w: &mut W, d: &[u8], cf: &Cfg, ek: EK, src: &Src, pretty: bool) -> R {
    on3!(d, cf, ek, src, p => {
        let r: Record = p.parse().map_err(|e| format!("does not parse: {e}"))?;
        shown(w, &r, pretty)
    })?;
    on3!(d, cf, ek, src, p => {
        let (b, m) = p.parse_metadata().map_err(|e| format!("does not parse: {e}"))?;
        let _ = b;
        shown(w, &m, pretty)
    })
}

fn name_rec(w: &mut W, kind: usize, b: &[u8], pretty: bool) -> R {
    match kind {
        0 => shown(w, &Comm { pid: 1, tid: 2, comm: Cow::Borrowed(b) }, pretty),
        1 => shown(w, &Mmap { pid: 1, tid: 2, addr: 3, len: 4, pgoff: 5, filename: Cow::Borrowed(b) }, pretty),
        2 => shown(w, &CGroup { id: 1, path: Cow::Borrowed(b) }, pretty),
        3 => shown(w, &KSymbol { addr: 1, len: 2, ksym_type: KSymbolType::BPF, flags: KSymbolFlags::empty(), name: Cow::Borrowed(b) }, pretty),
        _ => {
            // names from the input lose their trailing NULs
            if b.last() == Some(&0) {
                return Ok(());
            }
            let mut e = Enc::new(false, 2);
            body(&mut e, 10, &Cfg::default(), &N0);
            e.v.extend_from_slice(b);
            let m: Mmap2 = Parser::new(&e.v[..], ParseConfig::<Little>::default()).parse().map_err(|e| format!("{e}"))?;
            shown(w, &m, pretty)
        }
    }
}

const FRAG: [&[u8]; 33] = [
    b"a", b" ", b"\"", b"\\", b"'", b"\n", b"\0", b"\x1b", b"\x7f", b"/", b"}", b",",
    "é".as_bytes(), "\u{300}".as_bytes(), "\u{200b}".as_bytes(), "漢".as_bytes(), "\u{feff}".as_bytes(), "\u{10ffff}".as_bytes(), "🦀".as_bytes(), "\u{85}".as_bytes(),
    "\u{fffd}".as_bytes(), "\u{a0}".as_bytes(), "\u{e000}".as_bytes(), "\u{fffe}".as_bytes(), b"x\xef\xbf",
    b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\xa6", b"\xff", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80",
];

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let sh: std::sync::Arc<Vec<(Shape, Vec<u8>, Vec<u8>)>> = std::sync::Arc::new(shapes().into_iter().map(|s| { let (a, b) = (s.bytes(false), s.bytes(true)); (s, a, b) }).collect());
    let ns = sh.len() as u64;
    {
        let sh = sh.clone();
        v.push(suite("shapes", format!("{ns} record shapes x plain/pretty x 3 byte orders x 16 sources: the record and its metadata"), ns * 2 * 3 * 16, move |i, w| {
            let mut c = Ch(i);
            let pretty = c.b();
            let ek = EK3[c.u(3)];
            let k = c.u(16);
            let (s, a, b) = c.of(&sh[..]);
            let d = Buf::new(if ek.big() { b } else { a }, 0);
            many(k, d.get().len(), &mut |src| {
                // the in-place array finding F1 needs odd addresses; buffers here are aligned
                both(w, d.get(), &s.cfg, ek, src, pretty).map_err(|e| format!("{} {src:?}: {e}", s.name))
            })
        }));
    }
    {
        let vs = values(shapes());
        v.push(suite("field_values", format!("{ns} record shapes x {VALUES} x plain/pretty: the record and its metadata"), vs.total * 2, move |i, w| {
            let mut c = Ch(i);
            let pretty = c.b();
            let (s, m) = vs.get(c.0);
            let d = s.bytes_with(false, m);
            let b = Buf::new(&d, 0);
            both(w, b.get(), &s.cfg, EK::CustL, &Src::Slice, pretty).map_err(|e| format!("{} with {m:?}: {e}", s.name))
        }));
    }
    {
        let ns = notables(shapes());
        v.push(suite("notable_values", format!("{} x plain/pretty: the record and its metadata", ns.what()), ns.total * 2, move |i, w| {
            let mut c = Ch(i);
            let pretty = c.b();
            let (s, m) = ns.get(c.0);
            let d = s.bytes_with(false, m);
            let b = Buf::new(&d, 0);
            both(w, b.get(), &s.cfg, EK::CustL, &Src::Slice, pretty).map_err(|e| format!("{} with {m:x?}: {e}", s.name))
        }));
        let ps = pairs(shapes());
        v.push(suite("field_pairs", format!("{}: the record and its metadata", ps.what()), ps.total, move |i, w| {
            let (s, m) = ps.get(i);
            let d = s.bytes_with(false, m);
            let b = Buf::new(&d, 0);
            both(w, b.get(), &s.cfg, EK::CustL, &Src::Slice, false).map_err(|e| format!("{} with {m:x?}: {e}", s.name))
        }));
    }
    v.push(suite("read_values", "all 32 read formats x group sizes 0..2 x every field of the read one of {0, 1, all ones} x plain/pretty", 32 * 3 * 2 * 3u64.pow(8), |i, w| {
        let mut c = Ch(i);
        let f = c.n(32);
        let nr = c.u(3);
        let pretty = c.b();
        let mut e = Enc::new(false, 5);
        let cf = Cfg { st: st::READ, rf: f, ..Default::default() };
        read(&mut e, f, nr);
        let head = if f & rf::GROUP != 0 { 1 } else { 0 };
        let mut words = e.v.len() / 8 - head;
        // the values of the fields that are not there do not matter
        if words < 8 && c.0 >= 3u64.pow(words as u32) {
            return Ok(());
        }
        words = words.min(8);
        for j in 0..words {
            let x = [0, 1, u64::MAX][c.u(3)];
            e.v[8 * (head + j)..][..8].copy_from_slice(&x.to_le_bytes());
        }
        if f & rf::GROUP != 0 {
            let g: ReadGroup = Parser::new(&e.v[..], config(&cf, CustL)).parse().map_err(|e| format!("{e}"))?;
            shown(w, &g, pretty)?;
            for x in g.entries() {
                shown(w, &x, pretty)?;
            }
            Ok(())
        } else {
            let x: ReadValue = Parser::new(&e.v[..], config(&cf, CustL)).parse().map_err(|e| format!("{e}"))?;
            shown(w, &x, pretty)
        }
    }));
    // sample field subsets
    let mut sets: Vec<u64> = vec![];
    match t {
        Tier::Quick => {
            for m in 0..1u64 << 25 {
                let k = m.count_ones();
                if k <= 5 || k >= 20 {
                    sets.push(m)
                }
            }
        }
        Tier::Thorough => sets.extend(0..1 << 25),
    }
    let n = sets.len() as u64;
    v.push(suite("sample_sets", format!("{n} sample field sets ({}) x short/empty parts", t.pick("all with at most 5 or at least 20 fields", "all")), n * 2, move |i, w| {
        let mut c = Ch(i);
        let z = c.b();
        let s = sets[c.0 as usize];
        let mut e = Enc::new(false, 5);
        let cf = Cfg { st: s, rf: if s.count_ones() & 1 == 0 { rf::ALL } else { RF1 }, ..FULL };
        sample(&mut e, &cf, &if z { Sm::Z } else { Sm { cc: 1, raw: 3, lbr: 1, stack: 2, dyn_: 1, aux: 2, nr: 1, ..Sm::S } });
        let r: Sample = Parser::new(&e.v[..], config(&cf, CustL)).parse().map_err(|e| format!("{e}"))?;
        shown(w, &r, s.count_ones() & 2 == 0).map_err(|e| format!("sample_type {s:#x}: {e}"))
    }));
    v.push(suite("reads", "all 32 read formats x group sizes 0..4 x plain/pretty: READ records, values, groups, entries and conversions", 32 * 5 * 2, |i, w| {
        let mut c = Ch(i);
        let f = c.n(32);
        let nr = c.u(5);
        let pretty = c.b();
        let mut e = Enc::new(false, 5);
        let cf = Cfg { st: st::READ, rf: f, ..Default::default() };
        read(&mut e, f, nr);
        let g = if f & rf::GROUP != 0 {
            let g: ReadGroup = Parser::new(&e.v[..], config(&cf, CustL)).parse().map_err(|e| format!("{e}"))?;
            g.into_owned()
        } else {
            let x: ReadValue = Parser::new(&e.v[..], config(&cf, CustL)).parse().map_err(|e| format!("{e}"))?;
            shown(w, &x, pretty)?;
            shown(w, &Read { pid: 8, tid: 9, values: x.clone() }, pretty)?;
            ReadGroup::from(x)
        };
        shown(w, &g, pretty)?;
        for x in g.entries() {
            shown(w, &x, pretty)?;
            shown(w, &ReadValue::from_group_and_entry(&g, &x), pretty)?;
        }
        if let Ok(x) = ReadValue::try_from(g) {
            shown(w, &x, pretty)?;
        }
        Ok(())
    }));
    let most = t.pick(300u64, 3000);
    v.push(suite("long_lists", format!("every list of a record (group entries, callchain, raw, branches, stack, aux, namespaces, poked bytes, unknown data) with every length 0..{most} x plain/pretty"), 10 * most * 2, move |i, w| {
        let mut c = Ch(i);
        let pretty = c.b();
        let k = c.u(10);
        let n = c.u(most as usize);
        let st_of = |s: u64| Cfg { st: s | st::CGROUP, rf: rf::GROUP | rf::ID, bst: BR_HW_INDEX, ..Cfg::default() };
        let z = Sm::Z;
        let (ty, cf, b) = match k {
            0 => (9, st_of(st::READ), Body::Sample(Sm { nr: n, ..z })),
            1 => (9, st_of(st::CALLCHAIN), Body::Sample(Sm { cc: n, ..z })),
            2 => (9, st_of(st::RAW), Body::Sample(Sm { raw: n, ..z })),
            3 => (9, st_of(st::BRANCH_STACK), Body::Sample(Sm { lbr: n, ..z })),
            4 => (9, st_of(st::STACK_USER), Body::Sample(Sm { stack: n, dyn_: n, ..z })),
            5 => (9, st_of(st::AUX), Body::Sample(Sm { aux: n, ..z })),
            6 => (16, Cfg::default(), Body::Ns(n)),
            7 => (20, Cfg::default(), Body::Text { old: n, new: 2 }),
            8 => (20, Cfg::default(), Body::Text { old: 0, new: n }),
            _ => (0x777, Cfg::default(), Body::N { name: n, pad: 0 }),
        };
        // the header's size has 16 bits
        if [16, 8, 1, 24, 1, 1, 16, 1, 1, 1][k] * n > 60000 {
            return Ok(());
        }
        let s = Shape { name: String::new(), ty, misc: 0, cfg: cf, body: b };
        let d = s.bytes(false);
        both(w, &d, &cf, EK::CustL, &Src::Slice, pretty).map_err(|e| format!("list {k} with {n} elements: {e}"))
    }));
    v.push(suite("sample_ids", "all 64 sample id layouts x trailer on/off x plain/pretty: metadata, and the identity of a sample", 64 * 4, |i, w| {
        let mut c = Ch(i);
        let mut s = 0;
        for b in [st::TID, st::TIME, st::ID, st::STREAM_ID, st::CPU, st::IDENTIFIER] {
            if c.b() {
                s |= b
            }
        }
        let cf = Cfg { st: s, sid_all: c.b(), ..Default::default() };
        let pretty = c.b();
        let sh = Shape { name: String::new(), ty: 2, misc: 5, cfg: cf, body: N0 };
        both(w, &sh.bytes(false), &cf, EK::Native, &Src::Slice, pretty)?;
        let sh = Shape { name: String::new(), ty: 9, misc: 5, cfg: cf, body: Body::Sample(Sm::S) };
        let d = sh.bytes(false);
        let x: Record = Parser::new(&d[..], config(&cf, Native)).parse().map_err(|e| format!("{e}"))?;
        let Record::Sample(x) = x else { return Err("not a sample".into()) };
        shown(w, &SampleId::from_sample(&x), pretty)
    }));
    // names
    v.push(suite("short_names", "all byte strings of length 0..2 as the name of COMM, MMAP, CGROUP, KSYMBOL, MMAP2 x plain/pretty", (1 + 256 + 65536) * 10, |i, w| {
        let mut c = Ch(i);
        let k = c.u(5);
        let pretty = c.b();
        let x = c.0;
        if x == 0 {
            name_rec(w, k, &[], pretty)
        } else if x <= 256 {
            name_rec(w, k, &[(x - 1) as u8], pretty)
        } else {
            name_rec(w, k, &((x - 257) as u16).to_le_bytes(), pretty)
        }
    }));
    v.push(suite("names_3", "all 2^24 byte strings of length 3", 1 << 24, |i, w| {
        let b = (i as u32).to_le_bytes();
        string(w, &b[..3])
    }));
    // lead byte x one representative of every class of continuation bytes
    const CLS: [u8; 20] = [0, b'"', 0x5c, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff];
    let cont: u64 = t.pick(3, 4);
    v.push(suite("names_long", format!("every lead byte followed by {cont} bytes from 20 class boundaries, and one trailing letter or none"), 256 * 20u64.pow(cont as u32) * 2, move |i, w| {
        let mut c = Ch(i);
        let mut b = vec![c.n(256) as u8];
        for _ in 0..cont {
            b.push(*c.of(&CLS));
        }
        if c.b() {
            b.push(b'z');
        }
        string(w, &b)
    }));
    let depth = t.pick(4u32, 5);
    v.push(suite("fragments", format!("all sequences of {depth} out of {} text fragments (plain, quotes, control, combining, wide, truncated and overlong UTF-8)", FRAG.len()), (FRAG.len() as u64).pow(depth), move |i, w| {
        let mut c = Ch(i);
        let mut b = vec![];
        for _ in 0..depth {
            b.extend_from_slice(c.of(&FRAG));
        }
        string(w, &b)
    }));
    v.push(suite("long_text", "every fragment at every distance 0..300 from the start, over ASCII and over invalid bytes", FRAG.len() as u64 * 300 * 2, |i, w| {
        let mut c = Ch(i);
        let f = *c.of(&FRAG);
        let n = c.u(300);
        let mut b = vec![if c.b() { 0xf8 } else { b'q' }; n];
        b.extend_from_slice(f);
        b.extend_from_slice(b"end");
        string(w, &b)
    }));
    v.push(suite("very_long_text", "every fragment at the end and in the middle of texts of 60 sizes from 300 to 65000, over ASCII and over invalid bytes", FRAG.len() as u64 * 60 * 4, |i, w| {
        let mut c = Ch(i);
        let f = *c.of(&FRAG);
        let fill = if c.b() { 0xf8 } else { b'q' };
        let mid = c.b();
        let x = c.u(60);
        let n = if x < 57 { (512usize << (x / 9)) - 4 + x % 9 } else { [300, 40000, 65000][x - 57] };
        let mut b = vec![fill; n];
        b.extend_from_slice(f);
        if mid {
            b.resize(2 * n, fill);
        }
        string(w, &b)
    }));
    v.push(suite("build_ids", "build ids of every length 0..20 x every value of every byte x plain/pretty", 21 * 20 * 256 * 2, |i, w| {
        let mut c = Ch(i);
        let len = c.u(21);
        let at = c.u(20);
        let x = c.n(256) as u8;
        let pretty = c.b();
        let s = Shape { name: String::new(), ty: 10, misc: MISC_BUILD_ID, cfg: Cfg::default(), body: Body::Build { len: len as u8, name: 3, pad: 5 } };
        let mut d = s.bytes(false);
        d[8 + 32 + 4 + at] = x;
        let r: Record = Parser::new(&d[..], ParseConfig::<Little>::default()).parse().map_err(|e| format!("{e}"))?;
        shown(w, &r, pretty)
    }));
    v.push(suite("numbers", "every 64-bit value with up to two bits set, and complements, in every numeric field of MMAP, LOST, KSYMBOL and AUX", 64 * 64 * 2, |i, w| {
        let mut c = Ch(i);
        let b = 1u64 << c.n(64) | 1 << c.n(64);
        let x = if c.b() { !b } else { b };
        let y = x as u32 ^ (x >> 32) as u32;
        shown(w, &Mmap { pid: y, tid: !y, addr: x, len: !x, pgoff: x.rotate_left(9), filename: Cow::Borrowed(b"f") }, false)?;
        shown(w, &Lost { id: x, lost: !x }, true)?;
        shown(w, &KSymbol { addr: x, len: y, ksym_type: KSymbolType::new(x as u16), flags: KSymbolFlags::from_bits_retain((x >> 5) as u16), name: Cow::Borrowed(b"k") }, false)?;
        shown(w, &Aux { aux_offset: x, aux_size: !x, flags: AuxFlags::from_bits_retain(x) }, true)
    }));
    v.push(suite("flag_words", "every data source / transaction word with up to two bits set, and complements", 64 * 64 * 2 * 2, |i, w| {
        let mut c = Ch(i);
        let b = 1u64 << c.n(64) | 1 << c.n(64);
        let x = if c.b() { !b } else { b };
        let cf = Cfg { st: st::DATA_SRC | st::TRANSACTION, ..Default::default() };
        let mut e = Enc::new(false, 1);
        e.u64(x);
        e.u64(x.rotate_left(29));
        let s: Sample = Parser::new(&e.v[..], config(&cf, Native)).parse().map_err(|e| format!("{e}"))?;
        shown(w, &s, c.b())
    }));
    v.push(suite("configs", "the configuration of a record's parser: every bit and pair of bits of sample_type, all read formats, every misc value, register masks by pairs of bits", 65536 + 25 * 25 * 32, |i, w| {
        let (misc, cf) = if i < 65536 {
            (i as u16, Cfg { ru: 1 << (i % 64) | 1 << (i / 64 % 64), ri: !(1 << (i % 63)), ..FULL })
        } else {
            let mut c = Ch(i - 65536);
            let s = 1 << c.n(25) | 1 << c.n(25);
            let f = c.n(32);
            (0x8001, Cfg { st: s, rf: f, sid_all: s & 1 != 0, bst: if s & 2 != 0 { BR_HW_INDEX } else { 0 }, ru: 5, ri: 6 })
        };
        let sh = Shape { name: String::new(), ty: 9, misc, cfg: cf, body: Body::Sample(Sm::Z) };
        let d = sh.bytes(false);
        let mut p = Parser::new(&d[..], config(&cf, Native));
        let (b, _) = p.parse_metadata().map_err(|e| format!("{e}"))?;
        let want = st!(
            read_format: N::Flags("ReadFormat", cf.rf), sample_type: N::Flags("SampleFlags", cf.st), sample_id_all: N::Bool(cf.sid_all),
            branch_hw_index: N::Bool(cf.bst & BR_HW_INDEX != 0), misc: u(misc), regs_user: u(cf.ru), regs_intr: u(cf.ri),
        );
        for pretty in [false, true] {
            let s = if pretty { format!("{:#?}", b.config()) } else { format!("{:?}", b.config()) };
            let t = read_tree(&s).map_err(|e| format!("cannot be read back: {e}"))?;
            same(&t, &want, "config").map_err(|e| format!("{e}\n in {s}"))?;
        }
        w.trans += 2;
        w.traces += 2;
        w.state(mix(i) ^ 0x51);
        Ok(())
    }));
    {
        let sh = sh.clone();
        v.push(suite("failing_sinks", format!("{ns} record shapes x plain/pretty x output cut off after every number of bytes 0..600: the error is reported, nothing panics"), ns * 2 * 600, move |i, w| {
            let mut c = Ch(i);
            let pretty = c.b();
            let left = c.u(600);
            let (s, a, _) = c.of(&sh[..]);
            let d = Buf::new(a, 0);
            let r: Record = Parser::new(d.get(), config(&s.cfg, Native)).parse().map_err(|e| format!("{e}"))?;
            let full = if pretty { format!("{r:#?}") } else { format!("{r:?}") };
            let mut o = Tight { left };
            let got = if pretty { write!(o, "{r:#?}") } else { write!(o, "{r:?}") };
            w.trans += 1;
            w.traces += 1;
            w.state(mix(i) ^ 0x52);
            if got.is_ok() != (full.len() <= left) {
                return Err(format!("{}: {} bytes of output, sink of {left} bytes, result {got:?}", s.name, full.len()));
            }
            Ok(())
        }));
    }
    // the caller's formatting options must not matter for whether there is a result
    {
        let sh = sh.clone();
        v.push(suite("format_options", format!("{ns} record shapes and all pairs of text fragments as a name x 16 combinations of width, precision, fill, sign, zero and hexadecimal options: formatting succeeds"), (ns + (FRAG.len() * FRAG.len()) as u64) * 16, move |i, w| {
            let mut c = Ch(i);
            let f = c.u(16);
            let d = match sh.get(c.0 as usize) {
                Some((_, a, _)) => a.clone(),
                None => {
                    let k = c.0 as usize - sh.len();
                    let mut e = Enc::new(false, 1);
                    framed(&mut e, 3, 0, |e| {
                        e.w64();
                        e.v.extend_from_slice(FRAG[k % FRAG.len()]);
                        e.v.extend_from_slice(FRAG[k / FRAG.len()]);
                    });
                    e.v
                }
            };
            let none = Cfg::default();
            let cf = sh.get(c.0 as usize).map_or(&none, |x| &x.0.cfg);
            let b = Buf::new(&d, 0);
            let r: Record = Parser::new(b.get(), config(cf, Native)).parse().map_err(|e| format!("{e}"))?;
            let (_, m) = Parser::new(b.get(), config(cf, Native)).parse_metadata().map_err(|e| format!("{e}"))?;
            fn show(f: usize, o: &mut String, x: &dyn Debug) -> std::fmt::Result {
                match f {
                    0 => write!(o, "{x:x?}"),
                    1 => write!(o, "{x:X?}"),
                    2 => write!(o, "{x:#x?}"),
                    3 => write!(o, "{x:#X?}"),
                    4 => write!(o, "{x:5?}"),
                    5 => write!(o, "{x:<40?}"),
                    6 => write!(o, "{x:*^40?}"),
                    7 => write!(o, "{x:.0?}"),
                    8 => write!(o, "{x:.3?}"),
                    9 => write!(o, "{x:+?}"),
                    10 => write!(o, "{x:09?}"),
                    11 => write!(o, "{x:#09x?}"),
                    12 => write!(o, "{x:#5.1?}"),
                    13 => write!(o, "{x:1000?}"),
                    14 => write!(o, "{x:#?}"),
                    _ => write!(o, "{x:-?}"),
                }
            }
            for x in [&r as &dyn Debug, &m] {
                let mut o = String::new();
                w.trans += 1;
                w.traces += 1;
                if show(f, &mut o, x).is_err() || o.is_empty() {
                    return Err(format!("formatting with options {f} fails after {o}"));
                }
                w.state(o.bytes().fold(9, |h: u64, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
            }
            Ok(())
        }));
    }
    v
}

/// Only the text of a name, through COMM.
fn string(w: &mut W, b: &[u8]) -> R {
    let x = Comm { pid: 1, tid: 2, comm: Cow::Borrowed(b) };
    let mut s = String::with_capacity(64 + 4 * b.len());
    if write!(s, "{x:?}").is_err() {
        return Err(format!("formatting a COMM with name {b:02x?} fails"));
    }
    w.trans += 1;
    w.traces += 1;
    w.state(s.bytes().fold(7, |h: u64, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
    let (Some(a), Some(z)) = (s.find('"'), s.rfind('"')) else { return Err(format!("no quoted text in {s}")) };
    if a == z {
        return Err(format!("no quoted text in {s}"));
    }
    text(&s[a + 1..z], b)
}
