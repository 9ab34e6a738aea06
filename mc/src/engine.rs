//! Exhaustive explorer: enumerates every case of every suite, in parallel, under monitors.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub struct Suite {
    pub name: &'static str,
    /// What is enumerated, for the evidence file.
    pub space: String,
    pub count: u64,
    pub run: Box<dyn Fn(u64, &mut W) -> R + Sync + Send>,
}

pub fn suite(
    name: &'static str,
    space: impl Into<String>,
    count: u64,
    run: impl Fn(u64, &mut W) -> R + Sync + Send + 'static,
) -> Suite {
    Suite { name, space: space.into(), count, run: Box::new(run) }
}

/// Mixed-radix choice decoder: a case index is a sequence of choices.
pub struct Ch(pub u64);
impl Ch {
    pub fn n(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    pub fn u(&mut self, n: usize) -> usize {
        self.n(n as u64) as usize
    }
    pub fn b(&mut self) -> bool {
        self.n(2) == 1
    }
    pub fn of<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.u(s.len())]
    }
}

/// Per-worker state handed to each case.
pub struct W {
    /// model steps + environment answers + API operations
    pub trans: u64,
    /// executions of the real code that were compared with the model
    pub traces: u64,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub known: BTreeMap<&'static str, (u64, String)>,
    pub a: crate::dump::Dump,
    pub b: crate::dump::Dump,
    lax: bool,
}

static BITMAP: Mutex<Option<&'static [AtomicU64]>> = Mutex::new(None);
const BITS: u64 = 1 << 28;

fn bitmap() -> &'static [AtomicU64] {
    let mut g = BITMAP.lock().unwrap();
    if g.is_none() {
        // zeroed by the system, page by page as needed
        *g = Some(unsafe {
            let n = (BITS / 64) as usize;
            let m = libc::mmap(std::ptr::null_mut(), n * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(m != libc::MAP_FAILED, "mmap failed");
            std::slice::from_raw_parts(m as *const AtomicU64, n)
        });
    }
    g.unwrap()
}

thread_local! {
    static MAP: Cell<Option<&'static [AtomicU64]>> = const { Cell::new(None) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

impl W {
    fn new() -> Self {
        W {
            trans: 0,
            traces: 0,
            sample: None,
            want_sample: false,
            known: BTreeMap::new(),
            a: Default::default(),
            b: Default::default(),
            lax: false,
        }
    }
    /// For comparisons whose verdict is not used: findings do not matter.
    pub fn scratch() -> Self {
        W { lax: true, ..W::new() }
    }
    /// Record that a model state / outcome with this hash was reached.
    pub fn state(&mut self, h: u64) {
        if cfg!(miri) {
            return;
        }
        let m = MAP.with(|m| match m.get() {
            Some(m) => m,
            None => {
                let b = bitmap();
                m.set(Some(b));
                b
            }
        });
        let h = mix(h) & (BITS - 1);
        let w = &m[(h / 64) as usize];
        let bit = 1u64 << (h % 64);
        if w.load(Relaxed) & bit == 0 {
            w.fetch_or(bit, Relaxed);
        }
    }
    /// A listed known finding was met (exactly as described in the known-findings file).
    pub fn known(&mut self, key: &'static str, what: impl FnOnce() -> String) -> R {
        if self.lax {
            return Ok(());
        }
        if !is_listed(key) {
            return Err(format!("deviation {key} is not a listed known finding: {}", what()));
        }
        let e = self.known.entry(key).or_insert_with(|| (0, what()));
        e.0 += 1;
        Ok(())
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
            self.want_sample = false;
        }
    }
}

/// Run `f` on an operating-system thread of its own (nothing thread-local has been touched before).
pub fn fresh(w: &mut W, f: impl FnOnce(&mut W) -> R + Send) -> R {
    with_stack(w, 2 << 20, f)
}
/// The same with a stack of the given size (an overflow ends the process, which is a verdict).
pub fn with_stack(w: &mut W, bytes: usize, f: impl FnOnce(&mut W) -> R + Send) -> R {
    let me = identity();
    let mut n = W::new();
    n.lax = w.lax;
    let r = std::thread::scope(|s| {
        let n = &mut n;
        std::thread::Builder::new().stack_size(bytes).spawn_scoped(s, move || as_identity(me, || f(n))).expect("no thread").join()
    });
    w.trans += n.trans;
    w.traces += n.traces;
    for (k, (c, d)) in std::mem::take(&mut n.known) {
        w.known.entry(k).or_insert((0, d)).0 += c;
    }
    r.unwrap_or_else(|_| Err("a thread died".into()))
}
/// Run a case in a process of its own (the suite asks for MC_CHILD to see that it is there).
pub fn in_process(id: &str, tier: Tier, suite: &str, idx: u64, w: &mut W) -> R {
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["case", id, tier.name(), suite, &idx.to_string()])
        .env("MC_CHILD", "1")
        .output()
        .map_err(|e| format!("cannot start a process: {e}"))?;
    let out = String::from_utf8_lossy(&o.stdout);
    match o.status.code() {
        Some(0) => {
            let mut n = out.lines().filter_map(|l| l.strip_prefix("work ")).flat_map(|l| l.split(' ')).filter_map(|x| x.parse().ok());
            w.trans += n.next().unwrap_or(0);
            w.traces += n.next().unwrap_or(0);
            w.state(mix(idx));
            Ok(())
        }
        Some(1) => Err(out.to_string()),
        _ => Err(format!("the process ended with {}: {out}{}", o.status, String::from_utf8_lossy(&o.stderr))),
    }
}
/// Which progress slot the current thread reports for.
pub fn identity() -> usize {
    SLOT.with(|s| s.get())
}
/// Run on a helper thread on behalf of the worker with this slot.
pub fn as_identity(me: usize, f: impl FnOnce() -> R) -> R {
    SLOT.with(|s| s.set(me));
    let r = match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    };
    #[cfg(not(miri))]
    crate::alloc::flush();
    r
}

/// All subsets of n bits with at most k members, and their complements.
pub fn near_sets(n: u32, k: u32) -> Vec<u64> {
    let all = (1u64 << n) - 1;
    let mut v: Vec<u64> = (0..=all).filter(|x| x.count_ones() <= k).collect();
    for x in v.clone() {
        if (all & !x).count_ones() > k {
            v.push(all & !x)
        }
    }
    v
}

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

// ---------------------------------------------------------------- known findings

static LISTED: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn is_listed(key: &str) -> bool {
    if cfg!(miri) {
        return true;
    }
    LISTED.lock().unwrap().iter().any(|k| k == key)
}

/// Lines `finding: property=<id> key=<key> <text>` of the known-findings file.
pub fn load_findings(root: &Path, id: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix(&format!("finding: property={id} key=")) {
                let (key, text) = rest.split_once(' ').unwrap_or((rest, ""));
                out.push((key.to_string(), text.to_string()));
            }
        }
    }
    *LISTED.lock().unwrap() = out.iter().map(|x| x.0.clone()).collect();
    out
}

// ---------------------------------------------------------------- shared progress page

const SLOTS: usize = 64;
#[repr(C)]
pub struct Shared {
    suite: [AtomicU64; SLOTS],
    idx: [AtomicU64; SLOTS],
    fatal: AtomicU64,
    fslot: AtomicU64,
    fa: AtomicU64,
    fb: AtomicU64,
    msg: [AtomicU64; 32],
}
static SHARED: AtomicU64 = AtomicU64::new(0);

pub fn map_shared(p: &Path, create: bool) -> &'static Shared {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(p).expect("progress file");
    let n = std::mem::size_of::<Shared>();
    f.set_len(n as u64).unwrap();
    unsafe {
        let m = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(m != libc::MAP_FAILED, "mmap failed");
        &*(m as *const Shared)
    }
}

/// Called by the guard allocator: record what happened and leave without unwinding.
pub fn fatal(msg: &str, a: usize, b: usize) -> ! {
    let p = SHARED.load(SeqCst);
    if p != 0 {
        let s = unsafe { &*(p as *const Shared) };
        if s.fatal.swap(1, SeqCst) == 0 {
            s.fslot.store(SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX) as u64, SeqCst);
            s.fa.store(a as u64, SeqCst);
            s.fb.store(b as u64, SeqCst);
            for (i, c) in msg.as_bytes().chunks(8).enumerate().take(32) {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                s.msg[i].store(u64::from_le_bytes(w), SeqCst);
            }
            s.fatal.store(2, SeqCst);
        }
        unsafe { libc::_exit(42) }
    }
    unsafe {
        libc::write(2, msg.as_ptr() as *const _, msg.len());
        libc::abort()
    }
}

// ---------------------------------------------------------------- running

pub fn run_case(s: &Suite, idx: u64, w: &mut W) -> R {
    match catch_unwind(AssertUnwindSafe(|| (s.run)(idx, w))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
}

struct SuiteStat {
    name: &'static str,
    space: String,
    cases: u64,
    trans: u64,
    traces: u64,
    states_after: u64,
    secs: f64,
}

pub struct Outcome {
    pub failed: Option<(usize, u64, String)>,
}

fn popcount() -> u64 {
    match *BITMAP.lock().unwrap() {
        Some(b) => b.iter().map(|w| w.load(Relaxed).count_ones() as u64).sum(),
        None => 0,
    }
}

pub fn root() -> PathBuf {
    std::env::var("MC_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn write_replay(id: &str, tier: Tier, suite: &str, idx: u64, detail: &str) -> PathBuf {
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}.json"));
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"suite\": {},\n \"index\": {},\n \"detail\": {}\n}}\n",
        js(id),
        js(tier.name()),
        js(suite),
        idx,
        js(detail)
    );
    let _ = std::fs::write(&p, body);
    p
}

pub fn violation(id: &str, tier: Tier, suite: &str, idx: u64, detail: &str) {
    let p = write_replay(id, tier, suite, idx, detail);
    println!("counterexample: suite={suite} index={idx}");
    for l in detail.lines().take(60) {
        println!("  {l}");
    }
    println!("VIOLATION property={id} replay={}", p.display());
    let _ = std::io::stdout().flush();
}

/// Child process: explore everything, write evidence, exit 0 / 1.
pub fn work(id: &str, tier: Tier, suites: Vec<Suite>, progress: &Path, assumptions: &[&str], extra: BTreeMap<String, String>) -> i32 {
    install_hook();
    let sh = map_shared(progress, false);
    SHARED.store(sh as *const _ as u64, SeqCst);
    let listed = load_findings(&root(), id);
    let t0 = Instant::now();
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16);
    let done = AtomicBool::new(false);
    let mut stats: Vec<SuiteStat> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut known: BTreeMap<&'static str, (u64, String)> = BTreeMap::new();
    let mut failed: Option<(usize, u64, String)> = None;

    let suites = &suites;
    std::thread::scope(|sc| {
        // watchdog
        let done = &done;
        sc.spawn(move || {
            let mut last: Vec<(u64, u64, u32)> = vec![(0, 0, 0); SLOTS];
            let mut ticks = 0u32;
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                ticks += 1;
                if ticks % 10 != 0 {
                    continue;
                }
                for i in 0..SLOTS {
                    let s = sh.suite[i].load(Relaxed);
                    let x = sh.idx[i].load(Relaxed);
                    let l = &mut last[i];
                    if s != 0 && (s, x) == (l.0, l.1) {
                        l.2 += 1;
                        if l.2 >= 60 {
                            let su = &suites[s as usize - 1];
                            violation(id, tier, su.name, x, "no progress for 60 seconds inside one case: the code under test does not terminate");
                            write_evidence(id, tier, &[], t0, &[], 1, false, assumptions, &BTreeMap::new(), &known_empty());
                            unsafe { libc::_exit(1) }
                        }
                    } else {
                        *l = (s, x, 0);
                    }
                }
            }
        });

        for (si, s) in suites.iter().enumerate() {
            let ts = Instant::now();
            let next = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
            let acc: Mutex<(u64, u64, u64, Vec<String>)> = Mutex::new((0, 0, 0, vec![]));
            let kn: Mutex<BTreeMap<&'static str, (u64, String)>> = Mutex::new(BTreeMap::new());
            let block = (s.count / (nthreads as u64 * 64)).clamp(1, 4096);
            std::thread::scope(|s2| {
                for t in 0..nthreads {
                    let (next, stop, fail, acc, kn) = (&next, &stop, &fail, &acc, &kn);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(s2, move || {
                            SLOT.with(|x| x.set(t));
                            let mut w = W::new();
                            let mut cases = 0;
                            let mut smp = vec![];
                            'o: loop {
                                if stop.load(Relaxed) {
                                    break;
                                }
                                let lo = next.fetch_add(block, Relaxed);
                                if lo >= s.count {
                                    break;
                                }
                                for idx in lo..(lo + block).min(s.count) {
                                    sh.idx[t].store(idx, Relaxed);
                                    sh.suite[t].store(si as u64 + 1, Relaxed);
                                    w.want_sample = idx == s.count / 2 || idx == s.count - 1;
                                    let r = run_case(s, idx, &mut w);
                                    cases += 1;
                                    if let Some(x) = w.sample.take() {
                                        smp.push(format!("{}[{}]: {}", s.name, idx, x));
                                    }
                                    if let Err(e) = r {
                                        let mut f = fail.lock().unwrap();
                                        if f.as_ref().map_or(true, |f| idx < f.0) {
                                            *f = Some((idx, e));
                                        }
                                        stop.store(true, Relaxed);
                                        break 'o;
                                    }
                                }
                            }
                            sh.suite[t].store(0, Relaxed);
                            let mut a = acc.lock().unwrap();
                            a.0 += cases;
                            a.1 += w.trans;
                            a.2 += w.traces;
                            a.3.append(&mut smp);
                            let mut k = kn.lock().unwrap();
                            for (key, (n, d)) in w.known {
                                k.entry(key).or_insert((0, d)).0 += n;
                            }
                        })
                        .unwrap();
                }
            });
            let a = acc.into_inner().unwrap();
            for (key, (n, d)) in kn.into_inner().unwrap() {
                known.entry(key).or_insert((0, d)).0 += n;
            }
            stats.push(SuiteStat {
                name: s.name,
                space: s.space.clone(),
                cases: a.0,
                trans: a.1,
                traces: a.2,
                states_after: popcount(),
                secs: ts.elapsed().as_secs_f64(),
            });
            println!(
                "  {:<28} cases={:<10} steps={:<12} executions={:<11} {:.2}s",
                s.name,
                a.0,
                a.1,
                a.2,
                ts.elapsed().as_secs_f64()
            );
            samples.extend(a.3);
            if let Some((idx, e)) = fail.into_inner().unwrap() {
                failed = Some((si, idx, e));
                break;
            }
        }
        done.store(true, Relaxed);
    });

    let mut code = 0;
    let mut nviol = 0;
    if let Some((si, idx, e)) = &failed {
        violation(id, tier, suites[*si].name, *idx, e);
        code = 1;
        nviol = 1;
    }
    for (key, text) in &listed {
        match known.get(key.as_str()) {
            Some((n, d)) => println!("KNOWN-FINDING: property={id} {key}: {text} [met {n} times, e.g. {}]", d.lines().next().unwrap_or("")),
            None => println!("note: listed finding {key} was not met in this run"),
        }
    }
    write_evidence(id, tier, &stats, t0, &samples, nviol, code == 0, assumptions, &extra, &known);
    println!(
        "{id} {}: {} suites, {} cases, {} distinct outcomes, {:.1}s",
        tier.name(),
        stats.len(),
        stats.iter().map(|s| s.cases).sum::<u64>(),
        popcount(),
        t0.elapsed().as_secs_f64()
    );
    code
}

fn known_empty() -> BTreeMap<&'static str, (u64, String)> {
    BTreeMap::new()
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    id: &str,
    tier: Tier,
    st: &[SuiteStat],
    t0: Instant,
    samples: &[String],
    viol: u32,
    exhaustive: bool,
    assumptions: &[&str],
    extra: &BTreeMap<String, String>,
    known: &BTreeMap<&'static str, (u64, String)>,
) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", js(id), js(tier.name()), seed));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"states\": {},\n", popcount()));
    s.push_str(&format!("  \"transitions\": {},\n", st.iter().map(|x| x.trans).sum::<u64>()));
    s.push_str(&format!("  \"traces_validated_against_impl\": {},\n", st.iter().map(|x| x.traces).sum::<u64>()));
    s.push_str(&format!("  \"cases_enumerated\": {},\n", st.iter().map(|x| x.cases).sum::<u64>()));
    s.push_str(&format!("  \"exhaustive\": {exhaustive},\n"));
    s.push_str("  \"rule\": \"every index of every listed space is executed on the real code and compared with the reference model; states = distinct model outcomes (hash bitmap, lower bound); transitions = model steps, environment answers and API operations\",\n");
    s.push_str("  \"suites\": [\n");
    for (i, x) in st.iter().enumerate() {
        s.push_str(&format!(
            "   {{\"name\": {}, \"space\": {}, \"cases\": {}, \"transitions\": {}, \"executions\": {}, \"states_cumulative\": {}, \"secs\": {:.3}}}{}\n",
            js(x.name),
            js(&x.space),
            x.cases,
            x.trans,
            x.traces,
            x.states_after,
            x.secs,
            if i + 1 < st.len() { "," } else { "" }
        ));
    }
    s.push_str("  ],\n");
    s.push_str("  \"known_findings_met\": {");
    s.push_str(&known.iter().map(|(k, (n, _))| format!("{}: {}", js(k), n)).collect::<Vec<_>>().join(", "));
    s.push_str("},\n");
    for (k, v) in extra {
        s.push_str(&format!("  {}: {},\n", js(k), v));
    }
    s.push_str("  \"samples\": [");
    s.push_str(&samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    s.push_str("]\n },\n");
    s.push_str(" \"assumptions\": [");
    s.push_str(&assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    s.push_str("],\n");
    s.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), viol));
    let _ = std::fs::write(dir.join(format!("{id}.json")), s);
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Parent process: runs the explorer as a child so that aborts and signals become verdicts.
pub fn supervise(id: &str, tier: Tier, names: &[&'static str], extra_args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let prog = dir.join(format!(".{id}.{}.progress", std::process::id()));
    let sh = map_shared(&prog, true);
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).arg("work").arg(id).arg(tier.name()).arg(&prog).args(extra_args).status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start explorer: {e}");
            let _ = std::fs::remove_file(&prog);
            return 2;
        }
    };
    let _ = std::fs::remove_file(&prog);
    let t0 = Instant::now();
    let ev = |v: u32| write_evidence(id, tier, &[], t0, &[], v, false, &["the explorer was stopped by the code under test"], &BTreeMap::new(), &known_empty());
    match (st.code(), st.signal()) {
        (Some(c @ (0 | 1)), _) => c,
        (Some(42), _) => {
            let mut m = vec![];
            for w in &sh.msg {
                m.extend(w.load(SeqCst).to_le_bytes().iter().copied().filter(|b| *b != 0));
            }
            let m = String::from_utf8_lossy(&m).to_string();
            let slot = sh.fslot.load(SeqCst) as usize;
            let (s, i) = if slot < SLOTS { (sh.suite[slot].load(SeqCst), sh.idx[slot].load(SeqCst)) } else { (0, 0) };
            if s == 0 {
                eprintln!("fatal outside of a case: {m}");
                return 2;
            }
            violation(id, tier, names[s as usize - 1], i, &format!("{m} ({:#x}, {})", sh.fa.load(SeqCst), sh.fb.load(SeqCst)));
            ev(1);
            1
        }
        (_, Some(sig)) if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT => {
            eprintln!("explorer was ended by signal {sig}");
            2
        }
        (_, Some(sig)) => {
            // find the case that does it: re-run each in-flight case alone
            for t in 0..SLOTS {
                let (s, i) = (sh.suite[t].load(SeqCst), sh.idx[t].load(SeqCst));
                if s == 0 {
                    continue;
                }
                let name = names[s as usize - 1];
                let st = std::process::Command::new(&exe)
                    .args(["case", id, tier.name(), name, &i.to_string()])
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status();
                if let Ok(st) = st {
                    if !st.success() {
                        violation(id, tier, name, i, &format!("the code under test kills the process (signal {sig})"));
                        ev(1);
                        return 1;
                    }
                }
            }
            for t in 0..SLOTS {
                let (s, i) = (sh.suite[t].load(SeqCst), sh.idx[t].load(SeqCst));
                if s != 0 {
                    violation(id, tier, names[s as usize - 1], i, &format!("the process was killed by signal {sig} near this case"));
                    ev(1);
                    return 1;
                }
            }
            eprintln!("explorer died from signal {sig} outside of a case");
            2
        }
        (c, _) => {
            eprintln!("explorer exited with {c:?}");
            2
        }
    }
}

pub fn one_case(id: &str, s: &Suite, idx: u64, quiet: bool) -> i32 {
    install_hook();
    load_findings(&root(), id);
    let mut w = W::new();
    w.want_sample = true;
    let r = run_case(s, idx, &mut w);
    if !quiet {
        if let Some(x) = &w.sample {
            println!("case: {x}");
        }
    }
    match r {
        Ok(()) => {
            println!("case holds");
            println!("work {} {}", w.trans, w.traces);
            0
        }
        Err(e) => {
            println!("{e}");
            1
        }
    }
}

/// Sequential enumeration of a shard of one suite (under Miri; the interpreter is the judge).
pub fn shard(s: &Suite, k: u64, n: u64, t0: Instant, limit: Duration) -> u64 {
    let mut c = 0;
    for i in 0..s.count {
        // spread every low-order choice over the shards
        let mut sum = 0;
        let mut x = i;
        while x > 0 {
            sum += x % n;
            x /= n;
        }
        if sum % n == k {
            if t0.elapsed() > limit {
                break;
            }
            miri_case(s, i);
            c += 1;
        }
    }
    c
}

pub fn miri_case(s: &Suite, i: u64) {
    eprintln!("@{} {}", s.name, i);
    let _ = run_case(s, i, &mut W::new());
}
