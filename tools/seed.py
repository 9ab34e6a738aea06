#!/usr/bin/env python3
"""Writes and validates the planted bugs of /verif/seeded from the definitions in seeds_*.py.
   seed.py gen [id..]    write patch.diff/demo.sh/meta.json
   seed.py verify [id..] in a scratch copy: builds, stable tests pass, demo 0 on clean / nonzero with the patch
Never run by a check."""
import sys, os, json, subprocess, shutil, glob, importlib.util
T = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
PRELUDE = r'''#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_data::*;
use perf_event_open_sys::bindings::*;
use std::borrow::Cow;

/// 8-aligned copy of bytes, shifted by `off`.
struct Al(Vec<u64>, usize, usize);
impl Al {
    fn new(b: &[u8], off: usize) -> Al {
        let mut v = vec![0u64; b.len() / 8 + 3];
        let p = v.as_mut_ptr() as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(off), b.len()) };
        Al(v, off, b.len())
    }
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.0.as_ptr() as *const u8).add(self.1), self.2) }
    }
}
/// A source that delivers given chunks, each borrowed (false) or temporary (true).
struct Parts<'p> { v: Vec<(&'p [u8], bool)>, i: usize, off: usize, scratch: Vec<u8>, hint: bool, fail_at: Option<usize> }
impl<'p> Parts<'p> {
    fn new(v: Vec<(&'p [u8], bool)>) -> Self { Parts { v, i: 0, off: 0, scratch: vec![], hint: false, fail_at: None } }
    /// cut `b` at the given places, all chunks borrowed or all temporary
    fn cut(b: &'p [u8], at: &[usize], tmp: bool) -> Self {
        let mut v = vec![];
        let mut s = 0;
        for &a in at.iter().chain([&b.len()]) { v.push((&b[s..a], tmp)); s = a; }
        Parts::new(v)
    }
    fn left(&self) -> usize { self.v[self.i..].iter().map(|x| x.0.len()).sum::<usize>() - self.off }
}
unsafe impl<'p> ParseBuf<'p> for Parts<'p> {
    fn chunk(&mut self) -> ParseResult<ParseBufChunk<'_, 'p>> {
        if self.fail_at == Some(self.i) { return Err(ParseError::new("device failure")); }
        let Some(&(c, tmp)) = self.v.get(self.i) else { return Err(ParseError::eof()) };
        let c = &c[self.off..];
        if tmp { self.scratch = c.to_vec(); Ok(ParseBufChunk::Temporary(&self.scratch)) } else { Ok(ParseBufChunk::External(c)) }
    }
    fn advance(&mut self, mut n: usize) {
        self.scratch.fill(0xEE);
        self.off += n;
        while self.i < self.v.len() && self.off >= self.v[self.i].0.len() { self.off -= self.v[self.i].0.len(); self.i += 1; }
    }
    fn remaining_hint(&self) -> Option<usize> { self.hint.then(|| self.left()) }
}
#[derive(Default, Clone)]
struct Bld(Vec<u8>, bool);
impl Bld {
    fn new() -> Bld { Bld(vec![], false) }
    fn big() -> Bld { Bld(vec![], true) }
    fn b(mut self, b: &[u8]) -> Bld { self.0.extend_from_slice(b); self }
    fn u16(self, x: u16) -> Bld { let g = self.1; self.b(&if g { x.to_be_bytes() } else { x.to_le_bytes() }) }
    fn u32(self, x: u32) -> Bld { let g = self.1; self.b(&if g { x.to_be_bytes() } else { x.to_le_bytes() }) }
    fn u64(self, x: u64) -> Bld { let g = self.1; self.b(&if g { x.to_be_bytes() } else { x.to_le_bytes() }) }
    fn rec(self, ty: u32, misc: u16) -> Vec<u8> {
        let h = Bld(vec![], self.1).u32(ty).u16(misc).u16(8 + self.0.len() as u16);
        h.b(&self.0).0
    }
}
fn attr(st: u64, rf: u64) -> perf_event_attr {
    let mut a = perf_event_attr::default();
    a.sample_type = st;
    a.read_format = rf;
    a
}
fn cfg<E: Default>(a: perf_event_attr) -> ParseConfig<E> { ParseConfig::from(a) }
'''
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken. Run with cwd = the repository.
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd) || exit 0
d=$(mktemp -d) || exit 0
trap 'rm -rf "$d"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
perf-event-data = { path = "$repo" }
perf-event-open-sys2 = "5.0.3"
[workspace]
EOF
(cd "$d" && cargo build -q --offline 2>"$d/log") || { cat "$d/log"; echo "demo did not build"; exit 3; }
(ulimit -v 8000000; cd "$d" && timeout 60 "$d/target/debug/demo")
rc=$?
[ $rc -eq 0 ] && echo "demo: holds" || echo "demo: broken (rc $rc)"
exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def load():
    r = {}
    for f in sorted(glob.glob(T + '/seeds_*.py')):
        sp = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for s in m.SEEDS:
            assert s['id'] not in r, s['id']
            r[s['id']] = s
    return r
def scratch(name='/tmp/seedrepo'):
    if not os.path.isdir(name):
        sh(f'git clone -q /repo {name}')
    sh(f'cd {name} && git fetch -q origin && git reset -q --hard origin/HEAD && git clean -fdq -e target')
    return name
def apply(s, d):
    for f, old, new in s['edits']:
        p = f'{d}/{f}'; t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
def gen(s):
    d = scratch(); apply(s, d)
    o = f'{OUT}/{s["id"]}'; os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(sh(f'git -C {d} diff').stdout)
    open(o + '/demo.sh', 'w').write(DEMO); os.chmod(o + '/demo.sh', 0o755)
    open(o + '/demo.rs', 'w').write(PRELUDE + s['demo'])
    shutil.copy(T + '/demo.lock', o + '/Cargo.lock')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(o + '/meta.json', 'w'), indent=1)
    sh(f'git -C {d} checkout -q -- .')
ENV = '. /opt/vp/env.sh; '
def verify(s):
    d = scratch(); o = f'{OUT}/{s["id"]}'
    a = sh(f'cd {d} && bash {o}/demo.sh')
    if a.returncode: return 'DEMO FAILS ON CLEAN: ' + a.stdout[-1500:] + a.stderr[-1500:]
    r = sh(f'git -C {d} apply {o}/patch.diff')
    if r.returncode: return 'PATCH: ' + r.stderr
    r = sh(ENV + f'cd {d} && cargo build --offline --workspace --all-features --all-targets')
    if r.returncode: return 'BUILD: ' + r.stderr[-1500:]
    t = sh(ENV + f'cd {d} && cargo nextest run --offline --workspace --all-features --no-fail-fast --tool-config-file vp:/opt/vp/nextest.toml --profile vp 2>&1; cargo test --doc --offline --workspace --all-features 2>&1')
    bad = [l for l in t.stdout.splitlines() if ' FAIL ' in l or 'FAILED' in l or 'panicked' in l]
    b = sh(f'cd {d} && bash {o}/demo.sh')
    sh(f'git -C {d} checkout -q -- .')
    if bad: return 'TESTS: ' + '\n'.join(bad[:6])
    if b.returncode in (0, 3): return f'DEMO DOES NOT SHOW IT rc={b.returncode}: ' + b.stdout[-800:]
    return f'ok (demo rc {b.returncode})'
if __name__ == '__main__':
    S = load(); ids = sys.argv[2:] or list(S)
    for i in ids:
        if sys.argv[1] in ('gen', 'all'): gen(S[i])
        if sys.argv[1] in ('verify', 'all'): print(i, verify(S[i]), flush=True)
