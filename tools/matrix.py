#!/usr/bin/env python3
"""matrix.py [-o OUT.json] [-k] PATCHDIR_OR_ID ...  : which native checks notice each planted bug (scratch copy /tmp/s).
   -k: stop at the bug's own property only. Never run by a check."""
import sys, os, json, subprocess, time
IDS = [f'C{i:02d}' for i in range(1,23)]
S = '/tmp/s'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prep():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(S + '/repo'): sh(f'git clone -q /repo {S}/repo')
    sh(f'cd {S}/repo && git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq -e target')
    os.makedirs(S + '/mc', exist_ok=True)
    sh(f'rsync -a --delete /verif/mc/src/ {S}/mc/src/ || (rm -rf {S}/mc/src && cp -a /verif/mc/src {S}/mc/src)')
    sh(f'cp /verif/mc/Cargo.lock {S}/mc/; sed "s#/repo#{S}/repo#" /verif/mc/Cargo.toml > {S}/mc/Cargo.toml; cp /verif/KNOWN_FINDINGS.txt {S}/')
def build():
    r = sh(f'cd {S}/mc && touch {S}/repo/src/lib.rs && cargo build --release --offline')
    return None if r.returncode == 0 else r.stderr[-1500:]
def run(i, tier='quick'):
    t = time.time()
    r = sh(f'MC_ROOT={S} {S}/mc/target/release/mc native {i} {tier}')
    return r.returncode, round(time.time() - t, 1), r.stdout
def checks(ids):
    res = {}
    for i in ids: res[i] = run(i)
    return res
if __name__ == '__main__':
    a = sys.argv[1:]; own = '-k' in a; a = [x for x in a if x != '-k']
    out = None
    if a and a[0] == '-o': out = a[1]; a = a[2:]
    prep(); tab = {}
    for b in a or sorted(os.listdir('/verif/seeded')):
        d = f'/verif/seeded/{b}'; prop = json.load(open(d + '/meta.json'))['property']
        sh(f'git -C {S}/repo checkout -q -- .')
        r = sh(f'git -C {S}/repo apply {d}/patch.diff')
        if r.returncode: print(b, 'PATCH', r.stderr); continue
        e = build()
        if e: print(b, 'BUILD', e); continue
        res = checks([prop] if own else IDS)
        hit = [i for i in res if res[i][0] == 1]; odd = [i for i in res if res[i][0] not in (0, 1)]
        tab[b] = dict(property=prop, caught=hit, odd=odd)
        print(b, 'CAUGHT' if prop in hit else '*** MISSED', 'by', ' '.join(hit), ('odd ' + ' '.join(odd)) if odd else '', f'{sum(x[1] for x in res.values()):.0f}s', flush=True)
        if out: json.dump(tab, open(out, 'w'), indent=1)
    sh(f'git -C {S}/repo checkout -q -- .')
