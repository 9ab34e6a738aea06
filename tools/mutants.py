#!/usr/bin/env python3
"""mutants.py [first [last]]: run native checks against the mutants of /tmp/mut (see mutagen) until one reports a violation.
   Scratch copies only; never run by a check."""
import sys, subprocess, time, os
B = '/tmp/mut'
FULL = 'full' in sys.argv
if FULL: sys.argv.remove('full')
HINT = {'config.rs': ['C12', 'C07', 'C01'], 'impls': ['C13', 'C12'], 'parse.rs': ['C17', 'C01', 'C06', 'C11', 'C09'], 'parsebuf.rs': ['C17', 'C11', 'C04', 'C20'], 'error.rs': ['C11'], 'flags.rs': ['C15', 'C16'],
        'endian.rs': ['C05'], 'fmt.rs': ['C16'], 'read.rs': ['C18', 'C03'], 'sample.rs': ['C02', 'C15', 'C14'], 'cow.rs': ['C04', 'C20'], 'text_poke': ['C01', 'C08']}
ORDER = 'C01 C20 C14 C16 C12 C13 C11 C18 C19 C17 C15 C10 C09 C02'.split()
L = [l.rstrip('\n').split('\t') for l in open(B + '/list.txt')]
a, b = (int(sys.argv[1]) if len(sys.argv) > 1 else 1), (int(sys.argv[2]) if len(sys.argv) > 2 else 10**9)
for n, at, fn, what in L:
    if not a <= int(n) <= b: continue
    hint = [c for k, v in HINT.items() if k in at for c in v]
    order = hint + [c for c in (ORDER if FULL else ['C01', 'C20', 'C14']) if c not in hint]
    t = time.time(); hit = None
    for c in order:
        r = subprocess.run([B + '/mc/target/release/mc', 'native', c, 'quick'], capture_output=True, text=True, env=dict(os.environ, MUTANT=n, MC_ROOT=B))
        if r.returncode: hit = c if r.returncode == 1 else f'{c}(rc {r.returncode})'; break
    print(n, hit or '*** SURVIVED', f'{time.time()-t:.0f}s', at, fn, what[:150], flush=True)
