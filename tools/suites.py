#!/usr/bin/env python3
"""suites.py: rewrites SUITES.md, the list of everything that is enumerated (both tiers), from the checker itself."""
import subprocess, json
MC = '/verif/mc/target/release/mc'
props = [json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
out = ['# Spaces explored, per property', '', 'Generated by tools/suites.py from the checker. Every index of every space is executed; `q` and `t` are the',
       'number of cases in the quick and the thorough tier (the text is the quick tier\'s unless only thorough has the space).', '']
def rows(cmd, i, t):
    r = {}
    for l in subprocess.run([MC, cmd, i, t], capture_output=True, text=True).stdout.splitlines():
        name, n, text = l.split(None, 2)
        r[name] = (int(n), text)
    return r
tot = [0, 0]
for p in props:
    i = p['id']
    out += [f'## {i} {p["title"]}', '', '| suite | q | t | space |', '|---|---:|---:|---|']
    for cmd, pre in (('list', ''), ('miri-list', 'Miri: ')):
        q, t = rows(cmd, i, 'quick'), rows(cmd, i, 'thorough')
        for n in list(q) + [x for x in t if x not in q]:
            a, b = q.get(n, (0, ''))[0], t.get(n, (0, ''))[0]
            tot[0] += a; tot[1] += b
            out.append(f'| {pre}{n} | {a:,} | {b:,} | {(q.get(n) or t[n])[1].replace("|", "/")} |')
    out.append('')
out.append(f'Total: {tot[0]:,} cases quick, {tot[1]:,} thorough (a case may hold many executions).')
open('/verif/SUITES.md', 'w').write('\n'.join(out) + '\n')
print(tot)
