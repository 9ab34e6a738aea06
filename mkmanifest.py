#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of built checks."""
import json, sys, re
props = [json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
built = set(re.findall(r'"(C\d\d)" =>', open('/verif/mc/src/props/mod.rs').read()))
notes = json.load(open('/verif/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in built:
        n = notes[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
