#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = {}
for l in open(os.path.join(root, 'properties.jsonl')):
    d = json.loads(l)
    props[d['id']] = d
LEVEL = json.load(open(os.path.join(here, 'claims.json')))
checks, na = [], []
for p in sorted(props):
    c = LEVEL.get(p)
    if c is None:
        na.append({"property": p, "reason": "the check for this property is not built yet"})
    elif 'na' in c:
        na.append({"property": p, "reason": c['na']})
    else:
        checks.append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "./check.sh " + p,
                       "technique": c['technique'], "level": c['level'], "level_note": c['note']})
m = {"version": 1, "setup_cmd": "./check.sh --setup",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check instruments a scratch copy of /repo's current tree (yield points, map iteration, simulated os/sync/time/net) and builds it outside /repo. Quick and thorough differ by VERIF_TIER."}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), ensure_ascii=False, indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
