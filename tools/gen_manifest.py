#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from plan import PLAN, LEVEL, NOTE, NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PLAN:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} thorough', evidence_file=f'evidence/{i}.json',
            technique='deterministic simulation with fault injection: seeded search over schedules, workloads and faults; ' + NOTE[i][0],
            level=LEVEL.get(i, 'exploration'), level_note=NOTE[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 check.py --setup', hooks=dict(guard='none', enable='no hooks: the harness executables define the libc/pthread functions the library calls; /repo is compiled as shipped', source_commits=[]),
    checks=checks, not_applicable=na,
    notes='check.py builds the simulator (sim/) with the worlds (worlds/) against /repo/include and searches seeds; plan.py maps properties to worlds; replay with: python3 check.py --replay FILE')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
