#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
from plan import PLAN, TECH as T
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PLAN:
        q = PLAN[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': q.get('technique') or T[i],
                       'level': q.get('level', 'exploration'), 'level_note': q.get('note', 'held on the executions explored; random, hostile workloads; nothing is claimed beyond them')})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'python3 -c "import plan" && g++ --version && clang++ --version', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the monitors observe the public interface. /repo carries only fix: commits.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
