#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import plan
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []
na = []
for p in props:
    i = p['id']
    if i not in plan.CLAIM:
        na.append({'property': i, 'reason': plan.NOT_YET.get(i, 'no check yet')})
        continue
    tech, note = plan.CLAIM[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'technique': tech, 'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked and executed as trace judges by TLC; harness in harness/; see DESIGN.md. No hooks in /repo: the instrumented copy is made by a build overlay.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
