#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan of the checks"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN   # noqa: E402
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, rest = [], []
for p in props:
    i = p['id']
    if i not in PLAN:
        rest.append({'property': i, 'reason': 'the check is not written yet'})
        continue
    plan = PLAN[i]
    mods = ', '.join(sorted({m[0] for m in plan['models']}))
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s quick' % i,
        'thorough_cmd': 'python3 check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': plan.get('technique', 'TLA+ specification model-checked with TLC; traces recorded from the library validated by TLC against it'),
        'level': 'model_checking',
        'level_note': plan.get('note', 'The answers of the real code to generated calls (counts in the evidence) are each decided by TLC against the specification%s. '
                      'What is not generated is not covered; trusted: the specification (reviewed against ICAO Doc 9871, Annex 10 and DO-260 from memory), TLC, the driver that projects Go values.'
                      % ((', whose laws are model-checked exhaustively within the bounds of ' + mods) if mods else '')),
    })
json.dump({'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': rest,
           'notes': 'TLA+ with TLC. See DESIGN.md. No hooks in /repo: everything is observed through the public API.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
