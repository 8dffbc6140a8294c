#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from checks import CHECKS
REASONS = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': CHECKS[i]['technique'], 'level': 'model_checking', 'level_note': CHECKS[i]['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': REASONS.get(i, 'check not built yet')})
m['notes'] = 'No hooks in /repo. Every check compiles its harness from the current tree of /repo.'
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
