#!/usr/bin/env python3
"""Writes MANIFEST.json: every property which has a module in checks/ is claimed"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from harness import rules
props = [json.loads(x) for x in open(os.path.join(here, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(here, 'checks', pid.lower() + '.py')) and pid in rules.RULES:
        cmd = f'python3 harness/run.py {pid}'
        checks.append({
            'property': pid, 'quick_cmd': cmd + ' --tier quick', 'thorough_cmd': cmd + ' --tier thorough',
            'technique': rules.TECHNIQUE.get(pid, 'property-based testing (Hypothesis) against a reference model'),
            'level': 'exploration',
            'level_note': 'Holds on every generated case of a run; searched, not proved. ' +
                          ' '.join(rules.ASSUMPTIONS.get(pid, []) + rules.COMMON),
        })
    else:
        missing.append({'property': pid, 'reason': 'The check for this property has not been built yet.'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing,
           'notes': 'No hooks in /repo. See DESIGN.md.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
