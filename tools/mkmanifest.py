#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = {}
exec(open(os.path.join(here, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i not in NOTE:
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    technique, note = NOTE[i]
    checks.append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'./check.sh {i} --thorough',
                   'evidence_file': f'evidence/{i}.json', 'technique': technique,
                   'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checkers use only public API of the crates in /repo. '}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
