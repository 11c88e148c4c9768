#!/usr/bin/env python3
"""Writes ../MANIFEST.json from ../properties.jsonl and the checks there are"""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from notes import NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'harness', 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': '/opt/venv/bin/python run.py %s --tier quick' % i,
                       'thorough_cmd': '/opt/venv/bin/python run.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': NOTES[i][0], 'level': 'model_checking', 'level_note': NOTES[i][1]})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'not built yet: the check for this property is still to be written')})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+/TLC; no hooks in /repo are needed, the drivers use its public API only.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
