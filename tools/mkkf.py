#!/usr/bin/env python3
"""Writes ../known_findings.json: findings (not repaired) and fixed defects.

A finding is matched by the clause the specification reports for exactly that
deviation (see the specs), and if given the operation; nothing else is hidden."""
import json, os, subprocess
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
from kf import FINDINGS, FIXED
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
fixed = []
for line in reversed(log):
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    hit = [p for k, p in FIXED if k in s]
    assert len(hit) == 1, (s, hit)
    fixed.append('fixed: property=%s %s %s' % (hit[0], h, s[5:]))
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump({'findings': FINDINGS, 'fixed': fixed}, f, indent=1)
    f.write('\n')
