#!/usr/bin/env python3
"""Writes the table of planted bugs into ../DESIGN.md"""
import glob, json, os, re
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
GAINED = {
 'eval-multisig-first-signature': 'multisig signatures occurring in the signed script',
 'p2sh-stack-top': 'many stack items left between the scripts, large redeem scripts',
 'padding-first-bytes': 'long padding',
 'bloom-first-byte-full': 'filters with full bytes',
}
try:
    from gained import GAINED as MORE
    GAINED.update(MORE)
except ImportError:
    pass
rows = []
for f in glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append((m['property'], i, m['needs'], GAINED.get(i)))
rows.sort()
t = ['| by | change | needs | caught |', '|---|---|---|---|']
for p, i, n, g in rows:
    t.append('| %s | %s | %s | %s |' % (p, i, n.replace('|', '/'), 'strengthened: ' + g if g else 'at once'))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda m: m.group(1) + '\n'.join(t) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
