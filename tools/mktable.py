#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(V + '/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'], m['what_it_breaks']))
t = '| caught by | bug | needs | breaks |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % tuple(x.replace('|', '/') for x in r) for r in sorted(rows))
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->\n'
if a not in s:
    s = s.replace('@TABLE@\n', a + b)
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(p, 'w').write(s)
