#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed/caught.json (scenario that catches each)."""
import json, os, glob
v = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
c = json.load(open(v + '/tools/seed/caught.json'))
rows = ['| planted | needs | caught by |', '|---|---|---|']
for d in sorted(glob.glob(v + '/seeded/*/meta.json')):
    i = d.split('/')[-2]; m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/'), c.get(i, 'not tried')))
p = v + '/DESIGN.md'; s = open(p).read()
a, b = '<!-- planted -->', '<!-- /planted -->'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
