#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and seed-results.txt."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(V + '/seed-results.txt'):
    a = l.split()
    if len(a) == 2:
        res[a[0]] = a[1]
rows = ['| id | property | needs | breaks | caught |', '|---|---|---|---|---|']
one = lambda x: ' '.join(str(x).replace('|', '/').split())
for d in sorted(glob.glob(V + '/seeded/*/')):
    id = d.split('/')[-2]
    m = json.load(open(d + 'meta.json'))
    rows.append(f"| {id} | {m['property']} | {one(m['needs'])} | {one(m['what_it_breaks'])} | {res.get(id, '?')} |")
p = V + '/DESIGN.md'
s = open(p).read()
a, b = s.index('<!-- seeds -->'), s.index('<!-- /seeds -->')
open(p, 'w').write(s[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n' + s[b:])
