#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = '<!-- planted -->\n', '<!-- /planted -->\n'
caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
rows = ['| bug | needs | own | others |\n', '|---|---|---|---|\n']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    c = caught.get(i, {})
    rows.append('| %s | %s | %s %s | %s |\n' % (i, m['needs'].replace('|', '/'), m['property'], c.get('own', '?'), ' '.join(c.get('others', [])) or '-'))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, b = s.index(A) + len(A), s.index(B)
open(p, 'w').write(s[:a] + ''.join(rows) + s[b:])
print(len(rows) - 2)
