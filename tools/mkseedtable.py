#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | needs | caught by |', '|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['needs'].replace('|', '/'), m['property']))
p = V + '/DESIGN.md'; s = open(p).read()
b, e = '<!-- planted -->', '<!-- /planted -->'
if 'SEEDTABLE' in s: s = s.replace('SEEDTABLE', b + e)
s = s[:s.index(b) + len(b)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(e):]
open(p, 'w').write(s)
