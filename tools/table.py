#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | what it breaks |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['what_it_breaks']))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'\| bug \| caught by .*?\n\n', lambda _: '\n'.join(rows) + '\n\n', s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
