#!/usr/bin/env python3
"""Rewrite the table of the planted bugs of DESIGN.md. `seedtable.py [ID=missed ..]`"""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict(a.split('=') for a in sys.argv[1:])
rows = ['| id | property | needs | check |', '|---|---|---|---|']
for i in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, i)))
    rows.append('| %s | %s | %s | %s |' % (
        i, m['property'], m['needs'], res.get(i, 'caught')))
p = ROOT + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'\| id \| property \|.*?\n(?=\n|\Z)',
           lambda _: '\n'.join(rows) + '\n', s, flags=re.S)
open(p, 'w').write(s)
