#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['needs'].strip().rstrip('.'), m.get('caught_by', m['property'])))
rows.sort()
t = '| change | property | needs | caught by |\n|---|---|---|---|\n' + ''.join(f'| {d} | {p} | {n} | {c} |\n' for p, d, n, c in rows)
s = open(root + '/DESIGN.md').read()
b, e = '<!-- seeded -->\n', '<!-- /seeded -->'
s = s.replace('@@SEEDED@@', b + e)
i, j = s.index(b) + len(b), s.index(e)
open(root + '/DESIGN.md', 'w').write(s[:i] + t + s[j:])
