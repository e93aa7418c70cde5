#!/usr/bin/env python3
"""Prints the table of planted bugs per property (for the end of DESIGN.md); with --write replaces it there."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(root + '/seeded')):
    by.setdefault(json.load(open(f'{root}/seeded/{d}/meta.json'))['property'], []).append(d)
t = '| property | planted bugs caught |\n|---|---|\n' + ''.join(f'| {k} | {", ".join(v)} |\n' for k, v in sorted(by.items()))
if '--write' in sys.argv:
    p = root + '/DESIGN.md'
    s = open(p).read()
    open(p, 'w').write(s[:s.index('| property | planted bugs caught |')] + t)
else:
    print(t, end='')
