#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    p = f'{root}/seeded/{d}/meta.json'
    if not os.path.exists(p): continue
    m = json.load(open(p))
    rows.append(f"| {d} | {m['property']} | {m.get('caught','yes')} | {' '.join(m['needs'].split())} |")
t = open(root + '/DESIGN.md').read()
i = t.index('## Planted bugs')
open(root + '/DESIGN.md', 'w').write(t[:i] + '''## Planted bugs

Each is caught by the check of its property unless the third column says
otherwise (`tool/bugtable.py` writes this table from seeded/*/meta.json).

| change | property | caught | needs |
|---|---|---|---|
''' + '\n'.join(rows) + '\n')
