#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in glob.glob(root + '/seeded/*/meta.json'):
    d = json.load(open(p))
    rows.append((d['property'], os.path.basename(os.path.dirname(p)), d['what_it_breaks'], d['needs']))
rows.sort()
cell = lambda s: ' '.join(str(s).split()).replace('|', '\\|')
table = '| property | bug | what it breaks | what it needs |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % tuple(map(cell, r)) for r in rows)
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m[1] + table + m[2], s, flags=re.S)
open(p, 'w').write(s)
print(len(rows), 'planted bugs')
