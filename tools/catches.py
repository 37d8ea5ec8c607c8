#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(V + '/seeded/*/meta.json'):
    d = json.load(open(m))
    rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['needs']))
head = "| check | planted bug | needs |\n|---|---|---|\n"
s = open(V + '/DESIGN.md').read()
a = s.index(head)
b = s.index("\n## ", a)
open(V + '/DESIGN.md', 'w').write(s[:a] + head + "".join("| %s | %s | %s |\n" % r for r in sorted(rows)) + s[b:])
