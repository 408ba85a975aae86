#!/usr/bin/env python3
"""Prints the table of seeded bugs for DESIGN.md; takes a file with lines `id: checks` as measured."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(here, 'tools', 'caught.json')))
rows = ['| Bug | Property | Needs | Caught by |', '| --- | --- | --- | --- |']
for id in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', id, 'meta.json')))
    rows.append(f"| `{id}` | {m['property']} | {m['needs']} | {', '.join(caught.get(id, [])) or 'none'} |")
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeds -->', '<!-- /seeds -->'
table = a + '\n' + '\n'.join(rows) + '\n' + b
s = s.replace('SEEDTABLE', table) if 'SEEDTABLE' in s else s[:s.index(a)] + table + s[s.index(b) + len(b):]
open(p, 'w').write(s)
