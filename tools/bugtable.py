#!/usr/bin/env python3
"""Rewrites the bug table of DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ['| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted((root/'seeded').iterdir()):
    m = json.loads((d/'meta.json').read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks'].strip()} | {m['needs'].strip()} |".replace('\n', ' '))
p = root/'DESIGN.md'
t = p.read_text()
t = re.sub(r'\| bug \| caught by .*?\n\n', '\n'.join(rows)+'\n\n', t, flags=re.S)
p.write_text(t)
