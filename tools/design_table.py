#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md"""
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs | caught by |', '| --- | --- | --- | --- |']
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
path = os.path.join(here, 'DESIGN.md')
s = open(path).read()
table = '\n'.join(rows)
if 'TABLE' in s:
    s = s.replace('TABLE', table)
else:
    s = re.sub(r'\| bug \|.*?\n\n', lambda _: table + '\n\n', s, flags=re.S)
open(path, 'w').write(s)
