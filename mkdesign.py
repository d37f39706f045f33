#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md (between the markers)."""
import json,os,re
rows=["| bug | needs | caught by |","|---|---|---|"]
for d in sorted(os.listdir('seeded')):
    m=json.load(open(f'seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['needs']} | {m['property']} |")
t=open('DESIGN.md').read()
b="<!-- planted -->\n"+"\n".join(rows)+"\n<!-- /planted -->"
t=t.replace('@@TABLE@@',b) if '@@TABLE@@' in t else re.sub(r'<!-- planted -->.*<!-- /planted -->',lambda _:b,t,flags=re.S)
open('DESIGN.md','w').write(t)
