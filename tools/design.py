#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md and the planted bugs (which check reports which is in caught.txt)."""
import json,glob,os
V='/verif/'
caught={}
if os.path.exists(V+'tools/caught.txt'):
    for l in open(V+'tools/caught.txt'):
        i,c=l.split(None,1); caught[i]=c.strip()
rows=['| change | property | needs | reported by (quick) |','|---|---|---|---|']
for m in sorted(glob.glob(V+'seeded/*/meta.json'),key=lambda m:(json.load(open(m))['property'],m)):
    i=m.split('/')[-2]; j=json.load(open(m))
    rows.append(f"| {i} | {j['property']} | {j['needs']} | {caught.get(i,'not run')} |")
open(V+'DESIGN.md','w').write(open(V+'tools/DESIGN.in.md').read().replace('@SEEDED@','\n'.join(rows)))
