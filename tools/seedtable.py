#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of ../DESIGN.md from seeded/*/meta.json and seeded-missed.txt."""
import json,glob,os,re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
rows=['| bug | property | needs | caught |','|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(root,'seeded/*/meta.json'))):
    m=json.load(open(f)); i=f.split('/')[-2]
    rows.append(f"| {i} | {m['property']} | {m['needs']}: {m['what_it_breaks']} | {m.get('caught','yes')} |")
p=os.path.join(root,'DESIGN.md'); s=open(p).read()
k=s.index('## Planted bugs'); head,t=s[:k],s[k:]
t=t.replace('\nTABLE\n','\n| bug | x\n'); j=t.index('| bug |')
open(p,'w').write(head+t[:j]+'\n'.join(rows)+'\n')
