#!/usr/bin/env python3
"""Regenerates the table of planted bugs in /verif/DESIGN.md."""
import json,os,re
p='/verif/DESIGN.md'; s=open(p).read()
ids=sorted(os.listdir('/verif/seeded'))
rows=[]
for i in ids:
    m=json.load(open(f'/verif/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
head="| change | check | what it breaks | needs |\n|---|---|---|---|\n"
a=s.index(head); b=s.index("\nBeyond these,")
s=s[:a]+head+"\n".join(rows)+"\n"+s[b:]
open(p,'w').write(s)
