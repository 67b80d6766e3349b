#!/usr/bin/env python3
"""Rewrite the planted-bug table of DESIGN.md (between the SEEDTABLE marks) from seeded/*/meta.json."""
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| planted bug | property (its check catches it) | needs |","|---|---|---|"]
for d in sorted(glob.glob(root+"/seeded/*/meta.json")):
    m=json.load(open(d)); rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |")
p=root+"/DESIGN.md"; s=open(p).read()
t="<!--seeds-->\n"+"\n".join(rows)+"\n<!--/seeds-->"
if "<!--seeds-->" in s: s=re.sub(r"<!--seeds-->.*<!--/seeds-->",lambda _:t,s,flags=re.S)
else: s=s.replace("SEEDTABLE",t)
open(p,"w").write(s)
