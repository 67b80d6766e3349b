#!/usr/bin/env python3
"""Adds what a sanitizer run covered to the evidence of a property: sanmerge.py <P> <asan|tsan> <status>"""
import json,sys,os
p,v,rc=sys.argv[1],sys.argv[2],int(sys.argv[3])
f=f"/verif/evidence/{p}.json"; e=json.load(open(f))
name={"asan":"AddressSanitizer","tsan":"ThreadSanitizer"}[v]
try: s=json.load(open(f"/verif/target/{v}/evidence.json"))
except Exception: s=None
d={"result":{0:"no report",1:"violation",3:"not available here"}.get(rc,str(rc))}
if s and rc!=3:
    c=s["coverage"]
    d.update(evaluations=c["evaluations"],distinct_nontrivial=c["distinct_nontrivial"],observed=c.get("observed"),wall_s=s["wall_s"])
e["coverage"].setdefault("sanitizers",{})[name]=d
if rc==1: e["violations"]=e.get("violations",0)+1
if s: e["wall_s"]+=s["wall_s"]
json.dump(e,open(f,"w"),indent=2,ensure_ascii=False)
