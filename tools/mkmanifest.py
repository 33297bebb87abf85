#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C=json.load(open(os.path.join(V,"tools","claims.json")))
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in C["claims"]:
        c=C["claims"][i]
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=c["technique"],level="exploration",level_note=c["note"]))
    else:
        na.append(dict(property=i,reason=C["na"].get(i,"not built yet")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes=C["notes"])
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
