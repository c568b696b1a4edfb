#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plans."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
NA={
}
checks=[]
na=[]
for p in props:
    if p in plans.PLANS:
        checks.append(dict(property=p,quick_cmd="python3 tools/check.py %s quick"%p,thorough_cmd="python3 tools/check.py %s thorough"%p,
            technique=plans.TECH.get(p,plans.TECH_DEFAULT),level="model_checking",level_note=plans.NOTES.get(p,plans.NOTE_DEFAULT)))
    else:
        na.append(dict(property=p,reason=NA.get(p,"not built yet")))
m=dict(version=1,setup_cmd="bash tools/setup.sh",checks=checks,not_applicable=na)
if plans.HOOK_COMMITS:
    m["hooks"]=dict(guard="verif",enable="go build/test -tags verif (only the drivers of newsim, simulator and node use it)",source_commits=plans.HOOK_COMMITS)
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
