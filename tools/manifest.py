#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks.map and the table below (run by hand)."""
import json
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
crate=dict(l.split() for l in open("/verif/checks.map") if l.strip())
T={}  # id -> (technique, note)
NA={} # id -> reason
exec(open("/verif/tools/manifest_data.py").read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    assert i in crate and i in T,i
    t,n=T[i]
    checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level="exploration",level_note=n))
m=dict(version=1,setup_cmd="./setup.sh",hooks=dict(guard="none",enable="no hooks: the harness crates use public items only",source_commits=[]),checks=checks,not_applicable=na,notes="Known findings and repairs: KNOWN_FINDINGS.txt. Design: DESIGN.md.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
print(len(checks),len(na))
