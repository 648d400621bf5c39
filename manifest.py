#!/usr/bin/env python3
# Source of MANIFEST.json (run: python3 manifest.py).
import json
AI="abstract interpretation of the SSA form (polyhedral positions, text windows, quantified facts over runes, loop fixpoints)"
claims={}
def c(id,tech,note,level="other"): claims[id]=(tech,note,level)
exec(open('claims.py').read())
m=dict(version=1,setup_cmd="sh ./build.sh",checks=[],not_applicable=[])
props=[json.loads(l)["id"] for l in open('properties.jsonl')]
for id in props:
    if id in claims:
        t,n,l=claims[id]
        m["checks"].append(dict(property=id,quick_cmd="./check.sh "+id,thorough_cmd="VERIF_TIER=thorough ./check.sh "+id,technique=t,level=l,level_note=n))
    else:
        m["not_applicable"].append(dict(property=id,reason=na.get(id,"no check yet")))
json.dump(m,open('MANIFEST.json','w'),indent=1)
