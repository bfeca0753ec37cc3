#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED maps property -> level note."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
notes=json.load(open(V+'/tools/claims.json'))
checks=[];na=[]
for i in ids:
    if i in notes['claimed']:
        c=notes['claimed'][i]
        checks.append(dict(property=i,quick_cmd=f"/verif/check.sh {i} quick",thorough_cmd=f"/verif/check.sh {i} thorough",
          evidence_file=f"/verif/evidence/{i}.json",
          technique="contract-based deductive verification of the real code: contracts in /verif/contracts, conditions generated from /repo's SSA on every run by /verif/govc, discharged by z3/cvc5; executable contracts replay failures on the real code",
          level=c.get('level','proof'),level_note=c['note']))
    else:
        na.append(dict(property=i,reason=notes['na'].get(i,'not built yet')))
json.dump(dict(version=1,setup_cmd="cd /verif/govc && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go build -o /verif/bin/govc .",
  checks=checks,not_applicable=na,notes="see DESIGN.md; hooks: none"),open(V+'/MANIFEST.json','w'),indent=1)
