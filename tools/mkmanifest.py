#!/usr/bin/env python3
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
claims=json.load(open(V+'/tools/claims.json'))
checks=[];na=[]
for p in props:
    c=claims.get(p['id'])
    if c and c.get('claim'):
        checks.append(dict(property=p['id'],quick_cmd="python3 /verif/check.py %s quick"%p['id'],thorough_cmd="python3 /verif/check.py %s thorough"%p['id'],
          technique="contract-based deductive verification (own VC generator over go/ssa, SMT)",level="proof",level_note=c['note']))
    else:
        na.append(dict(property=p['id'],reason=c['reason'] if c else "not built yet"))
json.dump(dict(version=1,setup_cmd="bash /verif/setup.sh",checks=checks,not_applicable=na,notes="See DESIGN.md."),open(V+'/MANIFEST.json','w'),indent=1)
