#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
R=__file__.rsplit('/tools/',1)[0]
T={ # technique, level, level_note
}
exec(open(R+'/tools/levels.py').read())
checks=[];na=[]
for l in open(R+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    if os.path.exists(R+'/harness/src/bin/%s.rs'%i.lower()) and i in T:
        t,lv,note=T[i]
        checks.append(dict(property=i,quick_cmd='./check.sh '+i,thorough_cmd='VERIF_TIER=thorough ./check.sh '+i,
            evidence_file='evidence/%s.json'%i,technique=t,level=lv,level_note=note))
    else:
        na.append(dict(property=i,reason='check not built yet'))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='No hooks in /repo: all monitors observe public behaviour. DESIGN.md explains each check; known-findings.txt lists the repaired defects.')
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1); open(R+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'not applicable')
