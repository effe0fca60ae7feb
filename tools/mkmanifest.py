#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties below."""
import json,os
os.chdir(os.path.join(os.path.dirname(__file__),'..'))
T={ # property: (technique, level note)
}
exec(open('tools/claims.py').read())
props=[json.loads(l) for l in open('properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        t,n=T[i]
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i}",thorough_cmd=f"./run.sh {i}",technique=t,level="exploration",level_note=n))
    else: na.append(dict(property=i,reason=NA.get(i,"its check is not built yet")))
m=dict(version=1,setup_cmd="./run.sh build",checks=checks,not_applicable=na,notes="No hooks in /repo are needed: every check uses the public interface (and the folialintr program). Seeds come from VERIF_SEED, the tier from VERIF_TIER.")
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
