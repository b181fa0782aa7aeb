#!/usr/bin/env python3
"""Writes MANIFEST.json from one table; properties.jsonl gives the ids."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl'))]
exec(open(os.path.join(here,'tools','claims.py')).read())
checks=[];na=[]
for i in ids:
    if i in CLAIMS:
        t,l,n=CLAIMS[i]
        checks.append(dict(property=i,quick_cmd=f'bash check.sh {i}',thorough_cmd=f'bash check.sh {i}',evidence_file=f'evidence/{i}.json',technique=t,level=l,level_note=n))
    else:
        na.append(dict(property=i,reason=NA[i]))
json.dump(dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na,notes=NOTES),open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
