#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed checks.
import json,sys
props=[json.loads(l) for l in open('properties.jsonl')]
claimed=json.load(open('tools/claimed.json'))
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in claimed['checks']:
        c=claimed['checks'][i]
        cmd='bash tools/check.sh '+i
        checks.append(dict(property=i,quick_cmd=cmd,thorough_cmd=cmd+' thorough',evidence_file=f'evidence/{i}.json',technique=c['technique'],level='exploration',level_note=c['note']))
    else:
        na.append(dict(property=i,reason=claimed['na'].get(i,'No check built yet.')))
m=dict(version=1,setup_cmd='bash tools/setup.sh',checks=checks,not_applicable=na)
if claimed.get('hooks'): m['hooks']=claimed['hooks']
if claimed.get('notes'): m['notes']=claimed['notes']
json.dump(m,open('MANIFEST.json','w'),indent=1)
open('MANIFEST.json','a').write('\n')
