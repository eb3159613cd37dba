#!/usr/bin/env python3
"""writes MANIFEST.json from the table of checks and properties.jsonl"""
import json, os, sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H+'/lib'); import table
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
m=dict(version=1,setup_cmd='python3 check.py --setup',checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in table.PROPS:
        t=table.PROPS[i]
        m['checks'].append(dict(property=i,quick_cmd='python3 check.py %s quick'%i,thorough_cmd='python3 check.py %s thorough'%i,technique=t.get('technique',table.TECH_SIM),level='exploration',level_note=t.get('note',table.NOTE_SIM)))
    else: m['not_applicable'].append(dict(property=i,reason='check under construction'))
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1); print(len(m['checks']),'checks')
