#!/usr/bin/env python3
"""Writes MANIFEST.json from driver/props.py and properties.jsonl."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/driver')
from props import PROPS,NOTES
NA={'N':"pure function of its arguments: no schedule, clock, I/O, fault or history takes part, so deterministic simulation has nothing to control"}
checks=[];na=[]
for l in open(V+'/properties.jsonl'):
    i=json.loads(l)['id']
    if i in PROPS: checks.append(dict(property=i,quick_cmd="python3 driver/check.py %s quick"%i,thorough_cmd="python3 driver/check.py %s thorough"%i,evidence_file="evidence/%s.json"%i,technique="deterministic simulation with fault injection: seeded search over schedules, faults and workloads of the real code",level="exploration",level_note=NOTES[i]))
    else: na.append(dict(property=i,reason=NA.get(i[0],"check under construction")))
json.dump(dict(version=1,setup_cmd="python3 driver/build.py",checks=checks,not_applicable=na),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),"checks",len(na),"not applicable")
