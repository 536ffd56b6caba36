#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a check (drv list) and those that cannot have one."""
import json, os, subprocess
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have=subprocess.run([ROOT+'/build/drv','list'],capture_output=True,text=True).stdout.split()
props=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
TECH='deterministic simulation with fault injection: seeded search over thread schedules and fault sequences of the real interpreter under a simulated scheduler, clock, file system, terminal and random source; '
HOW={}
exec(open(ROOT+'/tools/how.py').read())
NA={'N01':'pure function of the operand values: no thread, clock, I/O, randomness or failure takes part, so there is nothing for a simulator to schedule or inject',
    'N02':'pure geometry of one step of one IP over given cells: no concurrency, time or I/O takes part (cells changing under a moving IP belong to C05)',
    'N03':'pure string and number conversion: no concurrency, time or I/O takes part (the reading instructions of these fingerprints belong to C11)'}
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append(dict(property=i,quick_cmd='./check %s quick'%i,thorough_cmd='./check %s thorough'%i,technique=TECH+HOW[i][0],level='exploration',level_note=HOW[i][1]))
    else:
        na.append(dict(property=i,reason=NA.get(i,'no check yet')))
m=dict(version=1,setup_cmd='bash sim/build.sh',hooks=dict(guard='',enable='',source_commits=[]),checks=checks,not_applicable=na,
  notes='No hooks in /repo are needed: the repository sources are compiled with -fsanitize=thread instrumentation against a runtime of our own (sim/rt.cpp), which makes every memory access, lock, call and clock a step of the simulated schedule.')
json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1); open(ROOT+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'not applicable')
