#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl, the harness directories and tools/na.json.
import json,os,re
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
na=json.load(open(R+'/tools/na.json'))
checks=[];nap=[]
for l in open(R+'/properties.jsonl'):
    p=json.loads(l); id=p['id']
    d=R+'/harness/'+id
    if os.path.isdir(d) and any(f.endswith('.go') for f in os.listdir(d)):
        notes=[]
        for f in sorted(os.listdir(d)):
            for m in re.findall(r'^//verif:note (.*)$',open(d+'/'+f).read(),re.M): notes.append(m)
        checks.append(dict(property=id,quick_cmd='./check.sh %s quick'%id,thorough_cmd='./check.sh %s thorough'%id,
          technique='symbolic execution of the Go SSA of the real code, SMT-decided assertions (z3), native replay of counterexamples',
          level='model_checking',
          level_note='Holds for every input, schedule and fault choice within the bounds printed in the evidence file; outside them nothing is claimed. Trusts the engine in engine/, its models of the standard library named in DESIGN.md, and z3. '+' '.join(notes)))
    else:
        nap.append(dict(property=id,reason=na.get(id,'no harness built for it yet')))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=nap,notes='No hooks in /repo: harnesses are added to the packages through overlays at check time. See DESIGN.md.')
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(nap),'n/a')
