#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (run by hand when the table changes).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    assert len(title)<=80,title
    P.append(d)
exec(open(os.path.join(os.path.dirname(__file__),'props_table.py')).read())
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
