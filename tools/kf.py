import json,subprocess
p='/verif/known_findings.json'
d=json.load(open(p))
def fixed(prop,subj,what):
    out=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
    h=[o.split()[0] for o in out if subj in o]
    assert len(h)==1,(subj,h)
    id=f"fixed-{h[0]}-{prop}"
    d['findings']=[f for f in d['findings'] if f['id']!=id]
    d['findings'].append(dict(id=id,property=prop,status="fixed",commit=h[0],what=what,line=f"fixed: property={prop} {h[0]} {what}"))
def known(id,prop,match,clauses,what):
    d['findings']=[f for f in d['findings'] if f['id']!=id]
    d['findings'].append(dict(id=id,property=prop,status="known",match=match,clauses=clauses,what=what))
def save(): json.dump(d,open(p,'w'),indent=1)
