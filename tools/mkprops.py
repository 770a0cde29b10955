#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        **({"state":[dict(zip(("name","meaning","where"),s)) for s in state]} if state else {}),
        "mechanism":[{"name":n,"where":w} for n,w in mech],
        **({"observe_at":observe} if observe else {}),"hook_needed":None}})
I="pkg/port/iscsit/"; S="pkg/scsi/"; B="pkg/scsi/backingstore/"
exec(open(os.path.join(os.path.dirname(__file__),"props_data.py")).read())
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
print(len(P),"properties")
