#!/usr/bin/env python3
# Writes MANIFEST.json: which properties are claimed and how.
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed=open(os.path.join(root,'tools/claimed.txt')).read().split()
na=dict(l.rstrip('\n').split('\t') for l in open(os.path.join(root,'tools/not_applicable.txt')) if l.strip())
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
tech={}
for l in open(os.path.join(root,'tools/technique.txt')):
    if l.strip():
        k,v,n=l.rstrip('\n').split('\t'); tech[k]=(v,n)
checks=[]; nas=[]
for p in props:
    i=p['id']
    if i in claimed:
        t,n=tech.get(i,tech['*'])
        checks.append({"property":i,"quick_cmd":"./check.sh %s"%i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh %s"%i,"technique":t,"level":"translation_validation" if i in ("C22","C23") else "proof","level_note":n})
    else:
        nas.append({"property":i,"reason":na.get(i,"not built yet")})
json.dump({"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":nas,
 "notes":"No hooks in /repo: the contracts are stated over the protocol definitions in /verif/specs and attached to functions by the Go types they handle; the verifier reads /repo's source as it is."},open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
