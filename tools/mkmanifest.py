#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl and the notes below.
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
notes=json.load(open(here+'/tools/notes.json'))
checks=[];na=[]
for p in props:
    n=notes['claims'].get(p['id'])
    if n:
        checks.append(dict(property=p['id'],quick_cmd=f"bash run.sh {p['id']} quick",thorough_cmd=f"bash run.sh {p['id']} thorough",
          evidence_file=f"evidence/{p['id']}.json",technique="symbolic execution of go/ssa from the current tree, obligations discharged by z3 (bit-vectors and finite fields), counterexamples replayed natively",
          level="other",level_note=n))
    else:
        na.append(dict(property=p['id'],reason=notes['na'].get(p['id'],"check under construction")))
m=dict(version=1,setup_cmd="bash setup.sh",hooks=dict(guard="none",enable="no hooks: harnesses are compiled in through an overlay",source_commits=[]),checks=checks,not_applicable=na,notes="See DESIGN.md.")
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
