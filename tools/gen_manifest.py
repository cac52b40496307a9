#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, harnesses.json and the reasons below."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
hs=json.load(open('/verif/harness/harnesses.json'))
na=json.load(open('/verif/tools/not_applicable.json'))
by={}
for h in hs: by.setdefault(h['prop'],[]).append(h)
TECH="symbolic execution of the Go SSA of the real code, SMT-decided (cvc5)"
checks=[]; nas=[]
for p in props:
    i=p['id']
    if i in by and i not in na:
        sched=any(h.get('sched') for h in by[i])
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":TECH+("; bounded exploration of goroutine schedules" if sched else ""),
          "level":"model_checking",
          "level_note":"Bounded: "+"; ".join(f"{h['func']}: {h['desc']}" for h in by[i])+". Bounds per run are in the evidence file; violations are replayed natively before they are reported."})
    else:
        nas.append({"property":i,"reason":na.get(i,"check not built yet")})
for i in na: assert any(p['id']==i for p in props), i
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none","enable":"no hooks: harnesses enter through build overlays, /repo is not instrumented","source_commits":[]},"checks":checks,"not_applicable":nas}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(nas),'not applicable')
