#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties below.
import json,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
exec(open('/verif/tools/claims.py').read())   # CLAIMED: id -> level_note ; NA: id -> reason
checks=[]; na=[]
for x in props:
    i=x['id']
    if i in CLAIMED:
        checks.append(dict(property=i,
          quick_cmd="./check.sh %s quick"%i, thorough_cmd="./check.sh %s thorough"%i,
          evidence_file="evidence/%s.json"%i,
          technique="contract-based deductive verification (SSA verification conditions of the real Go code, SMT)",
          level="proof", level_note=CLAIMED[i]))
    else:
        na.append(dict(property=i,reason=NA[i]))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="Every check: contracts on the real Go functions, verification conditions generated from /repo's current source by /verif/govc and discharged by z3/cvc5; a bounded harness on the real interpreter replays failures and covers, labelled bounded, what is outside the contracts.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(checks),"claimed",len(na),"not applicable")
