#!/usr/bin/env python3
import json
import sys
sys.path.insert(0,'/verif/tools')
from claims import CLAIMS, NA
checks=[]
for pid,(tech,level,note) in CLAIMS.items():
    checks.append(dict(property=pid,quick_cmd=f"bash run.sh {pid}",thorough_cmd=f"bash run.sh {pid}",technique=tech,level=level,level_note=note))
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
na=[dict(property=i,reason=NA.get(i,"not built yet")) for i in ids if i not in CLAIMS]
m=dict(version=1,setup_cmd="bash run.sh build",checks=checks,not_applicable=na,
 notes="All checks are static: run.sh builds checker/ (Go, x/tools SSA) and analyses /repo's current sources; nothing of /repo is executed.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(checks),len(na))
