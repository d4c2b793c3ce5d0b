#!/usr/bin/env python3
# regenerates MANIFEST.json from the table below
import json, subprocess
T = {}
def c(id, technique, note): T[id] = (technique, note)
exec(open('/verif/tools/claims.py').read())
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
hooks = subprocess.run(['git','-C','/repo','log','--format=%H','--grep','^verif hooks'],capture_output=True,text=True).stdout.split()
m = {"version":1,"setup_cmd":"./run.sh build",
 "hooks":{"guard":"verif","enable":"go build -tags verif (run.sh builds the harness, and with it /repo/zygo, with this tag)","source_commits":hooks},
 "checks":[{"property":p,"quick_cmd":f"./run.sh check {p} quick","thorough_cmd":f"./run.sh check {p} thorough","evidence_file":f"evidence/{p}.json","technique":T[p][0],"level":"model_checking","level_note":T[p][1]} for p in props if p in T],
 "not_applicable":[{"property":p,"reason":NA.get(p,"no check built yet")} for p in props if p not in T],
 "notes":"One Go harness (harness/) drives the real interpreter; every check enumerates a bounded space exhaustively and compares each execution with an independent reference model. See DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
