#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from the table of claimed checks.
import json, sys
CLAIMED = {}
exec(open('/verif/tools/claimed.py').read())
checks=[]
for pid,(tech,note) in sorted(CLAIMED.items()):
    checks.append({"property":pid,"quick_cmd":f"./check.sh {pid}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {pid}",
        "technique":tech,"level":"exploration","level_note":note})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":NOT_APPLICABLE,
   "notes":"No hooks in /repo are needed: the monitors observe exported APIs, sockets and processes. Known and fixed defects: known_findings.json."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write("\n")
