#!/usr/bin/env python3
# Source of /verif/known_findings.json: repaired defects (suppress nothing) and open findings.
import json,subprocess
F=[]
log=subprocess.run(['git','-C','/repo','log','--format=%h%x09%s'],capture_output=True,text=True).stdout.splitlines()
subj={s.split('\t')[1]:s.split('\t')[0] for s in log}
def fixed(prop,subject,what):
    h=[v for k,v in subj.items() if k.startswith('fix: '+subject)]
    assert len(h)==1,(subject,h)
    F.append({"id":f"F{len(F)+1:02d}","property":prop,"status":"fixed","commit":h[0],"what":what,
              "line":f"fixed: property={prop} {h[0]} {what}"})
def open_(prop,id,what): F.append({"id":id,"property":prop,"status":"open","commit":"","what":what})
exec(open('/verif/tools/findings.py').read())
json.dump({"findings":F},open('/verif/known_findings.json','w'),indent=1)
open('/verif/known_findings.json','a').write("\n")
have={f['commit'] for f in F}
for s in log:
    h,t=s.split('\t')
    if t.startswith('fix:') and h not in have: print('NOT RECORDED',s)
