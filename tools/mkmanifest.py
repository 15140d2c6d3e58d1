#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
C={}
def c(id,technique,note,level='exploration'): C[id]=(technique,note,level)
exec(open(os.path.join(V,'tools','claims.py')).read())
checks=[{"property":i,"quick_cmd":"VERIF_TIER=quick ./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,
  "technique":C[i][0],"level":C[i][2],"level_note":C[i][1]} for i in ids if i in C]
na=[{"property":i,"reason":"monitor not built yet"} for i in ids if i not in C]
m={"version":1,"setup_cmd":"./check.sh build "+" ".join(x["property"] for x in checks if x["property"] in ('C01','C10','C18','C21')),
 "checks":checks,"not_applicable":na,
 "notes":"One Go program (harness/) holds all monitors; check.sh builds it from /repo's working tree (no hooks in /repo: faults, crash points and the syslog daemon are placed below the library with a build overlay of the standard library) and runs the monitor of one property in worker processes with scratch directories. Repaired defects are in known_findings.json."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
