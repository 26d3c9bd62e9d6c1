import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
 "C21":"Concurrency: contract verification here is sequential; the services take no lock and the store API they use offers no transaction a contract could refer to. Deciding it needs schedules, not pre/postconditions, and the code as it is gives no such guarantee.",
 "C22":"Crash atomicity: the services write a relationship and its data in separate store calls with no transaction, so the property is false at crash points between them; a contract on the functions cannot express crash points, and the repair (transactions through raccoondb) is not small.",
}
try: LV=json.load(open('/verif/levels.json'))
except Exception: LV={}
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    l=LV.get(i,{})
    checks.append({"property":i,"quick_cmd":"python3 check.py %s"%i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py %s"%i,
      "technique":l.get("technique","contract-based deductive verification"),
      "level":l.get("level","exploration"),"level_note":l.get("note","bounded executions against executable specifications")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo: contracts live in /verif/contracts and are checked against go/ssa of /repo's working tree; harness files enter through go's -overlay."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
