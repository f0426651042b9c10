import json,sys
t=json.load(open('/verif/checks/targets.json'))
H=["harness/vf.cc","harness/ref.cc","harness/gen.cc","harness/capi.cc","harness/rows.cc"]
for n in sys.argv[1:]:
    tools=n.endswith('+'); sql='%' in n; n=n.replace('%','').rstrip('+')
    t[n]={"sources":H+(["harness/tools.cc"] if tools else [])+(["harness/sql.cc"] if sql else [])+["checks/%s.cc"%n]}
    if tools: t[n]["tools"]=True
json.dump(t,open('/verif/checks/targets.json','w'),indent=1)
