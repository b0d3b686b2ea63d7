import json,os
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(H,"properties.jsonl"))]
NA={}
try: LV=json.load(open(os.path.join(H,"tools","levels.json")))
except Exception: LV={}
checks=[]
for p in props:
    i=p["id"]
    if i in NA: continue
    lv=LV.get(i,{"level":"exploration","technique":"contract checking of the real code on generated inputs (bounded stand-in)","note":"bounded: random set-ups of the quantifier run on the real code"})
    checks.append(dict(property=i,quick_cmd=f"python3-vt check.py {i} --tier quick",thorough_cmd=f"python3-vt check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json",technique=lv["technique"],level=lv["level"],level_note=lv["note"]))
m=dict(version=1,setup_cmd="python3-vt tools/setup.py",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
       notes="No hooks in /repo: the verifier extracts the functions mechanically from the source on every run. Repairs of genuine defects are fix: commits listed in known-findings.txt.")
json.dump(m,open(os.path.join(H,"MANIFEST.json"),"w"),indent=1)
