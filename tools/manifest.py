import json,os,sys
T=json.load(open("/verif/tools/tech.json"))
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
checks=[];na=[]
for q in props:
    i=q["id"]
    if os.path.exists("/verif/checks/%s.py"%i.lower()):
        checks.append(dict(property=i,quick_cmd="python3 run.py %s"%i,thorough_cmd="python3 run.py %s --tier thorough"%i,evidence_file="evidence/%s.json"%i,technique=T[i][0],level="exploration",level_note=T[i][1]))
    else: na.append(dict(property=i,reason="No check has been built for it yet."))
json.dump(dict(version=1,setup_cmd="python3 run.py --selftest",checks=checks,not_applicable=na),open("/verif/MANIFEST.json","w"),indent=1)
