import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
out=subprocess.run(['/verif/harness/target/debug/vh','list'],capture_output=True,text=True).stdout.split()
TECH={}
NOTE={}
exec(open('/verif/tools/notes.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in out:
        checks.append({"property":i,"quick_cmd":"./check.sh %s"%i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh %s"%i,
          "technique":TECH.get(i,"property-based testing"),"level":"exploration","level_note":NOTE.get(i,"")})
    else:
        na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"All checks drive the real crates of /repo through harness/ (its own workspace). No hooks in /repo: every entry point used is public. Defects found were repaired by fix: commits, listed in known-findings.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
