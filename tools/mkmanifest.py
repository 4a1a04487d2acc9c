#!/usr/bin/env python3
# Writes MANIFEST.json for the properties which have checks (h/props/cNN.go).
import json,os,re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props=[json.loads(l) for l in open('properties.jsonl')]
have=set()
for f in os.listdir('h/props'):
    have|=set(re.findall(r'ID:\s+"(C\d+)"',open('h/props/'+f).read()))
notes=json.load(open('tools/levels.json'))
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in have:
        n=notes.get(i,{})
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":n.get("technique","stateless model checking of the real code: exhaustive enumeration of operation sequences against a reference model"),
          "level":"model_checking","level_note":n.get("note","Every execution within the stated bounds is run on the code built from the current tree and compared with an independent reference model.")})
    else:
        m["not_applicable"].append({"property":i,"reason":"check is not built yet"})
m["notes"]="No hooks in /repo: all harnesses use the exported API; the concurrency checks (C13, C14) build the current sources through a generated overlay with a controlled scheduler."
open('MANIFEST.json','w').write(json.dumps(m,indent=1)+"\n")
print(len(m["checks"]),"checks;",[x["property"] for x in m["not_applicable"]])
