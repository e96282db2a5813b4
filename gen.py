#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from props.py"""
import json,os
from props import PROPS,NA
V=os.path.dirname(os.path.abspath(__file__))
def line(i,p): return {"id":i,"title":p['title'],"statement":p['statement'],"quantifier":{"over":p['over'],"text":p['qtext']},"why_tests_cant":p['why'],"anchors":{"files":p['files'],"mechanism":p['mech']}}
allp=sorted(list(PROPS.items())+list(NA.items()))
with open(V+'/properties.jsonl','w') as f:
    for i,p in allp:
        assert len(p['title'])<=80,(i,len(p['title']))
        f.write(json.dumps(line(i,p))+'\n')
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[{"property":i,"reason":p['reason']} for i,p in sorted(NA.items())]}
for i,p in sorted(PROPS.items()):
    m["checks"].append({"property":i,"quick_cmd":f"python3 /verif/check.py {i} --tier quick","thorough_cmd":f"python3 /verif/check.py {i} --tier thorough",
      "technique":"symbolic execution of the LLVM IR of /repo's current sources (own interpreter) with Z3/cvc5 deciding every assertion; counterexamples replayed on the compiled code",
      "level":"model_checking","level_note":"bounded: "+p['bounds']+". Outside: "+p['outside']})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
