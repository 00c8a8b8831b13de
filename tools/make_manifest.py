import json,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA=json.load(open('/tmp/w/na.json')) if os.path.exists('/tmp/w/na.json') else {}
NOTE=json.load(open('/tmp/w/notes.json')) if os.path.exists('/tmp/w/notes.json') else {}
import sys, re
checks=[];na=[]
for p in props:
    i=p['id']; f=f'/verif/props/{i.lower()}.py'
    if os.path.exists(f):
        m=re.search(r'BOUNDS = \(?((?:\s*f?"[^"]*")+)\)?',open(f).read())
        b=''.join(re.findall(r'"([^"]*)"',m.group(1))) if m else ''
        checks.append(dict(property=i,quick_cmd=f'./run.py {i} --tier quick',thorough_cmd=f'./run.py {i} --tier thorough',
          evidence_file=f'evidence/{i}.json',technique="symbolic execution of the real Python source, obligations decided by z3 (SMT)",
          level="model_checking",level_note="Every path of the real code within the bounds: "+b+". "+NOTE.get(i,"")+"Real arithmetic; counterexamples are replayed on the real code and numpy before they are reported."))
    else: na.append(dict(property=i,reason=NA.get(i,"check under construction")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
 notes="run.py decides one property; replay.py runs a recorded counterexample on the real code; see DESIGN.md")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
