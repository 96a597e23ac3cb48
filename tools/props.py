#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json. Run from /verif."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, claim=None, na=None):
    """claim: (technique, level, level_note) or None; na: reason"""
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, state=state or [], observe=observe or [], claim=claim, na=na))
exec(open('tools/props_data.py').read())
with open('properties.jsonl','w') as f:
    for x in P:
        f.write(json.dumps({
            "id": x['id'], "title": x['title'], "statement": x['statement'],
            "quantifier": {"over": x['over'], "text": x['qtext']},
            "why_tests_cant": x['why'],
            "anchors": {"files": x['files'],
                        "state": [dict(name=a,meaning=b,where=c) for a,b,c in x['state']],
                        "mechanism": [dict(name=a,where=b) for a,b in x['mech']],
                        "observe_at": x['observe'], "hook_needed": None}}, ensure_ascii=False)+"\n")
checks=[]; na=[]
for x in P:
    if x['claim']:
        t,l,n = x['claim']
        checks.append({"property":x['id'],
          "quick_cmd":"bash run.sh %s quick"%x['id'],
          "thorough_cmd":"bash run.sh %s thorough"%x['id'],
          "evidence_file":"evidence/%s.json"%x['id'],
          "technique":t,"level":l,"level_note":n})
    else:
        na.append({"property":x['id'],"reason":x['na'] or "check not built yet"})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
   "notes":"One Go program (checker/) loads /repo's current source with go/packages, builds SSA and decides every property statically; nothing of /repo is executed."}
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False); open('MANIFEST.json','a').write("\n")
print(len(P),"properties,",len(checks),"claimed")
