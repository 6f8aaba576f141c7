#!/usr/bin/env python3
# writes MANIFEST.json from contracts/checks.json
import json
c=json.load(open('contracts/checks.json'))
na=[{"property":"C21","reason":"What a YAML document denotes is a relation between text and tree defined by indentation over a stack of open nodes and a scalar grammar (plain, quoted, block, anchors); stating it as contracts needs a formal grammar of the dialect this parser accepts, and none exists (its documentation gives two examples). Totality of the same functions is C06."},
    {"property":"C22","reason":"The conversions go through package reflect on caller-defined types (field enumeration, Value.Set*, interfaces implemented by the caller); the verifier has no semantics for reflect, and contracts assumed for it would contain the property itself. The scalar part that does not go through reflect is C20."}]
checks=[]
for p in sorted(c):
    d=c[p]
    if d.get('off'):
        na.append({"property":p,"reason":d['off']}); continue
    checks.append({"property":p,"quick_cmd":f"./check {p} quick","thorough_cmd":f"./check {p} thorough",
      "evidence_file":f"evidence/{p}.json",
      "technique":d.get('technique',"contract-based deductive verification of the real code (go/ssa to verification conditions, discharged by z3/cvc5), failed obligations replayed by an executable oracle"),
      "level":d.get('level','proof'),"level_note":d['note']})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":sorted(na,key=lambda x:x['property']),
 "notes":"No hooks in /repo: contracts live in /verif/contracts and are attached by function name to the SSA form of /repo's working tree. See DESIGN.md."}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
