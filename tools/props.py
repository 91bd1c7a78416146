import json,sys
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif')
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or ["aksharamukha.transliterate.process"],"hook_needed":None}})
exec(open('/verif/tools/props_body.py').read())
open('/verif/properties.jsonl','w',encoding='utf8').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
PRE="contract-based deductive verification: symbolic execution of the real functions to exact text functions, obligations discharged by an unbounded automata-based decision procedure (own verifier, engine/)"
TECH={}
checks=[]
import os
for x in P:
    if not os.path.exists('/verif/checks/%s.py'%x['id']): continue
    m=META.get(x['id'],{})
    checks.append({"property":x['id'],"quick_cmd":"python3 check.py %s quick"%x['id'],"thorough_cmd":"python3 check.py %s thorough"%x['id'],"technique":m.get('technique',PRE),"level":m.get("level","proof"),"level_note":m['note']})
M={"version":1,"setup_cmd":"python3 setup_check.py","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in NA]}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
