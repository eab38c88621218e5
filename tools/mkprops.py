# Writes /verif/properties.jsonl (kept as code so that the text stays reviewable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/ldt_statistics/modeling/"
import sys
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"props_body.py")).read())
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
