"""Write a property description: used while developing, not by any check."""
import json, os
HERE=os.path.dirname(os.path.abspath(__file__))
def w(id,title,st,over,qt,why,files,mech,tech,level,note):
    assert len(title)<=80,(id,len(title))
    json.dump({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
     "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]},
     "check":{"technique":tech,"level":level,"level_note":note}},open(os.path.join(HERE,"..","props.d",id+".json"),"w"),indent=1)
