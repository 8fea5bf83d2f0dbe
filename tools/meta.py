#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json. Run: python3 tools/meta.py"""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,technique,level,note,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(p=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)),
      c=dict(property=id,quick_cmd=f"./check.sh {id} quick",thorough_cmd=f"./check.sh {id} thorough",technique=technique,level=level,level_note=note)))
exec(open(os.path.join(V,'tools','props.py')).read())
with open(os.path.join(V,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x['p'])+'\n')
m=dict(version=1,setup_cmd="./setup.sh",
  hooks=HOOKS,
  checks=[x['c'] for x in P],not_applicable=NOT_APPLICABLE,notes=NOTES)
if not HOOKS: del m['hooks']
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
