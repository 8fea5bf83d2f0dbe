#!/usr/bin/env python3
"""mkseed.py: mk(id, property, needs, breaks, [(file, old, new)...], demo_rs) writes /verif/seeded/<id>/."""
import os, subprocess, json, shutil
def mk(id, prop, needs, breaks, edits, demo, demo_sh=None):
    d=f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    files={}
    for f,old,new in edits:
        s=files.get(f) or open('/repo/'+f).read()
        assert s.count(old)==1, (id, f, s.count(old), old)
        files[f]=s.replace(old,new)
    diff=''
    for f,s in files.items():
        t='/tmp/mkseed.tmp'; open(t,'w').write(s)
        r=subprocess.run(['git','diff','--no-index','--no-color','--','/repo/'+f,t],capture_output=True,text=True).stdout
        lines=r.split('\n')
        h=[l for l in lines if not l.startswith(('diff ','index ','--- ','+++ '))]
        diff+=f'diff --git a/{f} b/{f}\n--- a/{f}\n+++ b/{f}\n'+'\n'.join(h)
    open(d+'/patch.diff','w').write(diff)
    if demo_sh: open(d+'/demo.sh','w').write(demo_sh)
    else:
        shutil.copy('/verif/tools/demo-template.sh', d+'/demo.sh')
        open(d+'/demo.rs','w').write(demo)
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
