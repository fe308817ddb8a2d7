#!/usr/bin/env python3
"""mkseed.py: make /verif/seeded/<id>/ from a spec (id, property, edits, demo)."""
import sys, os, json, subprocess, tempfile, shutil
def mk(id, prop, edits, main, needs, breaks):
    w = tempfile.mkdtemp(dir='/tmp')
    subprocess.check_call(['cp','-a','/repo/.',w])
    for f, old, new in edits:
        p=os.path.join(w,f); s=open(p).read()
        assert s.count(old)==1, (id,f,old,s.count(old))
        open(p,'w').write(s.replace(old,new))
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    diff=subprocess.check_output(['git','-C',w,'diff']).decode()
    open(d+'/patch.diff','w').write(diff)
    shutil.copy('/verif/tools/demo_template.sh', d+'/demo.sh')
    open(d+'/main.go','w').write(main)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    shutil.rmtree(w)
    r=subprocess.run(['bash','/verif/tools/seedcheck.sh',id])
    return r.returncode
