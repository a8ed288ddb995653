"""mk.py ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO: helper used from other scripts"""
import subprocess, json, os, sys
def plant(id, prop, edits, needs, breaks, demo):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    assert subprocess.run(['git','-C','/repo','diff','--quiet']).returncode==0
    try:
        for f,old,new in edits:
            p='/repo/'+f; s=open(p).read()
            assert s.count(old)==1,(id,f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom pz import *\n\n'+demo.strip()+'\n')
    open(d+'/demo.sh','w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    subprocess.run(['cp','/verif/tools/pz.py',d+'/pz.py'])
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
