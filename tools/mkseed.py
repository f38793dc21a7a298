#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from (id, prop, needs, breaks, edits, files)."""
import sys, os, subprocess, json, shutil
V='/verif'
def seed(id, prop, needs, breaks, edits, files, demo):
    d=f'{V}/seeded/{id}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert subprocess.run(['git','-C','/repo','diff','--quiet']).returncode==0
    for fn,old,new in edits:
        s=open(f'/repo/{fn}').read()
        n=s.count(old)
        if n!=1:
            subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
            raise SystemExit(f'{id}: {fn}: {n} occurrences of {old!r}')
        open(f'/repo/{fn}','w').write(s.replace(old,new))
    p=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    open(f'{d}/patch.diff','w').write(p)
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    shutil.copy(f'{V}/tools/seedlib/lib.sh', f'{d}/lib.sh')
    open(f'{d}/demo.sh','w').write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n'+demo+'\n')
    os.chmod(f'{d}/demo.sh',0o755)
    for k,v in files.items(): open(f'{d}/{k}','w').write(v)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(f'{d}/meta.json','w'), indent=1)
exec(open(sys.argv[1]).read())
