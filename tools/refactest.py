#!/usr/bin/env python3
"""refactest.py SPEC.py [name...]: applies behaviour-preserving edits one at a time to scratch
copies of /repo and shows which checks raise an alarm. SPEC calls ref(name, checks, edits).
CK=checker binary (default /tmp/ck), N=workers, L=lines, W=width of a report."""
import sys, os, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
import queue
RT=os.environ.get('RT','/tmp/rt')
N=int(os.environ.get('N','4')); CK=os.environ.get('CK','/tmp/ck')
shutil.rmtree(RT, ignore_errors=True); os.makedirs(RT)
pool=queue.Queue()
for i in range(N):
    subprocess.run(['cp','-a','/repo',f'{RT}/r{i}'],check=True); pool.put(f'{RT}/r{i}')
only=set(sys.argv[2:])
specs=[]
def ref(name, checks, edits):
    if not only or name in only: specs.append((name,checks,edits))
def one(spec):
    name,checks,edits=spec; checks=os.environ.get('CHECKS') or checks
    t=pool.get(); out=[]; bad=0
    try:
        saved={}
        for fn,old,new in edits:
            p=f'{t}/{fn}'
            s=open(p).read() if os.path.exists(p) else ''
            saved.setdefault(fn,s if os.path.exists(p) else None)
            if old=='' : s2=s+new
            else:
                if s.count(old)!=1: out.append(f'{name}: {fn}: {s.count(old)} occurrences of {old[:60]!r}'); bad+=1; break
                s2=s.replace(old,new)
            open(p,'w').write(s2)
        else:
            b=subprocess.run('go build ./...',shell=True,cwd=t,capture_output=True,text=True,env=dict(os.environ,GOFLAGS='-mod=readonly',GOPROXY='off',GOWORK='off',CGO_ENABLED='0'))
            if b.returncode: out.append(f'{name}: does not build: {b.stderr[:300]}'); bad+=1
            else:
                al=[]
                for c in checks.split():
                    r=subprocess.run([CK,'check','/verif',t,c,'quick'],capture_output=True,text=True)
                    if r.returncode:
                        bad=1; al.append(c)
                        if len(al)==1: rep='\n'.join(l[:int(os.environ.get("W","300"))] for l in r.stdout.split('\n')[1:int(os.environ.get("L","7"))])
                if al: out.append(f'ALARM {name} {" ".join(al)}:'); out.append(rep)
        for fn,s in saved.items():
            if s is None: os.remove(f'{t}/{fn}')
            else: open(f'{t}/{fn}','w').write(s)
    finally: pool.put(t)
    if out: print('\n'.join(out),flush=True)
    return bad
exec(open(sys.argv[1]).read())
with ThreadPoolExecutor(N) as ex: bad=sum(ex.map(one,specs))
print(f'{len(specs)} refactorings, {bad} with problems')
shutil.rmtree(RT, ignore_errors=True)
