#!/usr/bin/env python3
"""refactor.py [ID...]: behaviour-preserving edits of the code; the checks have to stay quiet on each.
Applies each edit in a scratch copy of /repo, builds, runs the tests and the properties' checks (no oracle), prints what raised an alarm."""
import os,re,shutil,subprocess,sys,tempfile,time,glob
here=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(here)
R={}
for f in sorted(glob.glob(here+'/refactors/*.py')): exec(open(f).read())
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
def run(cmd,**k): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def apply(d,r):
    for f,old,new in r['edits']:
        p=d+'/'+f; s=open(p).read()
        if s.count(old)!=1: sys.exit('%s: %d occurrences of %r in %s'%(r['id'],s.count(old),old[:70],f))
        open(p,'w').write(s.replace(old,new))
    for f,t in r.get('decl',{}).items(): open(d+'/'+f,'a').write('\n'+t)
    for f,(i,) in ((f,(i,)) for f,l in r.get('imports',{}).items() for i in l):
        p=d+'/'+f; s=open(p).read(); open(p,'w').write(s.replace('import (','import (\n\t"%s"'%i,1))
ids=[a for a in sys.argv[1:] if a in R] or sorted(R)
bad=0
for i in ids:
    r=R[i]; r['id']=i
    d=tempfile.mkdtemp(prefix='rf-',dir='/tmp')
    shutil.copytree('/repo',d+'/repo',symlinks=True)
    g=d+'/repo'
    apply(g,r)
    o=run('go build ./... && go test ./... 2>&1',cwd=g,env=env)
    if o.returncode: print(i,'DOES NOT BUILD OR PASS\n',o.stdout[-1500:]); shutil.rmtree(d); continue
    for p in r['props']:
        t=time.time()
        o=run('%s check %s oracle=1'%(os.environ.get('VF','/tmp/vf'),p),cwd=V,env=dict(env,VF_REPO=g,VF_VERIF=V,VF_CONTRACTS=V+'/contracts'))
        v=[l for l in o.stdout.split('\n') if 'VIOLATION' in l or 'not discharged' in l or 'error' in l.lower()]
        print(i,p,'quiet' if o.returncode==0 else 'ALARM (%d)'%o.returncode,'%d s'%(time.time()-t),flush=True)
        if o.returncode: bad+=1; print('   '+'\n   '.join(l[:400] for l in (v or o.stdout.split('\n'))[:12]),flush=True)
    shutil.rmtree(d)
print('alarms:',bad)
