#!/usr/bin/env python3
"""seed.py make ID...|all : build and validate planted changes from tools/seeds/*.py into /verif/seeded.
   seed.py check ID... [PROP...]: run the property's check against each planted change (in a scratch copy).
Works on scratch copies of /repo only."""
import glob,json,os,shutil,subprocess,sys,tempfile
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
S={}
for f in sorted(glob.glob('/verif/tools/seeds/*.py')):
    exec(open(f).read(),{'S':S})
DEMO='''#!/bin/bash
# Exit 0 when the behaviour is right. Runs demo_test.go (beside this file) inside the root package of the current directory.
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
timeout 250 go test -vet=off -count=1 -timeout 240s -overlay "$T/o.json" -run '^TestDemo$' .
'''
def sh(cmd,cwd,**k): return subprocess.run(cmd,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
def copy():
    d=tempfile.mkdtemp(prefix='seed',dir='/tmp'); r=d+'/repo'
    shutil.copytree('/repo',r,symlinks=True); sh('git checkout -q -- . && git clean -fdq',r); return d,r
def edit(r,s):
    for f,old,new in s['edits']:
        p=r+'/'+f; t=open(p).read()
        assert t.count(old)==1,(f,old,t.count(old))
        open(p,'w').write(t.replace(old,new))
def make(i):
    s=S[i]; d,r=copy()
    try:
        out='/verif/seeded/'+i; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        imports=''.join('\t%s\n'%x for x in s.get('imports',[]))
        open(out+'/demo_test.go','w').write('package main\n\nimport (\n\t"testing"\n'+imports+')\n\n'+s.get('decl','')+'\nfunc TestDemo(t *testing.T) {\n'+s['demo']+'\n}\n')
        sh('gofmt -w '+out+'/demo_test.go',r)
        open(out+'/demo.sh','w').write(DEMO); os.chmod(out+'/demo.sh',0o755)
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(out+'/meta.json','w'),indent=1)
        a=sh('bash %s/demo.sh'%out,r)
        edit(r,s)
        open(out+'/patch.diff','w').write(sh('git diff',r).stdout)
        b=sh('go build ./...',r)
        t=sh('go test -json -vet=off -count=1 -timeout 10m ./...',r)
        res={}
        for l in t.stdout.splitlines():
            e=json.loads(l)
            if e.get('Action') in('pass','fail') and e.get('Test'): res[e['Package']+'/'+e['Test']]=e['Action']
        st=json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad=[x for x in st if res.get(x)!='pass']
        c=sh('bash %s/demo.sh'%out,r)
        ok=a.returncode==0 and b.returncode==0 and not bad and c.returncode!=0 and 'FAIL' in c.stdout and 'build failed' not in c.stdout
        print(i,'OK' if ok else 'BAD','demo clean',a.returncode,'build',b.returncode,'tests failing',bad[:3],'demo patched',c.returncode,'' if ok else (a.stdout+a.stderr)[-600:]+b.stderr[-400:]+c.stdout[-600:])
        if not ok: shutil.rmtree(out)
    finally: shutil.rmtree(d)
def check(i,props=None):
    s=S[i]
    for p in props or [s['property']]:
        d,r=copy()
        try:
            a=sh('git apply /verif/seeded/%s/patch.diff'%i,r); assert a.returncode==0,a.stderr
            v=d+'/verif'; os.makedirs(v)
            for x in ('contracts','oracle','verifier','check.sh','known-findings'):
                if os.path.isdir('/verif/'+x): shutil.copytree('/verif/'+x,v+'/'+x)
                elif os.path.exists('/verif/'+x): shutil.copy('/verif/'+x,v+'/'+x)
            o=subprocess.run('bash ./check.sh '+p,shell=True,cwd=v,env=dict(ENV,VF_REPO=r,VERIF_SEED='1',VERIF_TIER='quick'),capture_output=True,text=True)
            vl=[l for l in o.stdout.splitlines() if l.startswith('VIOLATION')]
            fo=[l for l in o.stdout.splitlines() if l.startswith('failed obligation')]
            print(i,p,'exit',o.returncode,('input' if vl and 'no-failing' not in vl[0] else 'NO-INPUT') if vl else 'MISSED',len(fo),'failed obligations:',[x[19:140] for x in fo[:3]], '' if o.returncode in(0,1) else o.stdout[-300:]+o.stderr[-300:],flush=True)
        finally: shutil.rmtree(d)
if __name__=='__main__':
    ids=[x for x in sys.argv[2:] if x in S] or (sorted(S) if sys.argv[2:3]==['all'] else [])
    for i in ids:
        if sys.argv[1]=='make': make(i)
        else: check(i,[x for x in sys.argv[2:] if x not in S and x!='all'] or None)
