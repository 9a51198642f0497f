#!/bin/bash
# tools/tryrefactors.sh [ids]: (NOTEST=1: no tests; CT=regex: only these contracts) the checks must stay quiet on each refactoring (scratch clone /tmp/rf)
cd /verif
exec python3 - "$@" <<'P'
import sys,subprocess,os,re
ids=sys.argv[1:]
RS=[]
def R(id,props,file,edits,more=[]): RS.append((id,props.split(),[(file,edits)]+more))
exec(open('tools/refactors.py').read())
W='/tmp/rf-%d'%os.getpid()
for id,props,files in RS:
    if ids and id not in ids and not (set(props)&set(ids)): continue
    subprocess.run(['rm','-rf',W]); subprocess.run(['git','clone','-q','/repo',W],check=True)
    bad=False
    for f,eds in files:
        p=os.path.join(W,f)
        s=open(p).read()
        for o,n in eds:
            if s.count(o)<1: print(id,'EDIT DOES NOT APPLY',o[:60]); bad=True
            s=s.replace(o,n,1)
        open(p,'w').write(s)
    if bad: continue
    pk=sorted({'./'+os.path.dirname(f) for f,_ in files})
    env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
    b=None
    for d in pk:
        if d.startswith(('./pkg/macaroons','./pkg/securestore')): continue
        b=subprocess.run(['go','build','.'],cwd=os.path.join(W,d),env=env,capture_output=True,text=True)
        if b.returncode: break
    if b and b.returncode: print(id,'DOES NOT BUILD',b.stderr[:600]); continue
    if not os.environ.get('NOTEST'):
        for d in pk:
            if d.startswith('./pkg/macaroons'): continue
            t=subprocess.run(['go','test','-count=1','.'],cwd=os.path.join(W,d),env=env,capture_output=True,text=True)
            if t.returncode: print(id,'TESTS FAIL',t.stdout[-400:])
    if os.environ.get('CT'):
        r=subprocess.run(['bash','tools/v.sh',os.environ['CT'],'-repo',W],capture_output=True,text=True)
        print(id,'\n'.join(l for l in r.stdout.split('\n') if 'havocked' not in l),flush=True)
        continue
    for pr in props:
        r=subprocess.run(['bin/govc','check',pr,'-tier','quick','-root','/verif','-repo',W,'-noevidence'],env=dict(env,HOME='/root'),capture_output=True,text=True)
        last=[l for l in r.stdout.strip().split('\n') if l][-1:]
        print(id,pr,'rc=%d'%r.returncode,last[0][:150] if last else r.stderr[:200],flush=True)
        if r.returncode:
            for l in r.stdout.split('\n'):
                if 'failed obligation' in l: print('     ',l[:200],flush=True)
subprocess.run(['rm','-rf',W])
P
