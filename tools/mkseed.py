#!/usr/bin/env python3
# mkseed.py SPEC [filter]: writes and validates seeded bugs from a spec file (development aid).
# SPEC defines S: list of dict(id, property, edits=[(file, old, new)], test=(pkgdir, go test source, extra flags) or demo=text, needs, breaks)
import sys,os,json,subprocess,shutil
ns={}; exec(open(sys.argv[1]).read(),ns); flt=sys.argv[2] if len(sys.argv)>2 else ''
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',HOME='/root')
DEMO='''#!/bin/bash
# Runs the demonstration test beside this file inside the package, through an overlay.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local HOME="${HOME:-/root}"
ov="$(mktemp)"; trap 'rm -f "$ov"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_seed_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$ov"
go test %(flags)s -count=1 -timeout 120s -vet=off -overlay "$ov" -run 'TestSeedDemo' ./%(pkg)s
'''
def run(cmd,cwd,t=600):
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True)
    return p.returncode,p.stdout
for s in ns['S']:
    if flt not in s['id']: continue
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    w='/tmp/seed/w'; shutil.rmtree(w,ignore_errors=True); run(f'git clone -q /repo {w}','/tmp')
    pkg,src,flags=s['test']
    open(d+'/demo.sh','w').write(DEMO%dict(pkg=pkg,flags=flags)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go.txt','w').write(src)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    rc0,o0=run(f'bash {d}/demo.sh',w)
    bad=False
    for f,a,b in s['edits']:
        p=w+'/'+f; t=open(p).read()
        if a not in t: print(s['id'],'OLD NOT FOUND',f,a[:60]); bad=True; continue
        open(p,'w').write(t.replace(a,b,1))
    if bad: continue
    rc,diff=run('git diff',w); open(d+'/patch.diff','w').write(diff)
    rb,ob=run('go build ./... && go vet ./converter 2>&1 | head -3',w)
    rt,ot=run('go test ./... 2>&1 | grep -E "^(--- FAIL|FAIL|panic)" | head',w)
    rc1,o1=run(f'bash {d}/demo.sh',w)
    v='/tmp/seed/v'; os.makedirs(v,exist_ok=True); shutil.copy('/verif/known_findings.txt',v)
    p=subprocess.run(['/verif/bin/h2mcheck','-prop',s['property']],env=dict(env,H2M_REPO=w,H2M_VERIF=v),stdout=subprocess.PIPE,text=True)
    caught='VIOLATION property='+s['property'] in p.stdout
    ok=rc0==0 and rc1!=0 and rb==0 and not ot.strip()
    print(s['id'],'VALID' if ok else f'INVALID demo0={rc0} demo1={rc1} build={rb} tests={ot[:200]!r}','CAUGHT' if caught else 'MISSED')
    if not ok: print('   o0:',o0[-300:],'\n   o1:',o1[-300:],ob[-300:])
    if caught: print('   ',[l[:200] for l in p.stdout.splitlines() if l.startswith('FINDING')][:1])
    shutil.rmtree(w,ignore_errors=True)
