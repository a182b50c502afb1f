#!/usr/bin/env python3
# usage: mut.py specfile [prop|all] [name-filter]
# spec: list M of (name, prop or None for neutral refactoring, [(file, old, new[,count])...])
import sys,subprocess,os,shutil,re,concurrent.futures as cf,threading
spec=sys.argv[1]; which=sys.argv[2] if len(sys.argv)>2 else None; flt=sys.argv[3] if len(sys.argv)>3 else ''
ns={}; exec(open(spec).read(),ns); M=ns['M']
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',HOME='/root')
def run(cmd,cwd,e=env,t=600):
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True)
    return p.returncode,p.stdout
def one(m):
    name,prop,edits=m
    d=f'/tmp/mut/w/{name}'
    shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/mut/w',exist_ok=True)
    subprocess.run(['rsync','-a','--exclude=.git','/repo/',d+'/']) if shutil.which('rsync') else shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('.git'))
    try:
        for e in edits:
            f,a,b=e[:3]
            p=os.path.join(d,f); s=open(p).read() if os.path.exists(p) else ''
            if a=='' : s=s+b
            else:
                if a in s: s=s.replace(a,b,e[3] if len(e)>3 else 1)
                else:
                    lines=[l for l in a.split('\n') if l.strip()]
                    rx=r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in lines)+('\n' if a.endswith('\n') else '')
                    if not re.search(rx,s): return f'{name}: OLD TEXT NOT FOUND in {f}: {a[:50]!r}'
                    s=re.sub(rx,lambda m:b,s,count=e[3] if len(e)>3 else 1)
            open(p,'w').write(s)
        rc,o=run('go build ./... ',d)
        if rc: return f'{name}: BUILD FAILS {o[-300:]}'
        t='tests?'
        if not os.environ.get('NOTEST'):
            rc,o=run('timeout 100 go test -timeout 60s ./... 2>&1 | grep -E "^(--- FAIL|FAIL|panic)" | head -5',d)
            t='tests pass' if not o.strip() else 'TESTS FAIL '+o.strip()[:200].replace('\n',';')
        v=f'/tmp/mut/v/{name}'; os.makedirs(v,exist_ok=True)
        shutil.copy('/verif/known_findings.txt',v)
        pr=which or prop or 'all'
        rc,o=run(os.environ.get('H2MBIN','/verif/bin/h2mcheck')+f' -prop {pr}',d,dict(env,H2M_REPO=d,H2M_VERIF=v))
        vs=re.findall(r'VIOLATION property=(\S+)',o)
        f=[l[:260] for l in o.splitlines() if l.startswith('FINDING') or 'no checker' in l or 'cannot analyse' in l]
        if prop is None: st='quiet OK' if rc==0 else '*** FALSE ALARM'
        else: st='caught' if prop in vs else '*** MISSED'
        return f'{name} [{prop}] {t}: {st} {vs if prop is None or which else ""}\n    '+'\n    '.join(f[:3])
    finally:
        shutil.rmtree(d,ignore_errors=True)
ms=[m for m in M if flt in m[0]]
with cf.ThreadPoolExecutor(6) as ex:
    for r in ex.map(one,ms): print(r.rstrip(),flush=True)
