#!/bin/bash
# keep.sh spec name dir: leaves a copy of /repo with one mutation in dir (development aid)
rm -rf "/tmp/keep/$2"; mkdir -p /tmp/keep
python3 - "$1" "$2" <<'P'
import sys,subprocess,re,os
ns={}; exec(open(sys.argv[1]).read(),ns)
d='/tmp/keep/'+sys.argv[2]
subprocess.run(['cp','-a','/repo',d]); subprocess.run(['rm','-rf',d+'/.git'])
for n,p,ed in ns['M']:
    if n!=sys.argv[2]: continue
    for e in ed:
        f,a,b=e[:3]; p=os.path.join(d,f); s=open(p).read() if os.path.exists(p) else ''
        if a=='': s+=b
        elif a in s: s=s.replace(a,b,e[3] if len(e)>3 else 1)
        else:
            lines=[l for l in a.split('\n') if l.strip()]
            rx=r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in lines)+('\n' if a.endswith('\n') else '')
            assert re.search(rx,s),(f,a)
            s=re.sub(rx,lambda m:b,s,count=1)
        open(p,'w').write(s)
P
echo /tmp/keep/$2
