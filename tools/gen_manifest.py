#!/usr/bin/env python3
# Writes MANIFEST.json from the table below (only checks that are registered in the analyser).
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={}
def c(i,tech,note): T[i]=(tech,note)
c('C01','Andersen points-to analysis and lockset analysis over go/ssa','All memory reachable from a shared converter; soundness modulo the listed treatment of reflection and of external packages.')
c('C02','flow-sensitive lock typestate over the SSA control-flow graph and the call graph','Decided for every lock operation and every exit of the repository.')
c('C03','Andersen points-to and effect analysis (writes reachable from Convert*)','All stores reachable from a conversion are classified by the allocation they can write to.')
exec(open(os.path.join(here,'tools','techniques.py')).read())
NA={}
def na(i,r): NA[i]=r
exec(open(os.path.join(here,'tools','not_applicable.py')).read())
props=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl'))]
m={'version':1,'setup_cmd':'bash tools/build.sh','checks':[],'not_applicable':[]}
for p in props:
    if p in T and p not in NA:
        t,n=T[p]
        m['checks'].append({'property':p,'quick_cmd':f'bash check.sh {p}','thorough_cmd':f'bash check.sh {p}','technique':'static analysis: '+t,'level':'other','level_note':n})
    else:
        m['not_applicable'].append({'property':p,'reason':NA.get(p,'No check yet.')})
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1); print(len(m['checks']),'checks',len(m['not_applicable']),'not applicable')
