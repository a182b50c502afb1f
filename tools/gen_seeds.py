#!/usr/bin/env python3
# Rewrites the list of planted bugs in DESIGN.md (between the markers).
import json,glob,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(glob.glob(here+'/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append(f"* `{os.path.basename(os.path.dirname(d))}` ({m['property']}): {m['what_it_breaks']}; needs {m['needs']}.")
p=here+'/DESIGN.md'; s=open(p).read()
s=s.replace('@@SEEDS@@','<!-- seeds -->\n<!-- /seeds -->')
s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda m:'<!-- seeds -->\n'+'\n'.join(rows)+'\n<!-- /seeds -->',s,flags=re.S)
s=s.replace('@@NEW@@\n\n','').replace('@@NA@@\n','')
open(p,'w').write(s); print(len(rows))
