#!/usr/bin/env python3
# rewrites the "fixed" list of known_findings.json from tools/fixes.txt (commit property what)
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k=json.load(open(here+'/known_findings.json'))
k['fixed']=[]
for l in open(here+'/tools/fixes.txt'):
    l=l.strip()
    if not l: continue
    c,p,w=l.split(' ',2)
    k['fixed'].append(f'fixed: property={p} {c} {w}')
json.dump(k,open(here+'/known_findings.json','w'),indent=1)
