#!/usr/bin/env python3
# regenerates DESIGN.md from tools/design_head.md, the rules in the last evidence files and the notes below
import json,os,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes={}
cur=None
for l in open(V+'/tools/design_notes.md'):
    if l.startswith('@'):
        cur=l[1:].strip(); notes[cur]=''
    else: notes[cur]+=l
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
man=json.load(open(V+'/MANIFEST.json'))
na={x['property'] if 'property' in x else x['id']:x['reason'] for x in man['not_applicable']}
out=[open(V+'/tools/design_head.md').read().rstrip(),'','## Properties','']
for p in props:
    i=p['id']
    out.append('### %s %s'%(i,p['title'])); out.append('')
    if i in na:
        out+=['Not applicable: '+na[i]+'.','']; continue
    e=V+'/evidence/%s.json'%i
    d=json.load(open(e))['coverage']
    out+=['Method: '+d['explanation'].split('. Rules: ')[0]+'.','']
    for r,t in sorted(d['rules'].items()): out.append('* `%s`: %s'%(r,t))
    if notes.get(i,'').strip(): out+=['',notes[i].strip()]
    out.append('')
rows=['| id | caught by | what breaks | needs |','|---|---|---|---|']
import glob
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(f)); rows.append('| %s | %s | %s | %s |'%(f.split('/')[-2],d['property'],d['what_it_breaks'],d['needs']))
out+=[open(V+'/tools/design_tail.md').read().rstrip().replace('SEEDS','\n'.join(rows)),'']
open(V+'/DESIGN.md','w').write('\n'.join(out))
