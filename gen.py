#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from props.py
import json,os
from props import PROPS, NA
R=os.path.dirname(os.path.abspath(__file__))
with open(R+'/properties.jsonl','w') as f:
    for d in (PROPS,NA):
        for i in d:
            p=d[i]
            f.write(json.dumps({'id':i,'title':p['title'],'statement':p['statement'],'quantifier':{'over':p['over'],'text':p['qtext']},'why_tests_cant':p['why'],
              'anchors':{'files':p['files'],'mechanism':[{'name':a,'where':b} for a,b in p['mech']]}})+'\n')
            assert len(p['title'])<=80,i
checks=[{'property':i,'quick_cmd':'python3 check.py '+i,'thorough_cmd':'python3 check.py %s --tier thorough'%i,'technique':p['technique'],'level':'other','level_note':p['note']} for i,p in PROPS.items()]
m={'version':1,'setup_cmd':'make -s -j8 -C tool','checks':checks,'not_applicable':[{'property':i,'reason':p['reason']} for i,p in NA.items()],
 'notes':'All checks are static: they compile /repo to LLVM IR with clang 18 and analyse the IR with tool/ (nvlint). No code of /repo is executed and no hooks are needed.'}
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1)

# DESIGN.md
from design_text import D, FALSE_ALARMS, LIMITS
out=open(R+'/design_head.md').read().rstrip()+'\n\n'
for i,p in sorted(PROPS.items()):
    out+='### %s %s\n\n%s\n\nRules: `%s`. Deciding method: %s.\n\n%s\n\n'%(i,p['title'],p['statement'],' '.join(p['rules']),p['technique'],D[i])
out+='## Not applicable\n\n'
for i,p in sorted(NA.items()): out+='* **%s %s.** %s\n'%(i,p['title'],p['reason'])
out+='\n## Genuine defects repaired\n\nEach is a separate `fix:` commit in /repo; list with commits in known_findings.txt.\n\n'
for l in open(R+'/known_findings.txt'):
    if l.startswith('fixed:'):
        a=l.split(None,3); out+='* %s `%s`: %s'%(a[1].split('=')[1],a[2],a[3])
out+='\nProperty ids in this list that are not claimed name the area the defect was found in while reading.\n\n## False alarms corrected\n\n'+FALSE_ALARMS+'\n\n## Limits\n\n'+LIMITS+'\n\n## Planted bugs\n\nWritten from the property text, each confirmed with its demonstration (clean 0, patched nonzero), all stable tests passing with the patch.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n'
miss=dict(l.split(None,1) for l in open(R+'/seeds_missed.txt')) if os.path.exists(R+'/seeds_missed.txt') else {}
for i in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(R+'/seeded/'+i+'/meta.json')); out+='| %s | %s | %s | %s |\n'%(i,m['property'],m['needs'].replace('|','/'),miss.get(i,m['property']).strip())
open(R+'/DESIGN.md','w').write(out)
