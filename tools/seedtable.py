#!/usr/bin/env python3
# Writes the table of planted bugs into DESIGN.md.
import glob,json,os,re
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
first={'C09-c':'missed by C09 at first (C20 caught it): parameters named like constants added','C13-b':'missed at first: zserio.Unmarshal of empty input added','C13-d':'missed at first: huge lengths added','C11-c':'missed at first: the arrays of the runtime library used directly added','C04-b':'missed at first: arrays of ≥ 2^16 elements added','C06-b':'first ended the harness with a panic; crashes are violations now','C15-b':'missed at first: zserio.Marshal added to the controlled schedules, results kept','C16-b':'missed at first: nested expressions of mixed float sizes added (found a genuine defect too)','C17-a':'missed at first: unformatted output added'}
rows=['| bug | manifests with | breaks | caught by |','|---|---|---|---|']
for p in sorted(glob.glob('seeded/*/meta.json')):
    i=p.split('/')[1]; d=json.load(open(p))
    rows.append('| %s | %s | %s | %s%s |'%(i,d['needs'].replace('|','\\|'),d['what_it_breaks'].replace('|','\\|'),d['property'],' ('+first[i]+')' if i in first else ''))
s=open('DESIGN.md').read()
t='<!-- seeds -->\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
if 'DESIGN_SEED_PLACEHOLDER' in s: s=s.replace('DESIGN_SEED_PLACEHOLDER','## Planted bugs\n\nEach was written from the property and the code, without looking at the checks, and is kept in `seeded/`.\n\n'+t)
else: s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda m:t,s,flags=re.S)
n=sum(l.startswith('fixed:') for l in open('KNOWN_FINDINGS'))
s=re.sub(r'\d+ defects found and repaired','%d defects found and repaired'%n,s)
open('DESIGN.md','w').write(s)
