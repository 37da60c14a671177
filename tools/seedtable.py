#!/usr/bin/env python3
# writes the table of planted bugs into DESIGN.md from the meta.json files
import json,glob,os,re
out=[]
def print(s): out.append(s)
R=os.path.join(os.path.dirname(__file__),'..')
print('| change | property (its check catches it) | needs | breaks |\n|---|---|---|---|')
for d in('seeded','extra_seeds'):
    for f in sorted(glob.glob(f'{R}/{d}/*/meta.json')):
        m=json.load(open(f)); n=os.path.basename(os.path.dirname(f))
        print(f"| {n}{' (grammar)' if d!='seeded' else ''} | {m['property']}{' (also '+m['also']+')' if m.get('also') else ''} | {m['needs']} | {m['what_it_breaks']} |")
D=os.path.join(R,'DESIGN.md'); s=open(D).read()
a='<!-- seeds: tools/seedtable.py -->\n'; b='<!-- /seeds -->'
i=s.index(a)+len(a); j=s.index(b)
open(D,'w').write(s[:i]+'\n'.join(out)+'\n'+s[j:])
