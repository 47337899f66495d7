#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json.
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| planted bug | property | breaks | needs |','|---|---|---|---|']
for f in sorted(glob.glob(root+'/seeded/*/meta.json'),key=lambda f:(json.load(open(f))['property'],f)):
    m=json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p=root+'/DESIGN.md'; s=open(p).read()
a,b='<!-- seedtable -->','<!-- /seedtable -->'
if a not in s: s=s.replace('SEEDTABLE',a+b)
i,j=s.index(a),s.index(b)
open(p,'w').write(s[:i]+a+'\n'+'\n'.join(rows)+'\n'+s[j:])
