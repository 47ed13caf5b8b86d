#!/usr/bin/env python3
"""Rewrites the catch table of DESIGN.md from seeded/*/meta.json and a log of tools/matrix.sh (argument, repeatable)."""
import json,os,sys,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res={}
for f in sys.argv[1:]:
    for l in open(f):
        w=l.split()
        if len(w)>=3 and w[2].lstrip('-').isdigit(): res[w[0]]=w[2]
p=root+'/DESIGN.md'; s=open(p).read()
a,b='<!-- catch table -->','<!-- end of catch table -->'
old={}
if a in s:
    for l in s[s.index(a):s.index(b)].splitlines():
        m=re.match(r'\| `([^`]+)` \|.*\| (\S[^|]*) \|$',l)
        if m: old[m[1]]=m[2].strip()
rows=['| planted bug | property | needs | caught by its check |','|---|---|---|---|']
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    r={'1':'yes','0':'NO'}.get(res.get(d),old.get(d,'not run')) if d in res else old.get(d,'not run')
    rows.append(f"| `{d}` | {m['property']} | {m['needs'].replace('|','/')} | {r} |")
t=a+'\n'+'\n'.join(rows)+'\n'+b
if a in s: s=s[:s.index(a)]+t+s[s.index(b)+len(b):]
else: s=s.replace('SEEDED-TABLE',t)
open(p,'w').write(s)
