#!/usr/bin/env python3
"""Fills tools/DESIGN.in (fixed defects, planted bugs) -> DESIGN.md"""
import json,glob,os,re
os.chdir(os.path.join(os.path.dirname(__file__),'..'))
d=open('tools/DESIGN.in').read()
fixed=[l.strip() for l in open('known_findings.txt') if l.startswith('fixed:')]
rows=[]
for l in fixed:
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l); rows.append(f"| {m[1]} | {m[2]} | {m[3]} |")
rows.sort()
d=d.replace('@@NFIXED@@',str(len(rows)))
d=d.replace('@@FIXED@@',"\n| property | commit | what failed |\n|---|---|---|\n"+"\n".join(rows))
s=[]
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[1]
    esc=lambda t:t.replace('|','\\|').replace('\n',' ')
    s.append(f"| {i} | {m['property']} | {esc(m['what_it_breaks'])} | {esc(m['needs'])} |")
d=d.replace('@@SEEDS@@',"| id | caught by | breaks | needs |\n|---|---|---|---|\n"+"\n".join(s))
open('DESIGN.md','w').write(d)
