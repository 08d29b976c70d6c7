#!/usr/bin/env python3
"""Development tool: rewrite DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    rows.append((m['property'],i,m['what_it_breaks'],m['needs'],m.get('outcome','caught')))
rows.sort()
t='| property | planted bug | breaks | needs | result |\n|---|---|---|---|---|\n'+''.join('| %s | %s | %s | %s | %s |\n'%tuple(x.replace('|','/').replace('\n',' ') for x in r) for r in rows)
d=open(V+'/DESIGN.md').read()
d=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda m:'<!-- seeds -->\n'+t+'<!-- /seeds -->',d,flags=re.S)
open(V+'/DESIGN.md','w').write(d)
