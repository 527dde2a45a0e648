#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
V=os.environ.get('VERIF_DIR','/verif')
rows=['| planted bug | caught by | needs |','| --- | --- | --- |']
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); n=os.path.basename(os.path.dirname(f))
    rows.append('| %s: %s | %s | %s |'%(n,m['what_it_breaks'].replace('|','/'),m['property'],m['needs'].replace('|','/')))
p=V+'/DESIGN.md'; s=open(p).read()
a,b='<!-- planted -->\n','<!-- end planted -->\n'
i,j=s.index(a)+len(a),s.index(b)
open(p,'w').write(s[:i]+'\n'.join(rows)+'\n'+s[j:])
