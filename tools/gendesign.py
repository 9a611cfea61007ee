#!/usr/bin/env python3
"""Fills the table of planted bugs and behaviour-preserving edits in DESIGN.md (between markers)."""
import json,glob,os,re
d=open('/verif/DESIGN.md').read()
rows=['<!--seeds--> Each is caught (exit 1) by the check of its own property; tried with `tools/seedtest.sh`.','','| planted bug | caught by | needs |','|---|---|---|']
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    j=json.load(open(m)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(m)),j.get('caught_by',j['property']),j['needs'].replace('|','\\|')))
rows.append('<!--/seeds-->')
b='<!--benign-->'+', '.join(sorted(os.path.basename(f)[:-5] for f in glob.glob('/verif/benign/*.diff')))+'<!--/benign-->'
d=d.replace('@SEEDS@','<!--seeds--><!--/seeds-->').replace('@BENIGN@','<!--benign--><!--/benign-->')
d=re.sub(r'<!--seeds-->.*<!--/seeds-->',lambda m:'\n'.join(rows),d,flags=re.S)
d=re.sub(r'<!--benign-->.*<!--/benign-->',lambda m:b,d,flags=re.S)
open('/verif/DESIGN.md','w').write(d)
