#!/usr/bin/env python3
"""Refreshes the table of planted bugs at the end of DESIGN.md (by hand, never by a check)."""
import json,os,re
r=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
rows=["| planted bug | property (caught by) | what it breaks | needs |","|---|---|---|---|"]
for d in sorted(os.listdir(r+'/seeded')):
    m=json.load(open(f'{r}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']}{' - **missed**' if m.get('missed') else ''} | {m['what_it_breaks']} | {m['needs']} |")
p=r+'/DESIGN.md';s=open(p).read()
t="<!-- seeds -->\n"+"\n".join(rows)+"\n<!-- /seeds -->"
s=s.replace('@SEEDS@',t) if '@SEEDS@' in s else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda m:t,s,flags=re.S)
open(p,'w').write(s)
