# Replaces the table of planted changes in DESIGN.md.
import json,glob,os,re
rows=['| change | caught by | needs |','|--------|-----------|-------|']
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json'))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} |")
p='/verif/DESIGN.md'
s=open(p).read()
t='\n'.join(rows)
if 'SEEDTABLE' in s: s=s.replace('SEEDTABLE',t)
else: s=re.sub(r'\| change \| caught by \|.*?\n\n',lambda _:t+'\n\n',s,flags=re.S)
open(p,'w').write(s)
