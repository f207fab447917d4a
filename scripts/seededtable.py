# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json,os,re
rows=["| bug | caught by | what it breaks | needs |","|---|---|---|---|"]
for b in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
s=open('/verif/DESIGN.md').read()
t="<!-- seeded -->\n"+"\n".join(rows)+"\n<!-- /seeded -->"
if '@@SEEDED@@' in s: s=s.replace('@@SEEDED@@',t)
else: s=re.sub(r'<!-- seeded -->.*<!-- /seeded -->',lambda m:t,s,flags=re.S)
s=s.replace("panics (error, string,\ncustom, nil dereference, index, runtime.Goexit-like) before or in the middle of a calculation","panics (custom\nerror, string, nil dereference, index out of range) before or in the middle of a calculation")
s=re.sub(r"\* C25 spread:.*?practically excluded\.","""* C25 spread: over three groups, the mean distance to the nearest neighbour must be at least 1.15 / 1.25 / 1.25 times that of many uniform
  points (.165 / .1097 / .085) for (n, iterations) = (12, 400), (25, 900), (40, 1200), with own, shared and used generators. The smallest
  values in 2000–4000 calibration samples were .228 / .160 / .125, so a false alarm is practically excluded.""",s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
