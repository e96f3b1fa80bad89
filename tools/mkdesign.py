import json,re,os,glob
p='/verif/DESIGN.md'; s=open(p).read()
d=json.load(open('/verif/known_findings.json'))
txt=["Repaired, one `fix:` commit each (the same list as in `known_findings.json`; every one was shown by a failing input or","schedule against the real code, and the check that found it is the property named):",""]
for f in d["fixed"]:
    m=re.match(r"fixed: property=(P\d+) (\w+) (.*)",f); txt.append(f"* {m[1]} `{m[2]}` {m[3]}")
fixed="\n".join(txt)
s=s.replace("FIXED_PLACEHOLDER","<!--F-->\n<!--/F-->").replace("SEEDED_PLACEHOLDER","<!--S-->\n<!--/S-->")
s=re.sub(r"<!--F-->.*?<!--/F-->",lambda m:"<!--F-->\n"+fixed+"\n<!--/F-->",s,flags=re.S)
notes=json.load(open('/verif/tools/seeded_notes.json')) if os.path.exists('/verif/tools/seeded_notes.json') else {}
rows=["| planted bug | property | what it needs | caught by |","|---|---|---|---|"]
for m in sorted(glob.glob('/verif/seeded*/*/meta.json'),key=lambda m:m.split('/')[-2]):
    i=m.split('/')[-2]; j=json.load(open(m)); rows.append(f"| {i}{'' if '/seeded/' in m else ' (more)'} | {j['property']} | {j['needs']} | {notes.get(i,j['property'])} |")
s=re.sub(r"<!--S-->.*?<!--/S-->",lambda m:"<!--S-->\n"+"\n".join(rows)+"\n<!--/S-->",s,flags=re.S)
open(p,'w').write(s)
