import json,os,re
p='/verif/DESIGN.md'
s=open(p).read()
k=json.load(open('/verif/known_findings.json'))
rows=[]
for i,x in enumerate(k['fixed'],1):
    m=re.match(r'fixed: property=(C\d+) (\w+) (.*)',x)
    rows.append(f"| {i} | {m.group(1)} | {m.group(2)} | {m.group(3)} |")
defects="""## Genuine defects found (all repaired; no known finding is left open)

Each was first shown on the real code by the check of the property named, then repaired by a
separate `fix:` commit in `/repo`; the same list is in `known_findings.json`.

| # | found by | commit | what failed |
|---|---|---|---|
"""+"\n".join(rows)
bugs=[]
for b in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{b}/meta.json'))
    bugs.append(f"| {b} | {m['needs']} | {m['property']} |")
bug="""## Planted bugs and what catches them

`seeded/<id>/`: patch, demonstration, description. Every one passes the 143 tests, and its
demonstration fails only with the patch. "Caught by" is the quick tier.

| id | needs | caught by |
|---|---|---|
"""+"\n".join(bugs)
s=s.split('<!-- DEFECTS -->')[0].split('@DEFECTS@')[0]
s=s+"<!-- DEFECTS -->\n"+defects+"\n\n"+bug+"\n\n"+open('/verif/tools/sweep.md').read()
s=re.sub(r'\d+ genuine defects were found',f"{len(rows)} genuine defects were found",s)
open(p,'w').write(s)
