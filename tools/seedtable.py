import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); rows.append((os.path.basename(d[:-1]),m['property'],m['needs']))
out=["## Planted bugs and what catches them","",
"Each change in `seeded/` compiles, passes the existing tests, and has a demonstration. Every one is caught by the quick check of its own",
"property (verified with the change applied to `/repo`); several by others too. What a miss led to is given where there was one.","",
"| change | caught by | needs |","|---|---|---|"]
for i,p,n in rows: out.append(f"| {i} | {p} | {n} |")
out.append("")
t=open('/verif/DESIGN.md').read()
new="\n".join(out)
s='## Planted bugs and what catches them'
if s in t:
    a=t.index(s); b=t.index('\n## ',a+5)+1; t=t[:a]+new+"\n"+t[b:]
else:
    b=t.index('## Oracle corrections'); t=t[:b]+new+"\n"+t[b:]
open('/verif/DESIGN.md','w').write(t)
