import json, glob, os, subprocess
V='/verif'
kf=json.load(open(V+'/known_findings.json'))
seeded={}
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    seeded.setdefault(m['property'],[]).append((d,m))
titles={json.loads(l)['id']:json.loads(l)['title'] for l in open(V+'/properties.jsonl')}
T={}
exec(open('/verif/notes/design/props.py').read())
out=[open('/verif/notes/design/head.md').read().rstrip()+'\n']
for p in sorted(titles):
    out.append(f"\n### {p} {titles[p]}\n\n{T[p].strip()}\n")
    if seeded.get(p):
        out.append("\nPlanted and kept: "+"; ".join(f"`{d}` ({m['needs']})" for d,m in seeded[p])+".\n")
out.append(open('/verif/notes/design/tail.md').read())
out.append("\n## Repairs made in /repo\n\nEach is a `fix:` commit; the check of its property fails without it.\n\n")
for f in kf['fixed']:
    a=f[len('fixed: property='):]
    out.append(f"- {a}\n")
open(V+'/DESIGN.md','w').write(''.join(out))
