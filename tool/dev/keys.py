import sys; sys.path.insert(0,'/verif')
from vc.ast import extract
p,h=extract()
pats=sys.argv[1:]
for k,f in sorted(p.funcs.items(), key=lambda kv:(kv[1]['loc'].split(':')[0],int(kv[1]['loc'].split(':')[1]))):
    if any(x in f['loc'] or x in k for x in pats): print(f['loc'].replace('/repo/src/',''), '|', k)
