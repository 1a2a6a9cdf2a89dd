import sys; sys.path.insert(0,'/tmp')
from t1 import p
for r in p.recs.values():
    for m in r.get('methods',[]):
        if any(m['key'].startswith(x) for x in sys.argv[1:]): print(m['key'],m.get('ret'))
