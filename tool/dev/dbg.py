# dbg.py ID pattern label-substring : dump first failing goal parts
import sys; sys.path.insert(0,'/tmp'); sys.path.insert(0,'/verif/specs'); sys.path.insert(0,'/verif')
import importlib,z3
from t1 import p,sn
from vc.verify import verify
from vc import solve
pid,pat,lab=sys.argv[1:4]
m=importlib.import_module(pid)
specs={s.key:s for s in m.SPECS if not s.inst}
cfg=dict(m.CFG); cfg['snapshot']=sn
for s in m.SPECS:
    if s.trusted or s.noverify or pat not in s.id: continue
    r=verify(p,specs,s,cfg)
    k=0
    for ob in r.obs:
        if lab in ob.label:
            ts=solve.easier(ob) or [solve.to_smt2(ob)]
            for i,(t,g) in enumerate(zip(ts,solve.split(ob.goal))):
                st,dt=solve.quick(t,40)
                print(ob.label[:80],i,st,round(dt,1))
                if st!='unsat':
                    print(str(g)[:3000]); open('/tmp/ob.smt2','w').write(t); k+=1
            if k>1: break
