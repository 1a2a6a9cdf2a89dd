import sys,time; sys.path.insert(0,'/tmp'); sys.path.insert(0,'/verif/specs'); sys.path.insert(0,'/verif')
import importlib
pid=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 and sys.argv[2][0]!='-' else ''
m=importlib.import_module(pid)
from t1 import p,sn
from vc.verify import verify
from vc.solve import discharge_all
specs={s.key:s for s in m.SPECS if not s.inst}
cfg=dict(m.CFG); cfg['snapshot']=sn
import os
tmo=int(os.environ.get('TMO','12'))
nf=no=0
for s in m.SPECS:
    if s.trusted or s.noverify or pat not in s.id: continue
    t=time.time()
    r=verify(p,specs,s,cfg)
    g=time.time()-t
    t=time.time()
    bad=[];slow=[]
    for ob,(st,be,dt,mm),txt in discharge_all(r.obs,tmo):
        if st!='unsat':
            bad.append('   FAIL %s %s %s %s'%(st,ob.role,ob.label,ob.line))
            if '-m' in sys.argv: print(mm[:9000])
            if '-d' in sys.argv: open('/tmp/ob.smt2','w').write(txt); print(ob.goal)
        if dt>3: slow.append((round(dt,1),be,ob.role,ob.label[:60]))
    sol=time.time()-t
    nf+=1; no+=len(r.obs)
    if bad or r.undecided or not r.returns or r.cover!='sat' or g>10 or sol>5 or '-a' in sys.argv:
        print(s.id,'und:',r.undecided,'paths',r.paths,'ret',r.returns,'obs',len(r.obs),'cover',r.cover,'gen %.1fs solve %.1fs'%(g,sol),'slow',slow,flush=True)
        print('   inlined',sorted(r.inlined)[:12],'contracts',sorted(r.contracts)[:8])
        for b in bad: print(b)
        if r.undecided and hasattr(r,'trace') and '-v' in sys.argv: print(r.trace)
print(pid,'functions',nf,'obligations',no)
