import sys,time; sys.path.insert(0,'/verif')
from vc.ast import *
from vc.verify import verify
from vc.spec import FnSpec
from vc.snapshot import Snapshot
from vc.solve import discharge_all
p,h=extract()
sn=Snapshot(None); sn.prog=p
def run(sps, cfg={}, timeout=20):
    specs={s.key:s for s in sps}
    c=dict(cfg); c['snapshot']=sn
    for s in sps:
        t=time.time()
        r=verify(p,specs,s,c)
        print(s.key,'und:',r.undecided,'paths',r.paths,'ret',r.returns,'obs',len(r.obs),'cover',r.cover,'%.1f'%(time.time()-t))
        if r.undecided and hasattr(r,'trace'): print(r.trace)
        t=time.time()
        for ob,(st,be,dt,m),txt in discharge_all(r.obs,timeout):
            if st!='unsat': print('   FAIL',st,ob.role,ob.label,ob.line); print(m[:300])
        print('   solve %.1f'%(time.time()-t), r.inlined)
if __name__=='__main__':
    S=FnSpec
    run([S('GridRasterizedRectangle::next()',requires=['this._lb.y<=this._y','this._y<=this._rt.y','this._x<2147483647','this._rt.y<2147483647'],modifies=['this._x','this._y'],
       ensures=['result.x==old.this._x','result.y==old.this._y','If(old.this._y<old.this._rt.y, And(this._y==old.this._y+1,this._x==old.this._x),And(this._y==this._lb.y,this._x==old.this._x+1))']),
     S('DiscretePoint2D::operator+(const DiscretePoint2D &) const',requires=['iabs(this.x)<1000000','iabs(p.x)<100000','iabs(this.y)<1000000','iabs(p.y)<100000'],ensures=['result.x==this.x+p.x','result.y==this.y+p.y']),
     S('DiscretePoint2D::dist_sq(const DiscretePoint2D &) const',requires=['iabs(this.x)<1000000','iabs(pt.x)<100000','iabs(this.y)<1000000','iabs(pt.y)<100000'],ensures=['result>=0','(result==0)==same(this,pt)'])])
