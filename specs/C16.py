"""One step of the single hypothesis world: odometry, matching, correction, mapping, notification."""
from lib import *
W = 'SingleStateHypothesisLaserScanGridWorld::'
P, D = 'RobotPose::', 'RobotPoseDelta::'
SPECS = []
fin = lambda o: f'And(finite({o}.x), finite({o}.y), finite({o}.theta))'


def cw(op, *o):
    return 'And(' + ', '.join(f'real(result.{c}) == ' + op.format(*[f'real({x}.{c})' for x in o]) for c in ('x', 'y', 'theta')) + ')'


def upd(o):
    return 'And(' + ', '.join(f'real(this.{c}) == real(old.this.{c}) + real(old.{o}.{c})' for c in ('x', 'y', 'theta')) + ')'


# pose arithmetic
XYT = ['this.x', 'this.y', 'this.theta']
SPECS += [
    S(P + 'operator-(const RobotPose &) const', ensures=[cw('{0} - {1}', 'this', 'a0')]),
    S(P + 'operator+(const RobotPoseDelta &) const', ensures=[cw('{0} + {1}', 'this', 'a0')]),
    S(P + 'operator+=(const RobotPoseDelta &)', modifies=XYT, ensures=[upd('a0')], returns='this'),
    S(P + 'operator=(const RobotPose &)', modifies=XYT, ensures=['And(same(this.x, old.a0.x), same(this.y, old.a0.y), same(this.theta, old.a0.theta))'], returns='this'),
    S(P + '#ctor(const RobotPose &)', ensures=['And(same(this.x, a0.x), same(this.y, a0.y), same(this.theta, a0.theta))']),
    S(P + '#ctor(const RobotPoseDelta &)', ensures=['And(same(this.x, a0.x), same(this.y, a0.y), same(this.theta, a0.theta))']),
    S(P + '#ctor()', ensures=['And(real(this.x) == 0, real(this.y) == 0, real(this.theta) == 0)']),
    S(P + 'point() const', ensures=['And(same(result.x, this.x), same(result.y, this.y))']),
    S(D + 'operator+=(const RobotPoseDelta &)', modifies=XYT, ensures=[upd('a0')], returns='this'),
    S(D + 'operator+(const RobotPoseDelta &) const', ensures=[cw('{0} + {1}', 'this', 'a0')]),
    S(D + 'operator-() const', ensures=[cw('-{0}', 'this')]),
    S(D + 'abs() const', ensures=[cw('absr({0})', 'this')]),
    S(D + 'sq_dist() const', ensures=['real(result) == real(this.x)*real(this.x) + real(this.y)*real(this.y)']),
    S(D + 'reset()', modifies=XYT, ensures=['And(real(this.x) == 0, real(this.y) == 0, real(this.theta) == 0)']),
    S(D + 'operator bool() const', ensures=['Implies(And(real(this.x) == 0, real(this.y) == 0, real(this.theta) == 0), Not(result))'] +
      [f'Implies(absr(real(this.{c})) > R("1/1000000"), result)' for c in ('x', 'y', 'theta')]),
    S(D + 'is_abs_less(const RobotPoseDelta &) const', ensures=['result == And(absr(real(this.x)) < absr(real(a0.x)), absr(real(this.y)) < absr(real(a0.y)), absr(real(this.theta)) < absr(real(a0.theta)))']),
]
# the collaborators, known by their interfaces
PS = 'process_scan(const TransformedLaserScan &, const RobotPose &, const GridMap &, RobotPoseDelta &)'


def st(ns, a, b):
    return ns.leaves(a)[0] == b


def after(ns, name, a):
    v = ns.leaves(a)
    return ns.eng.uf('after_' + name, v, v[0].sort())


def content(ns, m):
    k = [x for x in m._v.ch if x.endswith('::content')][0]
    return m._v.ch[k]


def added(ns, m, adder, pose, scan, q, margin):
    k = content(ns, m)
    l = [k]
    for x in (adder, pose, scan, q, margin):
        l += ns.leaves(x)
    return ns.eng.uf('added', l, k.sort())


SF = {'st': st, 'after': after, 'content': content, 'added': added, 'nopts': lambda ns, s: s.len == 0}
RESET = S('GridScanMatcher::reset_state()', trusted=True, modifies=['this'], ensures=['st(this, after("reset", old.this))'])
PROC = S('GridScanMatcher::' + PS, trusted=True, modifies=['this', 'a3'],
         ensures=[f'eq(a3.{c}, uf("corr_{c}", "real", old.this, old.a0, old.a1, old.a2))' for c in ('x', 'y', 'theta')] + ['finite(result)'])
ADD = S('GridMapScanAdder::append_scan(GridMap &, const RobotPose &, const LaserScan2D &, double, double) const', trusted=True,
        modifies=['a0.content'], ensures=['content(a0) == added(old.a0, old.this, old.a1, old.a2, a3, a4)'], returns='a0')
PO = S('WorldPoseObserver::on_pose_update(const RobotPose &)', trusted=True, modifies=['this'],
       ensures=[f'uf("told_{c}", "real", this) == real(a0.{c})' for c in ('x', 'y', 'theta')])
MO = S('WorldMapObserver<GridMap>::on_map_update(const GridMap &)', trusted=True, modifies=['this'],
       ensures=['st(this, seen(old.this, a0))'])


def seen(ns, o, m):
    l = ns.leaves(o)
    return ns.eng.uf('seen', l + ns.leaves(m), l[0].sort())


def sawmap(ns, o, m):
    """The observer was last given this map."""
    l = ns.leaves(o) + ns.leaves(m)
    return ns.eng.uf('sawmap', l, z3.BoolSort())


MO.ensures.append('sawmap(this, a0)')
SF.update(seen=seen, sawmap=sawmap)
CFG = {'dyn': dict(MAPCFG['dyn'], **{c: 'opaque' for c in ('GridScanMatcher', 'GridMapScanAdder', 'WorldPoseObserver', 'WorldMapObserver<GridMap>', 'TrigonometryProvider')}),
       'shapes': {'WorldObservable<GridMap>::_world_pose_observers': ('vec', ('sref', 'WorldPoseObserver')),
                  'WorldObservable<GridMap>::_world_map_observers': ('vec', ('sref', 'WorldMapObserver<GridMap>'))},
       'abstract': MAPCFG['abstract'], 'spec_funcs': SF, 'heaps': ['WorldPoseObserver', 'WorldMapObserver<GridMap>']}
SPECS += [RESET, PROC, ADD, PO, MO]
HO = W + 'handle_observation(TransformedLaserScan &)'
MOV = 'uf("corr_{0}", "real", after("reset", old.this._props.gsm), old.a0, {1}, old.this._map)'
NEWP = lambda P0: 'And(' + ', '.join(f'real(this._pose.{c}) == real({P0}.{c}) + ' + MOV.format(c, P0) for c in ('x', 'y', 'theta')) + ')'
ho = S(HO, modifies=['this._pose', 'this._props.gsm.*', 'this._map.content', 'a0.quality'],
       requires=['And(finite(this._props.localized_scan_quality), finite(this._props.raw_scan_quality))', fin('this._pose')],
       ensures=[NEWP('old.this._pose'),
                'Implies(And(' + ', '.join(f'{MOV.format(c, "old.this._pose")} == 0' for c in ('x', 'y', 'theta')) + '), same(tr_scan.quality, this._props.raw_scan_quality))'] +
               [f'Implies(absr({MOV.format(c, "old.this._pose")}) > R("1/1000000"), same(tr_scan.quality, this._props.localized_scan_quality))' for c in ('x', 'y', 'theta')] +
               ['content(this._map) == added(old.this._map, old.this._props.gmsa, this._pose, old.tr_scan.scan, tr_scan.quality, real_of(this._props.scan_margin))'])
SF['real_of'] = lambda ns, x: z3.ToReal(x) if z3.is_int(x) else x
SPECS.append(ho)


def notify(what, cls, told):
    L = f'this._world_{what}_observers'
    hs = lambda h: f'heap("{cls}")[{h}]'
    wf = f'forall(lambda j: Implies(And(0 <= j, j < {L}.len), And(0 <= {L}[j].h, {L}[j].h < heap("{cls}").len)))'
    done = lambda n: f'forall(lambda j: Implies(And(0 <= j, j < {n}, {L}[j].h != 0), ' + told(hs(f'{L}[j].h')) + '))'
    arg = {'pose': 'const RobotPose &', 'map': 'const GridMap &'}[what]
    return wf, done(f'{L}.len'), S(f'WorldObservable<GridMap>::notify_with_{what}({arg})', modifies=[f'heap:{cls}'], requires=[wf], ensures=[done(f'{L}.len')],
             loops={0: dict(inv=[done('_i'), f'heap("{cls}").len == oldheap("{cls}").len'], dec=f'{L}.len - _i')})


told_pose = lambda p: (lambda o: 'And(' + ', '.join(f'uf("told_{c}", "real", {o}) == real({p}.{c})' for c in ('x', 'y', 'theta')) + ')')
told_map = lambda m: (lambda o: f'sawmap({o}, {m})')
wfp, _, np = notify('pose', 'WorldPoseObserver', told_pose('a0'))
wfm, _, nm = notify('map', 'WorldMapObserver<GridMap>', told_map('a0'))
SPECS += [np, nm]
_, allp, _ = notify('pose', 'WorldPoseObserver', told_pose('this._pose'))
_, allm, _ = notify('map', 'WorldMapObserver<GridMap>', told_map('this._map'))
Q = 'And(finite(a0.pose_delta.x), finite(a0.pose_delta.y), finite(a0.pose_delta.theta))'
PRED = '(lambda P0: And(' + ', '.join(f'real(this._pose.{c}) == P0[{i}] + uf("corr_{c}", "real", after("reset", old.this._props.gsm), old.a0, P0[0], P0[1], P0[2], old.this._map)' for i, c in enumerate(('x', 'y', 'theta'))) + '))([' + ', '.join(f'real(old.this._pose.{c}) + real(old.a0.pose_delta.{c})' for c in ('x', 'y', 'theta')) + '])'
MAPPED = 'content(this._map) == added(old.this._map, old.this._props.gmsa, this._pose, old.a0.scan, a0.quality, real_of(this._props.scan_margin))'
hs = S('LaserScanGridWorld::handle_sensor_data(TransformedLaserScan &)', cls='SingleStateHypothesisLaserScanGridWorld',
       modifies=['this._pose', 'this._props.gsm.*', 'this._map.content', 'a0.quality', 'heap:WorldPoseObserver', 'heap:WorldMapObserver<GridMap>'],
       requires=ho.requires + [wfp, wfm, Q], ensures=[PRED, MAPPED, allp, allm])
SPECS += [hs]
ASSUMPTIONS = [
    "matcher, scan adder and observers are known by the effect on a ghost log and by frame conditions; their behaviour is C12, C15 and the observers' own",
]
