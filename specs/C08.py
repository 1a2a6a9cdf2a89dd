"""Discrepancy between a cell and an observation, and the impact estimators built on it."""
from lib import *
import C06, C07

OBS, LETS, PROB = C06.OBS, C06.LETS, C06.PROB
VAL = ['VALID']
UNIT = 'And(finite(result), 0 <= real(result), real(result) <= 1)'
D = '::discrepancy(const AreaOccupancyObservation &) const'
bl = lambda k: f'real(this._belief._beliefs[{k}])'
e0, e1, e2 = C06.est
conf = f'({bl(1)}*{e2} + {bl(2)}*{e1})'
tu = f'(({e0} + {bl(0)})/2)'
conf_h = [f'And({conf} >= 0, {conf} <= 1)', f'{conf} + absr({e2} - {bl(2)}) <= 2']
aoo2tbm = [s for s in C06.SPECS if s.key in ('TbmBaseCell::aoo2tbm(const AreaOccupancyObservation &) const', 'AOO_to_TBM(const AreaOccupancyObservation &)')]
OWN = [
    S('GridCell' + D, requires=OBS + VAL + [PROB], lets=LETS, ensures=[UNIT, 'real(result) == absr(real(this._occupancy.prob_occ) - p)']),
    S('GmappingBaseCell' + D, requires=['And(finite(this.obst.x), finite(this.obst.y), finite(aoo.obstacle.x), finite(aoo.obstacle.y))'], lets=LETS,
      ensures=[UNIT, 'Implies(And(real(this.obst.x) == real(aoo.obstacle.x), real(this.obst.y) == real(aoo.obstacle.y)), real(result) == 0)',
               'real(result) == 1 - exp(-((real(this.obst.x) - real(aoo.obstacle.x))*(real(this.obst.x) - real(aoo.obstacle.x)) + (real(this.obst.y) - real(aoo.obstacle.y))*(real(this.obst.y) - real(aoo.obstacle.y)))/R("1/20"))']),
    S('CredibilistCell' + D, requires=OBS + VAL + C06.TBMREQ, lets=LETS, ensures=[UNIT, f'real(result) == 1 - {bl(2)}*{e2}']),
    S('CredibilistCell::score(const AreaOccupancyObservation &) const', requires=OBS + VAL + C06.TBMREQ, lets=LETS, ensures=[UNIT, f'real(result) == {bl(2)}*{e2}']),
]
for c in ('TbmUnknownEvenOccCell', 'TbmOccConsistentCell'):
    OWN.append(S('TbmBaseCell' + D, cls=c, requires=OBS + VAL + C06.TBMREQ, lets=LETS,
                 post_hints=conf_h + [f'And({tu} >= 0, {tu} <= 1)'],
                 ensures=[UNIT, f'real(result) == {tu}/2 + (1 - {tu})*({conf} + absr({e2} - {bl(2)}))/2']))
IFACE = 'GridCell' + D
DISC = [UNIT, 'eq(result, uf("disc", "real", this, aoo))']
# what every cell model guarantees; each model is checked against it above
iface = S('GridCell' + D, requires=['VALID'], lets=LETS, ensures=[UNIT], trusted=True)
OWN += [
    S('DiscrepancyOIE::estimate_impact(const GridCell &, const AreaOccupancyObservation &) const', requires=OBS + VAL + [PROB.replace('this', 'area')], lets=LETS,
      ensures=[UNIT, 'real(result) == 1 - absr(real(area._occupancy.prob_occ) - p)']),
    S('OccupancyOIE::estimate_impact(const GridCell &, const AreaOccupancyObservation &) const', ensures=['eq(result, area._occupancy.prob_occ)']),
]

# observation likelihood over the cells of an area, for a map known by its interface
import C10, C11
PR = '::probability(const AreaOccupancyObservation &, const LightWeightRectangle &, const GridMap &) const'
OIE = S('ObservationImpactEstimator::estimate_impact(const GridCell &, const AreaOccupancyObservation &) const', trusted=True,
        ensures=[UNIT, 'eq(result, imp0(this, a0, a1))'])


def imp0(ns, oie, cell, aoo):
    return ns.uf('impact', 'real', oie, cell, aoo)


def imp(ns, oie, m, x, y, aoo):
    return ns.uf('impact', 'real', oie, cell_of(ns, m, x, y), aoo)


sub = lambda t: t.replace('grid.', 'map.').replace('r._', 'area._')
AREA = [sub(c) for c in C10.GRID + C10.RECT] + [sub(C10.FIN)]
ne, em = sub(C10.NE), sub(C10.EM)
mm = 'real(map._m_per_cell)'
CELLS = {'lbx': f'floor(real(area._left)/{mm})', 'lby': f'floor(real(area._bot)/{mm})',
         'rtx': f'If({em}, floor(real(area._left)/{mm}), floor(real(area._right)/{mm}))', 'rty': f'If({em}, floor(real(area._bot)/{mm}), floor(real(area._top)/{mm}))'}
A_ = 'area_ids'
ITER = [f'And({A_}._lb.x == lbx, {A_}._lb.y == lby, {A_}._rt.x == rtx, {A_}._rt.y == rty)',
        f'And({A_}._lb.x <= {A_}._x, {A_}._x <= {A_}._rt.x + 1, {A_}._lb.y <= {A_}._y, {A_}._y <= {A_}._rt.y, Implies({A_}._x == {A_}._rt.x + 1, {A_}._y == {A_}._lb.y))']
DONE = f'And(lbx <= x, x <= rtx, lby <= y, y <= rty, Or(x < {A_}._x, And(x == {A_}._x, y < {A_}._y)))'
IN = 'And(lbx <= x, x <= rtx, lby <= y, y <= rty)'
DEC = f'({A_}._rt.x - {A_}._x + 1)*({A_}._rt.y - {A_}._lb.y + 1) + ({A_}._rt.y - {A_}._y)'
REM = f'(rtx - {A_}._x + 1)*(rty - lby + 1) - ({A_}._y - lby)'
IMP = 'imp(this._oie, map, x, y, aoo)'
pcfg = {'dyn': dict(MAPCFG['dyn'], GridCell='opaque'), 'abstract': MAPCFG['abstract'], 'spec_funcs': {'imp': imp, 'imp0': imp0}}
mono = ['lbx <= rtx', 'lby <= rty']
PROBS = [
    S('MaxOccupancyObservationPE' + PR, requires=AREA + ['aoo.is_occupied'], lets=CELLS, cfg=pcfg, entry_hints=mono,
      ensures=[UNIT, f'forall(lambda x, y: Implies({IN}, {IMP} <= real(result)))',
               f'Or(real(result) == 0, exists(lambda x, y: And({IN}, {IMP} == real(result))))'],
      loops={0: dict(inv=ITER + ['And(finite(max_probability), 0 <= real(max_probability), real(max_probability) <= 1)',
                                 f'forall(lambda x, y: Implies({DONE}, {IMP} <= real(max_probability)))',
                                 f'Or(real(max_probability) == 0, exists(lambda x, y: And({DONE}, {IMP} == real(max_probability))))'], dec=DEC)}),
    S('MeanOccupancyObservationPE' + PR, requires=AREA + ['aoo.is_occupied', '(rtx - lbx + 1)*(rty - lby + 1) <= 4294967290'], lets=CELLS, cfg=pcfg, entry_hints=mono,
      ensures=[UNIT],
      loops={0: dict(inv=ITER + ['And(finite(tot_probability), 0 <= real(tot_probability), real(tot_probability) <= area_nm)',
                                 f'area_nm + ({REM}) == (rtx - lbx + 1)*(rty - lby + 1)'], dec=DEC)}),
    S('OverlapWeightedOccupancyObservationPE' + PR, requires=AREA + ['aoo.is_occupied', f'Or({ne}, And(real(area._bot) == real(area._top), real(area._left) == real(area._right)))'], lets=CELLS, cfg=pcfg, entry_hints=mono,
      ensures=[UNIT],
      loops={0: dict(inv=ITER + ['And(finite(tot_probability), 0 <= real(tot_probability), real(tot_probability) <= real(tot_weight), finite(tot_weight))'], dec=DEC)}),
    S('ObstacleBasedOccupancyObservationPE' + PR, requires=['aoo.is_occupied'] + [sub(c) for c in C10.GRID] +
      [f'And(finite(aoo.obstacle.{c}), absr(real(aoo.obstacle.{c})) <= {mm}*{1 << 26})' for c in 'xy'], cfg=pcfg,
      ensures=[UNIT, f'real(result) == imp(this._oie, map, floor(real(aoo.obstacle.x)/{mm}), floor(real(aoo.obstacle.y)/{mm}), aoo)']),
]
SPECS = C07.SPECS + aoo2tbm + OWN + [OIE] + C10.SPECS + [C11.ovl] + PROBS
rot0 = lambda *a: rot(*a)
st0 = lambda *a: st(*a)
CFG = {'dyn': {'TbmBaseCell': 'TbmUnknownEvenOccCell'}, 'spec_funcs': {'imp': imp, 'imp0': imp0, 'rot': rot0, 'st': st0}}

# weighted mean over the points of a scan
OOPE = S('OccupancyObservationProbabilityEstimator' + PR, trusted=True, ensures=[UNIT, 'eq(result, uf("prob", "real", this, a0.obstacle, a1, a2))'])
OAOO = S('ObservationImpactEstimator::obstacle_AOO() const', trusted=True, ensures=['result.is_occupied'])
SPW = S('ScanPointWeighting::weight(const std::vector<ScanPoint2D> &, unsigned long) const', trusted=True,
        ensures=['And(finite(result), real(result) >= 0, real(result) <= 1000000)', 'eq(result, uf("weight", "real", this, a0, a1))'])
TRIG = [S(f'TrigonometryProvider::{f}(double) const', trusted=True, ensures=['And(finite(result), -1 <= real(result), real(result) <= 1)', f'eq(result, uf("tp_{f}", "real", this, a0))']) for f in ('sin', 'cos')]
SETB = S('TrigonometryProvider::set_base_angle(double)', trusted=True, modifies=['this'])
scfg = {'spec_funcs': {'rot': rot0, 'st': st0}, 'dyn': dict(pcfg['dyn'], OccupancyObservationProbabilityEstimator='opaque', ScanPointWeighting='opaque', TrigonometryProvider='opaque', ObservationImpactEstimator='opaque'), 'abstract': MAPCFG['abstract']}
PTS = 'scan._points'
FINP = f'forall(lambda j: Implies(And(0 <= j, j < {PTS}.len), And(finite({PTS}[j]._data.polar.range), finite({PTS}[j]._data.polar.angle), finite({PTS}[j]._factor), 0 <= real({PTS}[j]._factor), real({PTS}[j]._factor) <= 1)))'
EST = 'WeightedMeanPointProbabilitySPE::estimate_scan_probability(const LaserScan2D &, const RobotPose &, const GridMap &, const ScanProbabilityEstimator::SPEParams &) const'
est = S(EST, cfg=scfg, requires=[FINP, 'And(finite(pose.x), finite(pose.y), finite(pose.theta))', C11.FI('params.sp_analysis_area'), C11.WF('params.sp_analysis_area'), f'{PTS}.len <= 1000000'],
        ensures=['Or(isnan(result), And(finite(result), 0 <= real(result), real(result) <= 1))', f'Implies({PTS}.len == 0, isnan(result))'],
        modifies=['scan.trig_provider.*'],
        loops={0: dict(inv=[f'And(0 <= i, i <= {PTS}.len)', 'And(finite(total_weight), finite(total_probability))', 'And(0 <= real(total_probability), real(total_probability) <= real(total_weight))',
                            'Implies(i == 0, real(total_weight) == 0)'], dec=f'{PTS}.len - i')})


def rot(ns, old, ang):
    v = ns.leaves(old)
    return ns.eng.uf('rotated', v + ns.leaves(ang), v[0].sort())


def dv(ns, r):
    return r


def st(ns, a, b):
    return ns.leaves(a)[0] == b


SETB.ensures.append('st(this, rot(old.this, a0))')
PJ = f'{PTS}[j]'
TPS = 'rot(old.scan.trig_provider, old.pose.theta)'
rg, ag = f'real({PJ}._data.polar.range)', f'{PJ}._data.polar.angle'
OXY = [f'(real(pose.{c}) + {rg}*uf("tp_{t}", "real", {TPS}, {ag}))' for c, t in (('x', 'cos'), ('y', 'sin'))]
SA = 'params.sp_analysis_area'
hv, hh = f'(real({SA}._top) - real({SA}._bot))/2', f'(real({SA}._right) - real({SA}._left))/2'
AR = [f'dv({OXY[1]} - {hv})', f'dv({OXY[1]} + {hv})', f'dv({OXY[0]} - {hh})', f'dv({OXY[0]} + {hh})']
PROBJ = f'uf("prob", "real", this._oope, dv({OXY[0]}), dv({OXY[1]}), {", ".join(AR)}, map)'
WJ = f'uf("weight", "real", this._spw, {PTS}, j)'
SUMS = ['And(uf("WS", "real", 0) == 0, uf("PS", "real", 0) == 0)',
        f'forall(lambda j: Implies(And(0 <= j, j < {PTS}.len), And(uf("WS", "real", j + 1) == uf("WS", "real", j) + {WJ}, uf("PS", "real", j + 1) == uf("PS", "real", j) + {PROBJ}*{WJ}*real({PJ}._factor))))']
est2 = S(EST, inst='mean', cfg=dict(scfg, spec_funcs={'rot': rot, 'dv': dv, 'st': st}), requires=est.requires + [f'forall(lambda j: Implies(And(0 <= j, j < {PTS}.len), {PJ}._type == 0))', 'Not(params.scan_is_prerotated)'] + SUMS,
         modifies=est.modifies, ensures=[f'If(uf("WS", "real", {PTS}.len) == 0, isnan(result), And(finite(result), real(result)*uf("WS", "real", {PTS}.len) == uf("PS", "real", {PTS}.len)))'],
         loops={0: dict(inv=[f'And(0 <= i, i <= {PTS}.len)', 'And(finite(total_weight), finite(total_probability))', f'st(scan.trig_provider, {TPS})', 'And(real(total_weight) == uf("WS", "real", i), real(total_probability) == uf("PS", "real", i))'], dec=f'{PTS}.len - i')})
SPECS += [OOPE, OAOO, SPW, SETB, C11.mv] + TRIG + [est, est2]
# a scan that is rotated already
PRE = [f'(real(pose.{c}) + real({PJ}._data.cartesian.{c}))' for c in 'xy']
ARP = [f'dv({PRE[1]} - {hv})', f'dv({PRE[1]} + {hv})', f'dv({PRE[0]} - {hh})', f'dv({PRE[0]} + {hh})']
PROBP = f'uf("prob", "real", this._oope, dv({PRE[0]}), dv({PRE[1]}), {", ".join(ARP)}, map)'
SUMP = [SUMS[0], SUMS[1].replace(PROBJ, PROBP)]
FINC = f'forall(lambda j: Implies(And(0 <= j, j < {PTS}.len), And(finite({PJ}._data.cartesian.x), finite({PJ}._data.cartesian.y), finite({PJ}._factor), 0 <= real({PJ}._factor), real({PJ}._factor) <= 1, {PJ}._type == 1)))'
est3 = S(EST, inst='mean of rotated points', cfg=est2.cfg, requires=[FINC] + est.requires[1:] + ['params.scan_is_prerotated'] + SUMP, modifies=est.modifies, ensures=est2.ensures,
         loops={0: dict(est2.loops[0], inv=est2.loops[0]['inv'][:2] + est2.loops[0]['inv'][3:])})
SPECS += [est3]


# which points of a raw scan are used
def has_cell(eng, this, args):
    m, c = eng.load(this), eng.rv(args[0])
    key = [k for k in m.ch if k.endswith('::content')][0]
    return eng.uf('has_cell', [m.ch[key], c.ch['DiscretePoint2D::x'], c.ch['DiscretePoint2D::y']], z3.BoolSort())


def inside(ns, m, x, y):
    key = [k for k in m._v.ch if k.endswith('::content')][0]
    return ns.eng.uf('has_cell', [m._v.ch[key], ns.unv(x), ns.unv(y)], z3.BoolSort())


RES = S('ScanPointWeighting::reset(const LaserScan2D &)', inst='filter', trusted=True, modifies=['this'])
fcfg = dict(scfg, spec_funcs={'rot': rot, 'dv': dv, 'st': st, 'inside': inside}, abstract=dict(MAPCFG['abstract'], **{'RegularSquaresGrid::has_cell(const DiscretePoint2D &) const': has_cell}))
RAW = 'raw_scan._points'
RJ = f'{RAW}[j]'
TPF = 'rot(old.raw_scan.trig_provider, old.pose.theta)'
FX = [f'floor((real(pose.{c}) + real({RJ}._data.polar.range)*uf("tp_{t}", "real", {TPF}, {RJ}._data.polar.angle))/{mm})' for c, t in (('x', 'cos'), ('y', 'sin'))]
EPS = 'R("2220446049250313/10000000000000000000000000000000")'  # what less() adds
FAR = f'And(real(this._pt_max_usable_range) + {EPS} > 0, real({RJ}._data.polar.range) + {EPS} > real(this._pt_max_usable_range))'
SKIPRATE = 'this._pts_skip_rate'
USE = f'And(Or({SKIPRATE} == 0, j % {SKIPRATE} == 0), {RJ}._is_occupied, inside(map, {FX[0]}, {FX[1]}), Not({FAR}))'
FIN_R = f'forall(lambda j: Implies(And(0 <= j, j < {RAW}.len), And(finite({RJ}._data.polar.range), finite({RJ}._data.polar.angle), {RJ}._type == 0, 0 <= real({RJ}._data.polar.range), real({RJ}._data.polar.range) <= {mm}*{1 << 25})))'
KN = ['uf("KN", "int", 0) == 0', f'forall(lambda j: (Implies(And(0 <= j, j < {RAW}.len), uf("KN", "int", j + 1) == uf("KN", "int", j) + If({USE}, 1, 0)), uf("KN", "int", j + 1)))']
KEPT = lambda v, n: [f'{v}.len == uf("KN", "int", {n})', f'forall(lambda j: Implies(And(0 <= j, j < {n}, {USE}), And(0 <= uf("KN", "int", j), uf("KN", "int", j) < {v}.len, same({v}[uf("KN", "int", j)], {RJ}))))']
FS = 'WeightedMeanPointProbabilitySPE::filter_scan(const LaserScan2D &, const RobotPose &, const GridMap &)'
flt = S(FS, inst='filter', cfg=fcfg, requires=[FIN_R, 'And(finite(pose.x), finite(pose.y), finite(pose.theta), finite(this._pt_max_usable_range), finite(map._m_per_cell), real(map._m_per_cell) > 0)',
                                  f'And(absr(real(pose.x)) <= {mm}*{1 << 25}, absr(real(pose.y)) <= {mm}*{1 << 25}, {RAW}.len <= 1000000)'] + KN,
        modifies=['raw_scan.trig_provider.*', 'this._spw.*'], ensures=KEPT('result._points', RAW + '.len') + [f'st(raw_scan.trig_provider, {TPF})', 'same(result.trig_provider, raw_scan.trig_provider)'],
        loops={0: dict(inv=[f'And(0 <= i, i <= {RAW}.len)', f'st(raw_scan.trig_provider, {TPF})', 'uf("KN", "int", i) >= 0'] + KEPT('scan._points', 'i'), dec=f'{RAW}.len - i')})
SPECS += [RES, flt]

# gmapping's likelihood of an end point: the best cell of a window around it
def occ_(ns, m, x, y):
    return ns.uf('occ', 'real', cell_of(ns, m, x, y))


def like(ns, m, x, y, aoo):
    return 1 - ns.uf('disc', 'real', cell_of(ns, m, x, y), aoo)


GDBL = S('GridCell::operator double() const', inst='window', trusted=True, ensures=['And(finite(result), real(result) == uf("occ", "real", this))'])  # under contract in C06
GDSC = S('GridCell' + D, inst='window', trusted=True, ensures=[UNIT, 'real(result) == uf("disc", "real", this, a0)'])
WS, TH = 'this.Window_Sz', 'real(this.Fullness_Th)'
SP = [f'floor(real(aoo.obstacle.{c})/{mm})' for c in 'xy']
BEST = lambda v, dom: [f'And(finite({v}), 0 <= real({v}), real({v}) <= 1)', f'forall(lambda x, y: Implies(And({dom("x", "y")}, occ_(map, spx + x, spy + y) >= {TH}), like(map, spx + x, spy + y, aoo) <= real({v})))',
                       f'Or(real({v}) == 0, exists(lambda x, y: And({dom("x", "y")}, occ_(map, spx + x, spy + y) >= {TH}, like(map, spx + x, spy + y, aoo) == real({v}))))']
WIN = lambda x, y: f'-{WS} <= {x}, {x} <= {WS}, -{WS} <= {y}, {y} <= {WS}'
gmp = S('GmappingOccupancyObservationPE' + PR, inst='window', lets={'spx': SP[0], 'spy': SP[1]}, cfg=dict(pcfg, spec_funcs={'occ_': occ_, 'like': like}),
        requires=['aoo.is_occupied', f'And(0 <= {WS}, {WS} <= 1 << 26, finite(this.Fullness_Th))', 'And(finite(map._m_per_cell), real(map._m_per_cell) > 0)'] + [f'And(finite(aoo.obstacle.{c}), absr(real(aoo.obstacle.{c})) <= {mm}*{1 << 26})' for c in 'xy'],
        ensures=BEST('result', WIN),
        loops={0: dict(inv=[f'And(-{WS} <= d_x, d_x <= {WS} + 1)'] + BEST('best_prob', lambda x, y: f'{WIN(x, y)}, {x} < d_x'), dec=f'{WS} - d_x + 1'),
               1: dict(inv=[f'And(-{WS} <= d_y, d_y <= {WS} + 1)'] + BEST('best_prob', lambda x, y: f'{WIN(x, y)}, Or({x} < d_x, And({x} == d_x, {y} < d_y))'), dec=f'{WS} - d_y + 1')})
SPECS += [GDBL, GDSC, gmp]
# the weightings behind that interface
WT = '::weight(const std::vector<ScanPoint2D> &, unsigned long) const'
SPECS += [
    S('EvenSPW::reset(const LaserScan2D &)', requires=['scan._points.len >= 1'], modifies=['this._common_weight'], ensures=['And(finite(this._common_weight), real(this._common_weight)*scan._points.len == 1)']),
    S('EvenSPW' + WT, requires=['And(finite(this._common_weight), 0 <= real(this._common_weight), real(this._common_weight) <= 1)'], ensures=['And(finite(result), real(result) >= 0, real(result) <= 1)', 'same(result, this._common_weight)']),
    S('VinySlamSPW' + WT, requires=['And(0 <= a1, a1 < pts.len, pts[a1]._type == 0, finite(pts[a1]._data.polar.range), finite(pts[a1]._data.polar.angle), real(pts[a1]._data.polar.range) >= 0)'],
      ensures=['And(finite(result), real(result) >= 0)']),
]
# what an estimator asks for when it has no observation of its own
REAL_OAOO = S('ObservationImpactEstimator::obstacle_AOO() const', inst='real', cls='DiscrepancyOIE', modifies=[],
              ensures=['And(result.is_occupied, real(result.occupancy.prob_occ) == 1, real(result.occupancy.estimation_quality) == 1, real(result.obstacle.x) == 0, real(result.obstacle.y) == 0, real(result.quality) == 1)'])


def ask(eng, this, args):
    a = eng.rv(args[1])
    v = Node('dbl', None, {'r': eng.uf('impact', eng.flat(this) + eng.flat(args[0]), z3.RealSort()), 'k': z3.IntVal(0)})
    log(eng, 'obs', v=v, occ=eng.rv(a.ch['AreaOccupancyObservation::is_occupied']), p=eng.rv(a.ch['AreaOccupancyObservation::occupancy'].ch['Occupancy::prob_occ']), e=eng.rv(a.ch['AreaOccupancyObservation::occupancy'].ch['Occupancy::estimation_quality']),
        x=eng.rv(a.ch['AreaOccupancyObservation::obstacle'].ch['Point2D::x']), y=eng.rv(a.ch['AreaOccupancyObservation::obstacle'].ch['Point2D::y']), q=eng.rv(a.ch['AreaOccupancyObservation::quality']))
    return v


OI = 'heap("obs")'
REAL_EOI = S('ObservationImpactEstimator::estimate_obstacle_impact(const GridCell &) const', inst='real', cls='MockOIE', requires=[OI + '.len == 0'], modifies=['heap:obs'],
             cfg={'dyn': {'GridCell': 'opaque'}, 'ghosts': {'obs': ('vec', rec('Ob', v=('dblx',), occ=B_, **{f: ('dblx',) for f in 'pexyq'}))}, 'abstract': {'ObservationImpactEstimator::estimate_impact(const GridCell &, const AreaOccupancyObservation &) const': ask, 'MockOIE::estimate_impact(const GridCell &, const AreaOccupancyObservation &) const': ask}},
             ensures=[OI + '.len == 1', f'same(result, {OI}[0].v)', f'And({OI}[0].occ, real({OI}[0].p) == 1, real({OI}[0].e) == 1, real({OI}[0].x) == 0, real({OI}[0].y) == 0, real({OI}[0].q) == 1)'])
SPECS += [REAL_OAOO, REAL_EOI]
ASSUMPTIONS = [
    'the interfaces (impact estimator, point weighting, area estimator, trigonometry) are known by contracts; every implementation in the repository is verified against its own',
    'exp is a positive monotone function with exp(0) = 1; the cell range of the gmapping estimator is bounded by 2^26 cells',
]
