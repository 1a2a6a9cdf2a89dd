"""Integration of a scan: which cells are updated with which evidence."""
from lib import *
A, WD = 'GridMapScanAdder::', 'WallDistanceBlurringScanAdder::'
UPD = ('UpdE', dict(x=I_, y=I_, occ=B_, prob=DX, qual=DX, ox=DX, oy=DX, q=DX))
PNT = ('PntE', dict(occ=B_, q=DX, bx=DX, by=DX, ex=DX, ey=DX))


def leaf(v, *ks):
    for k in ks:
        v = [x for n, x in v.ch.items() if n.split('::')[-1] == k][0]
    return v


def h_update(eng, this, args):
    c, a = eng.rv(args[0]), eng.rv(args[1])
    log(eng, UPD[0], x=leaf(c, 'x'), y=leaf(c, 'y'), occ=leaf(a, 'is_occupied'), prob=leaf(a, 'occupancy', 'prob_occ'),
        qual=leaf(a, 'occupancy', 'estimation_quality'), ox=leaf(a, 'obstacle', 'x'), oy=leaf(a, 'obstacle', 'y'), q=leaf(a, 'quality'))


def h_point(eng, this, args):
    b = eng.rv(args[3])
    log(eng, PNT[0], occ=eng.rv(args[1]), q=eng.rv(args[2]), bx=leaf(b, '_beg', 'x'), by=leaf(b, '_beg', 'y'), ex=leaf(b, '_end', 'x'), ey=leaf(b, '_end', 'y'))


UPK = 'GridMap::update(const DiscretePoint2D &, const AreaOccupancyObservation &)'
HSP = 'handle_scan_point(GridMap &, bool, double, const Segment2D &) const'
CFG = {'dyn': dict(MAPCFG['dyn'], **{c: 'opaque' for c in ('CellOccupancyEstimator', 'ObservationMappingQualityEstimator', 'TrigonometryProvider')}),
       'abstract': dict(MAPCFG['abstract'], **{UPK: h_update, A + HSP: h_point}),
       'ghosts': {UPD[0]: ('vec', rec(UPD[0], **UPD[1])), PNT[0]: ('vec', rec(PNT[0], **PNT[1]))}}
SPECS = []
# the cells of a beam (verified under C01), named so that the result can be spoken about
W2CS = S('RegularSquaresGrid::world_to_cells(const Segment2D &) const', trusted=True,
         ensures=['result.len >= 1', 'result.len == uf("beam_len", "int", this._m_per_cell, s)',
                  'forall(lambda j: Implies(And(0 <= j, j < result.len), And(iabs(result[j].x) <= 1 << 23, iabs(result[j].y) <= 1 << 23)))',
                  'forall(lambda j: And(result[j].x == uf("beam_x", "int", this._m_per_cell, s, j), result[j].y == uf("beam_y", "int", this._m_per_cell, s, j)))'])
OCC = S('CellOccupancyEstimator::estimate_occupancy(const Segment2D &, const Rectangle &, bool)', trusted=True,
        ensures=['same(result, est(this, a0, a1, a2))'])


def est(ns, o, beam, area, occ):
    l = []
    for x in (o, beam, area._bot, area._top, area._left, area._right):
        l += ns.leaves(x)
    l.append(ns.unv(occ))
    return ns.wrap(ns.eng.uf_tree('est', l, ns.eng.rec_shape('Occupancy')), ns.mem)


CFG['spec_funcs'] = dict(MAPCFG['spec_funcs'], est=est)

SPECS += [W2CS, OCC]
BND = S('RegularSquaresGrid::world_cell_bounds(const DiscretePoint2D &) const', trusted=True, ensures=[f'same(result.{c}, bounds_of(this, a0).{c})' for c in ('_bot', '_top', '_left', '_right')])
SPECS.append(BND)


def bounds_of(ns, m, c):
    l = [ns.leaves(m._m_per_cell)[0]] + ns.leaves(c)
    return ns.wrap(ns.eng.uf_tree('bounds_of', l, ns.eng.rec_shape('Rectangle')), ns.mem)


CFG['spec_funcs'].update(bounds_of=bounds_of)


def E(ns, o, beam, m, j, occ):
    """The estimate for the j-th cell of the beam."""
    u = lambda c: ns.uf('beam_' + c, 'int', m._m_per_cell, beam, j)
    b = ns.wrap(ns.eng.uf_tree('bounds_of', [ns.leaves(m._m_per_cell)[0], u('x'), u('y')], ns.eng.rec_shape('Rectangle')), ns.mem)
    return est(ns, o, beam, b, occ)


CFG['spec_funcs'].update(E=E)
LOG, OLOG = f'heap("{UPD[0]}")', f'oldheap("{UPD[0]}")'
LETS = {
    'lensq': '(real(beam._end.x)-real(beam._beg.x))*(real(beam._end.x)-real(beam._beg.x)) + (real(beam._end.y)-real(beam._beg.y))*(real(beam._end.y)-real(beam._beg.y))',
    'n': 'uf("beam_len", "int", map._m_per_cell, beam)', 'b': OLOG + '.len',
    'rx': 'floor(real(beam._beg.x)/real(map._m_per_cell))', 'ry': 'floor(real(beam._beg.y)/real(map._m_per_cell))',
    'px': 'floor(real(beam._end.x)/real(map._m_per_cell))', 'py': 'floor(real(beam._end.y)/real(map._m_per_cell))',
    'hb': 'real(this._props._blur_distance)/real(map._m_per_cell)',
    'h': 'If(is_occ, If(hb < 0, 0 - hb*lensq, hb), 0)', 'h2': 'h*h',
    'o2': 'real(rx-px)*real(rx-px) + real(ry-py)*real(ry-py)',
    'base': 'E(this._occ_est, beam, map, n - 1, is_occ)',
}
BX = lambda j: f'uf("beam_x", "int", map._m_per_cell, beam, {j})'
BY = lambda j: f'uf("beam_y", "int", map._m_per_cell, beam, {j})'
FAR = 'Or(isinf(this._max_usable_range_sq), real(this._max_usable_range_sq) >= lensq)'


def entry(e, j):
    """e is the evidence written for the j-th crossed cell"""
    d2 = f'(real({BX(j)}-px)*real({BX(j)}-px) + real({BY(j)}-py)*real({BY(j)}-py))'
    em = f'E(this._occ_est, beam, map, {j}, False)'
    return [f'And({e}.x == {BX(j)}, {e}.y == {BY(j)})', f'And(same({e}.q, scan_quality), same({e}.ox, beam._end.x), same({e}.oy, beam._end.y))',
            f'same({e}.qual, {em}.estimation_quality)', f'{e}.occ == And({d2} < h2, h2 < o2)',
            f'Implies(Not({e}.occ), same({e}.prob, {em}.prob_occ))',
            f'Implies({e}.occ, If(finite(base.prob_occ), And(finite({e}.prob), real({e}.prob) == real(base.prob_occ)*(1 - {d2}/h2)), isnan({e}.prob)))']


def entries(off, hi):
    return [f'forall(lambda k: Implies(And(b + {off} <= k, k < b + {off} + {hi}), {c}))' for c in entry(f'{LOG}[k]', f'(k - b - {off})')]


LAST = [f'And({LOG}[b].x == {BX("n-1")}, {LOG}[b].y == {BY("n-1")}, {LOG}[b].occ == is_occ)', f'And(same({LOG}[b].prob, base.prob_occ), same({LOG}[b].qual, base.estimation_quality))',
        f'And(same({LOG}[b].q, scan_quality), same({LOG}[b].ox, beam._end.x), same({LOG}[b].oy, beam._end.y))']
FIN = ['And(finite(beam._beg.x), finite(beam._beg.y), finite(beam._end.x), finite(beam._end.y))', 'And(finite(map._m_per_cell), real(map._m_per_cell) > 0)',
       'And(' + ', '.join(f'absr(real(beam.{q}.{c})) <= real(map._m_per_cell)*{1 << 20}' for q in ('_beg', '_end') for c in 'xy') + ')',
       'finite(this._props._blur_distance)', 'And(Or(finite(this._max_usable_range_sq), And(isinf(this._max_usable_range_sq), real(this._max_usable_range_sq) == 0)), finite(scan_quality))']
KEEP = f'forall(lambda j: Implies(And(0 <= j, j < b), same({LOG}[j], {OLOG}[j])))'
hp = S(WD + HSP, requires=FIN + ['n >= 1'], modifies=['heap:' + UPD[0]], lets=LETS,
       ensures=[f'Implies(Not({FAR}), {LOG}.len == b)', f'Implies({FAR}, {LOG}.len == b + n)', KEEP] + [f'Implies({FAR}, {c})' for c in LAST + entries(1, 'n - 1')],
       loops={0: dict(inv=[f'{LOG}.len == b + 1 + _i', KEEP] + LAST + entries(1, '_i'), dec='n - _i')})
SPECS += [hp]

# every usable point of the scan is handed over once, at its place in the world, with its quality
PLOG, POLOG = f'heap("{PNT[0]}")', f'oldheap("{PNT[0]}")'
PTS = 'scan._points'


def rot(ns, old, ang):
    v = ns.leaves(old)
    return ns.eng.uf('rotated', v + ns.leaves(ang), v[0].sort())


def st(ns, a, b):
    return ns.leaves(a)[0] == b


def prep(ns, omqe, scan):
    v = ns.leaves(omqe)
    return ns.eng.uf('prepared', v + ns.leaves(scan._points), v[0].sort())


CFG['spec_funcs'].update(rot=rot, st=st, prep=prep)
FINITE_OUT = 'And(finite(result), -1 <= real(result), real(result) <= 1)'
SPECS += [S(f'TrigonometryProvider::{f}(double) const', trusted=True, ensures=[FINITE_OUT, f'eq(result, uf("tp_{f}", "real", this, a0))']) for f in ('sin', 'cos')]
SPECS += [S('TrigonometryProvider::set_base_angle(double)', trusted=True, modifies=['this'], ensures=['st(this, rot(old.this, a0))']),
          S('ObservationMappingQualityEstimator::reset(const LaserScan2D &)', trusted=True, modifies=['this'], ensures=['st(this, prep(old.this, a0))']),
          S('ObservationMappingQualityEstimator::quality(const std::vector<ScanPoint2D> &, unsigned long) const', trusted=True, ensures=['finite(result)', 'eq(result, uf("omq", "real", this, a0, a1))'])]
TP, OM = 'rot(old.scan.trig_provider, old.pose.theta)', 'prep(old.this._omqe, old.scan)'
PL = {'m': 'floor(real(scan_margin))', 'b': POLOG + '.len', 'cnt': f'If({PTS}.len < real(scan_margin) + 1, 0, imax(0, floor({PTS}.len - real(scan_margin) - 1) + 1 - m))'}


def pentry(e, j):
    p = f'{PTS}[{j}]'
    rg, ag = f'real({p}._data.polar.range)', f'{p}._data.polar.angle'
    return [f'And({e}.occ == {p}._is_occupied, same({e}.bx, pose.x), same({e}.by, pose.y))',
            f'And(finite({e}.ex), real({e}.ex) == real(pose.x) + {rg}*uf("tp_cos", "real", {TP}, {ag}))',
            f'And(finite({e}.ey), real({e}.ey) == real(pose.y) + {rg}*uf("tp_sin", "real", {TP}, {ag}))',
            f'And(finite({e}.q), real({e}.q) == real(scan_quality)*uf("omq", "real", {OM}, {PTS}, {j}))']


def pentries(hi):
    return [f'forall(lambda k: Implies(And(b <= k, k < b + {hi}), {c}))' for c in pentry(f'{PLOG}[k]', '(m + (k - b))')]


PKEEP = f'forall(lambda k: Implies(And(0 <= k, k < b), same({PLOG}[k], {POLOG}[k])))'
ap = S(A + 'append_scan(GridMap &, const RobotPose &, const LaserScan2D &, double, double) const', lets=PL, cfg=dict(CFG, dyn=dict(CFG['dyn'], GridMapScanAdder='fields')), modifies=['heap:' + PNT[0], 'scan.trig_provider.*', 'this._omqe.*'],
       requires=['And(finite(scan_margin), 0 <= real(scan_margin), real(scan_margin) <= 1000000, finite(scan_quality))', 'And(finite(pose.x), finite(pose.y), finite(pose.theta))',
                 f'{PTS}.len <= 1000000', f'forall(lambda j: Implies(And(0 <= j, j < {PTS}.len), And({PTS}[j]._type == 0, finite({PTS}[j]._data.polar.range), finite({PTS}[j]._data.polar.angle))))'],
       ensures=[f'{PLOG}.len == b + cnt', PKEEP] + pentries('cnt'), returns='a0',
       loops={0: dict(inv=['_i == m + (' + PLOG + '.len - b)', f'And(0 <= {PLOG}.len - b, {PLOG}.len <= b + cnt)', PKEEP, f'st(scan.trig_provider, {TP})', f'st(this._omqe, {OM})'] + pentries(f'({PLOG}.len - b)'), dec=f'{PTS}.len + 1 - _i')})
SPECS += [ap]
Q_ = 'quality(const std::vector<ScanPoint2D> &, unsigned long) const'
SPECS += [S('IdleOMQE::' + Q_, ensures=['And(finite(result), real(result) == 1)'])]
HV = S('AngleHistogram::value(const std::vector<ScanPoint2D> &, unsigned long) const', trusted=True, ensures=['result == uf("hist_value", "int", this, a0, a1)', 'result >= 1'])
HR = S('AngleHistogram::reset(const LaserScan2D &)', trusted=True, modifies=['this'], ensures=['st(this, prep(old.this, a0))'])
AH = 'AngleHistogramResiprocalOMQE::'
SPECS += [HV, S(AH + Q_, cfg=dict(CFG, dyn=dict(CFG['dyn'], AngleHistogram='opaque')), ensures=['And(finite(result), real(result)*real(uf("hist_value", "int", this._hist, a0, a1)) == 1)'])]
# the configured blur, range and collaborators arrive in the scan adder
BL = WD + 'WallDistanceBlurringScanAdderBuilder::'
SET = 'same(this.{0}, a0.{0})'
SPECS += [S(WD + '#ctor(const WallDistanceBlurringScanAdder::WallDistanceBlurringScanAdderBuilder &)', requires=['Or(finite(a0._max_usable_range), isinf(a0._max_usable_range))'],
            ensures=['same(this._props, a0)', 'same(this._occ_est, a0._occupancy_estimator)', 'same(this._omqe, a0._observation_quality_estimator)',
                     'If(isinf(a0._max_usable_range), And(isinf(this._max_usable_range_sq), kind(this._max_usable_range_sq) == 2), And(finite(this._max_usable_range_sq), real(this._max_usable_range_sq) == real(a0._max_usable_range)*real(a0._max_usable_range)))']),
          S(BL + '#ctor()', ensures=['And(finite(this._blur_distance), real(this._blur_distance) == 0)', 'kind(this._max_usable_range) == 2']),
          S(BL + 'set_blur_distance(double)', modifies=['this._blur_distance'], ensures=['same(this._blur_distance, a0)'], returns='this'),
          S(BL + 'set_max_usable_range(double)', modifies=['this._max_usable_range'], ensures=['same(this._max_usable_range, a0)'], returns='this')]
ASSUMPTIONS = ['the occupancy estimate of a cell is a function of the estimator, the beam, the cell bounds and the hit flag (decided under C09)',
               'the crossed cells are those of world_to_cells (decided under C01) and their bounds those of world_cell_bounds (decided under C02)',
               'every point of the scan is given in polar form', 'a stored usable range is a finite number in the proof; an unlimited range is run by the refuter only', 'GridMap::update is the recorded effect; what a cell does with the evidence is decided under C06']
