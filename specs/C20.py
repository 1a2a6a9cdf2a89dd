"""Trigonometry providers, scan points and the direction histogram."""
import z3
from lib import *
TP, CP, RP, SP, LS, AH = 'TrigonometryProvider::', 'CachedTrigonometryProvider::', 'RawTrigonometryProvider::', 'ScanPoint2D::', 'LaserScan2D::', 'AngleHistogram::'


def acos(ns, x):
    return z3.Function('m_acos', z3.RealSort(), z3.RealSort())(x if z3.is_expr(x) and z3.is_real(x) else ns.eng.toreal(x))


def atan2(ns, y, x):
    R_ = z3.RealSort()
    return z3.Function('m_atan2', R_, R_, R_)(y, x)


CFG = {'dyn': {'TrigonometryProvider': 'opaque'}, 'spec_funcs': {'acos': acos, 'atan2': atan2}}
DBL = lambda *n: 'And(' + ', '.join(f'finite({x})' for x in n) + ')'

# ---- trigonometry: the table holds every grid angle below the maximum
GRID = 'real(this._angle_min) + i*real(this._angle_delta)'
TAB = ('And(finite(this._angle_min), finite(this._angle_max), finite(this._angle_delta), this._sin.len == this._cos.len, this._sin.len <= 1048577, '
       'Or(And(this._angle_delta == 0, this._angle_min == 0, this._angle_max == 0, this._sin.len == 0), And(real(this._angle_delta) > 0, '
       f'forall(lambda i: Implies(And(0 <= i, Or(i < this._sin.len, {GRID} < real(this._angle_max))), '
       f'And(i < this._sin.len, this._sin[i] == sin({GRID}), this._cos[i] == cos({GRID})))))))')
UP = ['And(finite(a0), finite(a1), finite(a2), real(a2) > 0, real(a0) < real(a1), real(a1) - real(a0) <= 1048576*real(a2))']
# the nearest grid angle (floating-point queries lie next to one) is that of index IDX
Q = '((real(a0) - real(this._angle_min)) / real(this._angle_delta))'
IDX = f'floor({Q} + R("1/2"))'
ATG = f'real(this._angle_min) + {IDX}*real(this._angle_delta)'
HAS = f'And({Q} > R("-1/2"), {IDX} < this._sin.len)'
BASE = 'And(finite(this._sin_base), finite(this._cos_base))'
SPECS = [
    S(CP + '#ctor()', ensures=[TAB, 'And(this._sin_base == 0, this._cos_base == 1)']),
    S(CP + 'set_base_angle(double)', requires=['finite(a0)'], modifies=['this._sin_base', 'this._cos_base'],
      ensures=['And(same(this._sin_base, sin(a0)), same(this._cos_base, cos(a0)))']),
    S(CP + 'update(double, double, double)', requires=[TAB] + UP, modifies=['this._sin', 'this._cos', 'this._angle_min', 'this._angle_max', 'this._angle_delta'],
      ensures=[TAB, 'And(same(this._angle_min, a0), same(this._angle_max, a1), same(this._angle_delta, a2))'],
      loops={0: dict(inv=['And(same(this._angle_min, a0), same(this._angle_max, a1), same(this._angle_delta, a2))', 'this._sin.len == this._cos.len',
                          'finite(angle)', 'real(angle) == real(this._angle_min) + this._sin.len*real(this._angle_delta)',
                          f'forall(lambda i: Implies(And(0 <= i, i < this._sin.len), And(this._sin[i] == sin({GRID}), this._cos[i] == cos({GRID}))))',
                          'this._sin.len <= 1048577'])}),
    S(CP + 'sin(double) const', requires=[TAB, BASE, 'finite(a0)', 'real(this._angle_delta) > 0', HAS], modifies=[],
      ensures=['real(result) == real(this._sin_base)*cos(' + ATG + ') + real(this._cos_base)*sin(' + ATG + ')']),
    S(CP + 'cos(double) const', requires=[TAB, BASE, 'finite(a0)', 'real(this._angle_delta) > 0', HAS], modifies=[],
      ensures=['real(result) == real(this._cos_base)*cos(' + ATG + ') - real(this._sin_base)*sin(' + ATG + ')']),
    S(RP + '#ctor()', ensures=['this._base_angle == 0']),
    S(RP + 'set_base_angle(double)', requires=['finite(a0)'], modifies=['this._base_angle'], ensures=['same(this._base_angle, a0)']),
    S(RP + 'sin(double) const', requires=['And(finite(a0), finite(this._base_angle))'], modifies=[], ensures=['real(result) == sin(real(this._base_angle) + real(a0))']),
    S(RP + 'cos(double) const', requires=['And(finite(a0), finite(this._base_angle))'], modifies=[], ensures=['real(result) == cos(real(this._base_angle) + real(a0))']),
]

# ---- scan points
T = lambda p='this': f'{p}._type'
PT_OK = lambda p: f'Or(And({p}._type == 0, finite({p}._data.polar.range), finite({p}._data.polar.angle)), And({p}._type == 1, finite({p}._data.cartesian.x), finite({p}._data.cartesian.y)))'
RNG = lambda p: f'If({p}._type == 0, real({p}._data.polar.range), sqrt(real({p}._data.cartesian.x)*real({p}._data.cartesian.x) + real({p}._data.cartesian.y)*real({p}._data.cartesian.y)))'
ANG = lambda p: f'If({p}._type == 0, real({p}._data.polar.angle), atan2(real({p}._data.cartesian.y), real({p}._data.cartesian.x)))'
PX = lambda p: f'If({p}._type == 1, real({p}._data.cartesian.x), real({p}._data.polar.range)*cos(real({p}._data.polar.angle)))'
PY = lambda p: f'If({p}._type == 1, real({p}._data.cartesian.y), real({p}._data.polar.range)*sin(real({p}._data.polar.angle)))'
W = [PT_OK('this')]
POL = lambda r, a, occ='this._is_occupied': ['result._type == 0', f'And(finite(result._data.polar.range), real(result._data.polar.range) == {r}, finite(result._data.polar.angle), real(result._data.polar.angle) == {a})', f'And(result._factor == 1, result._is_occupied == {occ})']
CAR = lambda x, y, occ='this._is_occupied': ['result._type == 1', f'And(finite(result._data.cartesian.x), real(result._data.cartesian.x) == {x}, finite(result._data.cartesian.y), real(result._data.cartesian.y) == {y})', f'And(result._factor == 1, result._is_occupied == {occ})']
TPS_, TPC_ = 'uf("tp_sin", "real", a, tp)', 'uf("tp_cos", "real", a, tp)'
OUT = lambda x, y: ['And(finite(result.x), finite(result.y))', f'real(result.x) == {x}', f'real(result.y) == {y}']
TPF = lambda f, a, tp: f'uf("tp_{f}", "real", {a}, {tp})'
SPECS += [
    S(TP + 'sin(double) const', trusted=True, requires=['finite(a0)'], ensures=['And(finite(result), real(result) == uf("tp_sin", "real", real(a0), this))']),
    S(TP + 'cos(double) const', trusted=True, requires=['finite(a0)'], ensures=['And(finite(result), real(result) == uf("tp_cos", "real", real(a0), this))']),
    S(TP + 'set_base_angle(double)', trusted=True, modifies=['this'], ensures=['uf("tp_base", "real", this) == real(a0)']),
    S(SP + 'make_polar(double, double, bool)', requires=[DBL('a0', 'a1')], ensures=POL('real(a0)', 'real(a1)', 'a2')),
    S(SP + 'make_cartesian(const Point2D &, bool)', requires=[DBL('a0.x', 'a0.y')], ensures=CAR('real(a0.x)', 'real(a0.y)', 'a1')),
    S(SP + '#ctor(double, double, bool)', requires=[DBL('a0', 'a1')], ensures=['this._type == 0', 'And(same(this._data.polar.range, a0), same(this._data.polar.angle, a1), this._factor == 1, this._is_occupied == a2)']),
    S(SP + 'range() const', contract=False, requires=W, modifies=[], ensures=['finite(result)', f'real(result) == {RNG("this")}']),
    S(SP + 'angle() const', contract=False, requires=W, modifies=[], ensures=['finite(result)', f'real(result) == {ANG("this")}']),
    S(SP + 'x() const', contract=False, requires=W, modifies=[], ensures=['finite(result)', f'real(result) == {PX("this")}']),
    S(SP + 'y() const', contract=False, requires=W, modifies=[], ensures=['finite(result)', f'real(result) == {PY("this")}']),
    S(SP + 'set_factor(double)', requires=['finite(a0)'], modifies=['this._factor'], ensures=['same(this._factor, a0)'], returns='this'),
    S(SP + 'move_origin(double, double) const', requires=W + [DBL('a0', 'a1')], modifies=[], ensures=OUT(f'{PX("this")} + real(a0)', f'{PY("this")} + real(a1)')),
    S(SP + 'move_origin(double, double, double) const', requires=W + [DBL('a0', 'a1', 'a2')], modifies=[],
      ensures=OUT(f'{RNG("this")}*cos({ANG("this")} + real(a2)) + real(a0)', f'{RNG("this")}*sin({ANG("this")} + real(a2)) + real(a1)')),
    S(SP + 'move_origin(double, double, std::shared_ptr<TrigonometryProvider>) const', requires=W + [DBL('a0', 'a1')], modifies=[],
      ensures=OUT(f'real(a0) + {RNG("this")}*{TPF("cos", ANG("this"), "a2")}', f'real(a1) + {RNG("this")}*{TPF("sin", ANG("this"), "a2")}')),
    S(SP + 'move_origin(const Point2D &, std::shared_ptr<TrigonometryProvider>) const', requires=W + [DBL('a0.x', 'a0.y')], modifies=[],
      ensures=OUT(f'real(a0.x) + {RNG("this")}*{TPF("cos", ANG("this"), "a1")}', f'real(a0.y) + {RNG("this")}*{TPF("sin", ANG("this"), "a1")}')),
    S(SP + 'to_cartesian(std::shared_ptr<TrigonometryProvider>) const', requires=W, modifies=[], ensures=CAR(f'{RNG("this")}*{TPF("cos", ANG("this"), "a0")}', f'{RNG("this")}*{TPF("sin", ANG("this"), "a0")}')),
    S(SP + 'to_cartesian(double, double) const', requires=W + [DBL('a0', 'a1')], modifies=[],
      ensures=CAR(f'({RNG("this")} + real(a1))*cos({ANG("this")} + real(a0))', f'({RNG("this")} + real(a1))*sin({ANG("this")} + real(a0))')),
    S(SP + 'to_polar(double, double) const', requires=W + [DBL('a0', 'a1')], modifies=[],
      ensures=POL(f'sqrt(({PX("this")} + real(a0))*({PX("this")} + real(a0)) + ({PY("this")} + real(a1))*({PY("this")} + real(a1)))', f'atan2({PY("this")} + real(a1), {PX("this")} + real(a0))')),
]
PJ, RJ = 'this._points[j]', 'result._points[j]'
WFP = 'forall(lambda j: Implies(And(0 <= j, j < this._points.len), ' + PT_OK('this._points[j]') + '))'
SPECS += [
    S(LS + 'to_cartesian(double) const', requires=[WFP, 'finite(a0)', 'this._points.len <= 1048576'], modifies=['this.trig_provider.*'],
      ensures=['result._points.len == this._points.len', 'uf("tp_base", "real", result.trig_provider) == real(a0)',
               f'forall(lambda j: Implies(And(0 <= j, j < this._points.len), And({RJ}._type == 1, real({RJ}._data.cartesian.x) == {RNG(PJ)}*{TPF("cos", ANG(PJ), "result.trig_provider")}, '
               f'real({RJ}._data.cartesian.y) == {RNG(PJ)}*{TPF("sin", ANG(PJ), "result.trig_provider")}, {RJ}._is_occupied == {PJ}._is_occupied)))'],
      loops={0: dict(inv=['cartsn_scan._points.len == _i', 'And(0 <= _i, _i <= this._points.len)', 'uf("tp_base", "real", cartsn_scan.trig_provider) == real(a0)',
                          f'forall(lambda j: Implies(And(0 <= j, j < _i), And(X._type == 1, finite(X._data.cartesian.x), finite(X._data.cartesian.y), real(X._data.cartesian.x) == {RNG(PJ)}*{TPF("cos", ANG(PJ), "cartsn_scan.trig_provider")}, '
               f'real(X._data.cartesian.y) == {RNG(PJ)}*{TPF("sin", ANG(PJ), "cartsn_scan.trig_provider")}, X._is_occupied == {PJ}._is_occupied)))'.replace('X.', 'cartsn_scan._points[j].')], dec='this._points.len - _i')}),
]

# ---- direction histogram
PI_ = 'R("3.14159265358979323846")'
STEP = f'(180*{PI_}/180 / z3.ToReal(this._n))'


def pos(ns, p):
    l = lambda t: ns.eng.toreal(t)
    d = p._data
    tr = lambda f, x: z3.Function('m_' + f, z3.RealSort(), z3.RealSort())(x)
    from vc.spec import real
    return (z3.If(p._type == 1, real(d.cartesian.x), real(d.polar.range) * tr('cos', real(d.polar.angle))),
            z3.If(p._type == 1, real(d.cartesian.y), real(d.polar.range) * tr('sin', real(d.polar.angle))))


def direction(ns, p, q):
    """Direction of the line through p and q against the x axis, in [0, pi)."""
    (px, py), (qx, qy) = pos(ns, p), pos(ns, q)
    dx, dy = qx - px, qy - py
    sq = z3.Function('m_sqrt', z3.RealSort(), z3.RealSort())(dx * dx + dy * dy)
    a = acos(ns, dx / sq)
    pi = R('3.14159265358979323846')
    t = z3.If(z3.And(dy < 0, dx != 0), pi - a, a)
    return z3.If(dy == 0, R(0), z3.If(pi <= t, R(0), t))


CFG['spec_funcs'].update(direction=direction)
HW = 'And(1 <= this._n, this._n <= 1048576, this._hist.len == this._n, this._ang_sum.len == this._n)'
BINOK = 'forall(lambda b: Implies(And(0 <= b, b < this._n), And(0 <= this._hist[b], this._hist[b] <= 1048576)))'
BIN = lambda a: f'floor({a} / {STEP})'
SPECS += [
    S(AH + '#ctor(unsigned long)', requires=['And(1 <= a0, a0 <= 1048576)'], ensures=[HW, 'this._n == a0', 'forall(lambda b: Implies(And(0 <= b, b < this._n), And(this._hist[b] == 0, this._ang_sum[b] == 0)))']),
    S(AH + 'angle_step() const', requires=[HW], modifies=[], ensures=['And(finite(result), real(result) == ' + STEP + ', real(result) > 0)']),
    S(AH + 'estimate_ox_based_angle(const ScanPoint2D &, const ScanPoint2D &)', requires=[PT_OK('a0'), PT_OK('a1')], modifies=[],
      ensures=['finite(result)', f'And(0 <= real(result), real(result) < {PI_})', 'real(result) == direction(a0, a1)']),
    S(AH + 'hist_index(double) const', requires=[HW, f'And(finite(a0), 0 <= real(a0), real(a0) < {PI_})'], modifies=[],
      ensures=['result == ' + BIN('real(a0)'), 'And(0 <= result, result < this._n)']),
    S(AH + 'operator[](unsigned long) const', requires=[HW, 'a0 < this._n', 'a0 >= 0'], modifies=[], ensures=['result == this._hist[a0]']),
]
PTS = 'a0._points'
DIRJ = lambda j: f'direction({PTS}[{j} - 1], {PTS}[{j}])'
CNT = lambda j, b: f'uf("CNT", "int", {j}, {b})'
ASUM = lambda j, b: f'uf("ASUM", "real", {j}, {b})'
# CNT(j, b), ASUM(j, b): number and sum of the directions of the first j - 1 consecutive pairs that fall into bin b
DEF = [f'forall(lambda b: And({CNT("1", "b")} == 0, {ASUM("1", "b")} == 0))',
       f'forall(lambda j, b: Implies(And(1 <= j, j < {PTS}.len, 0 <= b, b < this._n), And({CNT("j + 1", "b")} == {CNT("j", "b")} + If({BIN(DIRJ("j"))} == b, 1, 0), '
       f'{ASUM("j + 1", "b")} == {ASUM("j", "b")} + If({BIN(DIRJ("j"))} == b, {DIRJ("j")}, 0))))']
SCANOK = f'And({PTS}.len <= 1048576, forall(lambda j: Implies(And(0 <= j, j < {PTS}.len), ' + PT_OK(PTS + '[j]') + ')))'
HIST = lambda j: [f'forall(lambda b: Implies(And(0 <= b, b < this._n), And(this._hist[b] == {CNT(j, "b")}, this._ang_sum[b] == {ASUM(j, "b")}, 0 <= this._hist[b], this._hist[b] <= {j})))']
DRIFT = lambda j: [f'this._drift_dirs.len == {PTS}.len', f'forall(lambda j: Implies(And(1 <= j, j < {j}), this._drift_dirs[j] == {DIRJ("j")}))']
RJ_ = 'result'
SEEN = lambda n: f'forall(lambda j: Implies(And(1 <= j, j < {n}), And(0 <= this._drift_dirs[j], this._drift_dirs[j] < {PI_}, this._hist[{BIN("this._drift_dirs[j]")}] >= 1)))'
NP = f'imax(1, {PTS}.len)'
SPECS += [
    S(AH + 'reset(const LaserScan2D &)', requires=[HW, SCANOK] + DEF, modifies=['this._hist', 'this._ang_sum', 'this._drift_dirs'],
      ensures=[HW, SEEN(f'{PTS}.len')] + HIST(NP) + DRIFT(f'{PTS}.len') + ['same(result._n, this._n)', 'And(result._hist.len == this._hist.len, result._ang_sum.len == this._ang_sum.len, result._drift_dirs.len == this._drift_dirs.len)',
          'forall(lambda b: Implies(And(0 <= b, b < this._n), And(result._hist[b] == this._hist[b], result._ang_sum[b] == this._ang_sum[b])))',
          'forall(lambda j: Implies(And(1 <= j, j < this._drift_dirs.len), result._drift_dirs[j] == this._drift_dirs[j]))'],
      loops={0: dict(inv=[HW, SEEN('_i'), f'And(1 <= _i, _i <= {NP})'] + HIST('_i') + DRIFT('_i'), dec=f'{PTS}.len - _i')}),
    S(AH + 'value(const std::vector<ScanPoint2D> &, unsigned long) const', requires=[HW, 'And(0 <= a1, a1 < this._drift_dirs.len, this._drift_dirs.len <= 1048576, a0.len <= 1048576)',
      f'Implies(a1 > 0, And(0 <= this._drift_dirs[a1], this._drift_dirs[a1] < {PI_}))'], modifies=[],
      ensures=['Implies(a1 == 0, result == a0.len)', f'Implies(a1 > 0, result == this._hist[{BIN("this._drift_dirs[a1]")}])']),
    S(AH + 'max_i() const', requires=[HW], modifies=[], ensures=['And(0 <= result, result < this._n)', 'forall(lambda b: Implies(And(0 <= b, b < this._n), this._hist[b] <= this._hist[result]))']),
    S(AH + 'min_i() const', requires=[HW], modifies=[], ensures=['And(0 <= result, result < this._n)', 'forall(lambda b: Implies(And(0 <= b, b < this._n), this._hist[b] >= this._hist[result]))']),
    S(AH + 'mean_bin_angle(unsigned long) const', requires=[HW, 'And(0 <= a0, a0 < this._n, this._hist[a0] > 0)'], modifies=[],
      ensures=['And(finite(result), real(result) * z3.ToReal(this._hist[a0]) == this._ang_sum[a0])']),
    S(AH + 'major_direction() const', requires=[HW, 'exists(lambda b: And(0 <= b, b < this._n, this._hist[b] > 0))'], modifies=[],
      ensures=['exists(lambda b: And(0 <= b, b < this._n, forall(lambda c: Implies(And(0 <= c, c < this._n), this._hist[c] <= this._hist[b])), finite(result), real(result) * z3.ToReal(this._hist[b]) == this._ang_sum[b]))']),
]
# weights and qualities by direction: points in a crowded direction count less
hist = lambda t: t.replace('this._', 'this._hist._')
VAL_ = f'If(a1 == 0, a0.len, this._hist[{BIN("this._drift_dirs[a1]")}])'
for c, f in (('AngleHistogramReciprocalSPW', 'weight'), ('AngleHistogramResiprocalOMQE', 'quality')):
    SPECS += [S(c + '::reset(const LaserScan2D &)', requires=[hist(HW), SCANOK] + [hist(x) for x in DEF], modifies=['this._hist.*'], ensures=[hist(x) for x in [HW, SEEN(f'{PTS}.len')] + HIST(NP) + DRIFT(f'{PTS}.len')]),
              S(c + f'::{f}(const std::vector<ScanPoint2D> &, unsigned long) const', requires=[hist(HW), hist(SEEN('this._drift_dirs.len')), 'And(0 <= a1, a1 < a0.len, a0.len == this._hist._drift_dirs.len, a0.len <= 1048576)'], modifies=[],
                ensures=['And(finite(result), 0 < real(result), real(result) <= 1)', hist(f'real(result)*real({VAL_}) == 1')])]
ASSUMPTIONS = [
    'sin and cos are uninterpreted with the addition theorems, the unit circle and their values at 0',
    'angles and ranges are finite; a histogram is reset with at least one point',
]
