"""Axis-aligned rectangles: intersection, overlap, containment, splitting."""
from lib import *
W = 'LightWeightRectangle::'
FI = lambda r: f'And(finite({r}._bot), finite({r}._top), finite({r}._left), finite({r}._right))'
WF = lambda r: f'And(real({r}._bot) <= real({r}._top), real({r}._left) <= real({r}._right))'
OK = [FI('this'), WF('this')]
THAT = [FI('that'), WF('that')]
b, t, l, r = ('real(this._%s)' % f for f in ('bot', 'top', 'left', 'right'))
B, T, L, R_ = ('real(that._%s)' % f for f in ('bot', 'top', 'left', 'right'))
rb, rt, rl, rr = ('real(result._%s)' % f for f in ('bot', 'top', 'left', 'right'))
mx = lambda a, c: f'If({a} >= {c}, {a}, {c})'
mn = lambda a, c: f'If({a} <= {c}, {a}, {c})'
LETS = {'ib': mx(b, B), 'it': mn(t, T), 'il': mx(l, L), 'ir': mn(r, R_)}
IS = [FI('result'), 'If(And(ib <= it, il <= ir), And(%s == ib, %s == it, %s == il, %s == ir), And(%s == 0, %s == 0, %s == 0, %s == 0))' % (rb, rt, rl, rr, rb, rt, rl, rr)]
SAME = ['same(result, old.this)']
E_ = lambda a, c: f'absr({a} - {c}) <= R("1/10000000")*imaxr(1, imaxr(absr({a}), absr({c})))'
ctor4 = S(W + '#ctor(double, double, double, double)', requires=['And(finite(b), finite(t), finite(l), finite(r), real(b) <= real(t), real(l) <= real(r))'],
          ensures=['And(same(this._bot, b), same(this._top, t), same(this._left, l), same(this._right, r))'])
AREA = f'({t}-{b})*({r}-{l})'
area = S(W + 'area() const', requires=OK, ensures=['finite(result)', f'real(result) == {AREA}'])
inter = S(W + 'intersect(const LightWeightRectangle &) const', requires=OK + THAT, lets=LETS, ensures=IS)
IA = 'If(And(ib <= it, il <= ir), (it-ib)*(ir-il), R("0"))'
ND = f'And({b} < {t}, {l} < {r})'
PNT = f'And({b} == {t}, {l} == {r}, {B} < {T}, {L} < {R_})'
ovl = S(W + 'overlap(const LightWeightRectangle &) const', requires=OK + THAT + [f'Or({ND}, {PNT})'], lets=LETS,
        entry_hints=[f'Implies({ND}, {AREA} > 0)', f'Implies({PNT}, ({T}-{B})*({R_}-{L}) > 0)'], post_hints=[f'{IA} <= {AREA}', f'{IA} >= 0'],
        ensures=['finite(result)', f'Implies({ND}, real(result)*{AREA} == {IA})', 'And(0 <= real(result), real(result) <= 1)'])
M_ = lambda p, q: f'(absr({p}) + absr({q}) + 1)'
LE = lambda p, q: f'{p} <= {q} + R("1/1000000")*{M_(p, q)}'
cont = S(W + 'contains(double, double) const', requires=OK + ['And(finite(x), finite(y))'],
         ensures=[f'Implies(And({l} <= real(x), real(x) <= {r}, {b} <= real(y), real(y) <= {t}), result)',
                  f'Implies(result, And({LE(l, "real(x)")}, {LE("real(x)", r)}, {LE(b, "real(y)")}, {LE("real(y)", t)}))'])
SPECS = [ctor4, area, inter, ovl, cont]
half = lambda a, c: f'(({a} + {c})/2)'
cx, cy = half(l, r), half(b, t)
center = S(W + 'center() const', requires=OK, ensures=['And(finite(result.x), finite(result.y))', f'And(real(result.x) == {cx}, real(result.y) == {cy})'])
mv = S(W + 'move_center(const Point2D &) const', requires=OK + ['And(finite(new_center.x), finite(new_center.y))'],
       ensures=[FI('result'), f'And({half(rl, rr)} == real(new_center.x), {half(rb, rt)} == real(new_center.y), {rr} - {rl} == {r} - {l}, {rt} - {rb} == {t} - {b})'])
sh = S(W + 'shrink(double) const', requires=OK + ['And(finite(factor), real(factor) > 0)'], 
       ensures=[FI('result'), f'And({half(rl, rr)} == {cx}, {half(rb, rt)} == {cy}, ({rr} - {rl})*real(factor) == {r} - {l}, ({rt} - {rb})*real(factor) == {t} - {b})'])


def part(k, bb, tt, ll, r2):
    return f'And({FI(f"result[{k}]")}, real(result[{k}]._bot) == {bb}, real(result[{k}]._top) == {tt}, real(result[{k}]._left) == {ll}, real(result[{k}]._right) == {r2})'


sv = S(W + 'split_vert() const', requires=OK, ensures=['result.len == 2', part(0, b, cy, l, r), part(1, cy, t, l, r)])
sz = S(W + 'split_horz() const', requires=OK, ensures=['result.len == 2', part(0, b, t, l, cx), part(1, b, t, cx, r)])
s4 = S(W + 'split4_evenly() const', requires=OK, ensures=['result.len == 4', part(0, b, cy, l, cx), part(1, cy, t, l, cx), part(2, b, cy, cx, r), part(3, cy, t, cx, r)])
co = S(W + 'corners() const', requires=OK, ensures=['result.len == 4'] +
       [f'And(finite(result[{k}].x), finite(result[{k}].y), real(result[{k}].x) == {x}, real(result[{k}].y) == {y})' for k, (x, y) in enumerate([(l, b), (l, t), (r, b), (r, t)])])
SPECS += [center, mv, sh, sv, sz, s4, co]
CFG = {}
# rays and edges
RF = 'And(finite(this.beg.x), finite(this.beg.y), finite(this.delta.x), finite(this.delta.y))'
bx, by, dx, dy = ('real(this.%s)' % f for f in ('beg.x', 'beg.y', 'delta.x', 'delta.y'))
n0 = 'old.consumer.len'
KEEP = ['forall(lambda j: Implies(And(0 <= j, j < old.consumer.len), same(consumer[j], old.consumer[j])))']


def hit(p, q, lo, hi, c, name):
    """Axis-parallel edge at coordinate c of axis q, spanning lo..hi on axis p."""
    dp, dq, bp, bq = (dx, dy, bx, by) if p == 'x' else (dy, dx, by, bx)
    last = f'consumer[{n0}]'
    return KEEP + [f'Or(consumer.len == {n0}, consumer.len == {n0} + 1)',
                   f'Implies(consumer.len > {n0}, And(finite({last}.x), finite({last}.y), {last}.location == loc, real({last}.{q}) == real({c}), real({lo}) <= real({last}.{p}), real({last}.{p}) <= real({hi}), '
                   f'(real({last}.{p}) - {bp})*{dq} == (real({c}) - {bq})*{dp}))',
                   f'Implies(consumer.len > {n0}, And(absr({dq}) > R("1/10000000"), real({last}.{p}) == {bp} + (real({c}) - {bq})/{dq}*{dp}))',
                   f'Implies(absr({dq}) > R("1/10000000"), (consumer.len > {n0}) == And(real({lo}) <= {bp} + (real({c}) - {bq})/{dq}*{dp}, {bp} + (real({c}) - {bq})/{dq}*{dp} <= real({hi})))']


horz = S('Ray::intersect_horiz_segm(double, double, double, Intersection::Location, std::vector<Intersection> &) const', requires=[RF, 'And(finite(st_x), finite(end_x), finite(y))'],
         modifies=['consumer'], ensures=hit('x', 'y', 'st_x', 'end_x', 'y', 'x'))
vert = S('Ray::intersect_vert_segm(double, double, double, Intersection::Location, std::vector<Intersection> &) const', requires=[RF, 'And(finite(st_y), finite(end_y), finite(x))'],
         modifies=['consumer'], ensures=hit('y', 'x', 'st_y', 'end_y', 'x', 'y'))
SPECS += [horz, vert]
# rectangles with edges
seg = lambda k, x1, y1, x2, y2, hz: (f'And(finite(this._edges[{k}]._beg.x), finite(this._edges[{k}]._beg.y), finite(this._edges[{k}]._end.x), finite(this._edges[{k}]._end.y), real(this._edges[{k}]._beg.x) == {x1}, real(this._edges[{k}]._beg.y) == {y1}, '
     f'real(this._edges[{k}]._end.x) == {x2}, real(this._edges[{k}]._end.y) == {y2}, this._edges[{k}]._is_{hz}, this._edges[{k}].is_valid)')
EDGES = ['this._edges.len == 4', seg(0, l, b, r, b, 'horiz'), seg(1, l, t, r, t, 'horiz'), seg(2, l, b, l, t, 'vert'), seg(3, r, b, r, t, 'vert')]
# sides longer than the comparison tolerance, so that an edge is never taken for a point
SIDE = [f'{t} - {b} > R("1/1000000")*(1 + absr({t}) + absr({b}))', f'{r} - {l} > R("1/1000000")*(1 + absr({l}) + absr({r}))']
EDGES += [f'Not(this._edges[{k}]._is_{"vert" if k < 2 else "horiz"})' for k in range(4)]
rctor = S('Rectangle::#ctor(double, double, double, double)', requires=['And(finite(b), finite(t), finite(l), finite(r), real(b) <= real(t), real(l) <= real(r))'] +
          ['real(t) - real(b) > R("1/1000000")*(1 + absr(real(t)) + absr(real(b)))', 'real(r) - real(l) > R("1/1000000")*(1 + absr(real(l)) + absr(real(r)))'],
          ensures=['And(same(this._bot, b), same(this._top, t), same(this._left, l), same(this._right, r))'] + EDGES)
RB, RDX, RDY = 'ray.beg', 'real(ray.delta.x)', 'real(ray.delta.y)'
ONB = lambda p: f'And(finite({p}.x), finite({p}.y), {l} <= real({p}.x), real({p}.x) <= {r}, {b} <= real({p}.y), real({p}.y) <= {t}, Or(real({p}.x) == {l}, real({p}.x) == {r}, real({p}.y) == {b}, real({p}.y) == {t}))'
ONR = lambda p: f'(real({p}.x) - real(ray.beg.x))*{RDY} == (real({p}.y) - real(ray.beg.y))*{RDX}'
# the named edge of a rectangle is the one the point is on
LOCOF = lambda r, p: ('And(0 <= {1}.location, {1}.location <= 3, If({1}.location == 0, real({1}.y) == real({0}._bot), If({1}.location == 1, real({1}.x) == real({0}._left), '
                      'If({1}.location == 2, real({1}.y) == real({0}._top), real({1}.x) == real({0}._right)))))').format(r, p)
fray = S('Rectangle::find_intersections(const Ray &) const', requires=OK + SIDE + EDGES + ['And(finite(ray.beg.x), finite(ray.beg.y), finite(ray.delta.x), finite(ray.delta.y))'],
         ensures=['result.len <= 2', f'forall(lambda j: Implies(And(0 <= j, j < result.len), And({ONB("result[j]")}, {ONR("result[j]")})))'] +
                 [f'Implies(result.len > {k}, {LOCOF("this", f"result[{k}]")})' for k in (0, 1)] + ['Implies(result.len == 2, result[0].location != result[1].location)'])
SPECS += [rctor, fray]

# ---- tolerant comparisons (1e-7 of the larger magnitude, at least of 1) and what they make of points and segments
EPS = 'R("1/10000000")'
MAGN = lambda x, y: f'If(And(absr({x}) >= absr({y}), absr({x}) >= 1), absr({x}), If(absr({y}) >= 1, absr({y}), R("1")))'
EQ = lambda x, y: f'(absr({x} - {y}) <= {EPS}*{MAGN(x, y)})'
LQ = lambda x, y: f'Or({x} <= {y}, {EQ(x, y)})'
ORD = lambda x, y, z: f'And({LQ(x, y)}, {LQ(y, z)})'
PX, PY = (lambda p: f'real({p}.x)'), (lambda p: f'real({p}.y)')
BT = lambda s, p, c: f'Or({ORD(f"real({s}._beg.{c})", f"real({p}.{c})", f"real({s}._end.{c})")}, {ORD(f"real({s}._end.{c})", f"real({p}.{c})", f"real({s}._beg.{c})")})'
WITHIN = lambda s, p: f'And({BT(s, p, "x")}, {BT(s, p, "y")})'
FS = lambda s: f'And(finite({s}._beg.x), finite({s}._beg.y), finite({s}._end.x), finite({s}._end.y))'
FP = lambda p: f'And(finite({p}.x), finite({p}.y))'
SEGOK = lambda s: f'And({s}._is_horiz == {EQ(f"real({s}._beg.y)", f"real({s}._end.y)")}, {s}._is_vert == {EQ(f"real({s}._beg.x)", f"real({s}._end.x)")})'
sctor = S('Segment2D::#ctor(const Point2D &, const Point2D &)', requires=[FP('begin'), FP('end')],
          ensures=['And(same(this._beg.x, begin.x), same(this._beg.y, begin.y), same(this._end.x, end.x), same(this._end.y, end.y))', SEGOK('this'), 'this.is_valid'])
within = S('Segment2D::contains_intersection(const Point2D &) const', requires=[FS('this'), FP('p')], ensures=[f'result == {WITHIN("this", "p")}'])
INR = f'And({ORD(l, PX("p"), r)}, {ORD(b, PY("p"), t)})'
BAND = lambda p: f'And({ORD(l, PX(p), r)}, {ORD(b, PY(p), t)}, Or({EQ(PX(p), l)}, {EQ(PX(p), r)}, {EQ(PY(p), b)}, {EQ(PY(p), t)}))'
CON = lambda k, p: (f'And({EQ(PY(p), b if k == 0 else t)}, {ORD(l, PX(p), r)})' if k < 2 else f'And({EQ(PX(p), l if k == 2 else r)}, {ORD(b, PY(p), t)})')
fedge = S('Rectangle::find_containing_edge(const Point2D &) const', requires=OK + SIDE + EDGES + [FP('p')], ensures=[f'result.is_valid == {BAND("p")}'],
          loops={0: dict(inv=['And(0 <= _i, _i <= 4)'] + [f'Implies(_i > {k}, Not({CON(k, "p")}))' for k in range(4)], dec='4 - _i')})
VERT, HORZ = 's._is_vert', 's._is_horiz'
line = S('Rectangle::has_on_edge_line(const Segment2D &) const', requires=OK + [FS('s')],
         ensures=[f'result == If({VERT}, Or({EQ("real(s._beg.x)", l)}, {EQ("real(s._beg.x)", r)}), And({HORZ}, Or({EQ("real(s._beg.y)", b)}, {EQ("real(s._beg.y)", t)})))'])
BOXP = lambda p: f'And({ONB(p)}, {LOCOF("this", p)})'
fseg = S('Rectangle::find_intersections(const Segment2D &) const', requires=OK + SIDE + EDGES + [FS('s')], modifies=[],
         ensures=['result.len <= 2', 'Implies(result.len == 2, result[0].location != result[1].location)'] + [f'Implies(result.len > {k}, And({BOXP(f"result[{k}]")}, {WITHIN("s", f"result[{k}]")}))' for k in (0, 1)])
cont.ensures.append(f'result == And({ORD(l, "real(x)", r)}, {ORD(b, "real(y)", t)})')
SPECS += [sctor, within, fedge, line, fseg]
ASSUMPTIONS = [
    'finite coordinates; equality of coordinates is the tolerance of are_equal',
]
