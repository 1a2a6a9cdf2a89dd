"""Levels of a multi-resolution map bound the finest one; the search over them drops nothing but what it may."""
from lib import *
import C10
GM = ('rec', 'GridMap', (('RegularSquaresGrid::_width', ('int', 32, True)), ('RegularSquaresGrid::_height', ('int', 32, True)), ('RegularSquaresGrid::_m_per_cell', ('dblx',)),
                         ('GridMap::content', ('opaque', 'CellStore')), ('GridMap::ox', ('int', 32, True)), ('GridMap::oy', ('int', 32, True))))
K_ = 'GridMap::content'
EPS = 'R("1/1000000000")'


def cell_uf(eng, store, x, y):
    return eng.uf('cell_in', [store, x, y], sort_of(eng))


def sort_of(eng):
    from vc.values import opaque_sort
    return opaque_sort('GridCell')


def xy(eng, c):
    v = eng.rv(c)
    return v.ch['DiscretePoint2D::x'], v.ch['DiscretePoint2D::y']


def at(eng, this, args):
    m = eng.load(this)
    x, y = xy(eng, args[0])
    return eng.as_loc(cell_uf(eng, m.ch[K_], x, y), 'cell')


def changed(eng, this, c, cell):
    """One cell of the map gets a new value; the map may grow, never shrinks."""
    m = eng.load(this)
    x, y = xy(eng, c)
    old = m.ch[K_]
    n = eng.fresh(GM, 'grown')
    new = n.ch[K_]
    p, q = z3.Ints('p? q?')
    t = cell_uf(eng, new, p, q)
    eng.assume(z3.ForAll([p, q], t == z3.If(z3.And(p == x, q == y), cell, cell_uf(eng, old, p, q)), patterns=[t]))
    W, H = 'RegularSquaresGrid::_width', 'RegularSquaresGrid::_height'
    for d, o, v in ((W, 'GridMap::ox', x), (H, 'GridMap::oy', y)):
        a, b = m.ch[o], n.ch[o]
        eng.assume(z3.And(b >= a, n.ch[d] - b >= m.ch[d] - a, v >= -b, v < n.ch[d] - b, n.ch[d] <= 1 << 27, b >= 0, b <= n.ch[d]))
    n.ch['RegularSquaresGrid::_m_per_cell'] = m.ch['RegularSquaresGrid::_m_per_cell']
    eng.store(this, n)


def unknown(eng, cell):
    return eng.uf('cell_unknown', [cell], z3.BoolSort())


def is_unknown(eng, this, args):
    return unknown(eng, eng.load(this))


def reset(eng, this, args):
    changed(eng, this, args[0], eng.rv(args[1]))


def update(eng, this, args):
    m = eng.load(this)
    x, y = xy(eng, args[0])
    cell = cell_uf(eng, m.ch[K_], x, y)
    new = eng.uf('updated', [cell] + eng.flat(args[1]), cell.sort())
    eng.assume(z3.Not(unknown(eng, new)))  # every cell model's += ends in on_update
    changed(eng, this, args[0], new)


def origin(eng, this, args):
    m = eng.load(this)
    return Node('rec', 'DiscretePoint2D', {'DiscretePoint2D::x': m.ch['GridMap::ox'], 'DiscretePoint2D::y': m.ch['GridMap::oy']})


def imp(ns, oie, m, x, y):
    """Impact of an obstacle seen in the cell (x, y) of a level."""
    return ns.uf('impact', 'real', oie, cl(ns, m, x, y))


def cl(ns, m, x, y):
    """The cell (x, y) of a level."""
    v = m._v
    v = v.ch['val'] if v.kind == 'uptr' else v
    return cell_uf(ns.eng, v.ch[K_], ns.unv(x), ns.unv(y))


def unk(ns, m, x, y):
    return unknown(ns.eng, cl(ns, m, x, y))


def cunk(ns, cell):
    return unknown(ns.eng, ns.unv(cell))


def isc(ns, c, cell):
    return c == ns.unv(cell)


def cimp(ns, oie, cell):
    return ns.uf('impact', 'real', oie, cell)


def le_(ns, a, b):
    """a <= b for doubles that are finite or +infinity."""
    from vc.spec import dk as k, real as r
    return z3.Or(k(b) == 2, z3.And(k(a) == 0, k(b) == 0, r(a) <= r(b)))


def inbox(ns, l, r, m, x):
    return ns.uf('inbox', 'bool', l, r, m, x)


def box(l, r, m, x):
    e = z3.Q(1, 10**9)
    f = lambda t: z3.ToReal(z3.ToInt(t/m))
    return z3.And(f(l + e) <= x, x <= f(r - e))


def inbox_def(ns):
    """Which cells of size m a span (l, r) touches, its ends excluded."""
    l, r, m = z3.Reals('l? r? m?')
    x = z3.Int('x?')
    t = ns.eng.uf('inbox', [l, r, m, x], z3.BoolSort())
    return z3.ForAll([l, r, m, x], t == box(l, r, m, z3.ToReal(x)), patterns=[t])


AT = 'GridMap::operator[](const DiscretePoint2D &) const'
RS = 'GridMap::reset(const DiscretePoint2D &, const GridCell &)'
UP = 'GridMap::update(const DiscretePoint2D &, const AreaOccupancyObservation &)'
CFG = {'dyn': {'GridMap': GM, 'GridCell': 'opaque', 'ObservationImpactEstimator': 'opaque'},
       'abstract': {AT: at, RS: reset, 'GridCell::is_unknown() const': is_unknown, UP: update, 'RegularSquaresGrid::origin() const': origin},
       'spec_funcs': {'imp': imp, 'inbox': inbox, 'cimp': cimp, 'le': le_, 'cl': cl, 'unk': unk, 'cunk': cunk, 'isc': isc}}
OIE = S('ObservationImpactEstimator::estimate_obstacle_impact(const GridCell &) const', trusted=True, modifies=[], ensures=['And(finite(result), real(result) == cimp(this, a0), 0 <= real(result), real(result) <= 1)'])
FINM = 'finite(grid._m_per_cell)'
GRIDI = [f'Or({FINM}, kind(grid._m_per_cell) == 2)'] + [f'Implies({FINM}, {c})' for c in C10.GRID[1:3]] + C10.GRID[3:]
RECTI = [c if 'absr' not in c else f'Implies({FINM}, {c})' for c in C10.RECT]
EMI = f'And({C10.FIN}, Or(real(r._bot) == real(r._top), real(r._left) == real(r._right)))'
RCT = S(C10.ctor.key, requires=GRIDI + RECTI, entry_hints=C10.ctor.entry_hints,
        ensures=[C10.ctor.ensures[0]] + [f'Implies({FINM}, {c})' for c in C10.ctor.ensures[1:7]] + C10.ctor.ensures[7:] +
        [f'Implies(And(Not({FINM}), {C10.FIN}), And(this._lb.x == 0, this._lb.y == 0, this._rt.x == 0, this._rt.y == 0))'])
SPECS = [OIE, RCT] + C10.SPECS[1:]
M3 = 'M3RSMRescalableGridMap<UnboundedPlainGridMap>::'
cm, sp = 'coarser_map', 'modified_space'
sub = lambda t: t.replace('grid.', cm + '.').replace('r._', sp + '._')
ne = sub(C10.NE)
mm = f'real({cm}._m_per_cell)'
FM = f'finite({cm}._m_per_cell)'
BOX = {'lbx': f'floor((real({sp}._left) + {EPS})/{mm})', 'lby': f'floor((real({sp}._bot) + {EPS})/{mm})',
       'rtx': f'floor((real({sp}._right) - {EPS})/{mm})', 'rty': f'floor((real({sp}._top) - {EPS})/{mm})'}
BOX = {k: f'If({FM}, {v}, 0)' for k, v in BOX.items()}
IT = 'cm_coords'
ITER = [f'And({IT}._lb.x == lbx, {IT}._lb.y == lby, {IT}._rt.x == rtx, {IT}._rt.y == rty)',
        f'Or(lbx > rtx, lby > rty, And({IT}._lb.x <= {IT}._x, {IT}._x <= {IT}._rt.x + 1, {IT}._lb.y <= {IT}._y, {IT}._y <= {IT}._rt.y, Implies({IT}._x == {IT}._rt.x + 1, {IT}._y == {IT}._lb.y)))',
        f'Implies(Or(lbx > rtx, lby > rty), And({IT}._x == lbx, {IT}._y == lby))']
INX = lambda v, lo, hi: f'If({FM}, inbox(real({sp}.{lo}), real({sp}.{hi}), {mm}, {v}), {v} == 0)'
INB = 'And(' + INX('x', '_left', '_right') + ', ' + INX('y', '_bot', '_top') + ')'
DEF_INB = 'And(lbx <= x, x <= rtx, lby <= y, y <= rty)'
DONE = f'And({DEF_INB}, Or(x < {IT}._x, And(x == {IT}._x, y < {IT}._y)))'
I1, I0 = f'imp(this._oie, {cm}, x, y)', f'imp(this._oie, old.{cm}, x, y)'
TOL = 'R("1/10000000")'
KN = lambda m, x, y: f'Not(unk({m}, {x}, {y}))'
C1, C0 = f'cl({cm}, x, y)', f'cl(old.{cm}, x, y)'
UPD = lambda inb, done: [f'forall(lambda x, y: Implies({done}, And({KN(cm, "x", "y")}, {I1} + {TOL} >= real(impact))))',
                         f'forall(lambda x, y: Or({C1} == {C0}, And({inb}, isc({C1}, modified_area), Or(unk(old.{cm}, x, y), {I0} <= real(impact)))))']
GREW = lambda m, o: f'And({m}.ox >= {o}.ox, {m}.oy >= {o}.oy, {m}._width - {m}.ox >= {o}._width - {o}.ox, {m}._height - {m}.oy >= {o}._height - {o}.oy)'
OUTSIDE = lambda m, x, y: f'Or({x} < -{m}.ox, {x} >= {m}._width - {m}.ox, {y} < -{m}.oy, {y} >= {m}._height - {m}.oy)'
SAME = [f'same({cm}._m_per_cell, old.{cm}._m_per_cell)', GREW(cm, 'old.' + cm), f'And(1 <= {cm}._width, {cm}._width <= {1 << 27}, 1 <= {cm}._height, {cm}._height <= {1 << 27})',
        f'forall(lambda x, y: Implies({OUTSIDE(cm, "x", "y")}, {C1} == {C0}))']
ucm = S(M3 + 'update_coarser_map(GridMap &, const Rectangle &, const GridCell &, double) const',
        requires=[sub(c) for c in GRIDI + RECTI] + [ne, 'And(finite(impact), 0 <= real(impact), real(impact) <= 1, real(impact) == cimp(this._oie, modified_area))', 'Not(cunk(modified_area))'], lets=BOX, modifies=[cm], defs=[inbox_def],
        ensures=UPD(INB, INB) + SAME + [f'Implies(Not(result), forall(lambda x, y: {C1} == {C0}))'],
        loops={0: dict(inv=ITER + UPD(DEF_INB, DONE) + SAME + [f'Implies(Not(coarser_area_is_updated), forall(lambda x, y: {C1} == {C0}))'], dec=f'If(Or(lbx > rtx, lby > rty), 0, ({IT}._rt.x - {IT}._x + 1)*({IT}._rt.y - {IT}._lb.y + 1) + ({IT}._rt.y - {IT}._y))')})
SPECS += [ucm]

# ---- the levels of a map
V = 'this._map_cache'
LV = lambda k: f'{V}[{k}].val'
n = f'{V}.len'
MS = lambda k: f'real({LV(k)}._m_per_cell)'
P0 = 'cimp(this._oie, this._cell_prototype)'
LIM = 1 << 24
IL = lambda k, x, y, p='this': f'imp(this._oie, {p}._map_cache[{k}].val, {x}, {y})'
PARENT = lambda k, v: f'If({k} + 1 == {n} - 1, 0, ({v}) / 2)'
UK = lambda k, x, y: f'unk({V}[{k}].val, {x}, {y})'
BND = lambda k, x, y, px, py: f'Or({UK(k, x, y)}, And(Not({UK(f"{k} + 1", px, py)}), {IL(k, x, y)} <= {IL(f"{k} + 1", px, py)} + {TOL}))'
ADJ = lambda k, x, y: BND(k, x, y, PARENT(k, x), PARENT(k, y))
DIMS = lambda m: f'And(1 <= {m}._width, {m}._width <= {1 << 27}, 1 <= {m}._height, {m}._height <= {1 << 27})'
ORIG = lambda m: f'And(0 <= {m}.ox, {m}.ox <= {m}._width, 0 <= {m}.oy, {m}.oy <= {m}._height)'
WF = [f'And(2 <= {n}, {n} <= 2002)', f'forall(lambda k: Implies(And(0 <= k, k < {n}), And(Not({V}[k].null), {DIMS(LV("k"))}, {ORIG(LV("k"))})))',
      f'forall(lambda k: Implies(And(0 <= k, k < {n} - 1), And(finite({LV("k")}._m_per_cell), {MS("k")} >= {MS("0")})))', f'forall(lambda k: Implies(And(0 <= k, k < {n} - 1), {MS("k")} == lvl({MS("0")}, k)))', f'{MS("0")} >= R("1/1000000")',
      f'kind({LV(n + " - 1")}._m_per_cell) == 2',
      'cunk(this._cell_prototype)',
      f'forall(lambda k, x, y: Implies(And(0 <= k, k < {n} - 1, {OUTSIDE(LV("k"), "x", "y")}), {UK("k", "x", "y")}))']
BOUNDED = f'forall(lambda k, x, y: Implies(And(0 <= k, k < {n} - 1), {ADJ("k", "x", "y")}))'


def p2(ns, k):
    return ns.eng.uf('p2', [ns.unv(k)], z3.IntSort())


def lvl(ns, s, k):
    """Cell size of level k over finest cells of size s: s*p2(k)."""
    return ns.eng.uf('lvl', [ns.unv(s), ns.unv(k)], z3.RealSort())


def par(ns, x, k):
    return ns.eng.uf('par', [ns.unv(x), ns.unv(k)], z3.IntSort())


def p2_def(ns):
    k, x = z3.Ints('k? x?')
    s = z3.Real('s?')
    P, Q, L = p2(ns, k), par(ns, x, k), lvl(ns, s, k)
    return z3.And(p2(ns, z3.IntVal(0)) == 1, z3.ForAll([s, k], z3.Implies(z3.And(s >= z3.Q(1, 10**6), k >= 2000), L >= 2**1100), patterns=[L]),
                  z3.ForAll([s, k], z3.Implies(z3.And(s > 0, k >= 0), z3.And(lvl(ns, s, z3.IntVal(0)) == s, L >= s, lvl(ns, s, k + 1) == 2*L)), patterns=[L]), z3.ForAll([k], z3.Implies(k >= 0, z3.And(P >= 1, p2(ns, k + 1) == 2*P)), patterns=[P]),
                  z3.ForAll([x, k], z3.Implies(k >= 0, z3.And(par(ns, x, z3.IntVal(0)) == x, par(ns, x, k + 1) == Q/2, P*Q <= x, x < P*Q + P)), patterns=[Q]))




CFG['spec_funcs'].update(p2=p2, par=par, lvl=lvl)
R_ = 'RescalableCachingGridMap<UnboundedPlainGridMap>::'


def active(eng, this, args):
    """_active_map is the level number _scale_id (set_scale_id is proved to keep it so)."""
    return eng.call(R_ + 'map(unsigned int) const', this, [eng.load(this).ch[R_ + '_scale_id']])


CFG['abstract'][R_ + 'active_map() const'] = active
R_ = 'RescalableCachingGridMap<UnboundedPlainGridMap>::'


def new_map(eng, this, args):
    """A map made for a new level: every cell of it is a copy of the prototype."""
    proto, ps = eng.deref(eng.rv(args[0])), eng.load(args[1])
    proto = eng.load(proto)
    m = eng.fresh(GM, 'new_map')
    W, H = 'RegularSquaresGrid::_width', 'RegularSquaresGrid::_height'
    m.ch[W], m.ch[H], m.ch['RegularSquaresGrid::_m_per_cell'] = ps.ch['GridMapParams::width_cells'], ps.ch['GridMapParams::height_cells'], ps.ch['GridMapParams::meters_per_cell']
    p, q = z3.Ints('p? q?')
    t = cell_uf(eng, m.ch[K_], p, q)
    eng.assume(z3.ForAll([p, q], t == proto, patterns=[t]))
    for d, o in ((W, 'GridMap::ox'), (H, 'GridMap::oy')):
        eng.assume(z3.And(0 <= m.ch[o], z3.Implies(m.ch[d] >= 0, m.ch[o] <= m.ch[d])))
    sc = ps.ch['GridMapParams::meters_per_cell']
    eng.assume((sc.ch['r'] if isinstance(sc, Node) else sc) <= 2**1024)
    return m


CFG['dyn']['UnboundedPlainGridMap'] = GM
CFG['abstract']['UnboundedPlainGridMap::#ctor(std::shared_ptr<GridCell>, const GridMapParams &)'] = new_map
FI, CO = 'finer_map', 'coarser_map'
SF = f'real({FI}._m_per_cell)'
TWICE = f'Or(kind({CO}._m_per_cell) == 2, And(finite({CO}._m_per_cell), real({CO}._m_per_cell) == 2*{SF}))'
PAR2 = lambda v: f'If(finite({CO}._m_per_cell), ({v}) / 2, 0)'
J = lambda m, x, y: f'imp(this._oie, {m}, {x}, {y})'
OVER = lambda x, y: f'Or(unk({FI}, {x}, {y}), And(Not(unk({CO}, {PAR2(x)}, {PAR2(y)})), {J(FI, x, y)} <= {J(CO, PAR2(x), PAR2(y))} + {TOL}))'
IN = lambda x, y: f'And(-{FI}.ox <= {x}, {x} < {FI}._width - {FI}.ox, -{FI}.oy <= {y}, {y} < {FI}._height - {FI}.oy)'
KEEP = [f'forall(lambda x, y: And(Or(unk(old.{CO}, x, y), And({KN(CO, "x", "y")}, {J(CO, "x", "y")} >= {J("old." + CO, "x", "y")})), Implies({OUTSIDE(CO, "x", "y")}, cl({CO}, x, y) == cl(old.{CO}, x, y))))',
        f'same({CO}._m_per_cell, old.{CO}._m_per_cell)', GREW(CO, 'old.' + CO), DIMS(CO)]
DX, DY = f'raw_crd.x - {FI}.ox', f'raw_crd.y - {FI}.oy'


def fine_boxes(ns):
    """box_of_cell for every finest cell and cells twice as large."""
    s = ns.term(f'real(a0._m_per_cell)')
    l, r, m = z3.Reals('l? r? m?')
    a, x = z3.Ints('a? x?')
    t = ns.eng.uf('inbox', [l, r, m, x], z3.BoolSort())
    return z3.ForAll([l, r, m, x, a], z3.Implies(z3.And(m == 2*s, l == s*z3.ToReal(a), r == s*z3.ToReal(a + 1)), t == (x == a/2)), patterns=[z3.MultiPattern(t, par(ns, a, z3.IntVal(0)))])


init = S(M3 + 'init_coarser_map(const GridMap &, GridMap &) const', inst='lv', requires=[f'finite({FI}._m_per_cell)', f'{SF} >= R("1/1000000")', DIMS(FI), ORIG(FI), DIMS(CO), ORIG(CO), TWICE],
         modifies=[CO], defs=[p2_def, fine_boxes], ensures=[f'forall(lambda x, y: Implies({IN("x", "y")}, {OVER("x", "y")}))'] + KEEP,
         loops={0: dict(inv=KEEP + [f'And(0 <= raw_crd.x, raw_crd.x <= {FI}._width)', f'forall(lambda x, y: Implies(And({IN("x", "y")}, x < {DX}), {OVER("x", "y")}))'], dec=f'{FI}._width - raw_crd.x'),
                1: dict(inv=KEEP + [f'And(0 <= raw_crd.x, raw_crd.x < {FI}._width, 0 <= raw_crd.y, raw_crd.y <= {FI}._height)',
                                    f'forall(lambda x, y: Implies(And({IN("x", "y")}, Or(x < {DX}, And(x == {DX}, y < {DY}))), {OVER("x", "y")}))'],
                        hints=[f'And(par({DX}, 0) == {DX}, par({DY}, 0) == {DY})'], dec=f'{FI}._height - raw_crd.y')})
gep = S('ge_pow<2U>(int)', requires=['a0 <= 1 << 29'], ensures=['And(result >= 1, result >= a0)', 'Implies(a0 >= 1, result <= 2*a0 - 1)'],
        loops={0: dict(inv=['And(ge_p >= 1, ge_p <= 1 << 30)', 'Implies(i >= 1, ge_p <= 2*i - 1)'], dec='i - ge_p')})
ENS = [f'{n} >= old.{n}', f'forall(lambda k: Implies(And(0 <= k, k < old.{n} - 1), same({V}[k], old.{V}[k])))']
LAST = lambda p='': f'{p}this._map_cache[{p}this._map_cache.len - 2].val'
SMALL = lambda p='': f'And({LAST(p)}._width <= 2, {LAST(p)}._height <= 2)'
ens = S(R_ + 'ensure_map_cache_is_continuous() const', cls=M3[:-2], inst='lv', requires=WF, modifies=['this._map_cache.*'], defs=[p2_def],
        ensures=WF + ENS + [SMALL(), f'Implies({SMALL("old.")}, {n} == old.{n})', f'Implies({n} == old.{n}, same({V}, old.{V}))',
                      f'Implies({n} > old.{n}, forall(lambda k, x, y: Implies(And(old.{n} - 2 <= k, k < {n} - 1), {ADJ("k", "x", "y")})))'],
        loops={0: dict(inv=WF + ENS + [f'Or({n} > old.{n}, pc_w > 2, pc_h > 2)', f'And(finite(pc_scale), real(pc_scale) == {MS(n + " - 2")})', 'And(1 <= pc_w, pc_w <= 1 << 28, 1 <= pc_h, pc_h <= 1 << 28)',
                                       f'Implies({n} == old.{n}, same({V}, old.{V}))',
                                       f'forall(lambda k, x, y: Implies(And(old.{n} - 2 <= k, k < {n} - 2), {BND("k", "x", "y", "x / 2", "y / 2")}))'],
                      dec='If(pc_w > 2, pc_w, 2) + If(pc_h > 2, pc_h, 2)')})
CFG['recursive'] = [ens.key]
SPECS += [gep, init]
AX, AY = 'area_id.x', 'area_id.y'
SUBJ = f'And(-{LIM} <= {AX}, {AX} <= {LIM}, -{LIM} <= {AY}, {AY} <= {LIM})'
c = 'coarser_scale_id'
CELL0 = f'cl({V}[0].val, {AX}, {AY})'
EXC = lambda c, a=None: f'forall(lambda k, x, y: Implies(And(0 <= k, k < {n} - 1), Or({ADJ("k", "x", "y")}, And(k == {c} - 1, x == par({AX}, k), y == par({AY}, k), isc(cl({V}[k].val, x, y), {a or CELL0})))))'


def box_of_cell(s, p, q, a, l, r, m, x):
    """A span that is the finest cell number a lies within one cell p times as large: the one numbered q."""
    R = z3.ToReal
    return z3.Implies(z3.And(s >= z3.Q(1, 10**6), p >= 1, p*q <= a, a + 1 <= p*q + p, l == s*R(a), r == s*(R(a) + 1), m == s*R(p)), box(l, r, m, R(x)) == (x == q))


def cell_boxes(ns):
    """box_of_cell for the cell the update is about, at every level."""
    s = ns.term(f'real(this._map_cache[0].val._m_per_cell)')
    m, k, x = z3.Real('m?'), z3.Int('k?'), z3.Int('x?')
    fs = []
    for c in ('x', 'y'):
        a = ns.term('a0.' + c)
        l, r = s*z3.ToReal(a), s*z3.ToReal(a + 1)
        t = ns.eng.uf('inbox', [l, r, m, x], z3.BoolSort())
        q = par(ns, a, k)
        fs.append(z3.ForAll([m, k, x], z3.Implies(z3.And(k >= 0, m == lvl(ns, s, k)), t == (x == q)), patterns=[z3.MultiPattern(t, q)]))
    return z3.And(fs)


SPACE, HINT = [], []
for a, lo, hi in ((AX, '_left', '_right'), (AY, '_bot', '_top')):
    lo, hi = f'real({sp}.{lo})', f'real({sp}.{hi})'
    S0, P, Q = 'real(old.' + MS('0')[5:], f'p2({c})', f'par({a}, {c})'
    HINT += [f'And(absr({lo}) <= {S0}*{LIM + 1}, absr({hi}) <= {S0}*{LIM + 1}, {lo} < {hi})', f'{P}*{Q} <= {a}']
ucms = S(M3 + 'update_coarser_maps(const DiscretePoint2D &, const double)', inst='lv', requires=WF + ['this._scale_id == 0', SUBJ, f'And(finite(impact), 0 <= real(impact), real(impact) <= 1, real(impact) == {IL("0", AX, AY)})', KN(LV('0'), AX, AY), EXC('1')],
         modifies=['this._map_cache.*'], ensures=WF + [BOUNDED], defs=[p2_def, cell_boxes],
         loops={0: dict(inv=WF + [f'And(1 <= {c}, {c} <= {n}, {MS("0")} == real(old.{MS("0")[5:]})', EXC(c, 'modified_area'), f'isc({CELL0}, modified_area)'] + SPACE, hints=HINT)})
EXC0 = f'forall(lambda k, x, y: Implies(And(0 <= k, k < {n} - 1), Or({ADJ("k", "x", "y")}, And(k == 0, x == {AX}, y == {AY}))))'
pau = S(M3 + 'post_area_update(const DiscretePoint2D &)', inst='lv', requires=WF + ['this._scale_id == 0', SUBJ, KN(LV('0'), AX, AY), EXC0], modifies=['this._map_cache.*'], defs=[p2_def], ensures=WF + [BOUNDED])
CHG = [f'forall(lambda x, y: Implies(Or(x != {AX}, y != {AY}), {IL("0", "x", "y")} == {IL("0", "x", "y", "old.this")}))']
SPECS += [ens, ucms, pau]
for f in ('update(const DiscretePoint2D &, const AreaOccupancyObservation &)', 'reset(const DiscretePoint2D &, const GridCell &)'):
    SPECS += [S(R_ + f, cls=M3[:-2], inst='lv', requires=WF + ['this._scale_id == 0', SUBJ, BOUNDED] + (['Not(cunk(area))'] if 'reset' in f else []), modifies=['this._map_cache.*', 'this._prev_fine_impact'], ensures=WF + [BOUNDED])]
SPECS += [S(R_ + 'rescale(double)', cls=M3[:-2], inst='lv', requires=WF + ['this._scale_id < ' + n, 'Or(finite(target_scale), kind(target_scale) == 2)'], modifies=['this._map_cache.*', 'this._scale_id', 'this._active_map'],
            ensures=WF + [f'And(0 <= this._scale_id, this._scale_id < {n})', f'le(target_scale, {LV("this._scale_id")}._m_per_cell)',
                          f'forall(lambda k: Implies(And(0 <= k, k < this._scale_id), Not(le(target_scale, {LV("k")}._m_per_cell))))'],
            loops={0: dict(inv=WF + [f'And(0 <= scale_id, scale_id < {n})', f'forall(lambda k: Implies(And(0 <= k, k < scale_id), Not(le(target_scale, {LV("k")}._m_per_cell))))'], dec=f'{n} - scale_id')})]


def lemma_box():
    s, l, r, m = z3.Reals('s l r m')
    p, q, a, x = z3.Ints('p q a x')
    return box_of_cell(s, p, q, a, l, r, m, x)


LEMMAS = [('a finest cell lies within one cell of each level', lemma_box)]
# while a map is made its levels are blank
BLANK = f'forall(lambda k, x, y: Implies(And(0 <= k, k < {n}), {UK("k", "x", "y")}))'
ens0 = S(ens.key, cls=R_[:-2], inst='made', requires=WF + [BLANK], modifies=['this._map_cache.*'], defs=[p2_def],
         ensures=WF + ENS + [BLANK, SMALL(), f'Implies({SMALL("old.")}, {n} == old.{n})'],
         loops={0: dict(inv=WF + ENS + [BLANK, f'Or({n} > old.{n}, pc_w > 2, pc_h > 2)', f'And(finite(pc_scale), real(pc_scale) == {MS(n + " - 2")})', 'And(1 <= pc_w, pc_w <= 1 << 28, 1 <= pc_h, pc_h <= 1 << 28)'],
                        dec='If(pc_w > 2, pc_w, 2) + If(pc_h > 2, pc_h, 2)')})
PAR = ['cunk(prototype)', 'And(1 <= params.width_cells, params.width_cells <= 1 << 27, 1 <= params.height_cells, params.height_cells <= 1 << 27)',
       'And(finite(params.meters_per_cell), real(params.meters_per_cell) >= R("1/1000000"))']
MADE = WF + [BLANK, 'this._scale_id == 0', f'{MS("0")} == real(params.meters_per_cell)']
made0 = S(R_ + '#ctor(std::shared_ptr<GridCell>, const GridMapParams &)', inst='made', defs=[p2_def], requires=PAR, ensures=MADE)
made = S(M3 + '#ctor(std::shared_ptr<ObservationImpactEstimator>, std::shared_ptr<GridCell>, const GridMapParams &)', inst='made', defs=[p2_def], requires=PAR, ensures=MADE + [BOUNDED])
SPECS += [ens0, made0, made]


def active_is_level(ns):
    """_active_map points at level number _scale_id."""
    t = ns.lookup('this')._v
    a, c = t.ch[R_ + '_active_map'], t.ch[R_ + '_map_cache']
    if a.kind != 'ptr' or a.meta is None or a.meta.root != c.meta.root or len(a.meta.path) != 2 or a.meta.path[0][0] != 'i' or a.meta.path[1] != ('f', 'val'):
        return z3.BoolVal(False)
    return a.meta.path[0][1] == t.ch[R_ + '_scale_id']


SPECS += [S(R_ + 'set_scale_id(unsigned int)', cls=M3[:-2], inst='lv', contract=False, requires=WF + [f'scale_id < {n}'], modifies=['this._map_cache.*', 'this._scale_id', 'this._active_map'],
            ensures=WF + ['this._scale_id == scale_id', f'this._scale_id < {n}', active_is_level])]

# ---- the search
import C11
OPQ = lambda n: ('opaque', n)
LW = ('rec', 'LightWeightRectangle', tuple((f'LightWeightRectangle::_{f}', ('dbl',)) for f in ('bot', 'top', 'left', 'right')))
MT = ('rec', 'Match', (('Match::prob_upper_bound', ('dblx',)), ('Match::rotation', ('dbl',)), ('Match::translation_drift', LW), ('Match::spe', OPQ('SpeRef')), ('Match::filtered_scan', OPQ('ScanRef')),
                       ('Match::scan_is_prerotated', ('bool',)), ('Match::pose', OPQ('PoseRef')), ('Match::map', OPQ('MapRef')), ('Match::_abs_rotation', ('dbl',)), ('Match::_drift_amount', ('dbl',))))
FLD = {'spe': 'SpeRef', 'filtered_scan': 'ScanRef', 'scan_is_prerotated': None, 'pose': 'PoseRef', 'map': 'MapRef'}
E_ = z3.Q(1, 10**5)


def mfield(m, f):
    return m.ch['Match::' + f]


def who(m):
    """What a match is about apart from the drift: estimator, scan, pose, map and rotation."""
    return [mfield(m, f) for f in FLD] + [mfield(m, 'rotation')]


def rect_of(m):
    d = mfield(m, 'translation_drift')
    return [real_of(d.ch['LightWeightRectangle::_' + f]) for f in ('left', 'right', 'bot', 'top')]


def real_of(x):
    return x.ch['r'] if isinstance(x, Node) else x


def raw(ns, m):
    return m._v if hasattr(m, '_v') else m


def score_t(eng, w, rc):
    """The estimate for a scan that may be drifted anywhere within the rectangle (a number in [0, 1])."""
    return eng.uf('score', [real_of(x) for x in w] + rc, z3.RealSort())


def score(ns, m):
    m = raw(ns, m)
    return score_t(ns.eng, who(m), rect_of(m))


def cand_(ns):
    from vc.values import opaque_sort
    w = [z3.Const('cand_' + f, opaque_sort(s) if s else z3.BoolSort()) for f, s in FLD.items()] + [z3.Real('cand_rot')]
    return w, z3.Real('cand_x'), z3.Real('cand_y')


def cand(ns):
    """The score of one exact candidate; which one is arbitrary, so what is proved of it holds for all."""
    w, x, y = cand_(ns)
    return score_t(ns.eng, w, [x, x, y, y])


def covers(ns, m):
    """The candidate is one of those match m stands for."""
    m = raw(ns, m)
    w, x, y = cand_(ns)
    l, r, b, t = rect_of(m)
    return z3.And(*[real_of(p) == q for p, q in zip(who(m), w)], l <= x, x <= r, b <= y, y <= t)


def inrect(ns, d):
    d = raw(ns, d)
    w, x, y = cand_(ns)
    l, r, b, t = [real_of(d.ch['LightWeightRectangle::_' + f]) for f in ('left', 'right', 'bot', 'top')]
    return z3.And(l <= x, x <= r, b <= y, y <= t)


def mono(ns):
    """Bounding assumption: a drift within a drift scores no more, up to what branch() tolerates."""
    w, x, y = cand_(ns)
    l, r, b, t, l2, r2, b2, t2 = z3.Reals('l? r? b? t? l2? r2? b2? t2?')
    from vc.values import opaque_sort
    v = [z3.Const('w%d?' % i, q.sort()) for i, q in enumerate(w)]
    A, B = score_t(ns.eng, v, [l, r, b, t]), score_t(ns.eng, v, [l2, r2, b2, t2])
    inside = z3.And(l2 <= l, l <= r, r <= r2, b2 <= b, b <= t, t <= t2)
    return z3.And(z3.ForAll(v + [l, r, b, t, l2, r2, b2, t2], z3.Implies(inside, A <= B + E_), patterns=[z3.MultiPattern(A, B)]),
                  z3.ForAll(v + [l, r, b, t], z3.And(0 <= A, A <= 1), patterns=[A]))


MWF = lambda m: f'And(finite({m}.prob_upper_bound), real({m}.prob_upper_bound) == score({m}), finite({m}.rotation), finite({m}.translation_drift._bot), finite({m}.translation_drift._top), finite({m}.translation_drift._left), finite({m}.translation_drift._right), real({m}.translation_drift._left) <= real({m}.translation_drift._right), real({m}.translation_drift._bot) <= real({m}.translation_drift._top), finite({m}._drift_amount), finite({m}._abs_rotation), real({m}._drift_amount) == real({m}.translation_drift._right) - real({m}.translation_drift._left) + real({m}.translation_drift._top) - real({m}.translation_drift._bot), real({m}._abs_rotation) == absr(real({m}.rotation)))'
Q, BEST, DIFF = 'this._matches', 'real(this._best_finest_probability)', 'real(this._max_finest_prob_diff)'
PTOL = 'R("1/4000000")'
FINEST = lambda m: f'real({m}._drift_amount) <= 0'
HASF = f'exists(lambda i: And(0 <= i, i < {Q}.len, {FINEST(Q + "[i]")}))'
COV = f'exists(lambda i: And(0 <= i, i < {Q}.len, covers({Q}[i])))'
PRUNED = f'cand() < {BEST} + R("1/100000")'
JUST = f'Or({BEST} <= 0, exists(lambda i: And(0 <= i, i < {Q}.len, {FINEST(Q + "[i]")}, real({Q}[i].prob_upper_bound) >= {BEST})))'
QWF = [f'forall(lambda i: Implies(And(0 <= i, i < {Q}.len), {MWF(Q + "[i]")}))', 'And(finite(this._best_finest_probability), finite(this._max_finest_prob_diff))', f'{DIFF} >= 0']
ECFG = {'spec_funcs': dict(CFG['spec_funcs'], score=score, cand=cand, covers=covers, inrect=inrect),
        'shapes': {'Match': MT, 'Match::spe': OPQ('SpeRef'), 'Match::filtered_scan': OPQ('ScanRef'), 'Match::pose': OPQ('PoseRef'), 'Match::map': OPQ('MapRef'), 'std::priority_queue<Match>': ('vec', MT)}}
O = lambda t: t.replace('this.', 'old.this.')
SM = lambda a, b, fs: [f'same({a}.{f}, {b}.{f})' for f in fs]
VALID = 'finite(result.prob_upper_bound)'


def pq_max(eng, v, t):
    """What 'no element of the queue is preferred to the top' means, by the contract of Match::operator<."""
    from vc.values import tsel
    j = z3.Int('pj?')
    P = lambda i: real_of(tsel(v.ch['data'], i).ch['Match::prob_upper_bound'])
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.ch['len']), P(j) <= P(t) + z3.RealVal(PT)), patterns=[P(j)])


PT = '1/4000000'
ECFG['pq_max'] = pq_max
lessm = S('Match::operator<(const Match &) const', inst='en', cfg=ECFG, requires=[MWF('this'), MWF('that')], modifies=[], contract=False, defs=[mono],
          ensures=[f'Implies(Not(result), real(that.prob_upper_bound) <= real(this.prob_upper_bound) + {PTOL})', f'Implies(result, real(this.prob_upper_bound) <= real(that.prob_upper_bound) + {PTOL})'])
add = S('M3RSMEngine::add_match(Match &&)', inst='en', cfg=ECFG, requires=QWF + [MWF('match')], modifies=['this._matches', 'this._best_finest_probability', 'match'], defs=[mono],
        ensures=QWF + [f'{BEST} >= real(old.this._best_finest_probability)', f'Implies(Or({O(COV)}, {O(PRUNED)}, covers(old.match)), Or({COV}, {PRUNED}))', f'Implies({O(JUST)}, {JUST})', f'Implies(Or({O(HASF)}, And({FINEST("old.match")}, real(old.match.prob_upper_bound) >= real(old.this._best_finest_probability))), {HASF})'])
REST = ['rotation', 'spe', 'filtered_scan', 'scan_is_prerotated', 'pose', 'map']
finer = S('Match::#ctor(const LightWeightRectangle &, const Match &)', inst='en', cfg=ECFG, trusted=True, requires=[MWF('that')], modifies=[],
          ensures=[MWF('this')] + SM('this', 'that', REST) + SM('this.translation_drift', 'tdrift', ['_bot', '_top', '_left', '_right']))
branch = S('M3RSMEngine::branch(const Match &, bool, bool)', inst='en', cfg=ECFG, requires=QWF + [MWF('coarse_match'), 'Or(is_horz, is_vert)'],
           modifies=['this._matches', 'this._best_finest_probability'], defs=[mono],
           loops={0: dict(inv=QWF + [f'{BEST} >= real(old.this._best_finest_probability)', f'Implies(Or({O(COV)}, {O(PRUNED)}), Or({COV}, {PRUNED}))', f'Implies({O(JUST)}, {JUST})', f'Implies({O(HASF)}, {HASF})',
                                     f'Implies(covers(coarse_match), Or({COV}, {PRUNED}, exists(lambda k: And(_i <= k, k < finer_drifts.len, inrect(finer_drifts[k])))))'])},
           ensures=QWF + [f'{BEST} >= real(old.this._best_finest_probability)', f'Implies(Or({O(COV)}, {O(PRUNED)}, covers(coarse_match)), Or({COV}, {PRUNED}))', f'Implies({O(JUST)}, {JUST})', f'Implies({O(HASF)}, {HASF})'])
STEP = 'real(translation_step)'
inval = S('Match::invalid_match()', inst='en', cfg=ECFG, trusted=True, modifies=[], ensures=['Not(finite(result.prob_upper_bound))'])
WK = f'Implies(Or({O(COV)}, {O(PRUNED)}), Or({COV}, {PRUNED}))'
TOP = lambda m: f'Or({BEST} <= 0, real({m}.prob_upper_bound) + {PTOL} >= {BEST})'
nbm = S('M3RSMEngine::next_best_match(double)', inst='en', cfg=ECFG, requires=QWF + ['finite(translation_step)', f'{STEP} > {EPS}', JUST], modifies=['this._matches', 'this._best_finest_probability'], defs=[mono],
        loops={0: dict(inv=QWF + [f'{BEST} >= real(old.this._best_finest_probability)', JUST, WK, f'Implies({O(HASF)}, {HASF})'])},
        ensures=QWF + [f'Or({JUST}, And({VALID}, {FINEST("result")}))', f'Implies({O(HASF)}, And({VALID}, Or({HASF}, {FINEST("result")})))', f'Implies(Not({VALID}), {Q}.len == 0)',
                       f'Implies({VALID}, And({MWF("result")[4:-1]}, real(result.translation_drift._right) - real(result.translation_drift._left) <= {STEP}, real(result.translation_drift._top) - real(result.translation_drift._bot) <= {STEP}))',
                       f'Implies({VALID}, forall(lambda i: Implies(And(0 <= i, i < {Q}.len), real({Q}[i].prob_upper_bound) <= real(result.prob_upper_bound) + {PTOL})))',
                       f'Implies(And({VALID}, Or({O(COV)}, {O(PRUNED)})), cand() <= real(result.prob_upper_bound) + 2*R("1/100000"))',
                       f'Implies(Or({O(COV)}, {O(PRUNED)}), Or({COV}, {PRUNED}, And({VALID}, covers(result))))',
                       f'Implies({VALID}, Or({BEST} <= 0, {BEST} <= real(result.prob_upper_bound) + {PTOL}))'])
SPECS += [lessm, add, finer, branch, inval, nbm]


# ---- what a match scores
def mk_est(eng, this, args):
    """estimate_scan_probability: a function of all it is given; what it is asked is logged."""
    leaves = []
    for a in [this] + list(args):
        leaves += eng.flat(a)
    k = eng.uf('score_kind', leaves, z3.IntSort())
    v = Node('dbl', None, {'r': eng.uf('est', leaves, z3.RealSort()), 'k': k})
    eng.assume(z3.And(k >= 0, k <= 1))
    p, q = eng.rv(args[1]), eng.rv(args[3])
    a = q.ch['ScanProbabilityEstimator::SPEParams::sp_analysis_area']
    log(eng, 'asked', score=v, pre=eng.rv(q.ch['ScanProbabilityEstimator::SPEParams::scan_is_prerotated']), after=eng.mem['heap:rescaled'].ch['len'],
        **{f: eng.toreal(eng.rv(p.ch['RobotPose::' + f])) for f in ('x', 'y', 'theta')}, **{f: eng.toreal(a.ch['LightWeightRectangle::_' + f]) for f in ('left', 'right', 'bot', 'top')})
    return v


def mk_rescale(eng, this, args):
    log(eng, 'rescaled', to=eng.rv(args[0]))


SIDES = ('left', 'right', 'bot', 'top')
MKG = {'asked': ('vec', rec('A', score=('dblx',), pre=B_, after=('int', 64, True), x=D_, y=D_, theta=D_, **{f: D_ for f in SIDES})), 'rescaled': ('vec', rec('Rs', to=('dblx',)))}
MCFG = dict(MAPCFG, ghosts=MKG, abstract=dict(MAPCFG['abstract'], **{'ScanProbabilityEstimator::estimate_scan_probability(const LaserScan2D &, const RobotPose &, const GridMap &, const ScanProbabilityEstimator::SPEParams &) const': mk_est, 'RegularSquaresGrid::rescale(double)': mk_rescale}))
TD = lambda f: f'real(tdrift._{f})'
ctor = S('Match::#ctor(double, const LightWeightRectangle &, std::shared_ptr<ScanProbabilityEstimator>, std::shared_ptr<LaserScan2D>, bool, const RobotPose &, GridMap &, bool)', inst='mk', cfg=MCFG, contract=False,
         requires=['finite(rot)', 'And(finite(tdrift._bot), finite(tdrift._top), finite(tdrift._left), finite(tdrift._right))', f'{TD("left")} <= {TD("right")}', f'{TD("bot")} <= {TD("top")}',
                   'And(finite(robot_pose.x), finite(robot_pose.y), finite(robot_pose.theta))', 'heap("asked").len == 0', 'heap("rescaled").len == 0'], modifies=['heap:asked', 'heap:rescaled'],
         ensures=['same(this.rotation, rot)', 'this.scan_is_prerotated == is_rotated'] + SM('this.translation_drift', 'tdrift', ['_bot', '_top', '_left', '_right']) +
         ['real(this._abs_rotation) == absr(real(rot))', f'real(this._drift_amount) == {TD("right")} - {TD("left")} + {TD("top")} - {TD("bot")}',
          'heap("rescaled").len == 1', 'heap("asked").len == 1', f'real(heap("rescaled")[0].to) == If({TD("right")} - {TD("left")} >= {TD("top")} - {TD("bot")}, {TD("right")} - {TD("left")}, {TD("top")} - {TD("bot")})',
          'same(this.prob_upper_bound, heap("asked")[0].score)', 'heap("asked")[0].after == 1', 'heap("asked")[0].pre == is_rotated',
          'And(' + ', '.join(f'heap("asked")[0].{f} == {TD(f)}' for f in SIDES) + ')',
          f'And(2*(heap("asked")[0].x - real(robot_pose.x)) == {TD("left")} + {TD("right")}, 2*(heap("asked")[0].y - real(robot_pose.y)) == {TD("bot")} + {TD("top")})',
          'heap("asked")[0].theta == If(is_rotated, 0, real(robot_pose.theta) + real(rot))'])
SPECS += [ctor]
child = S('Match::#ctor(const LightWeightRectangle &, const Match &)', inst='mk', cfg=MCFG, modifies=['heap:asked', 'heap:rescaled'],
          requires=['finite(that.rotation)', 'And(finite(tdrift._bot), finite(tdrift._top), finite(tdrift._left), finite(tdrift._right))', f'{TD("left")} <= {TD("right")}', f'{TD("bot")} <= {TD("top")}', 'heap("asked").len == 0', 'heap("rescaled").len == 0'],
          ensures=['same(this.rotation, that.rotation)', 'this.scan_is_prerotated == that.scan_is_prerotated'] + SM('this.translation_drift', 'tdrift', ['_bot', '_top', '_left', '_right']) +
          ['heap("rescaled").len == 1', 'heap("asked").len == 1', 'heap("asked")[0].after == 1', 'same(this.prob_upper_bound, heap("asked")[0].score)', 'heap("asked")[0].pre == that.scan_is_prerotated',
           'And(' + ', '.join(f'heap("asked")[0].{f} == {TD(f)}' for f in SIDES) + ')', 'real(this._abs_rotation) == absr(real(that.rotation))', f'real(this._drift_amount) == {TD("right")} - {TD("left")} + {TD("top")} - {TD("bot")}'] + SM('this', 'that', ['spe', 'filtered_scan', 'pose', 'map']) +
          [f'And(2*(heap("asked")[0].x - real(that.pose.x)) == {TD("left")} + {TD("right")}, 2*(heap("asked")[0].y - real(that.pose.y)) == {TD("bot")} + {TD("top")})',
           'heap("asked")[0].theta == If(that.scan_is_prerotated, 0, real(that.pose.theta) + real(that.rotation))'])
SPECS += [child]

# ---- the matcher
def hush(eng, this, args):
    return None


PCFG = dict(ECFG, abstract={'GridScanMatcher::do_for_each_observer(std::function<void (std::shared_ptr<GridScanMatcherObserver>)>)': hush,
                            'RegularSquaresGrid::rescale(double)': mk_rescale, 'RegularSquaresGrid::scale() const': lambda eng, this, args: eng.uf('scale_now', eng.flat(this), z3.RealSort())},
            ghosts={'rescaled': MKG['rescaled']}, shapes=dict(ECFG['shapes'], **{'GridScanMatcher::_observers': ('vec', ('sref', 'GridScanMatcherObserver')), 'GridScanMatcher::_scan_prob_estimator': OPQ('SpeRef')}), dyn=dict(CFG['dyn'], GridScanMatcherObserver='opaque'))
EQ_, EB = 'this._engine._matches', 'real(this._engine._best_finest_probability)'
TH = lambda t: t.replace('this.', 'this._engine.')
reset = S('M3RSMEngine::reset_engine_state()', inst='en', cfg=ECFG, modifies=['this._matches', 'this._best_finest_probability'], ensures=[f'{Q}.len == 0', f'{BEST} == 0', 'finite(this._best_finest_probability)'])
SPECS += [reset,
          S('M3RSMEngine::set_translation_lookup_range(double, double)', inst='en', cfg=ECFG, modifies=['this._max_x_error', 'this._max_y_error'], ensures=['same(this._max_x_error, max_x_error)', 'same(this._max_y_error, max_y_error)']),
          S('M3RSMEngine::set_rotation_lookup_range(double, double)', inst='en', cfg=ECFG, modifies=['this._rotation_sector', 'this._rotation_resolution'], ensures=['same(this._rotation_sector, sector)', 'same(this._rotation_resolution, step)'])]
FULL = 'Match::#ctor(double, const LightWeightRectangle &, std::shared_ptr<ScanProbabilityEstimator>, std::shared_ptr<LaserScan2D>, bool, const RobotPose &, GridMap &, bool)'
full = S(FULL, inst='en', cfg=ECFG, trusted=True, requires=['finite(rot)', 'And(finite(tdrift._bot), finite(tdrift._top), finite(tdrift._left), finite(tdrift._right))', 'real(tdrift._left) <= real(tdrift._right)', 'real(tdrift._bot) <= real(tdrift._top)'],
         modifies=[], ensures=[MWF('this'), 'same(this.rotation, rot)', 'this.scan_is_prerotated == is_rotated'] + SM('this.translation_drift', 'tdrift', ['_bot', '_top', '_left', '_right']))
PROG = [f'{BEST} >= real(old.this._best_finest_probability)', f'Implies({O(JUST)}, {JUST})', f'Implies({O(HASF)}, {HASF})']
LIM = ['And(finite(this._max_x_error), finite(this._max_y_error), finite(this._rotation_sector), finite(this._rotation_resolution))', 'real(this._max_x_error) >= 0', 'real(this._max_y_error) >= 0']
FRESH = f'Or({O(BEST)} > 0, {HASF})'
req = S('M3RSMEngine::add_scan_matching_request(std::shared_ptr<ScanProbabilityEstimator>, const RobotPose &, const LaserScan2D &, GridMap &, bool)', inst='en', cfg=ECFG,
        requires=QWF + LIM + ['real(this._rotation_sector) >= 0', 'real(this._rotation_resolution) >= 0', 'finite(pose.theta)'], modifies=['this._matches', 'this._best_finest_probability'], defs=[mono],
        loops={0: dict(inv=QWF + PROG + ['finite(rotation_drift)', 'real(rotation_drift) >= 0', f'Or(real(rotation_drift) == 0, {FRESH})']), 1: dict(inv=QWF + PROG + [f'Or(And(_i == 0, real(rotation_drift) == 0), {FRESH})'])},
        ensures=QWF + PROG + [FRESH])
SPECS += [full, req, S('ScanProbabilityEstimator::filter_scan(const LaserScan2D &, const RobotPose &, const GridMap &)', inst='en', cfg=ECFG, trusted=True), S('LaserScan2D::to_cartesian(double) const', inst='en', cfg=ECFG, trusted=True)]
TMP = 'rescalable_map'
MTCH = 'this._engine'
told_end = lambda eng, this, args: log(eng, 'told', dx=eng.toreal(eng.rv(eng.rv(args[0]).ch['RobotPose::x'])), dy=eng.toreal(eng.rv(eng.rv(args[0]).ch['RobotPose::y'])), dt=eng.toreal(eng.rv(eng.rv(args[0]).ch['RobotPose::theta'])), p=eng.rv(args[2]))
def each(eng, this, args):
    eng.call_closure(eng.rv(args[0]), [Node('ptr', Loc('heap:obs'), {})])


PCFG = dict(ECFG, abstract={'GridScanMatcher::do_for_each_observer(std::function<void (std::shared_ptr<GridScanMatcherObserver>)>)': each,
                            'GridScanMatcherObserver::on_matching_start(const RobotPose &, const TransformedLaserScan &, const GridMap &)': hush,
                            'GridScanMatcherObserver::on_matching_end(const RobotPose &, const LaserScan2D &, double)': told_end,
                            'RegularSquaresGrid::rescale(double)': mk_rescale, 'RegularSquaresGrid::scale() const': lambda eng, this, args: Node('dbl', None, {'r': eng.uf('scale_now', eng.flat(this), z3.RealSort()), 'k': z3.IntVal(0)})},
            ghosts={'rescaled': MKG['rescaled'], 'told': ('vec', rec('Td', p=('dblx',), **{f: ('dbl',) for f in ('dx', 'dy', 'dt')})), 'obs': ('opaque', 'GridScanMatcherObserver')}, shapes=dict(ECFG['shapes'], **{'GridScanMatcher::_observers': ('vec', ('sref', 'GridScanMatcherObserver')), 'GridScanMatcher::_scan_prob_estimator': OPQ('SpeRef')}), dyn=dict(CFG['dyn'], GridScanMatcherObserver='opaque'))
PCFG['spec_funcs'] = dict(PCFG['spec_funcs'], scale_now=lambda ns, m: ns.eng.uf('scale_now', ns.eng.flat(raw(ns, m)), z3.RealSort()))
ps = S('BruteForceMultiResolutionScanMatcher::process_scan(const TransformedLaserScan &, const RobotPose &, const GridMap &, RobotPoseDelta &)', inst='en', cfg=PCFG,
       requires=['And(finite(this._max_x_error), finite(this._max_y_error), finite(this._max_th_error), finite(this._ang_step), finite(this._transl_step))', 'real(this._max_x_error) >= 0', 'real(this._max_y_error) >= 0', 'real(this._max_th_error) >= 0', 'real(this._ang_step) > 0',
                 f'real(this._transl_step) > {EPS}', 'And(finite(pose.x), finite(pose.y), finite(pose.theta))', 'heap("rescaled").len == 0', 'heap("told").len == 0', 'And(finite(this._engine._max_finest_prob_diff), real(this._engine._max_finest_prob_diff) >= 0)'],
       modifies=['this._engine', 'result_pose_delta', 'heap:rescaled', 'heap:told'], defs=[mono],
       loops={0: dict(inv=[TH(q) for q in QWF + [JUST, HASF]] + ['heap("told").len == 0', 'heap("rescaled").len == 0']), 1: dict(inv=[TH(q) for q in QWF + [JUST, HASF]] + ['heap("told").len == 0', 'heap("rescaled").len == 0'])},
       ensures=['And(finite(result), 0 <= real(result), real(result) <= 1)', TH(f'forall(lambda i: Implies(And(0 <= i, i < {Q}.len), real({Q}[i].prob_upper_bound) <= real(result) + {PTOL}))'),
                'heap("told").len == 1', 'And(same(heap("told")[0].p, result), heap("told")[0].dx == real(result_pose_delta.x), heap("told")[0].dy == real(result_pose_delta.y), heap("told")[0].dt == real(result_pose_delta.theta))',
                'And(heap("rescaled").len == 1, real(heap("rescaled")[0].to) == scale_now(map))', 'real(this._engine._rotation_sector) == 2*real(this._max_th_error)', 'same(this._engine._rotation_resolution, this._ang_step)',
                'And(same(this._engine._max_x_error, this._max_x_error), same(this._engine._max_y_error, this._max_y_error))'])
SPECS += [ps]

ASSUMPTIONS = ['the levels are maps known by a contract of operator[], reset, update, world_cell_bounds (cells of a finite map hold a content; a grown map keeps its cells; a blank cell is unknown and an updated or reset one known); UnboundedPlainGridMap is put under those contracts in C03, C04 and C02',
               'unknown cells are not bounded (recorded finding); a bound may be missed by 1e-7 per level',
               'sizes up to 2^27 cells a side, indices up to 2^24, level count up to 2002; that adding levels ends is not proved',
               'resetting a cell is covered for a known new content only',
               'the scan estimator is an uninterpreted function with values in [0, 1], and a drift within a drift scores at most 1e-5 more (what branch() asserts); a scan without usable points (NaN) is excluded',
               'that the search ends is not proved', 'a priority_queue is a bag whose top is not less than any element by Match::operator<, itself under contract',
               'within a rectangle no wider than the translation step only corners and centre are tried (by design)']


def lemma_chain():
    """One step of the induction over levels: what holds of neighbouring levels adds up."""
    f, a, b, t = z3.Reals('f a b t')
    k = z3.Int('k')
    kf, ka, kb = z3.Bools('kf ka kb')
    B2 = lambda k1, i1, k2, i2, d: z3.Implies(k1, z3.And(k2, i2 >= i1 - d))
    return z3.Implies(z3.And(t >= 0, k >= 0, B2(kf, f, ka, a, z3.ToReal(k) * t), B2(ka, a, kb, b, t)), B2(kf, f, kb, b, z3.ToReal(k + 1) * t))


LEMMAS += [('bounds between neighbouring levels add up to a bound on the finest one', lemma_chain)]
