"""Plain maps: a cell reads back what was last written to it, wherever the map grew since."""
import z3
from lib import *
P, U, G = 'PlainGridMap::', 'UnboundedPlainGridMap::', 'GridMap::'
L = 1 << 20


def st(ns, a, b):
    return ns.leaves(a)[0] == ns.leaves(b)[0]


def stv(ns, a):
    return ns.leaves(a)[0]


def upd(ns, c, aoo):
    l = ns.leaves(c)
    return ns.eng.uf('updated', l + ns.leaves(aoo), l[0].sort())


CFG = {'dyn': {'GridCell': 'opaque'}, 'spec_funcs': {'st': st, 'stv': stv, 'upd': upd}}
CLONE = S('GridCell::clone() const', trusted=True, ensures=['Not(result.null)', 'st(result.val, this)'])
PLUS = S('GridCell::operator+=(const AreaOccupancyObservation &)', trusted=True, modifies=['this'], ensures=['st(this, upd(old.this, a0))'])
OCC = S('GridCell::occupancy() const', trusted=True, ensures=['And(kind(result.prob_occ) == uf("occk", "int", this), val(result.prob_occ) == uf("occr", "real", this))'])
SPECS = [CLONE, PLUS, OCC]
DIM = f'And(1 <= this._width, this._width <= {L}, 1 <= this._height, this._height <= {L})'
C = 'this._cells'
WF = [DIM, f'{C}.len == this._height', f'forall(lambda y: Implies(And(0 <= y, y < this._height), {C}[y].len == this._width))',
      f'forall(lambda y, x: Implies(And(0 <= y, y < this._height, 0 <= x, x < this._width), Not({C}[y][x].null)))']
BLANK = f'forall(lambda y, x: Implies(And(0 <= y, y < this._height, 0 <= x, x < this._width), st({C}[y][x].val, prototype)))'
PDIM = f'And(1 <= params.width_cells, params.width_cells <= {L}, 1 <= params.height_cells, params.height_cells <= {L}, finite(params.meters_per_cell))'
CT = ['And(this._width == params.width_cells, this._height == params.height_cells, same(this._m_per_cell, params.meters_per_cell), same(this._cell_prototype, prototype))']
ROWS = [f'{C}.len == this._height', 'And(0 <= %s, %s < this._height)',
        f'forall(lambda y: Implies(And(0 <= y, y < this._height, y != %s), {C}[y].len == If(y < %s, this._width, 0)))',
        f'forall(lambda y, x: Implies(And(0 <= y, y < %s, 0 <= x, x < this._width), And(Not({C}[y][x].null), st({C}[y][x].val, prototype))))']
SPECS += [
    S(P + '#ctor(std::shared_ptr<GridCell>, const GridMapParams &)', requires=[PDIM], ensures=CT + WF + [BLANK],
      loops={0: dict(inv=CT + [f'{C}.len == this._height',
                      f'forall(lambda y: Implies(And(0 <= y, y < this._height), {C}[y].len == If(y < _i, this._width, 0)))',
                      f'forall(lambda y, x: Implies(And(0 <= y, y < _i, 0 <= x, x < this._width), And(Not({C}[y][x].null), st({C}[y][x].val, prototype))))'], dec='this._height - _i'),
             1: dict(inv=CT + [r.replace('%s', '_o') for r in ROWS] + ['And(0 <= _i, _i <= this._width)', f'{C}[_o].len == _i',
                      f'forall(lambda x: Implies(And(0 <= x, x < _i), And(Not({C}[_o][x].null), st({C}[_o][x].val, prototype))))'], dec='this._width - _i')}),
]

# ---- bounded map: the origin is the middle cell
IN = lambda m='this', a='a0', ox='_width / 2': f'And(0 <= {a}.x + {m}._width / 2, {a}.x + {m}._width / 2 < {m}._width, 0 <= {a}.y + {m}._height / 2, {a}.y + {m}._height / 2 < {m}._height)'
CO = lambda m='this', a='a0': f'{m}._cells[{a}.y + {m}._height / 2][{a}.x + {m}._width / 2]'
AB = f'And(-{L} <= a0.x, a0.x <= {L}, -{L} <= a0.y, a0.y <= {L})'
OTHERS = lambda gx, gy: ('forall(lambda y, x: Implies(And(0 <= y, y < this._height, 0 <= x, x < this._width, Or(y != %s, x != %s)), st(this._cells[y][x].val, old.this._cells[y][x].val)))'
                         % (gy, gx))
KEEP = 'And(this._width == old.this._width, this._height == old.this._height, same(this._m_per_cell, old.this._m_per_cell))'
GX, GY = 'a0.x + this._width / 2', 'a0.y + this._height / 2'
READ = dict(requires=WF + [AB, IN()])
SPECS += [
    S(P + 'operator[](const DiscretePoint2D &) const', requires=WF + [AB, IN()], ensures=[f'st(result, {CO()}.val)'], returns=f'{CO()}.val', modifies=[]),
    S(G + 'occupancy(const DiscretePoint2D &) const', inst='plain', cls='PlainGridMap', requires=WF + [AB, IN()], modifies=[],
      ensures=[f'And(kind(result) == uf("occk", "int", {CO()}.val), val(result) == uf("occr", "real", {CO()}.val))']),
    S(P + 'reset(const DiscretePoint2D &, const GridCell &)', contract=False, requires=WF + [AB, IN()], modifies=['this._cells'],
      ensures=WF + [f'st({CO()}.val, a1)', OTHERS(GX, GY)]),
    S(G + 'update(const DiscretePoint2D &, const AreaOccupancyObservation &)', inst='plain', cls='PlainGridMap', requires=WF + [AB, IN()], modifies=['this._cells'],
      ensures=WF + [f'st({CO()}.val, upd(old.{CO()}.val, a1))', OTHERS(GX, GY)]),
]

# ---- unbounded map: the origin moves when the map grows to the left or upwards
M = 1 << 26
UDIM = f'And(1 <= this._width, this._width <= {M}, 1 <= this._height, this._height <= {M})'
UW = WF[1:] + [f'And(1 <= this._width, this._width <= {1 << 29}, 1 <= this._height, this._height <= {1 << 29})']
UA = f'And(-{M} <= a0.x + this._origin.x, a0.x + this._origin.x <= {M}, -{M} <= a0.y + this._origin.y, a0.y + this._origin.y <= {M}, ' \
     f'-{M} <= a0.x, a0.x <= {M}, -{M} <= a0.y, a0.y <= {M})'
UR = WF[1:] + [UDIM, UA]
UX, UY = 'a0.x + this._origin.x', 'a0.y + this._origin.y'
UIN = f'And(0 <= {UX}, {UX} < this._width, 0 <= {UY}, {UY} < this._height)'
DX_, DY_ = '(this._origin.x - old.this._origin.x)', '(this._origin.y - old.this._origin.y)'
GROW = [f'And(0 <= {DX_}, {DX_} + old.this._width <= this._width, 0 <= {DY_}, {DY_} + old.this._height <= this._height)']
OLDIN = f'And({DX_} <= x, x < {DX_} + old.this._width, {DY_} <= y, y < {DY_} + old.this._height)'
MOVED = f'stv(this._cells[y][x].val) == If({OLDIN}, stv(old.this._cells[y - {DY_}][x - {DX_}].val), stv(this._cell_prototype))'
INR = 'And(0 <= y, y < this._height, 0 <= x, x < this._width)'
SPECS += [
    S(U + 'determine_cells_nm(int, int, int) const', requires=[f'And(a0 == 0, 0 <= a2, a2 <= {M}, -{M} <= a1, a1 <= {M})'], modifies=[],
      ensures=['And(result[0] == imax(0, -a1), result[1] == imax(0, a1 - a2 + 1))']),
    S(U + 'operator[](const DiscretePoint2D &) const', contract=False, requires=UR, modifies=[],
      ensures=[f'Implies({UIN}, st(result, this._cells[{UY}][{UX}].val))', f'Implies(Not({UIN}), st(result, this._unknown_cell))']),
    S(U + '#ctor(std::shared_ptr<GridCell>, const GridMapParams &)', requires=[PDIM], 
      ensures=CT + WF + [BLANK, 'st(this._unknown_cell, prototype)', 'And(this._origin.x == this._width / 2, this._origin.y == this._height / 2)']),
]

NC = 'new_cells'
ODX, ODY = 'prep_x', 'prep_y'
OIN = 'And(prep_x <= x, x < prep_x + this._width, prep_y <= y, y < prep_y + this._height)'
DIMS = ['And(w == this._width, h == this._height, w + prep_x + app_x == new_w, h + prep_y + app_y == new_h)', f'{NC}.len == new_h',
        'And(old.this._width == this._width, old.this._height == this._height, same(this._cell_prototype, old.this._cell_prototype), old.this._cells.len == this._cells.len)']
SPECS += [
    S(U + 'ensure_inside(const DiscretePoint2D &)', requires=UR, modifies=['this._cells', 'this._width', 'this._height', 'this._origin'],
      ensures=UW + GROW + [UIN, 'result == Not(And(0 <= a0.x + old.this._origin.x, a0.x + old.this._origin.x < old.this._width, 0 <= a0.y + old.this._origin.y, a0.y + old.this._origin.y < old.this._height))',
               'Implies(Not(result), And(this._width == old.this._width, this._height == old.this._height, same(this._origin, old.this._origin)))',
               f'forall(lambda y, x: Implies({INR}, {MOVED}))'],
      loops={0: dict(inv=DIMS + ['And(0 <= _i, _i <= new_h)',
                 f'forall(lambda y: Implies(And(0 <= y, y < new_h), {NC}[y].len == If(y < _i, new_w, 0)))',
                 f'forall(lambda y, x: Implies(And(0 <= y, y < _i, 0 <= x, x < new_w), And(Not({NC}[y][x].null), stv({NC}[y][x].val) == If({OIN}, stv(old.this._cells[y - prep_y][x - prep_x].val), stv(this._cell_prototype)))))',
                 f'forall(lambda y: Implies(And(0 <= y, y < h), {C}[y].len == w))',
                 f'forall(lambda y, x: Implies(And(0 <= y, y < h, 0 <= x, x < w, _i <= y + prep_y), And(Not({C}[y][x].null), st({C}[y][x].val, old.{C}[y][x].val))))',
                 ], dec='new_h - _i')}),
]
VIEW = f'If({OLDIN}, stv(old.this._cells[y - {DY_}][x - {DX_}].val), stv(this._cell_prototype))'
KEPT = f'forall(lambda y, x: Implies(And({INR}, Or(y != {UY}, x != {UX})), stv(this._cells[y][x].val) == {VIEW}))'
ATC = lambda f: f'forall(lambda y, x: Implies(And({INR}, y == {UY}, x == {UX}), stv(this._cells[y][x].val) == {f}))'
ALL = ['this._cells', 'this._width', 'this._height', 'this._origin']
SPECS += [
    S(U + 'reset(const DiscretePoint2D &, const GridCell &)', requires=UR, modifies=ALL, ensures=UW + GROW + [UIN, f'st(this._cells[{UY}][{UX}].val, a1)', KEPT]),
    S(G + 'update(const DiscretePoint2D &, const AreaOccupancyObservation &)', inst='unbounded', cls='UnboundedPlainGridMap', contract=False,
      requires=UW + [UIN, UA], modifies=['this._cells'],
      ensures=UW + [f'st(this._cells[{UY}][{UX}].val, upd(old.this._cells[{UY}][{UX}].val, a1))', OTHERS(UX, UY)]),
    S(U + 'update(const DiscretePoint2D &, const AreaOccupancyObservation &)', requires=UR, modifies=ALL,
      ensures=UW + GROW + [UIN, ATC(f'stv(upd({VIEW}, a1))'), KEPT]),
    S(U + 'has_cell(const DiscretePoint2D &) const', ensures=['result']),
    S(U + 'origin() const', ensures=['same(result, this._origin)'], contract=False),
]
ASSUMPTIONS = [
    'map sides up to 2^26 (2^29 after growth), cell coordinates within 2^20 of the origin before growth',
    'GridCell::clone, operator+= and occupancy are known by their contracts (proved per cell kind by C06)',
    'std::generate_n calls its generator once per element, in order',
    'the cells of a map are not shared with other maps (C04 covers the map that shares)',
]
