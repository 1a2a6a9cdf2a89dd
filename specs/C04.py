"""Tiled maps: reads give the last write, copies never affect each other, growth keeps the content."""
import z3
from lib import *
from vc.engine import Unsupported
LT, UT, G, T = 'LazyTiledGridMap::', 'UnboundedLazyTiledGridMap::', 'GridMap::', 'LazyTiledGridMap::Tile'
CELL, TILE = ('sref', 'GridCell'), ('sref', T)
NCELLS = 128 * 128
L = 1 << 20


def tsx(d, i):
    from vc.values import tsel
    return tsel(d, i)


def heap_of(ns, mem, c):
    return mem['heap:' + c]


def cellh(ns, m, t, j):
    """Handle of cell j of the tile with handle t (in the state m is seen in)."""
    return tsx(tsx(ns.unv(m._m['heap:' + T]).ch['data'], ns.unv(t)).ch[T + '::_cells'].ch['data'], ns.unv(j)).ch['h']


def stof(ns, m, h):
    """State of the cell with handle h."""
    return tsx(m._m['heap:GridCell'].ch['data'], ns.unv(h))


def tileh(ns, m, i):
    return m._tiles[i].h


def slot(ns, m, i, j):
    """State of cell j of tile slot i of the map."""
    return stof(ns, m, cellh(ns, m, tileh(ns, m, i), j))


def st(ns, a, b):
    return ns.leaves(a)[0] == ns.leaves(b)[0]


def stv(ns, a):
    return ns.leaves(a)[0]


def upd(ns, c, aoo):
    l = ns.leaves(c)
    return ns.eng.uf('updated', l + ns.leaves(aoo), l[0].sort())


def sole_owner(eng, o, v, t):
    """What use_count() == 1 says (the contract of std::shared_ptr): no other live
    pointer refers to the same object.  Live are the pointers of this map, of any
    other map (`other`) and of their tiles."""
    h, cls = v.ch['h'], v.meta
    ms = [eng.mem['this'], eng.mem['heap:other']]
    i, j = z3.Int('ui?'), z3.Int('uj?')
    f = lambda m, n: m.ch[[k for k in m.ch if k.split('::')[-1] == n][-1]]
    out = []

    def name(a):
        c = z3.Const(eng.fresh_name('view'), a.sort())
        eng.assume(c == a)
        return c
    if cls == T:
        if not (o.root == 'this' and o.path[-1][0] == 'i'):
            raise Unsupported('use_count of a tile elsewhere')
        own = o.path[-1][1]
        for k, m in enumerate(ms):
            ts = f(m, '_tiles')
            x = z3.Select(name(ts.ch['data'].ch['h']), i)
            here = i != own if k == 0 else z3.BoolVal(True)
            out.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ts.ch['len'], here), x != h), patterns=[x]))
            out.append(f(m, '_unknown_tile').ch['h'] != h)
    elif cls == 'GridCell':
        if not (o.root == 'heap:' + T and o.path[-1][0] == 'i' and o.path[0][0] == 'i'):
            raise Unsupported('use_count of a cell elsewhere')
        oh, oj = o.path[0][1], o.path[-1][1]
        cells = name(eng.mem['heap:' + T].ch['data'].ch[T + '::_cells'].ch['data'].ch['h'])
        for m in ms:
            ts = f(m, '_tiles')
            th = z3.Select(name(ts.ch['data'].ch['h']), i)
            x = z3.Select(z3.Select(cells, th), j)
            out.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < ts.ch['len'], 0 <= j, j < NCELLS, z3.Or(th != oh, j != oj)), x != h), patterns=[x]))
            uh = f(m, '_unknown_tile').ch['h']
            y = z3.Select(z3.Select(cells, uh), j)
            out.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < NCELLS, z3.Or(uh != oh, j != oj)), y != h), patterns=[y]))
            out += [f(m, '_unknown_cell').ch['h'] != h, f(m, '_cell_prototype').ch['h'] != h]
    else:
        raise Unsupported('use_count of ' + cls)
    eng.assume(z3.Implies(t == 1, z3.And(*out)))


CFG = {'dyn': {'GridCell': 'opaque'}, 'heaps': ['GridCell', T], 'ghosts': {'other': lambda eng: eng.rec_shape('UnboundedLazyTiledGridMap')},
       'shapes': {'std::shared_ptr<GridCell>': CELL, f'std::shared_ptr<{T}>': TILE}, 'make_shared': {T: True}, 'use_count': sole_owner,
       'spec_funcs': {'st': st, 'stv': stv, 'upd': upd, 'slot': slot, 'cellh': cellh, 'stof': stof}}
CLONE = S('GridCell::clone() const', trusted=True, ensures=['Not(result.null)', 'st(result.val, this)'])
PLUS = S('GridCell::operator+=(const AreaOccupancyObservation &)', trusted=True, modifies=['this'], ensures=['st(this, upd(old.this, a0))'])
OCC = S('GridCell::occupancy() const', trusted=True, ensures=['And(kind(result.prob_occ) == uf("occk", "int", this), val(result.prob_occ) == uf("occr", "real", this))'])
SPECS = [CLONE, PLUS, OCC]
GC, TH = 'heap("GridCell")', f'heap("{T}")'
O = 'heap("other")'
N = 'this._tiles.len'
# every tile slot holds a tile, every cell of a tile holds a cell
HEAPWF = [f'forall(lambda t, j: Implies(And(1 <= t, t < {TH}.len, 0 <= j, j < {NCELLS}), And(1 <= cellh(this, t, j), cellh(this, t, j) < {GC}.len)))']
LIVE = lambda m: [f'{m}._tiles.len == {m}._tiles_nm_x*{m}._tiles_nm_y', f'forall(lambda i: Implies(And(0 <= i, i < {m}._tiles.len), And(1 <= {m}._tiles[i].h, {m}._tiles[i].h < {TH}.len)))',
                  f'And(1 <= {m}._unknown_tile.h, {m}._unknown_tile.h < {TH}.len, 1 <= {m}._unknown_cell.h, {m}._unknown_cell.h < {GC}.len, 1 <= {m}._cell_prototype.h, {m}._cell_prototype.h < {GC}.len)']
DIM = lambda m, lim: [f'And(1 <= {m}._width, {m}._width <= {lim}, 1 <= {m}._height, {m}._height <= {lim}, {m}._width <= 128*{m}._tiles_nm_x, 128*({m}._tiles_nm_x - 1) < {m}._width, {m}._height <= 128*{m}._tiles_nm_y, 128*({m}._tiles_nm_y - 1) < {m}._height)']
WF = LIVE('this') + HEAPWF
ORG = {'plain': ('this._width / 2', 'this._height / 2'), 'unbounded': ('this._origin.x', 'this._origin.y')}


def spec_for(kind):
    cls = 'LazyTiledGridMap' if kind == 'plain' else 'UnboundedLazyTiledGridMap'
    lim = L if kind == 'plain' else 1 << 22
    ox, oy = ORG[kind]
    cx, cy = f'(a0.x + {ox})', f'(a0.y + {oy})'
    ti, ii = f'(({cy} / 128)*this._tiles_nm_x + {cx} / 128)', f'(({cx} % 128)*128 + {cy} % 128)'
    inn = f'And(0 <= {cx}, {cx} < this._width, 0 <= {cy}, {cy} < this._height)'
    ab = f'And(-{lim} <= a0.x, a0.x <= {lim}, -{lim} <= a0.y, a0.y <= {lim}, -{lim} <= {ox}, {ox} <= {lim}, -{lim} <= {oy}, {oy} <= {lim})'
    req = WF + DIM('this', lim) + [inn, ab]
    oreq = LIVE(O)
    here = f'And(0 <= {ti}, {ti} < {N})'
    addr = [f'({cy} / 128)*this._tiles_nm_x + this._tiles_nm_x <= this._tiles_nm_x*this._tiles_nm_y', here]
    hc = f'cellh(this, this._tiles[{ti}].h, {ii})'
    th = f'this._tiles[{ti}].h'
    frame = [f'this._tiles.len == old.this._tiles.len', f'forall(lambda i: Implies(And(0 <= i, i < {N}, i != {ti}), this._tiles[i].h == old.this._tiles[i].h))',
             f'forall(lambda t: Implies(And(1 <= t, t < oldheap("{T}").len, t != {th}), same({TH}[t], oldheap("{T}")[t])))',
             f'forall(lambda j: Implies(And(0 <= j, j < {NCELLS}, j != {ii}), cellh(this, {th}, j) == cellh(old.this, old.{th}, j)))',
             f'forall(lambda g: Implies(And(1 <= g, g < oldheap("GridCell").len), stof(this, g) == stof(old.this, g)))',
             f'And({GC}.len >= oldheap("GridCell").len, {TH}.len >= oldheap("{T}").len)',
             f'stof(this, {hc}) == stof(old.this, cellh(old.this, old.{th}, {ii}))']
    mine = [f'forall(lambda i: Implies(And(0 <= i, i < {N}, i != {ti}), this._tiles[i].h != {th}))', f'this._unknown_tile.h != {th}',
            f'forall(lambda i: Implies(And(0 <= i, i < {O}._tiles.len), {O}._tiles[i].h != {th}))', f'{O}._unknown_tile.h != {th}',
            f'forall(lambda i, j: Implies(And(0 <= i, i < {N}, 0 <= j, j < {NCELLS}, Or(i != {ti}, j != {ii})), cellh(this, this._tiles[i].h, j) != {hc}))',
            f'forall(lambda i, j: Implies(And(0 <= i, i < {O}._tiles.len, 0 <= j, j < {NCELLS}), cellh(this, {O}._tiles[i].h, j) != {hc}))',
            f'forall(lambda j: Implies(And(0 <= j, j < {NCELLS}), And(cellh(this, this._unknown_tile.h, j) != {hc}, cellh(this, {O}._unknown_tile.h, j) != {hc})))',
            f'And(this._unknown_cell.h != {hc}, this._cell_prototype.h != {hc}, {O}._unknown_cell.h != {hc}, {O}._cell_prototype.h != {hc})']
    mods = ['this._tiles', 'heap:' + T, 'heap:GridCell']
    out = [S(LT + 'ensure_sole_owning(const DiscretePoint2D &)', cls=cls, inst=kind, requires=req + oreq, modifies=mods, entry_hints=addr,
             ensures=WF + LIVE(O) + [here] + frame + mine)]
    at = f'slot(this, {ti}, {ii})'
    was = f'slot(old.this, {ti}, {ii})'
    kept = ['this._tiles.len == old.this._tiles.len', f'forall(lambda i, j: Implies(And(0 <= i, i < {N}, 0 <= j, j < {NCELLS}, Or(i != {ti}, j != {ii})), slot(this, i, j) == slot(old.this, i, j)))',
            ] + APART + BLANKS('this', 'old.this')
    rd = WF + DIM('this', lim) + [inn, ab]
    out += [
        S(LT + 'cell_internal(const DiscretePoint2D &) const', cls=cls, inst=kind, contract=False, requires=WF + DIM('this', lim) + [inn.replace(f' + {ox}', '').replace(f' + {oy}', '')], modifies=[],
          entry_hints=[a.replace(f' + {ox}', '').replace(f' + {oy}', '') for a in addr], ensures=[f'stv(result) == {at}'.replace(f' + {ox}', '').replace(f' + {oy}', '')]),
        S(LT + 'update(const DiscretePoint2D &, const AreaOccupancyObservation &)', cls=cls, inst=kind, requires=req + oreq, modifies=mods, entry_hints=addr,
          ensures=WF + LIVE(O) + [here, f'{at} == stv(upd({was}, a1))'] + kept),
        S(LT + 'reset(const DiscretePoint2D &, const GridCell &)', cls=cls, inst=kind, requires=req + oreq, modifies=mods, entry_hints=addr,
          ensures=WF + LIVE(O) + [here, f'{at} == stv(a1)'] + kept),
    ]
    return out


def BLANKS(m, om):
    """The blank tile and the blank cell of the map are as before."""
    return [f'forall(lambda j: Implies(And(0 <= j, j < {NCELLS}), stof({m}, cellh({m}, {m}._unknown_tile.h, j)) == stof({om}, cellh({om}, {om}._unknown_tile.h, j))))',
            f'stof({m}, {m}._unknown_cell.h) == stof({om}, {om}._unknown_cell.h)']


OO = 'oldheap("other")'
# no cell of the other map changes
APART = [f'forall(lambda i, j: Implies(And(0 <= i, i < {O}._tiles.len, 0 <= j, j < {NCELLS}), slot({O}, i, j) == slot({OO}, i, j)))'] + BLANKS(O, OO)
SPECS += spec_for('plain') + spec_for('unbounded')

# ---- construction: every cell reads as the prototype
CDIM = 'And(a1.width_cells >= 1, a1.width_cells <= %d, a1.height_cells >= 1, a1.height_cells <= %d)' % (L, L)


def proto(ns):
    """State of the prototype the constructor was given."""
    return tsx(ns.old_mem['heap:GridCell'].ch['data'], ns.lookup('prototype', True).h)


CFG['spec_funcs']['proto'] = proto
FRESH = [f'stof(this, this._unknown_cell.h) == proto()', f'forall(lambda j: Implies(And(0 <= j, j < {NCELLS}), stof(this, cellh(this, this._unknown_tile.h, j)) == proto()))']
CREQ = [CDIM, f'And(1 <= prototype.h, prototype.h < {GC}.len)'] + [HEAPWF[0].replace('this', O)] + LIVE(O)
CMOD = ['heap:' + T, 'heap:GridCell']
CENS = lambda lim: WF + DIM('this', lim) + [f'forall(lambda i: Implies(And(0 <= i, i < {N}), this._tiles[i].h == this._unknown_tile.h))'] + FRESH + APART + [
    'And(this._width == params.width_cells, this._height == params.height_cells, same(this._m_per_cell, params.meters_per_cell))']
SPECS += [
    S(LT + '#ctor(std::shared_ptr<GridCell>, const GridMapParams &)', inst='plain', cls='LazyTiledGridMap', requires=CREQ, modifies=CMOD, ensures=CENS(L)),
    S(UT + '#ctor(std::shared_ptr<GridCell>, const GridMapParams &)', inst='unbounded', requires=CREQ, modifies=CMOD, ensures=CENS(L) + ['And(this._origin.x == this._width / 2, this._origin.y == this._height / 2)']),
]
# ---- growth
DX_, DY_ = '((this._origin.x - old.this._origin.x) / 128)', '((this._origin.y - old.this._origin.y) / 128)'
SPECS += [
    S(LT + 'extra_tiles_nm(int, int, int) const', requires=[f'And(a0 == 0, 0 <= a2, a2 <= {1 << 22}, -{1 << 22} <= a1, a1 <= {1 << 22})'], modifies=[],
      ensures=['If(a1 < 0, And(128*result[0] >= -a1, result[0] <= 1 + (-a1) / 128), result[0] == 0)', 'If(a1 >= a2, And(a2 + 128*result[1] > a1, result[1] <= 1 + (a1 - a2) / 128), result[1] == 0)']),
]


def rowof(ns, i, n):
    return ns.eng.uf('rowof', [ns.unv(i), ns.unv(n)], z3.IntSort())


def colof(ns, i, n):
    return ns.eng.uf('colof', [ns.unv(i), ns.unv(n)], z3.IntSort())


def mkof(ns, r, c, n):
    return ns.eng.uf('place', [ns.unv(r), ns.unv(c), ns.unv(n)], z3.IntSort())


def rowcol(ns):
    """row and column of a place in a table with rows of n (quotient and remainder; lemma below)."""
    i, n, r, c = z3.Ints('i? n? r? c?')
    R_, C_ = rowof(ns, i, n), colof(ns, i, n)
    m = mkof(ns, r, c, n)
    return z3.And(z3.ForAll([i, n], z3.Implies(z3.And(i >= 0, n >= 1), z3.And(i == mkof(ns, R_, C_, n), 0 <= C_, C_ < n, R_ >= 0)), patterns=[R_, C_]),
                  z3.ForAll([r, c, n], z3.And(m == r * n + c, z3.Implies(z3.And(0 <= c, c < n, r >= 0), z3.And(m >= 0, rowof(ns, m, n) == r, colof(ns, m, n) == c))), patterns=[m]))


def lemma_place(ns=None):
    r, c, r2, c2, n = z3.Ints('r c r2 c2 n')
    return z3.ForAll([r, c, r2, c2, n], z3.Implies(z3.And(0 <= c, c < n, 0 <= c2, c2 < n, r * n + c == r2 * n + c2), z3.And(r == r2, c == c2)))


CFG['spec_funcs'].update(row=rowof, col=colof, place=mkof)
U20 = 1 << 20
UO = f'And(-{U20} <= this._origin.x, this._origin.x <= {U20}, -{U20} <= this._origin.y, this._origin.y <= {U20}, -{U20} <= a0.x, a0.x <= {U20}, -{U20} <= a0.y, a0.y <= {U20})'
UREQ = WF + DIM('this', U20) + [UO]
NX, NY, ONX, ONY = 'this._tiles_nm_x', 'this._tiles_nm_y', 'old.this._tiles_nm_x', 'old.this._tiles_nm_y'
UCX, UCY = '(a0.x + this._origin.x)', '(a0.y + this._origin.y)'
UIN = f'And(0 <= {UCX}, {UCX} < this._width, 0 <= {UCY}, {UCY} < this._height)'
OLDIN = UIN.replace('this.', 'old.this.')
GROW = [f'And((this._origin.x - old.this._origin.x) % 128 == 0, (this._origin.y - old.this._origin.y) % 128 == 0, {DX_} >= 0, {DY_} >= 0, {DX_} + {ONX} <= {NX}, {DY_} + {ONY} <= {NY})',
        f'And(this._origin.x == old.this._origin.x + 128*{DX_}, this._origin.y == old.this._origin.y + 128*{DY_}, this._origin.x <= {1 << 22}, this._origin.y <= {1 << 22})',
        f'Implies(Not({OLDIN}), And(this._width == 128*{NX}, this._height == 128*{NY}))',
        f'Implies({OLDIN}, And(this._width == old.this._width, this._height == old.this._height, {NX} == {ONX}, {NY} == {ONY}, same(this._origin, old.this._origin)))']
INOLD = lambda i, nx, dx, dy, onx, ony: f'And({dy} <= row({i}, {nx}), row({i}, {nx}) < {dy} + {ony}, {dx} <= col({i}, {nx}), col({i}, {nx}) < {dx} + {onx})'
SRC = lambda i, nx, dx, dy, onx: f'place(row({i}, {nx}) - {dy}, col({i}, {nx}) - {dx}, {onx})'
RW, NTX = 'row(i, new_tiles_nm_x)', 'new_tiles_nm_x'
MONO = lambda k: f'Implies({RW} < {k}, {RW}*{NTX} + {NTX} <= {k}*{NTX}), Implies({RW} > {k}, {RW}*{NTX} >= {k}*{NTX} + {NTX}), Implies({RW} == {k}, {RW}*{NTX} == {k}*{NTX})'
SPECS += [
    S(UT + 'ensure_inside(const DiscretePoint2D &)', inst='unbounded', requires=UREQ, modifies=['this._tiles', 'this._tiles_nm_x', 'this._tiles_nm_y', 'this._width', 'this._height', 'this._origin'],
      defs=[rowcol], ensures=LIVE('this') + DIM('this', 1 << 22) + GROW + [UIN, f'result == Not({OLDIN})',
               f'forall(lambda i: Implies(And(0 <= i, i < {N}), this._tiles[i].h == If({INOLD("i", NX, DX_, DY_, ONX, ONY)}, old.this._tiles[{SRC("i", NX, DX_, DY_, ONX)}].h, this._unknown_tile.h)))'],
      loops={0: dict(inv=[f'And(0 <= _i, _i <= {NY}, {NY} == {ONY}, {NX} == {ONX}, new_tiles.len == new_tiles_nm_x*new_tiles_nm_y, this._tiles.len == old.this._tiles.len)',
                 f'forall(lambda i: Implies(And(0 <= i, i < new_tiles.len), new_tiles[i].h == If({INOLD("i", "new_tiles_nm_x", "prep_x", "prep_y", NX, "_i")}, old.this._tiles[{SRC("i", "new_tiles_nm_x", "prep_x", "prep_y", NX)}].h, this._unknown_tile.h)))',
                 f'forall(lambda i: Implies(And(_i*{NX} <= i, i < {N}), this._tiles[i].h == old.this._tiles[i].h))'],
                 hints=[f'forall(lambda i: Implies(And(0 <= i, i < new_tiles.len), And({MONO("(prep_y + _i)")})))'], dec=f'{NY} - _i')}),
]


def ta(ns, nx, ox, oy, x, y):
    """Index of the tile slot of a cell."""
    return ns.eng.uf('tile_at', [ns.unv(v) for v in (nx, ox, oy, x, y)], z3.IntSort())


def ta_def(ns):
    nx, ox, oy, x, y = z3.Ints('nx? ox? oy? x? y?')
    t = ta(ns, nx, ox, oy, x, y)
    return z3.ForAll([nx, ox, oy, x, y], t == mkof(ns, (y + oy) / 128, (x + ox) / 128, nx), patterns=[t])


def origin_of(ns, m):
    try:
        return m._origin.x, m._origin.y
    except Exception:
        return m._width / 2, m._height / 2


def inside(ns, m, x, y):
    ox, oy = origin_of(ns, m)
    return z3.And(0 <= x + ox, x + ox < m._width, 0 <= y + oy, y + oy < m._height)


def tix(ns, m, x, y):
    ox, oy = origin_of(ns, m)
    return ta(ns, m._tiles_nm_x, ox, oy, x, y)


def read(ns, m, x, y):
    """What the map shows at cell (x, y): the state kept for it, or the unknown cell."""
    ox, oy = origin_of(ns, m)
    return z3.If(inside(ns, m, x, y), slot(ns, m, tix(ns, m, x, y), ((x + ox) % 128) * 128 + (y + oy) % 128), stof(ns, m, m._unknown_cell.h))


CFG['spec_funcs'].update(ta=ta, read=read, inside=inside, tix=tix)
AB = f'And(-{L} <= a0.x, a0.x <= {L}, -{L} <= a0.y, a0.y <= {L})'
UNK = [f'forall(lambda j: Implies(And(0 <= j, j < {NCELLS}), stof(this, cellh(this, this._unknown_tile.h, j)) == stof(this, this._unknown_cell.h)))']
# the cells that complete the last tiles but lie outside of the map are blank
PAD = [f'forall(lambda i, j: Implies(And(0 <= i, i < {N}, 0 <= j, j < {NCELLS}, Or(col(i, {NX})*128 + j / 128 >= this._width, row(i, {NX})*128 + j % 128 >= this._height)), slot(this, i, j) == stof(this, this._unknown_cell.h)))']
UALL = ['this._tiles', 'this._tiles_nm_x', 'this._tiles_nm_y', 'this._width', 'this._height', 'this._origin', 'heap:' + T, 'heap:GridCell']
OX, OY = 'this._origin.x', 'this._origin.y'
# addresses: the slot of a cell inside, and where it was before the map grew
EACH = lambda c: f'forall(lambda x, y: ({c}, tix(this, x, y)))'
TX, RT, CT, QY, QX = 'tix(this, x, y)', f'row(tix(this, x, y), {NX})', f'col(tix(this, x, y), {NX})', f'((y + {OY}) / 128)', f'((x + {OX}) / 128)'
H1 = [EACH(f'Implies(And(0 <= x + {OX}, x + {OX} < this._width), And(0 <= {QX}, {QX} < {NX}))'),
      EACH(f'Implies(And(0 <= y + {OY}, y + {OY} < this._height), And(0 <= {QY}, {QY} < {NY}))'),
      EACH(f'Implies(inside(this, x, y), And({QY}*{NX} >= 0, {QY}*{NX} + {NX} <= {NY}*{NX}))'),
      EACH(f'Implies(inside(this, x, y), And(0 <= {TX}, {TX} < {N}))'),
      EACH(f'Implies(inside(this, x, y), And({RT} == {QY}, {CT} == {QX}))')]
OLDX = [EACH('Implies(inside(old.this, x, y), inside(this, x, y))'),
        EACH(f'And((x + {OX}) / 128 == (x + old.{OX}) / 128 + {DX_}, (y + {OY}) / 128 == (y + old.{OY}) / 128 + {DY_}, (x + {OX}) % 128 == (x + old.{OX}) % 128, (y + {OY}) % 128 == (y + old.{OY}) % 128)'),
        EACH(f'Implies(inside(old.this, x, y), {INOLD("tix(this, x, y)", NX, DX_, DY_, ONX, ONY)})'),
        EACH(f'Implies(inside(old.this, x, y), tix(old.this, x, y) == {SRC("tix(this, x, y)", NX, DX_, DY_, ONX)})'),
        EACH('Implies(inside(old.this, x, y), And(0 <= tix(old.this, x, y), tix(old.this, x, y) < old.this._tiles.len))')]
VIEW = lambda i, j: f'If({INOLD(i, NX, DX_, DY_, ONX, ONY)}, slot(old.this, {SRC(i, NX, DX_, DY_, ONX)}, {j}), stof(old.this, old.this._unknown_cell.h))'
ULIM = 1 << 22
IA = lambda x, y, o='': f'((({x} + {o}{OX}) % 128)*128 + ({y} + {o}{OY}) % 128)'
SAMECELL = [EACH(f'Implies(And(inside(this, x, y), {TX} == tix(this, a0.x, a0.y)), And({QX} == {UCX} / 128, {QY} == {UCY} / 128))'),
            EACH(f'Implies({IA("x", "y")} == {IA("a0.x", "a0.y")}, And((x + {OX}) % 128 == {UCX} % 128, (y + {OY}) % 128 == {UCY} % 128))'),
            EACH(f'Implies(And(inside(this, x, y), {TX} == tix(this, a0.x, a0.y), {IA("x", "y")} == {IA("a0.x", "a0.y")}), And(x == a0.x, y == a0.y))')]
SRCT, RO, CO_ = SRC(TX, NX, DX_, DY_, ONX), f'({RT} - {DY_})', f'({CT} - {DX_})'
RS, CS = f'row({SRCT}, {ONX})', f'col({SRCT}, {ONX})'
INO = f'And(inside(this, x, y), {INOLD(TX, NX, DX_, DY_, ONX, ONY)})'
OLDPAD = [EACH(f'Implies({INO}, And({RO}*{ONX} >= 0, {RO}*{ONX} + {ONX} <= {ONY}*{ONX}, 0 <= {SRCT}, {SRCT} < old.this._tiles.len))'),
          EACH(f'Implies(And({INO}, Not(inside(old.this, x, y))), {VIEW(TX, IA("x", "y"))} == stof(old.this, old.this._unknown_cell.h))'),
          EACH(f'Implies(And({INO}, inside(old.this, x, y)), {VIEW(TX, IA("x", "y"))} == read(old.this, x, y))'),
          EACH(f'Implies(inside(this, x, y), {VIEW(TX, IA("x", "y"))} == read(old.this, x, y))')]
SLOTS = lambda f: f'forall(lambda i, j: Implies(And(0 <= i, i < {N}, 0 <= j, j < {NCELLS}), slot(this, i, j) == If(And(i == tix(this, a0.x, a0.y), j == ({UCX} % 128)*128 + {UCY} % 128), {f % VIEW("i", "j")}, {VIEW("i", "j")})))'
UINV = WF + LIVE(O) + UNK
READS = lambda f, p='': f'forall(lambda x, y: read(this, x, y) == If(And(x == a0.x, y == a0.y), {f}, read(old.this, x, y)))'
UPOST = lambda f: WF + LIVE(O) + UNK + DIM('this', ULIM) + GROW + PAD + ['inside(this, a0.x, a0.y)', READS(f)] + APART
WHOLE = H1 + SAMECELL
PLAIN = lambda l: [c.replace(OX, '(this._width / 2)').replace(OY, '(this._height / 2)') for c in l]
BLANKMAP = 'forall(lambda x, y: read(this, x, y) == proto())'
DEFS = [rowcol, ta_def]
SPECS += [
    S(UT + 'update(const DiscretePoint2D &, const AreaOccupancyObservation &)', inst='unbounded', requires=UREQ + LIVE(O) + UNK + PAD, modifies=UALL, defs=DEFS,
      post_hints=H1 + OLDX + [SLOTS('stv(upd(%s, a1))')] + SAMECELL + OLDPAD, ensures=UPOST('stv(upd(read(old.this, x, y), a1))')),
    S(UT + 'reset(const DiscretePoint2D &, const GridCell &)', inst='unbounded', requires=UREQ + LIVE(O) + UNK + PAD, modifies=UALL, defs=DEFS,
      post_hints=H1 + OLDX + [SLOTS('If(True, stv(a1), %s)')] + SAMECELL + OLDPAD, ensures=UPOST('stv(a1)')),
    S(UT + 'operator[](const DiscretePoint2D &) const', contract=False, inst='unbounded', requires=UREQ, modifies=[], defs=DEFS, ensures=['stv(result) == read(this, a0.x, a0.y)']),
    S(LT + 'operator[](const DiscretePoint2D &) const', contract=False, inst='plain', cls='LazyTiledGridMap', requires=WF + DIM('this', L) + ['inside(this, a0.x, a0.y)', AB], modifies=[], defs=DEFS,
      ensures=['stv(result) == read(this, a0.x, a0.y)']),
    S(UT + 'has_cell(const DiscretePoint2D &) const', modifies=[], ensures=['result']),
    S(UT + 'origin() const', modifies=[], contract=False, ensures=['same(result, this._origin)']),
]
for s in SPECS:
    if s.key in (LT + 'update(const DiscretePoint2D &, const AreaOccupancyObservation &)', LT + 'reset(const DiscretePoint2D &, const GridCell &)') and s.inst == 'plain':
        s.defs += DEFS
        s.post_hints += PLAIN(WHOLE)
        s.ensures += [READS('stv(upd(read(old.this, x, y), a1))' if 'update' in s.key else 'stv(a1)')]
    if '#ctor' in s.key:
        s.defs += DEFS
        s.ensures += UNK + PAD + [BLANKMAP]
        s.post_hints += PLAIN(H1) if s.inst == 'plain' else H1
# a copy starts with the same tiles
COPY = ['And(result._tiles.len == m._tiles.len, forall(lambda i: Implies(And(0 <= i, i < m._tiles.len), result._tiles[i].h == m._tiles[i].h)))', 'And(result._unknown_tile.h == m._unknown_tile.h, result._unknown_cell.h == m._unknown_cell.h, result._cell_prototype.h == m._cell_prototype.h)',
        'And(result._tiles_nm_x == m._tiles_nm_x, result._tiles_nm_y == m._tiles_nm_y, result._width == m._width, result._height == m._height, same(result._m_per_cell, m._m_per_cell))']
SPECS += [S('verif_copy(const LazyTiledGridMap &)', inst='plain', modifies=[], ensures=COPY),
          S('verif_copy(const UnboundedLazyTiledGridMap &)', inst='unbounded', modifies=[], ensures=COPY + ['same(result._origin, m._origin)'])]

LEMMAS = [('a place in a table has one row and one column', lemma_place)]
ASSUMPTIONS = ['use_count() == 1 means no other live pointer refers to the object (std::shared_ptr); live are the pointers of this map, of one arbitrary other map and of their tiles',
               'dimensions are at most 2^20 (2^22 after growth)', 'GridCell::clone and operator+= are known by their contracts (proved per cell kind by C06)',
               'an argument cell that lives in the map itself is exercised by the refuter only (self-reset)']
