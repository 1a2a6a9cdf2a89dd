"""Saved state loads back: byte stream, cells, maps."""
import z3
from lib import *
from vc.values import tsel
SZ_ = {'double': ('dbl', 8), 'int': ('int', 4), 'bool': ('bool', 1), 'unsigned long': ('ulong', 8), 'char': ('char', 1), 'short': ('short', 2), 'unsigned int': ('uint', 4)}
USED = ('double', 'int', 'bool', 'unsigned long')
SORT = {'dbl': z3.RealSort(), 'bool': z3.BoolSort()}


def dec(ns, nm, v, pos):
    """The object of the type that the bytes of v from pos on represent."""
    if nm == 'char':
        return z3.Select(v._v.ch['data'], ns.unv(pos))
    n = [b for a, b in SZ_.values() if a == nm][0]
    d = v._v.ch['data']
    bs = [z3.Select(d, ns.unv(pos) + k) for k in range(n)]
    t = ns.eng.uf('dec_' + nm, bs, SORT.get(nm, z3.IntSort()))
    return ns.wrap(Node('dbl', None, {'r': t, 'k': ns.eng.uf('deck_dbl', bs, z3.IntSort())}), ns.mem) if nm == 'dbl' else t


CELLSORT = opaque_sort('GridCell')


def ser(ns, c, k):
    """Byte k of what the cell writes (cells of a map are known by their serialize/deserialize contracts)."""
    return ns.eng.uf('ser', [ns.leaves(c)[0], ns.unv(k)], z3.IntSort())


def szc(ns):
    return z3.Int('cell_bytes')


def obs(ns, c):
    return ns.eng.uf('obs', [ns.leaves(c)[0]], z3.IntSort())


def loads(ns, c, v, pos):
    """If the bytes at pos are those a cell s wrote, c looks like s."""
    s, d, p = z3.Const('s?', CELLSORT), v._v.ch['data'], ns.unv(pos)
    k = ns.eng.uf('differs', [s, d, p], z3.IntSort())
    o = ns.eng.uf('obs', [s], z3.IntSort())
    return z3.ForAll([s], z3.Or(z3.And(0 <= k, k < szc(ns), z3.Select(d, p + k) != ns.eng.uf('ser', [s, k], z3.IntSort())), obs(ns, c) == o), patterns=[o])


def start(ns, w, y, x):
    """Offset of the bytes of cell (y, x) in the row by row order."""
    return ns.eng.uf('start', [ns.unv(w), ns.unv(y), ns.unv(x)], z3.IntSort())


def start_def(ns):
    w, y, x = z3.Ints('w? y? x?')
    t = start(ns, w, y, x)
    return z3.ForAll([w, y, x], t == (y*w + x)*szc(ns), patterns=[t])


MAPS = {'dyn': {'GridCell': 'opaque'}, 'ghosts': {'src': lambda eng: eng.rec_shape('UnboundedPlainGridMap')}}
CFG = {'dblx': True, 'spec_funcs': {'dec': dec, 'ser': ser, 'szc': szc, 'obs': obs, 'loads': loads, 'start': start}}
SPECS = []
VEC = 'const std::vector<char> &'
MAXB = 1 << 60
for t, (nm, n) in SZ_.items():
    ops = [
        S(f'Serializer::add_value<{t}>({t})', requires=[f'this.data.len <= {MAXB}'], modifies=['this.data'],
          ensures=[f'this.data.len == old.this.data.len + {n}', 'forall(lambda i: Implies(And(0 <= i, i < old.this.data.len), this.data[i] == old.this.data[i]))',
                   f'same(dec("{nm}", this.data, old.this.data.len), a0)']),
        S(f'operator<<<{t}>(Serializer &, {t})', requires=[f's.data.len <= {MAXB}'], modifies=['s.data'], contract=False,
          ensures=[f's.data.len == old.s.data.len + {n}', 'forall(lambda i: Implies(And(0 <= i, i < old.s.data.len), s.data[i] == old.s.data[i]))',
                   f'same(dec("{nm}", s.data, old.s.data.len), a1)', 'same(result.data, s.data)']),
        S(f'Deserializer::read_value<{t}>()', requires=[f'this.ptr + {n} <= this.data.len', f'this.data.len <= {MAXB}'], modifies=['this.ptr'],
          ensures=[f'this.ptr == old.this.ptr + {n}', f'same(result, dec("{nm}", this.data, old.this.ptr))']),
        S(f'operator>><{t}>(Deserializer &, {t} &)', requires=[f'd.ptr + {n} <= d.data.len', f'd.data.len <= {MAXB}'], modifies=['d.ptr', 'a1'], contract=False,
          ensures=[f'd.ptr == old.d.ptr + {n}', f'same(a1, dec("{nm}", d.data, old.d.ptr))']),
    ]
    SPECS += [s for s in ops if t in USED or '>::' not in s.key and '::' in s.key]
SPECS += [
    S(f'Serializer::append({VEC})', modifies=['this.data'],
      ensures=['this.data.len == old.this.data.len + a0.len', 'forall(lambda i: Implies(And(0 <= i, i < old.this.data.len), this.data[i] == old.this.data[i]))',
               'forall(lambda i: Implies(And(old.this.data.len <= i, i < this.data.len), this.data[i] == a0[i - old.this.data.len]))']),
    S(f'operator<<(Serializer &, {VEC})', modifies=['s.data'], contract=False,
      ensures=['s.data.len == old.s.data.len + a1.len', 'forall(lambda i: Implies(And(0 <= i, i < old.s.data.len), s.data[i] == old.s.data[i]))',
               'forall(lambda i: Implies(And(old.s.data.len <= i, i < s.data.len), s.data[i] == a1[i - old.s.data.len]))', 'same(result.data, s.data)']),
    S('Serializer::reserve(unsigned long)', modifies=[]),
    S('Serializer::result() const', modifies=[], ensures=['same(result, this.data)']),
    S(f'Serializer::#ctor({VEC})', ensures=['same(this.data, a0)']),
    S('Serializer::#ctor(unsigned long)', ensures=['this.data.len == 0']),
    S(f'Deserializer::#ctor({VEC}, unsigned long)', contract=False, ensures=['this.ptr == a1', 'same(this.data, a0)']),
    S('Deserializer::pos() const', modifies=[], ensures=['result == this.ptr']),
    S('Deserializer::inc_pose(unsigned long)', requires=['this.ptr <= %d' % MAXB, 'a0 <= %d' % MAXB], modifies=['this.ptr'], ensures=['this.ptr == old.this.ptr + a0']),
]

# ---- cells
OCC, QUAL, UNKN = 'this._occupancy.prob_occ', 'this._occupancy.estimation_quality', 'this._is_unknown'
BEL = [f'this._belief._beliefs[{k}]' for k in range(4)]


def base_at(v, p):
    return [f'same({OCC}, dec("dbl", {v}, {p}))', f'same({QUAL}, dec("dbl", {v}, {p} + 8))', f'{UNKN} == dec("bool", {v}, {p} + 16)']


def belief_at(v, p):
    return [f'same({b}, dec("dbl", {v}, {p} + {17 + 8*i}))' for i, b in enumerate(BEL)]


SPECS += [
    S('GridCell::serialize() const', modifies=[], ensures=['result.len == 17'] + base_at('result', '0')),
    S(f'GridCell::deserialize({VEC}, unsigned long)', requires=['a1 + 17 <= a0.len', f'a0.len <= {MAXB}'], modifies=['this._occupancy', 'this._is_unknown'], ensures=['result == a1 + 17'] + base_at('a0', 'a1')),
]
TBMGET = {'unknown': 0, 'empty': 1, 'occupied': 2, 'conflict': 3}
SPECS += [S(f'TBM::{k}() const', modifies=[], ensures=[f'same(result, this._beliefs[{i}])']) for k, i in TBMGET.items()]
SPECS += [S('TBM::#ctor(double, double, double, double)', ensures=[f'same(this._beliefs[{i}], a{i})' for i in range(4)])]
for c in ('TbmOccConsistentCell', 'TbmUnknownEvenOccCell', 'CredibilistCell'):
    d = c if c == 'CredibilistCell' else 'TbmBaseCell'
    SPECS += [
        S(f'{d}::serialize() const', cls=c, modifies=[], ensures=['result.len == 49'] + base_at('result', '0') + belief_at('result', '0')),
        S(f'{d}::deserialize({VEC}, unsigned long)', cls=c, requires=['a1 + 49 <= a0.len', f'a0.len <= {MAXB}'], modifies=['this._occupancy', 'this._is_unknown', 'this._belief'], ensures=['result == a1 + 49'] + base_at('a0', 'a1') + belief_at('a0', 'a1')),
    ]

# ---- maps of cells of any kind
U = 'UnboundedPlainGridMap::'
SZB = 'And(1 <= szc(), szc() <= 65536)'
CELL = [S('GridCell::serialize() const', trusted=True, inst='map', ensures=['result.len == szc()', 'forall(lambda k: Implies(And(0 <= k, k < szc()), result[k] == ser(this, k)))']),
        S(f'GridCell::deserialize({VEC}, unsigned long)', trusted=True, inst='map', cfg=MAPS, requires=['a1 + szc() <= a0.len'], modifies=['this'], ensures=['result == a1 + szc()', 'loads(this, a0, a1)']),
        S('GridCell::clone() const', trusted=True, inst='map', ensures=['Not(result.null)'])]
SPECS += CELL
WF = lambda m: [f'And(1 <= {m}._width, 1 <= {m}._height, {m}._width <= 65536, {m}._height <= 65536, {m}._width*{m}._height <= 2147483647)', f'{m}._cells.len == {m}._height', f'forall(lambda y: Implies(And(0 <= y, y < {m}._height), {m}._cells[y].len == {m}._width))',
                f'forall(lambda y, x: Implies(And(0 <= y, y < {m}._height, 0 <= x, x < {m}._width), Not({m}._cells[y][x].null)))']
HEAD = lambda m, v: [f'dec("int", {v}, 0) == {m}._height', f'dec("int", {v}, 4) == {m}._width', f'same(dec("dbl", {v}, 8), {m}._m_per_cell)', f'dec("int", {v}, 16) == {m}._origin.x', f'dec("int", {v}, 20) == {m}._origin.y']
BEFORE = lambda w, o, i: f'0 <= y, 0 <= x, x < {w}, Or(y < {o}, And(y == {o}, x < {i}))'
BYTES = lambda m, v, h, o, i: (f'forall(lambda y, x, k: (Implies(And({BEFORE(m + "._width", o, i)}, 0 <= k, k < szc()), {v}[{h} + start({m}._width, y, x) + k] == ser({m}._cells[y][x].val, k)),'
                               f' z3.MultiPattern(start({m}._width, y, x), ser({m}._cells[y][x].val, k))))')
ENC = lambda m, v: HEAD(m, v) + [f'{v}.len == 24 + start({m}._width, {m}._height, 0)', BYTES(m, v, 24, f'{m}._height', '0')]
SIZE = lambda o, i: [f'ms.data.len == start(this._width, {o}, {i})', f'forall(lambda y, x: (Implies(And({BEFORE("this._width", o, i)}), start(this._width, y, x) + szc() <= ms.data.len), start(this._width, y, x)))', BYTES('this', 'ms.data', 0, o, i)]
SPECS += [
    S(U + 'save_state() const', inst='map', cfg=MAPS, requires=WF('this') + [SZB], modifies=[], defs=[start_def], ensures=ENC('this', 'result'),
      loops={0: dict(inv=[f'And(0 <= _i, _i <= this._height)'] + SIZE('_i', '0'), dec='this._height - _i'),
             1: dict(inv=[f'And(0 <= _i, _i <= this._width)'] + SIZE('_o', '_i'), dec='this._width - _i')}),
]
SRC = 'heap("src")'
DIMS = [f'And(this._width == {SRC}._width, this._height == {SRC}._height, same(this._m_per_cell, {SRC}._m_per_cell), same(this._origin, {SRC}._origin), w == {SRC}._width, h == {SRC}._height)']
LIKE = lambda o, i: f'forall(lambda y, x: Implies(And({BEFORE("this._width", o, i)}), And(Not(this._cells[y][x].null), obs(this._cells[y][x].val) == obs({SRC}._cells[y][x].val))))'
BELOW = lambda o, i: f'forall(lambda k: Implies(And(0 <= k, k < szc()), start(this._width, {o}, {i}) + k >= 0))'
SPECS += [
    S(U + 'load_state(const std::vector<char> &)', inst='map', cfg=MAPS, requires=[SZB] + WF(SRC) + ENC(SRC, 'a0'), defs=[start_def],
      modifies=['this._cells', 'this._width', 'this._height', 'this._m_per_cell', 'this._origin'],
      ensures=WF('this') + [c.replace(f', w == {SRC}._width, h == {SRC}._height', '') for c in DIMS] + [LIKE('this._height', '0')],
      loops={0: dict(inv=DIMS + ['And(0 <= _i, _i <= h, this._cells.len == h, pos == 24 + start(w, _i, 0))', 'forall(lambda y: Implies(And(0 <= y, y < h), this._cells[y].len == If(y < _i, w, 0)))', LIKE('_i', '0')], dec='h - _i'),
             1: dict(inv=DIMS + ['And(0 <= i, i <= w, this._cells.len == h, pos == 24 + start(w, _o, i))', 'forall(lambda y: Implies(And(0 <= y, y < h), this._cells[y].len == If(y < _o, w, If(y == _o, i, 0))))', LIKE('_o', 'i')], dec='w - i')}),
]

# ---- a map of several levels: each level writes its bytes, one after another, preceded by their number
MAPSORT = opaque_sort('GridMap')
R_ = 'RescalableCachingGridMap<UnboundedPlainGridMap>::'


def mser(ns, m, k):
    return ns.eng.uf('mser', [ns.leaves(m)[0], ns.unv(k)], z3.IntSort())


def mof(name):
    return lambda ns, m: ns.eng.uf(name, [ns.leaves(m)[0]], z3.IntSort())


def mloads(ns, m, v):
    """If v is what a map s wrote, m looks like s (proved above for the unbounded plain map)."""
    s, d = z3.Const('s?', MAPSORT), v._v.ch['data']
    k = ns.eng.uf('mdiffers', [s, d], z3.IntSort())
    o, l = ns.eng.uf('mobs', [s], z3.IntSort()), ns.eng.uf('mlen', [s], z3.IntSort())
    return z3.ForAll([s], z3.Or(v._v.ch['len'] != l, z3.And(0 <= k, k < l, z3.Select(d, k) != ns.eng.uf('mser', [s, k], z3.IntSort())), mof('mobs')(ns, m) == o), patterns=[o])


def off(ns, i):
    """Where the bytes of level i begin."""
    return ns.eng.uf('off', [ns.unv(i)], z3.IntSort())


def wid(name):
    return lambda ns, m: ns.eng.uf(name, [mof('mobs')(ns, m)], z3.IntSort())


LVLS = ('vec', ('uptr', ('opaque', 'GridMap')))
LCFG = {'dyn': {'GridMap': 'opaque', 'GridCell': 'opaque', 'UnboundedPlainGridMap': ('opaque', 'GridMap')}, 'ghosts': {'src': lambda eng: LVLS}}
CFG['spec_funcs'].update(mser=mser, mlen=mof('mlen'), mobs=mof('mobs'), mloads=mloads, off=off, wid=wid('map_width'), hei=wid('map_height'))
V_ = 'this._map_cache'
FITS = lambda v: f'And({v}.len >= 2, {v}.len <= 64, wid({v}[{v}.len - 2].val) <= 2, hei({v}[{v}.len - 2].val) <= 2)'
LEVELS = lambda v: [f'And({v}.len >= 2, {v}.len <= 64)', f'forall(lambda i: Implies(And(0 <= i, i < {v}.len), And(Not({v}[i].null), mlen({v}[i].val) >= 24, mlen({v}[i].val) <= {1 << 40})))']
# the levels as they are once they lead down to a small one (ensure_map_cache_is_continuous settles them; C14)
SV = 'heap("src")'
EQ = lambda v: f'And({v}.len == {SV}.len, forall(lambda i: Implies(And(0 <= i, i < {v}.len), And(Not({v}[i].null), {v}[i].val == {SV}[i].val))))'
OFF = ['off(z3.IntVal(0)) == 0', f'forall(lambda i: (Implies(And(0 <= i, i < {SV}.len), off(i + 1) == off(i) + 8 + mlen({SV}[i].val)), mlen({SV}[i].val)))']
SETTLED = LEVELS(SV) + [FITS(SV)]
TOSRC = [f'Implies({FITS(V_)}, {EQ(V_)})', f'{V_}[0].val == {SV}[0].val', f'{V_}.len >= 2']
PUT = lambda d, n: [f'forall(lambda i: (Implies(And(0 <= i, i < {n}), And(dec("ulong", {d}, off(i)) == mlen({SV}[i].val), off(i) >= 0, off(i) + 8 + mlen({SV}[i].val) <= off({n}))), mlen({SV}[i].val)))',
                    f'forall(lambda i, k: (Implies(And(0 <= i, i < {n}, 0 <= k, k < mlen({SV}[i].val)), {d}[off(i) + 8 + k] == mser({SV}[i].val, k)), mser({SV}[i].val, k)))']
SPECS += [
    S('GridMap::save_state() const', trusted=True, inst='levels', cfg=LCFG, ensures=['result.len == mlen(this)', 'forall(lambda k: Implies(And(0 <= k, k < mlen(this)), result[k] == mser(this, k)))']),
    S('UnboundedPlainGridMap::load_state(const std::vector<char> &)', trusted=True, inst='levels', cfg=LCFG, modifies=['this'], ensures=['mloads(this, a0)']),
    S('UnboundedPlainGridMap::#ctor(std::shared_ptr<GridCell>, const GridMapParams &)', trusted=True, inst='levels', cfg=LCFG),
    S(R_ + 'ensure_map_cache_is_continuous() const', trusted=True, inst='levels', cfg=LCFG, requires=[f'{V_}.len >= 2'], modifies=[V_ + '.*'],
      ensures=[f'If({FITS("old." + V_)}, And({V_}.len == old.{V_}.len, forall(lambda i: Implies(And(0 <= i, i < {V_}.len), And({V_}[i].null == old.{V_}[i].null, {V_}[i].val == old.{V_}[i].val)))), {EQ(V_)})']),
    S(R_ + 'save_state() const', inst='levels', cfg=LCFG, requires=SETTLED + TOSRC, modifies=[V_ + '.*'], defs=OFF,
      ensures=[EQ(V_), f'result.len == off({SV}.len)'] + PUT('result', SV + '.len'),
      loops={0: dict(inv=[f'Implies(id > 0, {EQ(V_)})'] + TOSRC + [f'And(0 <= id, id <= {SV}.len)', f'And(map_s.data.len == off(id), off(id) >= 0, off(id) <= id*({(1 << 40) + 8}))'] + PUT('map_s.data', 'id'), dec=f'{SV}.len - id')}),
]
SEEN = lambda n: [f'{V_}.len == {n}', f'forall(lambda i: Implies(And(0 <= i, i < {n}), And(Not({V_}[i].null), mobs({V_}[i].val) == mobs({SV}[i].val))))']
SPECS += [
    S(R_ + 'load_state(const std::vector<char> &)', inst='levels', cfg=LCFG, requires=SETTLED + [f'data.len == off({SV}.len)', f'data.len <= {MAXB}'] + PUT('data', SV + '.len'), defs=OFF,
      modifies=[V_ + '.*', 'this._scale_id', 'this._active_map'], ensures=SEEN(SV + '.len') + ['this._scale_id == 0'],
      loops={0: dict(inv=[f'And(0 <= {V_}.len, {V_}.len <= {SV}.len)', f'map_d.ptr == off({V_}.len)', 'same(map_d.data, data)', f'Implies({V_}.len > 0, And(Not({V_}[{V_}.len - 1].null), mobs({V_}[{V_}.len - 1].val) == mobs({SV}[{V_}.len - 1].val)))'] + SEEN(V_ + '.len')[1:], dec=f'{SV}.len - {V_}.len')}),
]
SPECS += [S(f'RegularSquaresGrid::{a}() const', trusted=True, inst='small', cfg=LCFG, ensures=[f'result == {b}(this)']) for a, b in (('width', 'wid'), ('height', 'hei'))]
SPECS += [S('RegularSquaresGrid::scale() const', trusted=True, inst='small', cfg=LCFG),
          S(R_ + 'ensure_map_cache_is_continuous() const', inst='small', cfg=LCFG, requires=[FITS(V_), f'forall(lambda i: Implies(And(0 <= i, i < {V_}.len), Not({V_}[i].null)))'], modifies=[], ensures=[])]  # levels that lead down to a small one stay as they are


def lemma_roundtrip():
    """Bytes that equal those a cell wrote decode to what it was (dec is a function of the bytes)."""
    fs = []
    for nm, n in (('dbl', 8), ('bool', 1)):
        a, b = z3.Array('a?', z3.IntSort(), z3.IntSort()), z3.Array('b?', z3.IntSort(), z3.IntSort())
        p, i = z3.Ints('p? i?')
        d = z3.Function('dec?' + nm, *[z3.IntSort()]*n, SORT.get(nm, z3.IntSort()))
        at = lambda v, q: d(*[z3.Select(v, q + k) for k in range(n)])
        fs += [z3.Implies(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < 49), z3.Select(b, p + i) == z3.Select(a, i))), at(b, p + o) == at(a, z3.IntVal(o)))
               for o in ((0, 8, 17, 25, 33, 41) if nm == 'dbl' else (16,))]
    return z3.And(fs)


def lemma_start():
    """The offsets are those of consecutive cells in row by row order."""
    w, y, x, s = z3.Ints('w? y? x? s?')
    t = lambda y, x: (y*w + x)*s
    return z3.And(t(z3.IntVal(0), z3.IntVal(0)) == 0, t(y, x + 1) == t(y, x) + s, t(y + 1, z3.IntVal(0)) == t(y, w))


LEMMAS = [('a cell decoded from a copy of its bytes is what it was', lemma_roundtrip), ('cells are stored one after another', lemma_start)]
ASSUMPTIONS = ['an object stored into raw bytes is read back from the same bytes unchanged (object representation of double, int, bool, size_t, short, unsigned)',
               'a map knows its cells by their serialize/deserialize contracts: a fixed number of bytes per cell kind, equal bytes load to equal observable state (proved here for every cell kind)',
               'width*height fits an int (the map is in memory)', 'misaligned stores into the byte buffer behave as on the target platform',
               'a level of a RescalableCachingGridMap is known by its save_state/load_state contracts (proved here for the unbounded plain map); that ensure_map_cache_is_continuous makes levels that lead down to a small one and keeps the finest is C14']
