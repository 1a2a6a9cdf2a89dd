"""Map images, text patches and generated text worlds."""
from lib import *
OPQ = lambda n: ('opaque', n)
OUT = ('rec', 'Out', (('Out::path', ('str',)), ('Out::text', ('str',)), ('Out::px', ('vec', ('int', 16, True)))))


def at(ns, w, r, c):
    """Index of column c of row r when rows of w follow each other."""
    return ns.eng.uf('at', [ns.unv(w), ns.unv(r), ns.unv(c)], z3.IntSort())


def at_laws(f, w):
    """What is used of at(w, r, c) = r*w + c."""
    r, c, q, d = z3.Ints('r? c? q? d?')
    x, y = f(w, r, c), f(w, q, d)
    inr = z3.And(0 <= c, c < w, 0 <= d, d < w)
    return [f(w, I(0), I(0)) == 0, z3.ForAll([r, c], x == f(w, r, I(0)) + c, patterns=[x]), z3.ForAll([r], f(w, r + 1, I(0)) == f(w, r, I(0)) + w, patterns=[f(w, r, I(0))]),
            z3.ForAll([r, c, q, d], z3.Implies(z3.And(inr, r < q), x < y), patterns=[z3.MultiPattern(x, y)]),
            z3.ForAll([r, c], z3.Implies(z3.And(r >= 0, c >= 0, w >= 0), x >= 0), patterns=[x]),
            z3.ForAll([r, c], z3.Implies(z3.And(r >= 0, r <= 1 << 17, w >= 0, w <= 1 << 12), x <= (1 << 29) + c), patterns=[x])]


def laws(*ws):
    def f(ns):
        g = lambda w, r, c: at(ns, w, r, c)
        return z3.And(*[z3.And(*at_laws(g, ns.unv(ns.term(w)))) for w in ws])
    return f


def area(ns):
    """w*h as the end of row h - 1"""
    w, h = ns.unv(ns.term('map._width')), ns.unv(ns.term('map._height'))
    return at(ns, w, h, I(0)) == w * h


def lemma_at(k):
    def f():
        w = z3.Int('w')
        g = lambda w, r, c: r * w + c
        t = at_laws(g, w)[k]
        if z3.is_quantifier(t):
            r = [z3.Int('v%d' % i) for i in range(t.num_vars())]
            t = z3.substitute_vars(t.body(), *reversed(r))
        return t
    return f


LEMMAS = [(f'rows follow each other ({k})', lemma_at(k)) for k in range(6)]


# ---- a map with any placement of its origin
GMO = ('rec', 'GridMap', (('RegularSquaresGrid::_width', ('int', 32, True)), ('RegularSquaresGrid::_height', ('int', 32, True)), ('RegularSquaresGrid::_m_per_cell', ('dbl',)),
                          ('GridMap::content', OPQ('CellStore')), ('GridMap::ox', ('int', 32, True)), ('GridMap::oy', ('int', 32, True))))


def origin(eng, this, args):
    m = eng.load(this)
    return Node('rec', 'DiscretePoint2D', {'DiscretePoint2D::x': m.ch['GridMap::ox'], 'DiscretePoint2D::y': m.ch['GridMap::oy']})


def shade(ns, x, y):
    """Brightness of the pixel that shows cell (x, y) of 'map'."""
    m = ns.term('map')._v if hasattr(ns.term('map'), '_v') else ns.unv(ns.term('map'))
    c = ns.eng.uf_tree('cell_at', [m.ch['GridMap::content'], ns.unv(x), ns.unv(y)], ns.eng.rec_shape('GridCell'))
    o = c.ch['GridCell::_occupancy'].ch['Occupancy::prob_occ']
    o = o.ch['r'] if isinstance(o, Node) else o
    return bright(o)


def bright(o):
    v = z3.If(o == -1, z3.Q(1, 2), z3.If(o < 0, z3.RealVal(0), z3.If(o > 1, z3.RealVal(1), o)))
    return z3.ToInt(255 * (1 - v))


def lemma_bright():
    a, b = z3.Reals('a b')
    return z3.Implies(z3.And(0 <= a, a <= b, b <= 1), z3.And(bright(a) >= bright(b), 0 <= bright(b), bright(a) <= 255, bright(z3.RealVal(0)) == 255, bright(z3.RealVal(1)) == 0))


LEMMAS += [('brightness decreases with occupancy', lemma_bright)]


def num(ns, x):
    return z3.IntToStr(ns.unv(x))


def txt(ns, *parts):
    ps = [z3.StringVal(p) if isinstance(p, str) else ns.unv(p) for p in parts]
    return z3.Concat(*ps)


CFG = {'dyn': {'GridMap': GMO}, 'abstract': {'GridMap::operator[](const DiscretePoint2D &) const': map_cell, 'RegularSquaresGrid::origin() const': origin},
       'ghosts': {'out': OUT}, 'shapes': {'std::basic_ofstream<char>': OPQ('ofstream'), 'std::basic_ostream<char>': OPQ('ofstream')}, 'spec_funcs': {'at': at, 'shade': shade, 'num': num, 'txt': txt}}
W, H = 'map._width', 'map._height'
PX, TX = 'heap("out").px', 'heap("out").text'
HEAD = f'{TX} == txt("P5\\n", num({W}), "\\n", num({H}), "\\n255\\n")'
PIX = lambda r, c: f'{PX}[at({W}, {r}, {c})] == shade({c} - map.ox, {H} - map.oy - 1 - {r})'
ROWS = lambda n: f'forall(lambda r, c: (Implies(And(0 <= r, r < {n}, 0 <= c, c < {W}), {PIX("r", "c")}), at({W}, r, c)))'
ROWN = f'({H} - map.oy - 1 - area_id.y)'
dump = S('GridMapToPgmDumber::dump_map(std::basic_ofstream<char> &, const GridMap &)', defs=[laws(W), area],
         requires=[f'And(1 <= {W}, {W} <= 1 << 20, 1 <= {H}, {H} <= 1 << 20)', f'{W}*{H} <= {2**31 - 1}', 'And(iabs(map.ox) <= 1 << 29, iabs(map.oy) <= 1 << 29)', f'{PX}.len == 0', f'{TX} == ""'], modifies=['heap:out'],
         ensures=['heap("out").path == oldheap("out").path', HEAD, f'{PX}.len == {W}*{H}', ROWS(H)],
         loops={0: dict(inv=['heap("out").path == oldheap("out").path', HEAD, f'And(-map.oy - 1 <= area_id.y, area_id.y <= {H} - map.oy - 1)', f'val_nm == at({W}, {ROWN}, 0)', f'{PX}.len == val_nm', ROWS(ROWN)], dec='area_id.y + map.oy + 1'),
                1: dict(inv=['heap("out").path == oldheap("out").path', HEAD, f'And(-map.ox <= area_id.x, area_id.x <= {W} - map.ox)', f'val_nm == at({W}, {ROWN}, area_id.x + map.ox)', f'{PX}.len == val_nm', ROWS(ROWN),
                             f'forall(lambda c: (Implies(And(0 <= c, c < area_id.x + map.ox), {PIX(ROWN, "c")}), at({W}, {ROWN}, c)))'], dec=f'{W} - map.ox - area_id.x')})
omu = S('GridMapToPgmDumber::on_map_update(const GridMap &)', requires=dump.requires + ['this._id < 1 << 62'], modifies=['heap:out', 'this._id'], defs=[laws(W), area],
        ensures=['this._id == old.this._id + 1', 'heap("out").path == txt(this._base_fname, num(old.this._id), ".pgm")'] + dump.ensures[1:])
pctor = S('GridMapToPgmDumber::#ctor(const std::basic_string<char> &)', ensures=['this._base_fname == txt(base_fname, "_")', 'this._id == 0'])
SPECS = [dump, omu, pctor]


# ---- text patches
STREAM = ('rec', 'istream', (('lines', OPQ('Lines')), ('pos', ('int', 64, True)), ('good', ('bool',))))


def tdiv(ns, a, b):
    a, b = ns.unv(a), ns.unv(b)
    return z3.If(a >= 0, a / b, -((-a) / b))


def line(ns, k):
    r = ns.term('raster') if 'raster' in ns.names else ns.term('src_raster')
    return ns.eng.uf('line', [r._v.ch['lines'], ns.unv(k)], z3.StringSort())


def ll(ns, k):
    from vc.stdlib import Strings
    return Strings(ns.eng).len(line(ns, k))


def chat(ns, k, j):
    from vc.stdlib import Strings
    return Strings(ns.eng).chr(line(ns, k), ns.unv(j))


def rowof(ns, w, v):
    return ns.eng.uf('row_of', [ns.unv(w), ns.unv(v)], z3.IntSort())


def row_def(ns):
    """Column c < w of row r is in row r."""
    w, r, c = z3.Ints('w? r? c?')
    t = at(ns, w, r, c)
    return z3.ForAll([w, r, c], z3.Implies(z3.And(0 <= c, c < w), rowof(ns, w, t) == r), patterns=[t])


def lemma_row():
    w, r, c = z3.Ints('w r c')
    return z3.Implies(z3.And(0 <= c, c < w), (r*w + c) / w == r)


def lemma_size():
    a, b = z3.Ints('a b')
    return z3.Implies(z3.And(0 <= a, a <= 1 << 12, 0 <= b, b <= 1 << 17), z3.And(0 <= a*b, a*b <= 1 << 29))


LEMMAS += [('sizes of zoomed rasters', lemma_size), ('a place in rows has one row', lemma_row)]
TCFG = {'strings': 'uf', 'shapes': {'std::basic_istream<char>': STREAM}, 'spec_funcs': {'at': at, 'll': ll, 'tdiv': tdiv, 'chat': chat, 'rowof': rowof}, 'ghosts': {}, 'dyn': {'GridMap': GMO}}
PT = 'patches'
RH, RW = 'this._curr_raster_h', 'this._curr_raster_w'


class Seq:
    """Clauses about a sequence of marked cells, whatever it is kept in."""

    def __init__(self, p, w, h, x, y, occ, q):
        self.p, self.w, self.h, self.x, self.y, self.occ, self.q = p, w, h, x, y, occ, q

    def row(self, y):
        return f'rowof({self.h}, -({y}))'

    def ok(self, n):
        r, c = self.row(self.y('i')), f'rowof({self.w}, {self.x("i")})'
        return f'forall(lambda i: Implies(And(0 <= i, i < {self.p}.len), And(0 <= {r}, {r} < {n}, 0 <= {self.x("i")}, {self.x("i")} <= 1 << 30, -(1 << 30) <= {self.y("i")}, {self.y("i")} <= 0, {c} < ll({r}), 0 <= {c}, ' \
            f'{self.occ("i")} == If(chat({r}, {c}) == 32, 0, 1), {self.q("i")} == 1)))'

    def end(self, y):
        return f'at({self.w}, ll({self.row(y)}), 0) - 1'

    def adj(self):
        x, y = self.x, self.y
        return f'forall(lambda i: Implies(And(0 <= i, i + 1 < {self.p}.len), Or(And({y("i + 1")} == {y("i")}, {x("i + 1")} == {x("i")} + 1), And({x("i + 1")} == 0, {y("i + 1")} == {y("i")} - 1, {x("i")} == {self.end(y("i"))}))))'

    def first(self):
        return f'Implies({self.p}.len > 0, And({self.x("0")} == 0, {self.y("0")} == 0))'

    def last(self, x, y):
        n = f'{self.p}.len - 1'
        return f'And({self.p}.len > 0, {self.x(n)} == {x}, {self.y(n)} == {y})'

    def at0(self):
        e = f'at({self.w}, ll({RH} - 1), 0) - 1'
        return f'If({RH} == 0, {self.p}.len == 0, And(rowof({self.h}, at({self.h}, {RH}, 0) - 1) == {RH} - 1, {self.last(e, f"1 - at({self.h}, {RH}, 0)")}))'

    def all(self):
        return [self.ok(RH), self.adj(), self.first(), self.at0(), f'{RH} >= 0']


def seq(p):
    return Seq(p, 'w_scale', 'h_scale', lambda i: f'{p}[{i}].coord.x', lambda i: f'{p}[{i}].coord.y', lambda i: f'real({p}[{i}].occupancy.prob_occ)', lambda i: f'real({p}[{i}].occupancy.estimation_quality)')


P_ = seq(PT)
WX, WY = 'world_coord.x', 'world_coord.y'
ATROW = f'If(row_i == 0, {P_.at0()}, And({P_.row(WY + " + 1")} == {RH}, {P_.last(f"at(w_scale, ll({RH}), 0) - 1", WY + " + 1")}))'
NEXT = f'Or({PT}.len == 0, And({P_.y("patches.len - 1")} == {WY}, {P_.x("patches.len - 1")} + 1 == {WX}), And({WX} == 0, {P_.y("patches.len - 1")} == {WY} + 1, {P_.x("patches.len - 1")} == {P_.end(P_.y("patches.len - 1"))}))'
START = f'Implies({PT}.len == 0, And({WX} == 0, {WY} == 0))'
INROW = f'If({WX} > 0, {P_.last(WX + " - 1", WY)}, {ATROW})'
WIDE = lambda n: [f'forall(lambda k: Implies(And(0 <= k, k < {n}), And(0 < ll(k), ll(k) <= {RW})))', f'Or({RW} == 0, exists(lambda k: And(0 <= k, k < {n}, ll(k) == {RW})))']
STR = ['raster.pos >= 0', 'same(raster.lines, old.raster.lines)']
MX = 1 << 12
FEW = f'forall(lambda k: Implies(0 <= k, And(ll(k) <= 1 << 17, Implies(k >= 1 << 17, ll(k) == 0))))'
pbr = S('GridMapPatcher::patches_by_text_raster(std::basic_istream<char> &, int, int)', inst='txt', cfg=TCFG, defs=[laws('w_scale', 'h_scale'), row_def],
        requires=[f'And(1 <= w_scale, w_scale <= {MX}, 1 <= h_scale, h_scale <= {MX})', 'raster.pos == 0', FEW], modifies=['this._curr_raster_w', 'this._curr_raster_h', 'raster'],
        ensures=seq('result').all() + WIDE(RH) + [f'{RH} <= 1 << 17', f'{RW} <= 1 << 17', f'Or(ll({RH}) == 0, Not(raster.good))'],
        derived=[f'And(0 <= w_scale*{RW}, w_scale*{RW} <= 1 << 29, 0 <= h_scale*{RH}, h_scale*{RH} <= 1 << 29)'],
        loops={0: dict(inv=[*P_.all(), f'{WY} == -at(h_scale, {RH}, 0)', f'Implies({RH} > 0, ll({RH} - 1) > 0)', f'{RW} >= 0', f'Or(Not(raster.good), raster.pos == {RH})'] + WIDE(RH)),
               1: dict(inv=[P_.ok(RH + ' + 1'), P_.adj(), P_.first(), f'{WY} == -at(h_scale, {RH}, row_i)', 'And(0 <= row_i, row_i <= h_scale)', ATROW], dec='h_scale - row_i'),
               2: dict(inv=[P_.ok(RH + ' + 1'), P_.adj(), P_.first(), f'{WX} == at(w_scale, _i, 0)', INROW]),
               3: dict(inv=[P_.ok(RH + ' + 1'), P_.adj(), P_.first(), f'{WX} == at(w_scale, _o, col_i)', 'And(0 <= col_i, col_i <= w_scale)', INROW, NEXT, START], dec='w_scale - col_i')})
SPECS += [pbr]

# the patches reach the map
UPD = rec('Upd', x=('int', 32, True), y=('int', 32, True), occ=B_, prob=D_, est=D_, quality=D_)


def note_update(eng, this, args):
    c, o = eng.rv(args[0]), eng.rv(args[1])
    oc = o.ch['AreaOccupancyObservation::occupancy']
    log(eng, 'upd', x=c.ch['DiscretePoint2D::x'], y=c.ch['DiscretePoint2D::y'], occ=o.ch['AreaOccupancyObservation::is_occupied'], prob=oc.ch['Occupancy::prob_occ'], est=oc.ch['Occupancy::estimation_quality'],
        quality=o.ch['AreaOccupancyObservation::quality'])


PCFG = dict(TCFG, ghosts={'upd': ('vec', UPD)}, abstract={'GridMap::update(const DiscretePoint2D &, const AreaOccupancyObservation &)': note_update})
UP = 'heap("upd")'
NEAR = 'And(iabs({0}.x) <= 1 << 29, iabs({0}.y) <= 1 << 29)'.format
SENT = lambda n, q: f'forall(lambda i: Implies(And(0 <= i, i < {n}), And({UP}[i].x == patches[i].coord.x + offset.x, {UP}[i].y == patches[i].coord.y + offset.y, {UP}[i].occ, real({UP}[i].quality) == 1, ' \
    f'real({UP}[i].prob) == real(patches[i].occupancy.prob_occ), real({UP}[i].est) == real(patches[i].occupancy.estimation_quality))))'
app = S('GridMapPatcher::apply_patches<GridMap>(GridMap &, const DiscretePoint2D &, const std::vector<GridMapPatcher::GridMapPatch> &)', inst='txt', cfg=PCFG, modifies=['heap:upd'],
        requires=[f'{UP}.len == 0', NEAR('offset'), 'forall(lambda i: Implies(And(0 <= i, i < patches.len), And(iabs(patches[i].coord.x) <= 1 << 30, iabs(patches[i].coord.y) <= 1 << 30)))'],
        ensures=[f'{UP}.len == patches.len', SENT('patches.len', 1)], loops={0: dict(inv=[f'{UP}.len == _i', SENT('_i', 1)])})


def marked(ox, oy):
    return Seq(UP, 'w_zoom', 'h_zoom', lambda i: f'({UP}[{i}].x - {ox})', lambda i: f'({UP}[{i}].y - {oy})', lambda i: f'real({UP}[{i}].prob)', lambda i: f'real({UP}[{i}].est)')


def placed(ox, oy):
    return marked(ox, oy).all() + [f'forall(lambda i: Implies(And(0 <= i, i < {UP}.len), And({UP}[i].occ, real({UP}[i].quality) == 1)))']


def zoomed(reqs):
    return [x.replace('w_scale', 'w_zoom').replace('h_scale', 'h_zoom').replace('raster.pos', 'src_raster.pos') for x in reqs]


AX, AY = f'tdiv(-(w_zoom*{RW}), 2)', f'tdiv(h_zoom*{RH}, 2)'
OX, OY = f'If(autoalign, {AX}, dst_offset.x)', f'If(autoalign, {AY}, dst_offset.y)'
TSIG = 'GridMapPatcher::apply_text_raster<GridMap>(GridMap &, std::basic_istream<char> &, {})'.format
TMOD = ['heap:upd', 'this._curr_raster_w', 'this._curr_raster_h', 'src_raster']
atr = S(TSIG('bool, const DiscretePoint2D &, int, int'), inst='txt', cfg=PCFG, modifies=TMOD, defs=[laws('w_zoom', 'h_zoom'), row_def],
        requires=[f'{UP}.len == 0', NEAR('dst_offset')] + zoomed(pbr.requires), ensures=placed(OX, OY) + WIDE(RH))
ato = S(TSIG('const DiscretePoint2D &, int, int'), inst='txt', cfg=PCFG, modifies=TMOD, defs=[laws('w_zoom', 'h_zoom'), row_def], requires=atr.requires, ensures=placed('dst_offset.x', 'dst_offset.y'))
ata = S(TSIG('int, int'), inst='txt', cfg=PCFG, modifies=TMOD, defs=[laws('w_zoom', 'h_zoom'), row_def], requires=[atr.requires[0]] + atr.requires[2:], ensures=placed(AX, AY) + WIDE(RH))
SPECS += [app, atr, ato, ata]

# ---- generated blind corridors
def text_len(ns, s):
    from vc.stdlib import Strings
    return Strings(ns.eng).len(ns.unv(s))


def text_at(ns, s, k):
    from vc.stdlib import Strings
    return Strings(ns.eng).chr(ns.unv(s), ns.unv(k))


CCFG = {'strings': 'uf', 'text_laws': True, 'spec_funcs': {'at': at, 'tl': text_len, 'tc': text_at}}
CW, CH = 'this._width', 'this._height'
LEFT, RIGHT, TOP, BOT = range(4)


def wall(pos, r, c):
    top, bot, left, right = f'{r} == 0', f'{r} == {CH} - 1', f'{c} == 0', f'{c} == {CW} - 1'
    return f'If(Or({pos} == {LEFT}, {pos} == {RIGHT}), Or({top}, {bot}, {CW} == 1, And({pos} == {LEFT}, {left}), And({pos} == {RIGHT}, {right})), Or({left}, {right}, And({pos} == {TOP}, {top}), And({pos} == {BOT}, {bot})))'


IX = lambda r, c: f'at({CW} + 1, {r}, {c})'
CHAR = lambda s, pos, r, c: f'tc({s}, {IX(r, c)}) == If({c} == {CW}, 10, If({wall(pos, r, c)}, 43, 32))'
DRAWN = lambda s, pos, n: f'forall(lambda r, c: (Implies(And(0 <= r, r < {n}, 0 <= c, c <= {CW}), {CHAR(s, pos, "r", "c")}), {IX("r", "c")}))'
FULL = f'{IX(CH, 0)}'
SMALL = f'And(1 <= {CW}, {CW} <= 1 << 12, 1 <= {CH}, {CH} <= 1 << 17)'
GH = 'CecumTextRasterMapPrimitive::'
CELLS = lambda n: f'forall(lambda c: (Implies(And(0 <= c, c < {n}), {CHAR("cecum", "bnd_pos", "row_i", "c")}), {IX("row_i", "c")}))'
hor = S(GH + 'generate_horizontally_bounded_cecum(CecumTextRasterMapPrimitive::BoundPosition)', inst='cecum', cfg=CCFG, defs=[laws(CW + ' + 1')], requires=[SMALL, f'Or(bnd_pos == {TOP}, bnd_pos == {BOT})'],
        ensures=[f'tl(result) == {FULL}', DRAWN('result', 'bnd_pos', CH)],
        loops={0: dict(inv=[f'And(0 <= row_i, row_i <= {CH})', f'tl(cecum) == {IX("row_i", 0)}', DRAWN('cecum', 'bnd_pos', 'row_i')], dec=f'{CH} - row_i'),
               1: dict(inv=[f'And(1 <= col_i, col_i <= If({CW} > 1, {CW}, 1))', f'tl(cecum) == {IX("row_i", "col_i")}', DRAWN('cecum', 'bnd_pos', 'row_i'), CELLS('col_i')], dec=f'{CW} - col_i')})
ver = S(GH + 'generate_vertically_bounded_cecum(CecumTextRasterMapPrimitive::BoundPosition)', inst='cecum', cfg=CCFG, defs=[laws(CW + ' + 1')], requires=[SMALL, f'Or(bnd_pos == {LEFT}, bnd_pos == {RIGHT})'],
        ensures=[f'tl(result) == If({CH} == 1, {IX(1, 1)}, {FULL})', DRAWN('result', 'bnd_pos', CH), f'Implies({CH} == 1, tc(result, {IX(1, 0)}) == 10)'],
        loops={0: dict(inv=[f'And(1 <= row_i, row_i <= If({CH} > 1, {CH}, 1))', f'tl(cecum) == If(And(row_i == {CH}, {CH} > 1), {IX("row_i", 0)} - 1, {IX("row_i", 0)})', DRAWN('cecum', 'bnd_pos', f'row_i - 1'),
                            f'forall(lambda c: (Implies(And(0 <= c, c < If(And(row_i == {CH}, {CH} > 1), {CW}, {CW} + 1)), {CHAR("cecum", "bnd_pos", "row_i - 1", "c")}), {IX("row_i - 1", "c")}))'], dec=f'{CH} - row_i'),
               1: dict(inv=[f'And(0 <= col_i, col_i <= {CW})', f'tl(cecum) == {IX("row_i", "col_i")}', DRAWN('cecum', 'bnd_pos', 'row_i'), CELLS('col_i')], dec=f'{CW} - col_i')})
RAW = 'this._raw_cecum'
cctor = S(GH + '#ctor(int, int, CecumTextRasterMapPrimitive::BoundPosition)', inst='cecum', cfg=CCFG, defs=[laws('w + 1')], requires=['And(1 <= w, w <= 1 << 12, 1 <= h, h <= 1 << 17, 0 <= bnd_pos, bnd_pos <= 3)'],
          ensures=[f'And({CW} == w, {CH} == h, this._bnd_pos == bnd_pos)', f'tl({RAW}) == If(And({CH} == 1, bnd_pos <= {RIGHT}), {IX(1, 1)}, {FULL})', DRAWN(RAW, 'bnd_pos', CH)])
raster = S(GH + 'text_raster() const', inst='cecum', cfg=CCFG, ensures=[f'same(result, {RAW})'])
RC = 'result[0]'
INSIDE = f'And(real({RC}._bot) <= -r, 1 - r <= real({RC}._top), real({RC}._left) <= c, c + 1 <= real({RC}._right))'
free = S(GH + 'free_space() const', inst='cecum', cfg=CCFG, requires=[SMALL, 'And(0 <= this._bnd_pos, this._bnd_pos <= 3)'],
         ensures=['result.len == 1', f'forall(lambda r, c: Implies(And(0 <= r, r < {CH}, 0 <= c, c < {CW}), Implies({INSIDE}, Not({wall("this._bnd_pos", "r", "c")}))))',
                  f'Implies(And({CW} > 2, {CH} > 2), forall(lambda r, c: Implies(And(0 <= r, r < {CH}, 0 <= c, c < {CW}, Not({wall("this._bnd_pos", "r", "c")})), {INSIDE})))',
                  f'And(real({RC}._bot) > -{CH}, real({RC}._top) <= 1, real({RC}._left) >= 0, real({RC}._right) <= {CW})'])
SPECS += [hor, ver, cctor, raster, free]
ASSUMPTIONS = [
    'std::ofstream / std::ostream: write, put, operator<< append exactly the bytes given to the file named at construction; opening succeeds; close flushes',
    'a map read through the const operator[] and origin() answers a function of its content and the coordinate (C03 and C04 verify that for the maps)',
    'std::istream: getline yields the lines of the text one after another; good() is an unconstrained function of text and position',
    'std::string of characters: length and characters of push_back, +=, (count, char) follow the standard (text_laws in vc/stdlib.py)',
    'size bounds: maps up to 2^20 on a side and 2^31 - 1 cells, zooms up to 2^12, texts of up to 2^17 lines of up to 2^17 characters, offsets up to 2^29; beyond them the int coordinates of the code overflow',
    'at(w, r, c) = r*w + c and row_of are used through laws that are proved separately (lemmas)',
    'TextRasterMapPrimitive::to_stream only wraps text_raster() into a std::stringstream (executed by the refuter, not proved)',
    'LaserScanGenerator is outside the contracts (its ray casting is exercised by C20 and C09 only through the shared geometry)',
]
