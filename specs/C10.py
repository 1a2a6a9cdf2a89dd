"""Enumeration of the cells a rectangle covers."""
from lib import *
L27 = 1 << 27
R_ = 'GridRasterizedRectangle::'
SAN = [f'iabs(this.{f}) <= {1 << 28}' for f in ('_lb.x', '_lb.y', '_rt.x', '_rt.y', '_x', '_y')]
INV = ['And(this._lb.x <= this._x, this._x <= this._rt.x + 1)', 'And(this._lb.y <= this._y, this._y <= this._rt.y)']
SUCC = 'If(result[j].y < this._rt.y, And(result[j+1].x == result[j].x, result[j+1].y == result[j].y + 1), And(result[j+1].x == result[j].x + 1, result[j+1].y == this._lb.y))'
m = 'real(grid._m_per_cell)'
GRID = ['finite(grid._m_per_cell)', f'{m} > 0', f'{m} >= R("1/1000000")', f'And(1 <= grid._width, grid._width <= {L27}, 1 <= grid._height, grid._height <= {L27})']
FIN = 'And(finite(r._bot), finite(r._top), finite(r._left), finite(r._right))'
# unbounded: some side lies at infinity, both extents are positive
UNB = f'And(Not({FIN}), Or(finite(r._bot), kind(r._bot) == 3), Or(finite(r._left), kind(r._left) == 3), Or(finite(r._top), kind(r._top) == 2), Or(finite(r._right), kind(r._right) == 2),' + \
    ' Or(Not(And(finite(r._bot), finite(r._top))), real(r._bot) < real(r._top)), Or(Not(And(finite(r._left), finite(r._right))), real(r._left) < real(r._right)))'
RECT = [f'Or({FIN}, {UNB})'] + [f'Implies(finite(r.{f}), absr(real(r.{f})) <= {m}*{1 << 26})' for f in ('_bot', '_top', '_left', '_right')] + \
    [f'Implies({FIN}, And(real(r._bot) <= real(r._top), real(r._left) <= real(r._right)))']
off = 'If(include_border, R("0"), R("1/1000000000"))'
NE = f'And({FIN}, real(r._bot) < real(r._top), real(r._left) < real(r._right))'
EM = f'And({FIN}, Or(real(r._bot) == real(r._top), real(r._left) == real(r._right)))'
ctor = S(R_ + '#ctor(const RegularSquaresGrid &, const LightWeightRectangle &, bool)', cfg={'dblx': True}, requires=GRID + RECT,
         ensures=['And(this._x == this._lb.x, this._y == this._lb.y)'] +
         [f'Implies({NE}, this._lb.{c} == floor((real(r.{f}) + {off})/{m}))' for c, f in (('x', '_left'), ('y', '_bot'))] +
         [f'Implies({NE}, this._rt.{c} == floor((real(r.{f}) - {off})/{m}))' for c, f in (('x', '_right'), ('y', '_top'))] +
         [f'Implies({EM}, And(this._lb.{c} == floor(real(r.{f})/{m}), this._rt.{c} == this._lb.{c}))' for c, f in (('x', '_left'), ('y', '_bot'))] +
         [f'Implies({UNB}, And(this._lb.x == -(grid._width/2), this._lb.y == -(grid._height/2), this._rt.x == grid._width - 1 - grid._width/2, this._rt.y == grid._height - 1 - grid._height/2))'],
         entry_hints=[f'Implies({NE}, (real(r._top) - real(r._bot))*(real(r._right) - real(r._left)) > 0)'])
has_next = S(R_ + 'has_next()', ensures=['result == And(this._x <= this._rt.x, this._y <= this._rt.y)'])
nxt = S(R_ + 'next()', requires=SAN + ['And(this._x <= this._rt.x, this._y <= this._rt.y)'], modifies=['this._x', 'this._y'],
        ensures=['result.x == old.this._x', 'result.y == old.this._y',
                 'If(old.this._y < this._rt.y, And(this._y == old.this._y + 1, this._x == old.this._x), And(this._y == this._lb.y, this._x == old.this._x + 1))'])
tv = S(R_ + 'to_vector() &&', requires=SAN + ['this._x == this._lb.x', 'this._y == this._lb.y'], modifies=['this._x', 'this._y'],
       ensures=['(result.len == 0) == Or(this._lb.x > this._rt.x, this._lb.y > this._rt.y)',
                'Implies(result.len > 0, And(result[0].x == this._lb.x, result[0].y == this._lb.y))',
                'Implies(result.len > 0, And(result[result.len-1].x == this._rt.x, result[result.len-1].y == this._rt.y))',
                f'forall(lambda j: Implies(And(0 <= j, j + 1 < result.len), {SUCC}))',
                'forall(lambda j: Implies(And(0 <= j, j < result.len), And(this._lb.x <= result[j].x, result[j].x <= this._rt.x, this._lb.y <= result[j].y, result[j].y <= this._rt.y)))'],
       loops={0: dict(inv=['Or(this._lb.y > this._rt.y, And(' + INV[0] + ', ' + INV[1] + '), this._lb.x > this._rt.x)',
                           'Implies(Or(this._lb.y > this._rt.y, this._lb.x > this._rt.x), And(result.len == 0, this._x == this._lb.x, this._y == this._lb.y))',
                           'result.len >= 0',
                           'Implies(result.len == 0, And(this._x == this._lb.x, this._y == this._lb.y))',
                           'Implies(result.len > 0, And(result[0].x == this._lb.x, result[0].y == this._lb.y))',
                           'Implies(result.len > 0, If(result[result.len-1].y < this._rt.y, And(this._x == result[result.len-1].x, this._y == result[result.len-1].y + 1), And(this._x == result[result.len-1].x + 1, this._y == this._lb.y)))',
                           f'forall(lambda j: Implies(And(0 <= j, j + 1 < result.len), {SUCC}))',
                           'forall(lambda j: Implies(And(0 <= j, j < result.len), And(this._lb.x <= result[j].x, result[j].x <= this._rt.x, this._lb.y <= result[j].y, result[j].y <= this._rt.y)))'],
                      dec='If(this._lb.y <= this._rt.y, (this._rt.x - this._x + 1)*(this._rt.y - this._lb.y + 1) + (this._rt.y - this._y), 0)')})
SPECS = [ctor, has_next, nxt, tv]
CFG = {}
ASSUMPTIONS = ['rectangle coordinates within 2^26 cells of the origin; cell size >= 1e-6']
