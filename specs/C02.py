"""Conversion between world coordinates, cells and storage positions."""
from lib import *

L27 = 1 << 27
SC = ['finite(this._m_per_cell)', 'real(this._m_per_cell) > 0']
FIELDS = '_width _height _m_per_cell'.split()
G = 'RegularSquaresGrid::'
W = [f'And(1 <= this._width, this._width <= {L27})', f'And(1 <= this._height, this._height <= {L27})']
m = 'real(this._m_per_cell)'
ext = pt('coord', lim=L27)


def near(v, s):
    return f'And(finite({v}), absr(real({v})) <= real({s})*{L27})'


SPECS = [
    S(G + 'world_to_cell(const Point2D &) const', requires=SC + [near('pt.x', 'this._m_per_cell'), near('pt.y', 'this._m_per_cell')],
      ensures=[f'result.{c} == floor(real(pt.{c})/{m})' for c in 'xy'] + [f'And(result.{c}*{m} <= real(pt.{c}), real(pt.{c}) < (result.{c} + 1)*{m})' for c in 'xy']),
    S(G + 'world_to_cell(double, double) const', requires=SC + [near('x', 'this._m_per_cell'), near('y', 'this._m_per_cell')],
      ensures=[f'result.{c} == floor(real({c})/{m})' for c in 'xy'] + [f'And(-{L27} <= result.{c}, result.{c} <= {L27})' for c in 'xy']),
    S(G + 'world_to_cell(double, double, double) const', requires=['finite(scale)', 'real(scale) > 0', near('x', 'scale'), near('y', 'scale')],
      ensures=[f'result.{c} == floor(real({c})/real(scale))' for c in 'xy']),
    S(G + 'cell_to_world(const DiscretePoint2D &) const', requires=SC + pt('cell', lim=L27),
      ensures=[f'And(finite(result.{c}), real(result.{c}) == {m}*cell.{c} + {m}/2)' for c in 'xy'] +
              [f'floor(real(result.{c})/{m}) == cell.{c}' for c in 'xy'],
      post_hints=[f'real(result.{c})/{m} == cell.{c} + R("1/2")' for c in 'xy']),
    S(G + 'world_cell_bounds(const DiscretePoint2D &) const', cfg={'dblx': True},
      requires=['Or(And(finite(this._m_per_cell), real(this._m_per_cell) > 0), kind(this._m_per_cell) == 2)'] + ext,
      ensures=[f'Implies(finite(this._m_per_cell), And(finite(result.{f}), real(result.{f}) == {m}*({e})))' for f, e in
               [('_bot', 'coord.y'), ('_top', 'coord.y + 1'), ('_left', 'coord.x'), ('_right', 'coord.x + 1')]] +
              [f'Implies(isinf(this._m_per_cell), kind(result.{f}) == {k})' for f, k in [('_bot', 3), ('_top', 2), ('_left', 3), ('_right', 2)]]),
    S(G + 'origin() const', requires=W, ensures=['result.x == this._width / 2', 'result.y == this._height / 2',
                                                'And(0 <= result.x, result.x < this._width, 0 <= result.y, result.y < this._height)']),
    S(G + 'has_cell(const DiscretePoint2D &) const', requires=W + pt('c', lim=L27),
      ensures=['result == And(0 <= c.x + this._width/2, c.x + this._width/2 < this._width, 0 <= c.y + this._height/2, c.y + this._height/2 < this._height)']),
    S(G + 'has_internal_cell(const DiscretePoint2D &) const', ensures=['result == And(0 <= c.x, c.x < this._width, 0 <= c.y, c.y < this._height)']),
    S(G + 'external2internal(const DiscretePoint2D &) const', requires=W + ext,
      ensures=['result.x == coord.x + this._width/2', 'result.y == coord.y + this._height/2']),
    S(G + 'internal2external(const DiscretePoint2D &) const', requires=W + ext,
      ensures=['result.x == coord.x - this._width/2', 'result.y == coord.y - this._height/2']),
    S(G + '#ctor(int, int, double)', requires=['finite(scale)'], ensures=['this._width == w', 'this._height == h', 'eq(this._m_per_cell, scale)']),
    S(G + 'set_height(unsigned int)', requires=[f'h <= {L27}'], modifies=['this._height'], ensures=['this._height == h']),
    S(G + 'set_width(unsigned int)', requires=[f'w <= {L27}'], modifies=['this._width'], ensures=['this._width == w']),
    S(G + 'set_scale(double)', modifies=['this._m_per_cell'], ensures=['eq(this._m_per_cell, s)']),
    S(G + 'width() const', ensures=['result == this._width']),
    S(G + 'height() const', ensures=['result == this._height']),
    S(G + 'scale() const', ensures=['eq(result, this._m_per_cell)']),
    S('DiscretePoint2D::operator+=(const DiscretePoint2D &)', requires=pt('this', 'p'), modifies=['this'], returns='this',
      ensures=['this.x == old.this.x + p.x', 'this.y == old.this.y + p.y']),
    S('DiscretePoint2D::operator+(const DiscretePoint2D &) const', requires=pt('this', 'p'), ensures=['result.x == this.x + p.x', 'result.y == this.y + p.y']),
    S('DiscretePoint2D::operator-(const DiscretePoint2D &) const', requires=pt('this', 'p'), ensures=['result.x == this.x - p.x', 'result.y == this.y - p.y']),
    S('DiscretePoint2D::operator-() const', requires=pt('this'), ensures=['result.x == -this.x', 'result.y == -this.y']),
    S('DiscretePoint2D::operator==(const DiscretePoint2D &) const', ensures=['result == And(this.x == p.x, this.y == p.y)']),
    S('DiscretePoint2D::operator!=(const DiscretePoint2D &) const', ensures=['result == Or(this.x != p.x, this.y != p.y)']),
]


def lemma_partition():
    x, s = z3.Reals('x s')
    c = z3.Int('c')
    # the point lies in the half-open bounds of exactly the cell it is converted to
    return z3.ForAll([x, s, c], z3.Implies(s > 0, (z3.ToInt(x / s) == c) == z3.And(c * s <= x, x < (c + 1) * s)))


def lemma_inverse():
    c, o = z3.Ints('c o')
    return z3.ForAll([c, o], z3.And((c + o) - o == c, (c - o) + o == c))


LEMMAS = [('a point belongs to the bounds of exactly its own cell', lemma_partition), ('storage offset is invertible', lemma_inverse)]
CFG = {}
ASSUMPTIONS = ['|world coordinate / cell size| <= 2^27 and map dimensions in [1, 2^27]']
