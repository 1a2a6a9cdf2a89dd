"""Discretisation of segments: the cells between two cells / crossed by a segment."""
from lib import *

PTS = 'this._points'
CHAIN = [
    # stays within half a cell of the ideal line: cross product bounded by the major extent
    f'forall(lambda j: Implies(And(0 <= j, j < {PTS}.len), And(2*(({PTS}[j].x - beg.x)*(end.y - beg.y) - ({PTS}[j].y - beg.y)*(end.x - beg.x)) <= M, '
    f'2*(({PTS}[j].x - beg.x)*(end.y - beg.y) - ({PTS}[j].y - beg.y)*(end.x - beg.x)) >= -M)))',
]
LETS = {
    'ax': 'iabs(end.x - beg.x)', 'ay': 'iabs(end.y - beg.y)', 'M': 'imax(ax, ay)',
    'ix': 'If(end.x > beg.x, 1, -1)', 'iy': 'If(end.y > beg.y, 1, -1)',
}
INBOX = (f'forall(lambda j: Implies(And(0 <= j, j < {PTS}.len), And(0 <= ix*({PTS}[j].x - beg.x), ix*({PTS}[j].x - beg.x) <= ax, '
         f'0 <= iy*({PTS}[j].y - beg.y), iy*({PTS}[j].y - beg.y) <= ay)))')
POST = [
    f'{PTS}.len == M + 1',
    f'And({PTS}[0].x == beg.x, {PTS}[0].y == beg.y)',
    f'And({PTS}[{PTS}.len - 1].x == end.x, {PTS}[{PTS}.len - 1].y == end.y)',
    # the major coordinate advances by exactly one cell, the other by at most one, both towards the end
    f'forall(lambda j: Implies(And(0 <= j, j < {PTS}.len), If(ax < ay, {PTS}[j].y == beg.y + iy*j, {PTS}[j].x == beg.x + ix*j)))',
    f'forall(lambda j: Implies(And(0 <= j, j + 1 < {PTS}.len), If(ax < ay, '
    f'Or({PTS}[j+1].x == {PTS}[j].x, {PTS}[j+1].x == {PTS}[j].x + ix), Or({PTS}[j+1].y == {PTS}[j].y, {PTS}[j+1].y == {PTS}[j].y + iy))))',
    # inside the bounding box of the ends
    INBOX,
] + CHAIN

gen = S('DiscreteSegment2D::gen_points_with_bresenham(const DiscretePoint2D &, const DiscretePoint2D &)',
        requires=pt('beg', 'end') + ['this._points.len == 0'], modifies=['this._points'], ensures=POST, lets=LETS,
        loops={0: dict(inv=[
            'error == (primary - If(y_is_primary, beg.y, beg.x))*d_secondary - (secondary - If(y_is_primary, beg.x, beg.y))*d_primary',
            'And(2*error <= M, 2*error >= -M)',
            'primary == If(y_is_primary, beg.y, beg.x) + inc_primary*this._points.len',
            'And(0 <= this._points.len, this._points.len <= M)',
            'And(0 <= inc_secondary*(secondary - If(y_is_primary, beg.x, beg.y)), inc_secondary*(secondary - If(y_is_primary, beg.x, beg.y)) <= this._points.len)',
            f'forall(lambda j: Implies(And(0 <= j, j < {PTS}.len), If(ax < ay, {PTS}[j].y == beg.y + iy*j, {PTS}[j].x == beg.x + ix*j)))',
            f'forall(lambda j: Implies(And(0 <= j, j + 1 < {PTS}.len), If(ax < ay, '
            f'Or({PTS}[j+1].x == {PTS}[j].x, {PTS}[j+1].x == {PTS}[j].x + ix), Or({PTS}[j+1].y == {PTS}[j].y, {PTS}[j+1].y == {PTS}[j].y + iy))))',
            f'Implies({PTS}.len > 0, And({PTS}[0].x == beg.x, {PTS}[0].y == beg.y))',
            'iabs(d_secondary)*this._points.len <= iabs(d_secondary)*M',
            'inc_primary*inc_secondary*error == iabs(d_secondary)*this._points.len - inc_secondary*(secondary - If(y_is_primary, beg.x, beg.y))*M',
            'Implies(inc_secondary*(secondary - If(y_is_primary, beg.x, beg.y)) >= iabs(d_secondary) + 1, inc_secondary*(secondary - If(y_is_primary, beg.x, beg.y))*M >= iabs(d_secondary)*M + M)',
            'inc_secondary*(secondary - If(y_is_primary, beg.x, beg.y)) <= iabs(d_secondary)', INBOX,
            f'Implies({PTS}.len == 0, And(primary == If(y_is_primary, beg.y, beg.x), secondary == If(y_is_primary, beg.x, beg.y)))',
            f'Implies({PTS}.len > 0, Or(secondary == If(y_is_primary, {PTS}[{PTS}.len-1].x, {PTS}[{PTS}.len-1].y), secondary == If(y_is_primary, {PTS}[{PTS}.len-1].x, {PTS}[{PTS}.len-1].y) + inc_secondary))',
        ] + CHAIN, dec='M - this._points.len')})

ctor = S('DiscreteSegment2D::#ctor(const DiscretePoint2D &, const DiscretePoint2D &)',
         requires=pt('beg', 'end'), ensures=POST, lets=LETS)
conv = S('DiscreteSegment2D::operator std::vector<DiscretePoint2D>() const', ensures=['same(result, this._points)'])

# cells crossed by a segment given in world coordinates
fl = lambda p, c: f'floor(real(s.{p}.{c})/real(this._m_per_cell))'
GRID = ['finite(this._m_per_cell)', 'real(this._m_per_cell) > 0'] + [
    f'And(finite(s.{p}.{c}), absr(real(s.{p}.{c})) <= real(this._m_per_cell)*{1 << 27})' for p in ('_beg', '_end') for c in 'xy']
WL = {'bx': fl('_beg', 'x'), 'by': fl('_beg', 'y'), 'ex': fl('_end', 'x'), 'ey': fl('_end', 'y')}
ADJ = lambda a, b: f'And(iabs({a}.x - {b}.x) <= 1, iabs({a}.y - {b}.y) <= 1, Or({a}.x != {b}.x, {a}.y != {b}.y))'
# f of a cell: the line's function (d_x*(beg.y - y) + (x - beg.x)*d_y) at the cell's centre; the closed cell meets the line iff
# |f| <= (|d_x| + |d_y|)*m/2, and is compared by the code up to 1e-7
WL.update({'m': 'real(this._m_per_cell)', 'dx': 'real(s._end.x) - real(s._beg.x)', 'dy': 'real(s._end.y) - real(s._beg.y)',
           'p': 'dx*m', 'q': 'dy*m', 'ap': 'absr(p)', 'aq': 'absr(q)', 'TOL': "real(2)/10000000", 'LONG': 'ap + aq > 2*TOL'})
WL['half'] = 'real(1)/2'
WL.update({'Ex': 'real(s._end.x)', 'Ey': 'real(s._end.y)'})
FXY = lambda x, y: f'(dx*(real(s._beg.y) - (real({y}) + half)*m) + ((real({x}) + half)*m - real(s._beg.x))*dy)'
LF = lambda x, y: f'uf("line_at", "real", this._m_per_cell, s, {x}, {y})'
F = lambda c: LF(c + '.x', c + '.y')
BOX = lambda c: f'And(If(dx > 0, And(bx <= {c}.x, {c}.x <= ex), And(ex <= {c}.x, {c}.x <= bx)), If(dy > 0, And(by <= {c}.y, {c}.y <= ey), And(ey <= {c}.y, {c}.y <= by)))'
BAND = lambda e: f'And(2*({e}) <= ap + aq + TOL, -2*({e}) <= ap + aq + TOL)'
def STEP(a, b):
    return (f'If({a}.x == {b}.x, And({F(a)} + {F(b)} <= aq + TOL, -({F(a)} + {F(b)}) <= aq + TOL), '
            f'If({a}.y == {b}.y, And({F(a)} + {F(b)} <= ap + TOL, -({F(a)} + {F(b)}) <= ap + TOL), '
            f'And({F(a)} + {F(b)} <= TOL, -({F(a)} + {F(b)}) <= TOL)))')
LAST = 'cells[cells.len - 1]'
LINE = (lambda ns: ns.term(f'forall(lambda i, j: ({LF("i", "j")} == {FXY("i", "j")}, {LF("i", "j")}))'))
LINE = f'forall(lambda i, j: ({LF("i", "j")} == {FXY("i", "j")}, {LF("i", "j")}))'
KX = '(real(pnt.x)*m + If(dx > 0, m, 0))'
KY = '(real(pnt.y)*m + If(dy > 0, m, 0))'
CORNER = '(real(e) + (real(e_x_inc) + real(e_y_inc))/2)'
SAME = '((dx > 0) == (dy > 0))'
w2cs = S('RegularSquaresGrid::world_to_cells(const Segment2D &) const', requires=GRID, lets=WL, defs=[LINE],
         entry_hints=[f'And({c}*m <= {w}, {w} < ({c} + 1)*m)' for c, w in (('ex', 'Ex'), ('ey', 'Ey'), ('bx', 'real(s._beg.x)'), ('by', 'real(s._beg.y)'))],
         ensures=['result.len >= 1', 'And(result[0].x == bx, result[0].y == by)',
                  'And(result[result.len - 1].x == ex, result[result.len - 1].y == ey)',
                  'forall(lambda j: Implies(And(0 <= j, j + 1 < result.len), ' + ADJ('result[j+1]', 'result[j]') + '))',
                  'forall(lambda j: Implies(And(0 <= j, j < result.len), And(iabs(result[j].x - bx) <= result.len, iabs(result[j].y - by) <= result.len)))',
                  'result.len <= iabs(ex - bx) + iabs(ey - by) + 2',
                  # a segment that is not shorter than the tolerance: only cells it crosses, each step over the shared side or corner it crosses
                  'Implies(LONG, forall(lambda j: Implies(And(0 <= j, j < result.len), ' + BAND(F('result[j]')) + ')))',
                  'Implies(LONG, forall(lambda j: Implies(And(0 <= j, j < result.len), ' + BOX('result[j]') + ')))',
                  'Implies(LONG, forall(lambda j: Implies(And(0 <= j, j + 1 < result.len), ' + STEP('result[j]', 'result[j+1]') + ')))',
                  'Implies(LONG, result.len <= iabs(ex - bx) + iabs(ey - by) + 1)'],
         loops={0: dict(inv=[
             'And(0 <= cells.len, cells.len <= cells_nm)',
             'Implies(cells.len > 0, And(cells[0].x == bx, cells[0].y == by))',
             'Implies(cells.len == 0, And(pnt.x == bx, pnt.y == by))',
             'Implies(cells.len > 0, ' + ADJ('pnt', 'cells[cells.len - 1]') + ')',
             'And(iabs(pnt.x - bx) <= cells.len, iabs(pnt.y - by) <= cells.len)',
             'forall(lambda j: Implies(And(0 <= j, j < cells.len), And(iabs(cells[j].x - bx) <= j, iabs(cells[j].y - by) <= j)))',
             'forall(lambda j: Implies(And(0 <= j, j + 1 < cells.len), ' + ADJ('cells[j+1]', 'cells[j]') + '))',
             'And(real(e_x_inc) == If(dx > 0, q, -q), real(e_y_inc) == If(dy > 0, -p, p))',
             'And(Implies(dx > 0, p > 0), Implies(dx <= 0, p <= 0), Implies(dy > 0, q > 0), Implies(dy <= 0, q <= 0))',
             'real(e) == ' + FXY('pnt.x', 'pnt.y'),
             'real(e) == ' + F('pnt'),
             'Implies(LONG, ' + BAND('real(e)') + ')',
             'Implies(LONG, ' + BOX('pnt') + ')',
             # the corner ahead is on the side of the line that forbids a step past the end's column or row
             f'And({KX} == If(dx > 0, (real(pnt.x) + 1)*m, real(pnt.x)*m), {KY} == If(dy > 0, (real(pnt.y) + 1)*m, real(pnt.y)*m))',
             f'{CORNER} == dx*(Ey - {KY}) + ({KX} - Ex)*dy',
             'And(Implies(pnt.x + 1 <= ex, real(pnt.x)*m + m <= ex*m), Implies(pnt.x >= ex + 1, real(pnt.x)*m >= ex*m + m))',
             'And(Implies(pnt.y + 1 <= ey, real(pnt.y)*m + m <= ey*m), Implies(pnt.y >= ey + 1, real(pnt.y)*m >= ey*m + m))',
             f'Implies(If(dx > 0, pnt.x < ex, pnt.x > ex), If(dx > 0, {KX} <= Ex, Ex <= {KX}))',
             f'Implies(If(dy > 0, pnt.y < ey, pnt.y > ey), If(dy > 0, {KY} <= Ey, Ey <= {KY}))',
             f'Implies(pnt.x == ex, If(dx > 0, {KX} >= Ex, Ex >= {KX}))',
             f'Implies(pnt.y == ey, If(dy > 0, {KY} >= Ey, Ey >= {KY}))',
             f'Implies(If(dx > 0, pnt.x < ex, pnt.x > ex), If({SAME}, ({KX} - Ex)*dy <= 0, ({KX} - Ex)*dy >= 0))',
             f'Implies(pnt.x == ex, If({SAME}, ({KX} - Ex)*dy >= 0, ({KX} - Ex)*dy <= 0))',
             f'Implies(If(dy > 0, pnt.y < ey, pnt.y > ey), If({SAME}, dx*(Ey - {KY}) >= 0, dx*(Ey - {KY}) <= 0))',
             f'Implies(pnt.y == ey, If({SAME}, dx*(Ey - {KY}) <= 0, dx*(Ey - {KY}) >= 0))',
             f'Implies(And(LONG, pnt.x == ex, pnt.y != ey), If({SAME}, {CORNER} >= 0, {CORNER} <= 0))',
             f'Implies(And(LONG, pnt.y == ey, pnt.x != ex), If({SAME}, {CORNER} <= 0, {CORNER} >= 0))',
             'Implies(LONG, cells.len + iabs(ex - pnt.x) + iabs(ey - pnt.y) + 1 <= cells_nm)',
             'Implies(And(LONG, cells.len > 0), ' + STEP(LAST, 'pnt') + ')',
             'Implies(LONG, forall(lambda j: Implies(And(0 <= j, j < cells.len), ' + BAND(F('cells[j]')) + ')))',
             'Implies(LONG, forall(lambda j: Implies(And(0 <= j, j < cells.len), ' + BOX('cells[j]') + ')))',
             'Implies(LONG, forall(lambda j: Implies(And(0 <= j, j + 1 < cells.len), ' + STEP('cells[j]', 'cells[j+1]') + ')))',
         ], dec='cells_nm + 1 - cells.len')})
w2c = S('RegularSquaresGrid::world_to_cell(double, double) const',
        requires=['finite(this._m_per_cell)', 'real(this._m_per_cell) > 0'] + [f'And(finite({c}), absr(real({c})) <= real(this._m_per_cell)*{1 << 27})' for c in 'xy'],
        ensures=[f'result.{c} == floor(real({c})/real(this._m_per_cell))' for c in 'xy'] + [f'iabs(result.{c}) <= {1 << 27}' for c in 'xy'])

SPECS = [gen, ctor, conv, w2cs, w2c]
CFG = {}
ASSUMPTIONS = [
    'cell coordinates within 2^27 of the origin; a beam end within 2^27 cells of the origin; cell size > 0 and finite',
]
