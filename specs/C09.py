"""Beam-to-cell occupancy estimates."""
import copy
import re
from lib import *
import C11
from C11 import OK, FI, WF, SIDE, EDGES, b, t, l, r
A, CO = 'AreaOccupancyEstimator::', 'ConstOccupancyEstimator::'
PTS = ('vec', ('rec', 'Intersection', (('Point2D::x', D_), ('Point2D::y', D_), ('Intersection::location', I_))))
CFG = {'ghosts': {'crossed': None, 'cut': None}}
USED = []
for s in C11.SPECS:
    s = copy.copy(s)
    s.noverify = True
    if s.key == C11.fseg.key:
        s.ghost_ret = 'crossed'
        fseg = s
    USED.append(s)
SPECS = USED
OCCOK = lambda o: f'And(finite({o}.prob_occ), finite({o}.estimation_quality), 0 <= real({o}.prob_occ), real({o}.prob_occ) <= 1, 0 <= real({o}.estimation_quality), real({o}.estimation_quality) <= 1)'
BASE = [OCCOK('this._base_occ'), OCCOK('this._base_empty'), 'And(finite(this._low_qual), finite(this._unknown_qual), 0 < real(this._low_qual), real(this._low_qual) < 1, 0 <= real(this._unknown_qual), real(this._unknown_qual) <= 1)']
BE, BO = 'this._base_empty', 'this._base_occ'
INV = 'And(isnan(result.prob_occ), isnan(result.estimation_quality))'
AR = '(real(chunk_area) / real(total_area))'
RATED = ['Implies(is_occ, And(real(result.prob_occ) == If(%s >= real(this._base_empty.prob_occ), %s, real(this._base_empty.prob_occ)), same(result.estimation_quality, this._base_occ.estimation_quality)))' % (AR, AR),
         'Implies(Not(is_occ), And(same(result.prob_occ, this._base_empty.prob_occ), real(result.estimation_quality) == real(this._base_empty.estimation_quality)*If(%s > R("1/2"), 1 - %s, %s)))' % (AR, AR, AR)]
rate = S(A + 'estimate_occupancy(double, double, bool)', requires=BASE + ['And(finite(chunk_area), finite(total_area), 0 <= real(chunk_area), real(chunk_area) <= real(total_area), real(total_area) > 0)'],
         entry_hints=[f'And(0 <= {AR}, {AR} <= 1)'], modifies=[], ensures=[OCCOK('result')] + RATED)
SPECS += [rate,
          S(CO + 'estimate_occupancy(const Segment2D &, const Rectangle &, bool)', modifies=[], ensures=['If(a2, same(result, this._base_occ), same(result, this._base_empty))']),
          S(CO + '#ctor(const Occupancy &, const Occupancy &)', ensures=['And(same(this._base_occ, a0), same(this._base_empty, a1))'])]
# ---- the part of the cell cut off by the line through two points of its border
Bo, To, Le, Ri = ('real(bnds._%s)' % f for f in ('bot', 'top', 'left', 'right'))
RB = [FI('bnds'), WF('bnds'), f'{To} - {Bo} > 0', f'{Ri} - {Le} > 0']
ON = lambda p: (f'And(finite({p}.x), finite({p}.y), {Le} <= real({p}.x), real({p}.x) <= {Ri}, {Bo} <= real({p}.y), real({p}.y) <= {To}, 0 <= {p}.location, {p}.location <= 3, '
                f'Implies({p}.location == 0, real({p}.y) == {Bo}), Implies({p}.location == 2, real({p}.y) == {To}), Implies({p}.location == 1, real({p}.x) == {Le}), Implies({p}.location == 3, real({p}.x) == {Ri}))')
P0, P1 = 'inters[0]', 'inters[1]'
X = lambda p: f'real({p}.x)'
Y = lambda p: f'real({p}.y)'
HZ = lambda p: f'Or({p}.location == 0, {p}.location == 2)'
XOR = f'({HZ(P0)}) != ({HZ(P1)})'
# the corner the piece holds: of the two edges touched, or the bottom left one
CX = f'If({XOR}, If(Or({P0}.location == 1, {P1}.location == 1), {Le}, {Ri}), {Le})'
CY = f'If({XOR}, If(Or({P0}.location == 0, {P1}.location == 0), {Bo}, {To}), {Bo})'
VS, HS = f'({To} - {Bo})', f'({Ri} - {Le})'
SQ = f'({VS}*{HS})'
TRI = f'If({HZ(P0)}, absr({X(P0)} - {CX})*absr({Y(P1)} - {CY}), absr({Y(P0)} - {CY})*absr({X(P1)} - {CX}))/2'
TRAP = f'If({HZ(P0)}, {VS}*(absr({X(P0)} - {Le}) + absr({X(P1)} - {Le})), {HS}*(absr({Y(P0)} - {Bo}) + absr({Y(P1)} - {Bo})))/2'
PIECE = f'If({XOR}, {TRI}, {TRAP})'
LS = lambda x, y: f'(({Y(P1)} - {Y(P0)})*({x} - {X(P0)}) - ({X(P1)} - {X(P0)})*({y} - {Y(P0)}))'
# the side the beam comes from against the corner's side, seen from the opposite corner
DIR = f'(({Y(P1)} - {Y(P0)})*({CX} - ({Le} + {Ri} - {CX})) - ({X(P1)} - {X(P0)})*({CY} - ({Bo} + {To} - {CY})))'
BSIDE = LS("real(beam._beg.x)", "real(beam._beg.y)")
NEAR = f'Or(And({BSIDE} > 0, {DIR} > 0), And({BSIDE} < 0, {DIR} < 0))'
chunk = S(A + 'compute_chunk_area(const Segment2D &, const Rectangle &, bool, const std::vector<Intersection> &)', modifies=[],
          requires=RB + ['Or(inters.len == 0, inters.len == 2)', f'Implies(inters.len == 2, And({ON(P0)}, {ON(P1)}, {P0}.location != {P1}.location))', 'And(finite(beam._beg.x), finite(beam._beg.y))'],
          ensures=['finite(result)', f'And(0 <= real(result), real(result) <= {SQ})', f'Implies(inters.len == 0, real(result) == {SQ}/2)',
                   f'Implies(inters.len == 2, real(result) == If(And(is_occ, {NEAR}), {SQ} - {PIECE}, {PIECE}))'])
SPECS += [chunk]
# ---- where a beam lies
from C11 import SIDE, EDGES, FS, SEGOK, EQ, LQ, ORD, BAND, PX, PY, BT, WITHIN, ONB, LOCOF


def at(f, a, b='this'):
    return f.replace(b + '.', a + '.')


CELL = [at(x, 'cell') for x in OK + SIDE + EDGES]
BANDC = lambda p: at(BAND(p), 'cell')
CT, CB, CL, CR = (f'real(cell._{f})' for f in ('top', 'bot', 'left', 'right'))
INC = lambda p: f'And({ORD(CL, PX(p), CR)}, {ORD(CB, PY(p), CT)})'
OUT = lambda p: f'Not({INC(p)})'
INS = lambda p: f'And({INC(p)}, Not({BANDC(p)}))'
SB, SE = 's._beg', 's._end'
mod = S(A + 'modified_is_inside(const Segment2D &, const Rectangle &) const', requires=CELL + [FS('s')], modifies=[],
        ensures=[f'result[0] == {INS(SB)}', f'result[1] == If({BANDC(SE)}, {OUT(SB)}, {INS(SE)})'])
SPECS += [mod]
CFG['ghosts'] = {g: (lambda eng: ('vec', eng.rec_shape('Intersection'))) for g in ('crossed', 'cut')}
XS = 'heap("crossed")'
BI, EI = INS(SB), f'If({BANDC(SE)}, {OUT(SB)}, {INS(SE)})'
CLS = lambda res, bi, ei: f'{res} == If({bi}, If({ei}, 1, 3), If({ei}, 2, If({XS}.len == 0, 0, If({XS}.len == 1, 5, 4))))'
cls_ = S(A + 'classify_segment(const Segment2D &, const Rectangle &) const', requires=CELL + [FS('s')], modifies=['heap:crossed'], lets={'bi': BI, 'ei': EI}, ensures=[CLS('result', 'bi', 'ei'), f'Implies(And(Not(bi), Not(ei)), {XS}.len <= 2)'])
# beams along the line of an edge are moved into the cell
LQ_ = 'real(this._low_qual)'
SIDEC = f'({CT} - {CB})'
AREAC = f'({SIDEC}*({CR} - {CL}))'
LOWQ = [f'And(finite(this._low_qual), 0 < {LQ_}, {LQ_} <= R("1/2"))', f'{LQ_}*{SIDEC} > R("1/1000000")*(1 + absr({CT}) + absr({CB}) + absr({CL}) + absr({CR}))', f'{LQ_}*{SIDEC} <= ({CR} - {CL})/2']
SEGV = [FS('s'), SEGOK('s'), 'Implies(And(s._is_horiz, s._is_vert), And(real(s._beg.x) == real(s._end.x), real(s._beg.y) == real(s._end.y)))']
ONV = f'And(s._is_vert, Or({EQ("real(s._beg.x)", CL)}, {EQ("real(s._beg.x)", CR)}))'
ONH = f'And(Not(s._is_vert), s._is_horiz, Or({EQ("real(s._beg.y)", CB)}, {EQ("real(s._beg.y)", CT)}))'
SH = f'{LQ_}*{SIDEC}'
DX, DY = f'If({ONV}, If({EQ("real(s._beg.x)", CR)}, -{SH}, {SH}), R("0"))', f'If({ONH}, If({EQ("real(s._beg.y)", CT)}, -{SH}, {SH}), R("0"))'
MOVED = lambda q: f'And({FS(q)}, real({q}._beg.x) == real(s._beg.x) + {DX}, real({q}._beg.y) == real(s._beg.y) + {DY}, real({q}._end.x) == real(s._end.x) + {DX}, real({q}._end.y) == real(s._end.y) + {DY})'
ens = S(A + 'ensure_segment_not_on_edge(const Segment2D &, const Rectangle &) const', requires=CELL + LOWQ + SEGV, modifies=[], ensures=[MOVED('result')])
SPECS += [cls_, ens]
BB = 'real(beam._beg.%s)'
EB = 'real(beam._end.%s)'
BNDS = [at(x, 'bnds') for x in OK + SIDE + EDGES]
PERP = lambda p: f'({PX(p)} - {EB % "x"})*({EB % "x"} - {BB % "x"}) + ({PY(p)} - {EB % "y"})*({EB % "y"} - {BB % "y"}) == 0'
ALONG = lambda p: f'({PX(p)} - {BB % "x"})*({EB % "y"} - {BB % "y"}) == ({PY(p)} - {BB % "y"})*({EB % "x"} - {BB % "x"})'
CUTS = lambda q, cell, occ: [f'{q}.len <= 2', f'Implies({q}.len == 2, {q}[0].location != {q}[1].location)'] + [f'Implies({q}.len > {k}, And({at(ONB(f"{q}[{k}]"), cell)}, {LOCOF(cell, f"{q}[{k}]")}, If({occ}, {PERP(f"{q}[{k}]")}, And({ALONG(f"{q}[{k}]")}, {WITHIN("beam", f"{q}[{k}]")}))))' for k in (0, 1)]
fi = S(A + 'find_intersections(const Segment2D &, const Rectangle &, bool)', requires=BNDS + [FS('beam')], modifies=[], ensures=CUTS('result', 'bnds', 'is_occ'), ghost_ret='cut')
SPECS += [fi]
# a segment that comes from outside and ends in the cell crosses its border (not derived from the code: see ASSUMPTIONS)
THIS = lambda f: f.replace('cell.', 'this.')
ONLINE = lambda q: f'If({q}._is_vert, Or({EQ(f"real({q}._beg.x)", CL)}, {EQ(f"real({q}._beg.x)", CR)}), And({q}._is_horiz, Or({EQ(f"real({q}._beg.y)", CB)}, {EQ(f"real({q}._beg.y)", CT)})))'
STRICT = f'And({CL} < real(s._beg.x), real(s._beg.x) < {CR}, {CB} < real(s._beg.y), real(s._beg.y) < {CT})'
CLOSED = f'And({CL} <= real(s._end.x), real(s._end.x) <= {CR}, {CB} <= real(s._end.y), real(s._end.y) <= {CT})'
fseg.derived = [THIS(f'Implies(And(Not({STRICT}), {CLOSED}, Not({ONLINE("s")}), Or({OUT(SB)}, {INS(SE)})), result.len >= 1)')]
ens.ensures.append(f'Not({ONLINE("result")})')
ASSUMPTIONS = ['a segment from outside a rectangle (by more than the comparison tolerance) to a point of it has at least one intersection with its border: assumed of Rectangle::find_intersections(Segment2D), exercised by the runtime validation']
# ---- the whole estimate, of the effective beam
CUT = 'heap("cut")'
UNK = f'And(same(result.prob_occ, {BE}.prob_occ), same(result.estimation_quality, this._unknown_qual))'
eff = lambda f: f.replace('real(s._beg.x)', 'ebx').replace('real(s._beg.y)', 'eby').replace('real(s._end.x)', 'eex').replace('real(s._end.y)', 'eey')
SB_, BEAM = (lambda f: re.sub(r'\bs\._', 'beam._', f)), None
LETS = {'ebx': SB_(f'real(s._beg.x) + {DX}'), 'eby': SB_(f'real(s._beg.y) + {DY}'), 'eex': SB_(f'real(s._end.x) + {DX}'), 'eey': SB_(f'real(s._end.y) + {DY}'),
        'bi': eff(BI), 'ei': eff(EI)}
REA = lambda a, occ: f'And({RATED[0]}, {RATED[1]})'.replace('real(chunk_area)', a).replace('real(total_area)', f'({AREAC})').replace('is_occ', occ)


for _q in (('c', CUT), ('x', XS)):
    for _f, _g in (('piece', PIECE), ('near', NEAR)):
        LETS[_f + _q[0]] = eff(re.sub(r'\bbeam\._', 's._', _g).replace('inters[', _q[1] + '[').replace('bnds.', 'cell.'))


def piece(q, occ):
    n = 'c' if q == CUT else 'x'
    return f'If(near{n}, {AREAC} - piece{n}, piece{n})' if occ == 'True' else f'piece{n}'


RATE = lambda q, occ: f'If({q}.len == 0, {REA("(" + AREAC + "/2)", occ)}, {REA("(" + piece(q, occ) + ")", occ)})'
whole = S(A + 'estimate_occupancy(const Segment2D &, const Rectangle &, bool)', requires=BASE + CELL + LOWQ + [SB_(x) for x in SEGV] + [eff(f'Implies(And(is_occ, ei, Not(bi)), And({CLOSED}, Not({STRICT})))')], modifies=['heap:crossed', 'heap:cut'], lets=LETS,
          ensures=[f'Or({INV}, {OCCOK("result")})', f'Implies(And(is_occ, Or(bi, Not(ei))), {INV})', f'Implies(And(Not(is_occ), bi, ei), {UNK})',
                   f'Implies(And(Not(is_occ), Not(bi), Not(ei), {XS}.len < 2), {INV})', f'Implies(And(Not(is_occ), bi != ei, {CUT}.len == 1), {UNK})',
                   f'Implies(And(Not(is_occ), bi != ei, {CUT}.len != 1), {RATE(CUT, "False")})', f'Implies(And(Not(is_occ), Not(bi), Not(ei), {XS}.len == 2), If({CUT}.len == 1, {UNK}, {RATE(CUT, "False")}))',
                   f'Implies(And(is_occ, Not(bi), ei, {CUT}.len != 1), {RATE(CUT, "True")})', f'Implies(And(is_occ, Not(bi), ei, {CUT}.len == 1), If({XS}.len == 1, {REA("(" + AREAC + ")", "True")}, {RATE(XS, "False")}))'])
SPECS += [whole]
