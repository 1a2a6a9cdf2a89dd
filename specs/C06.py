"""Cell models: what a history of observations does to the occupancy of a cell."""
from lib import *
import C07

OBS = ['Or(Not(VALID), And(finite(aoo.occupancy.prob_occ), 0 <= real(aoo.occupancy.prob_occ), real(aoo.occupancy.prob_occ) <= 1, '
       'finite(aoo.occupancy.estimation_quality), 0 <= real(aoo.occupancy.estimation_quality), real(aoo.occupancy.estimation_quality) <= 1))',
       'And(finite(aoo.quality), 0 <= real(aoo.quality), real(aoo.quality) <= 1)', 'And(finite(aoo.obstacle.x), finite(aoo.obstacle.y))']
LETS = {'VALID': 'And(Not(isnan(aoo.occupancy.prob_occ)), Not(isnan(aoo.occupancy.estimation_quality)))',
        'p': 'real(aoo.occupancy.prob_occ)', 'q': 'real(aoo.quality)', 'e': 'real(aoo.occupancy.estimation_quality)'}
PROB = 'And(finite(this._occupancy.prob_occ), 0 <= real(this._occupancy.prob_occ), real(this._occupancy.prob_occ) <= 1)'
KEEP = 'Implies(Not(VALID), same(this, old.this))'
KNOWN = 'Implies(VALID, Not(this._is_unknown))'
mass = lambda t: C07.mass(t)


def upd(name, req, ens, **kw):
    return S(name + '::operator+=(const AreaOccupancyObservation &)', requires=OBS + req, modifies=['this'],
             ensures=[KEEP, KNOWN] + ens, lets=LETS, **kw)


BEL = mass('this._belief')
TB = 'TbmBaseCell'
P, P0 = 'real(this._occupancy.prob_occ)', 'real(old.this._occupancy.prob_occ)'
# the occupancy shown by a belief cell is a function of its belief
CONS = ['Implies(real(this._belief._beliefs[1]) + real(this._belief._beliefs[2]) > 0, '
        f'{P}*(real(this._belief._beliefs[1]) + real(this._belief._beliefs[2])) == real(this._belief._beliefs[2]))',
        'And(finite(this._occupancy.estimation_quality), real(this._occupancy.estimation_quality) == real(this._belief._beliefs[1]) + real(this._belief._beliefs[2]))']
EVEN = [f'{P} == real(this._belief._beliefs[2]) + real(this._belief._beliefs[0])/2', 'And(finite(this._occupancy.estimation_quality), real(this._occupancy.estimation_quality) == 1)']
GM = ['this._tries >= 0', 'this._hits >= 0', 'this._hits <= this._tries', 'this._tries < 1000000000',
      f'If(this._tries == 0, And(finite(this._occupancy.prob_occ), {P} == -1), {PROB})', 'And(finite(this.obst.x), finite(this.obst.y))']
free = 'p <= R("1/2")'
BU = lambda k, src='old.this': f'real({src}._belief._beliefs[{k}])'
est = ['(1 - p*e*q - (1 - p)*e*q)', '((1 - p)*e*q)', '(p*e*q)']
w = f'(1 - {BU(1)}*{est[2]} - {BU(2)}*{est[1]})'


def bel_update(t='this'):
    """Conjunctive combination with the observation's masses, conflict redistributed."""
    r = []
    s0 = f'{BU(0)}*{est[0]}'
    s1 = f'({BU(0)}*{est[1]} + {BU(1)}*{est[0]} + {BU(1)}*{est[1]})'
    s2 = f'({BU(0)}*{est[2]} + {BU(2)}*{est[0]} + {BU(2)}*{est[2]})'
    tt = f'({s0} + {s1} + {s2})'
    for k, s in enumerate((s0, s1, s2)):
        r.append(f'Implies(VALID, If({tt} == 0, {BU(k, t)} == {1 if k == 0 else 0}, {BU(k, t)}*{tt} == {s}))')
    r.append(f'Implies(VALID, {BU(3, t)} == 0)')
    return r


TBMREQ = mass('this._belief') + ['real(this._belief._beliefs[3]) == 0', PROB, 'finite(this._occupancy.estimation_quality)']
TBMENS = mass('this._belief') + ['real(this._belief._beliefs[3]) == 0', PROB]
aoo2tbm_ens = mass('result') + ['real(result._beliefs[3]) == 0',
                                'Implies(Not(VALID), real(result._beliefs[0]) == 1)',
                                'Implies(VALID, And(real(result._beliefs[1]) == (1 - p)*e*q, real(result._beliefs[2]) == p*e*q))']
SPECS = C07.SPECS + [
    upd('AffineQualityMergeCell', [PROB], [PROB, f'Implies(VALID, {P} == (1 - q)*{P0} + q*p)', 'eq(this._occupancy.estimation_quality, old.this._occupancy.estimation_quality)']),
    upd('MeanProbabilityCell', [PROB, 'And(finite(this._n), real(this._n) >= 0)'],
        [PROB, 'finite(this._n)', 'Implies(VALID, real(this._n) == real(old.this._n) + 1)', f'Implies(VALID, {P}*(real(old.this._n) + 1) == {P0}*real(old.this._n) + R("1/2") + (p - R("1/2"))*q)']),
    S('AffineQualityMergeCell::#ctor()', ensures=['this._is_unknown', PROB, f'{P} == R("1/2")']),
    S('MeanProbabilityCell::#ctor()', ensures=['this._is_unknown', PROB, f'{P} == R("1/2")', 'And(finite(this._n), real(this._n) == 0)']),
    S('GmappingBaseCell::#ctor()', ensures=['this._is_unknown'] + GM + ['this._tries == 0']),
    upd('GmappingBaseCell', GM, ['If(old.this._tries == 0, If(VALID, ' + PROB + ', this._tries == 0), ' + PROB + ')',
                                 'Implies(VALID, And(this._tries == old.this._tries + 1, this._tries <= 1000000000))', f'Implies(VALID, this._hits == old.this._hits + If({free}, 0, 1))',
                                 'And(finite(this.obst.x), finite(this.obst.y))',
                                 f'Implies(And(VALID, {free}), And(eq(this.obst.x, old.this.obst.x), eq(this.obst.y, old.this.obst.y)))',
                                 f'Implies(And(VALID, Not({free})), And(real(this.obst.x)*this._hits == real(old.this.obst.x)*old.this._hits + real(aoo.obstacle.x), real(this.obst.y)*this._hits == real(old.this.obst.y)*old.this._hits + real(aoo.obstacle.y)))',
                                 f'Implies(VALID, {P}*this._tries == {P0}*old.this._tries + If({free}, 0, p))']),
    S('AOO_to_TBM(const AreaOccupancyObservation &)', requires=OBS, lets=LETS, ensures=aoo2tbm_ens),
    S('TBM_to_O(const TBM &)', requires=mass('tbm'), ensures=['And(finite(result.prob_occ), finite(result.estimation_quality))', 'real(result.prob_occ) == real(tbm._beliefs[2]) + real(tbm._beliefs[0])/2',
                                                            'And(0 <= real(result.prob_occ), real(result.prob_occ) <= 1)', 'real(result.estimation_quality) == 1']),
    S('TbmBaseCell::aoo2tbm(const AreaOccupancyObservation &) const', requires=OBS, lets=LETS, ensures=aoo2tbm_ens, cfg={'dyn': {'TbmBaseCell': 'TbmUnknownEvenOccCell'}}),
    S('TbmOccConsistentCell::tbm2occ(const TBM &) const', requires=mass('tbm') + ['real(tbm._beliefs[3]) == 0'],
      ensures=['And(finite(result.prob_occ), finite(result.estimation_quality))', 'And(0 <= real(result.prob_occ), real(result.prob_occ) <= 1)',
               'real(result.estimation_quality) == real(tbm._beliefs[1]) + real(tbm._beliefs[2])',
               'real(result.prob_occ)*real(result.estimation_quality) == real(tbm._beliefs[2])']),
    S('TbmUnknownEvenOccCell::tbm2occ(const TBM &) const', requires=mass('tbm') + ['real(tbm._beliefs[3]) == 0'],
      ensures=['And(finite(result.prob_occ), finite(result.estimation_quality))', 'real(result.prob_occ) == real(tbm._beliefs[2]) + real(tbm._beliefs[0])/2',
               'And(0 <= real(result.prob_occ), real(result.prob_occ) <= 1)', 'real(result.estimation_quality) == 1']),
    upd(TB, TBMREQ, TBMENS + [f'Implies(VALID, {c})' for c in EVEN] + bel_update(), cls='TbmUnknownEvenOccCell'),
    upd(TB, TBMREQ, TBMENS + [f'Implies(VALID, {c})' for c in CONS] + bel_update(), cls='TbmOccConsistentCell'),
    upd('CredibilistCell', TBMREQ, TBMENS + [f'Implies(VALID, {c})' for c in EVEN] + bel_update()),
    S('CredibilistCell::refresh_grid_cell()', requires=mass('this._belief'), modifies=['this._occupancy'], ensures=['And(finite(this._occupancy.prob_occ), finite(this._occupancy.estimation_quality))'] + EVEN),
    S('CredibilistCell::#ctor()', ensures=['this._is_unknown', PROB, f'{P} == R("1/2")'] + mass('this._belief') + ['real(this._belief._beliefs[3]) == 0', 'real(this._belief._beliefs[0]) == 1']),
    S('GridCell::#ctor(const Occupancy &)', ensures=['this._is_unknown', 'same(this._occupancy, occ)']),
    S('GridCell::on_update()', modifies=['this._is_unknown'], ensures=['Not(this._is_unknown)']),
    S('GridCell::operator+=(const AreaOccupancyObservation &)', modifies=['this'], ensures=['same(this._occupancy, aoo.occupancy)', 'Not(this._is_unknown)']),
    S('GridCell::is_unknown() const', ensures=['result == this._is_unknown']),
    S('GridCell::occupancy() const', ensures=['same(result, this._occupancy)']),
    S('GridCell::operator double() const', ensures=['eq(result, this._occupancy.prob_occ)']),
    S('Occupancy::is_valid() const', ensures=['result == And(Not(isnan(this.prob_occ)), Not(isnan(this.estimation_quality)))']),
    S('Occupancy::invalid()', ensures=['isnan(result.prob_occ)']),
]
for c in ('AffineQualityMergeCell', 'MeanProbabilityCell', 'GmappingBaseCell', 'CredibilistCell', 'TbmOccConsistentCell', 'TbmUnknownEvenOccCell'):
    SPECS.append(S(c + '::clone() const', ensures=['same(result.val, this)', 'Not(result.null)']))
CFG = {'shapes': {f'Occupancy::{f}': ('dblx',) for f in ('prob_occ', 'estimation_quality')}}
ASSUMPTIONS = [
    'observations have occupancy and quality in [0,1] or are invalid (NaN); the counters of a cell do not overflow',
    'clone() of a cell kind returns a copy of the object it is called on (std::make_unique)',
]
