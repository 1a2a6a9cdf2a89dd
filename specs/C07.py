"""Belief mass algebra (unknown, empty, occupied, conflict)."""
from lib import *

B_ = '_beliefs'


def fin(t):
    return 'And(' + ', '.join(f'finite({t}._beliefs[{k}])' for k in range(4)) + ')'


def nonneg(t):
    return 'And(' + ', '.join(f'real({t}._beliefs[{k}]) >= 0' for k in range(4)) + ')'


def b(t, k):
    return f'real({t}._beliefs[{k}])'


def tot(t):
    return '(' + ' + '.join(b(t, k) for k in range(4)) + ')'


def mass(t):
    return [fin(t), nonneg(t), f'{tot(t)} == 1']


def comb(op, l, r, k):
    return '(' + ' + '.join(f'{b(l, i)}*{b(r, j)}' for i in range(4) for j in range(4) if (i | j if op == '|' else i & j) == k) + ')'


NAMES = ['unknown', 'empty', 'occupied', 'conflict']
SPECS = [
    S('TBM::#ctor()', ensures=[f'And(finite(this._beliefs[{k}]), {b("this", k)} == {1 if k == 0 else 0})' for k in range(4)]),
    S('TBM::#ctor(double, double, double, double)', ensures=[f'eq(this._beliefs[{k}], a{k})' for k in range(4)]),
    S('TBM::set(TBM::Belief, double)', requires=['And(0 <= belief, belief < 4)'], modifies=['this._beliefs'],
      ensures=[f'If(belief == {k}, eq(this._beliefs[{k}], value), eq(this._beliefs[{k}], old.this._beliefs[{k}]))' for k in range(4)]),
    S('TBM::get(TBM::Belief) const', requires=['And(0 <= belief, belief < 4)'],
      ensures=[f'Implies(belief == {k}, eq(result, this._beliefs[{k}]))' for k in range(4)]),
    S('TBM::set_to_zero()', modifies=['this._beliefs'], ensures=[f'And(finite(this._beliefs[{k}]), {b("this", k)} == 0)' for k in range(4)]),
    S('TBM::set_to_default()', modifies=['this._beliefs'], ensures=[f'And(finite(this._beliefs[{k}]), {b("this", k)} == {1 if k == 0 else 0})' for k in range(4)]),
] + [S(f'TBM::{n}() const', ensures=[f'eq(result, this._beliefs[{k}])']) for k, n in enumerate(NAMES)] + [
    S('TBM::normalize()', requires=[fin('this'), nonneg('this')], modifies=['this._beliefs'],
      ensures=mass('this') + [f'If({tot("old.this")} == 0, {b("this", k)} == {1 if k == 0 else 0}, {b("this", k)}*{tot("old.this")} == {b("old.this", k)})' for k in range(4)],
      ),
    S('TBM::normalize_conflict()', requires=[fin('this'), nonneg('this')], modifies=['this._beliefs'],
      ensures=mass('this') + [f'{b("this", 3)} == 0'] +
      [f'If({b("old.this", 0)} + {b("old.this", 1)} + {b("old.this", 2)} == 0, {b("this", k)} == {1 if k == 0 else 0}, '
       f'{b("this", k)}*({b("old.this", 0)} + {b("old.this", 1)} + {b("old.this", 2)}) == {b("old.this", k)})' for k in range(3)]),
    S('conjunctive(const TBM &, const TBM &)', requires=mass('lhs') + mass('rhs'),
      entry_hints=[f'{comb("|", "lhs", "rhs", 0)} + {comb("|", "lhs", "rhs", 1)} + {comb("|", "lhs", "rhs", 2)} + {comb("|", "lhs", "rhs", 3)} == {tot("lhs")}*{tot("rhs")}'],
      ensures=mass('result') + [f'{b("result", k)} == {comb("|", "lhs", "rhs", k)}' for k in range(4)]),
    S('disjunctive(const TBM &, const TBM &)', requires=mass('lhs') + mass('rhs'),
      entry_hints=[f'{comb("&", "lhs", "rhs", 0)} + {comb("&", "lhs", "rhs", 1)} + {comb("&", "lhs", "rhs", 2)} + {comb("&", "lhs", "rhs", 3)} == {tot("lhs")}*{tot("rhs")}'],
      ensures=mass('result') + [f'{b("result", k)} == {comb("&", "lhs", "rhs", k)}' for k in range(4)]),
]


def _op(op, x, y):
    return [sum(x[i] * y[j] for i in range(4) for j in range(4) if (i | j if op == '|' else i & j) == k) for k in range(4)]


def lemma(op, what):
    def go():
        x, y, z = ([z3.Real(f'{n}{k}') for k in range(4)] for n in 'xyz')
        if what == 'commutative':
            return z3.And(*[p == q for p, q in zip(_op(op, x, y), _op(op, y, x))])
        if what == 'associative':
            return z3.And(*[z3.simplify(p - q, som=True) == 0 for p, q in zip(_op(op, _op(op, x, y), z), _op(op, x, _op(op, y, z)))])
        e = [1, 0, 0, 0] if op == '|' else [0, 0, 0, 1]
        return z3.And(*[p == q for p, q in zip(_op(op, x, e), x)])
    return go


LEMMAS = [(f'{n} combination is {w}', lemma(o, w)) for o, n in (('|', 'conjunctive'), ('&', 'disjunctive')) for w in ('commutative', 'associative', 'neutral')]
CFG = {}
ASSUMPTIONS = [
    'belief masses are exact reals; normalisation divides by a sum that is not 0 unless the conflict is total',
]
