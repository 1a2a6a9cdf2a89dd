"""Shared vocabulary of the contracts."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from vc.spec import FnSpec as S
from vc.values import *

BIG = 1 << 29


def small(*names, lim=BIG):
    """Integer coordinates within +-lim."""
    return [f'iabs({n}) <= {lim}' for n in names]


def pt(*names, lim=BIG):
    out = []
    for n in names:
        out += small(n + '.x', n + '.y', lim=lim)
    return out


# A grid map known by its interface: the regular grid it is plus an abstract content.
def _i(eng):
    return ('int', 32, True)


def grid_map_shape(name='GridMap'):
    return ('rec', name, (('RegularSquaresGrid::_width', ('int', 32, True)), ('RegularSquaresGrid::_height', ('int', 32, True)),
                          ('RegularSquaresGrid::_m_per_cell', ('dbl',)), (f'{name}::content', ('opaque', 'CellStore'))))


def map_cell(eng, this, args):
    """GridMap::operator[]: the cell is a function of the content and the coordinate."""
    m = eng.load(this)
    c = eng.rv(args[0])
    key = [k for k in m.ch if k.endswith('::content')][0]
    leaves = [m.ch[key], c.ch['DiscretePoint2D::x'], c.ch['DiscretePoint2D::y']]
    v = eng.uf_tree('cell_at', leaves, eng.rec_shape('GridCell'))
    return eng.as_loc(v, 'cell')


def cell_of(ns, m, x, y):
    """Specification view of map[(x, y)]."""
    key = [k for k in m._v.ch if k.endswith('::content')][0]
    return ns.wrap(ns.eng.uf_tree('cell_at', [m._v.ch[key], ns.unv(x), ns.unv(y)], ns.eng.rec_shape('GridCell')), ns.mem)


MAPCFG = {'dyn': {'GridMap': grid_map_shape()}, 'abstract': {'GridMap::operator[](const DiscretePoint2D &) const': map_cell},
          'spec_funcs': {'cell': cell_of}}


# Ghost logs: sequences of records kept beside the program state.
def rec(name, **f):
    return ('rec', name, tuple((f'{name}::{k}', v) for k, v in f.items()))


def log(eng, name, **f):
    """Appends a record to a ghost log."""
    root = 'heap:' + name
    v = eng.mem[root]
    n = v.ch['len']
    cls = v.meta[1]
    sh = dict(v.meta[2])
    f = {k: Node("dbl", None, {"r": x, "k": I(0)}) if sh[f'{cls}::{k}'][0] == 'dblx' and not isinstance(x, Node) else x for k, x in f.items()}
    el = Node('rec', cls, {f'{cls}::{k}': x for k, x in f.items()})
    eng.mem[root] = Node('vec', v.meta, {'len': z3.simplify(n + 1), 'data': eng._tstore(v.ch['data'], n, el)})


D_, DX, I_, B_ = ('dbl',), ('dblx',), ('int', 64, True), ('bool',)
POSE = dict(x=D_, y=D_, theta=D_)


def pose_parts(eng, p):
    v = eng.rv(p)
    return {k.split('::')[-1]: x for k, x in v.ch.items()}
