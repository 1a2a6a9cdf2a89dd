"""Symbolic values: z3 terms at the leaves of typed trees."""
import z3


class Unsupported(Exception):
    """The construct is outside the accepted dialect: the function is undecided."""


class Node:
    __slots__ = ('kind', 'meta', 'ch')

    def __init__(self, kind, meta, ch):
        self.kind, self.meta, self.ch = kind, meta, ch

    def with_(self, k, v):
        c = dict(self.ch)
        c[k] = v
        return Node(self.kind, self.meta, c)

    def __repr__(self):
        return f'{self.kind}<{self.meta}>{self.ch}'


class Loc:
    """An lvalue: a root object and a path of ('f',key) / ('i',term) steps; a last
    step ('w', (index, type)) is an object of that type in the bytes of a vector<char>."""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def f(self, key):
        return Loc(self.root, self.path + (('f', key),))

    def i(self, term):
        return Loc(self.root, self.path + (('i', term),))

    def __repr__(self):
        return f'Loc({self.root},{self.path})'

    def alike(self, o):
        """Condition under which both name the same place."""
        if self.root != o.root or len(self.path) != len(o.path):
            return z3.BoolVal(False)
        eqs = []
        for a, b in zip(self.path, o.path):
            if a[0] != b[0] or a[0] == 'f' and a[1] != b[1]:
                return z3.BoolVal(False)
            if a[0] == 'w':
                raise Unsupported('comparing raw storage addresses')
            if a[0] == 'i':
                eqs.append(a[1] == b[1])
        return z3.And(*eqs)

    def same(self, o):
        if self.root != o.root or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if a[0] != b[0]:
                return False
            if a[0] == 'f' and a[1] != b[1]:
                return False
            if a[0] == 'i' and not z3.eq(z3.simplify(a[1]), z3.simplify(b[1])):
                return False
            if a[0] == 'w' and not (a[1][1] == b[1][1] and z3.eq(z3.simplify(a[1][0]), z3.simplify(b[1][0]))):
                return False
        return True


def is_leaf(v):
    return isinstance(v, z3.ExprRef)


def I(n):
    return z3.IntVal(n)


def R(n):
    return z3.RealVal(n)


def B(b):
    return z3.BoolVal(b)


FIN, NAN, PINF, NINF = 0, 1, 2, 3


def mkdbl(r, k):
    k = z3.simplify(k) if is_leaf(k) else I(k)
    if z3.is_int_value(k) and k.as_long() == FIN:
        return r
    return Node('dbl', None, {'r': r, 'k': k})


def dr(v):
    return v.ch['r'] if isinstance(v, Node) else v


def dk(v):
    return v.ch['k'] if isinstance(v, Node) else I(FIN)


def const_bool(c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return None


def const_int(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


def tmap(f, v):
    if is_leaf(v):
        return f(v)
    if v.kind in ('ptr', 'clo', 'iter') and v.kind != 'iter':
        return v
    return Node(v.kind, v.meta, {k: tmap(f, c) for k, c in v.ch.items()})


def tzip(f, a, b):
    if isinstance(a, Node) and a.kind == 'dbl' and is_leaf(b):
        b = Node('dbl', None, {'r': b, 'k': I(FIN)})
    if isinstance(b, Node) and b.kind == 'dbl' and is_leaf(a):
        a = Node('dbl', None, {'r': a, 'k': I(FIN)})
    if is_leaf(a) and is_leaf(b):
        return f(a, b)
    if is_leaf(a) or is_leaf(b) or a.kind != b.kind:
        raise Unsupported(f'shape mismatch {getattr(a, "kind", a)} vs {getattr(b, "kind", b)}')
    if a.kind == 'ptr':
        if a.meta is None and b.meta is None or (a.meta is not None and b.meta is not None and a.meta.same(b.meta)):
            return a
        raise Unsupported('cannot merge pointers')
    if a.kind == 'clo':
        if a.meta is b.meta:
            return a
        raise Unsupported('cannot merge closures')
    if a.kind == 'iter' and not a.meta.same(b.meta):
        raise Unsupported('cannot merge iterators')
    if a.ch.keys() != b.ch.keys():
        raise Unsupported('field mismatch')
    return Node(a.kind, a.meta, {k: tzip(f, a.ch[k], b.ch[k]) for k in a.ch})


def merge(c, a, b):
    if isinstance(a, Loc) or isinstance(b, Loc):
        if isinstance(a, Loc) and isinstance(b, Loc) and a.same(b):
            return a
        raise Unsupported('cannot merge references')
    if a is b:
        return a
    if a is None or b is None:
        raise Unsupported('cannot merge void')

    def f(x, y):
        if z3.eq(x, y):
            return x
        if x.sort() != y.sort():
            if z3.is_int(x) and z3.is_real(y):
                x = z3.ToReal(x)
            elif z3.is_real(x) and z3.is_int(y):
                y = z3.ToReal(y)
        return z3.If(c, x, y)
    return tzip(f, a, b)


def tree_leaves(v, pre=()):
    if is_leaf(v):
        yield pre, v
    else:
        for k, c in v.ch.items():
            yield from tree_leaves(c, pre + (k,))


def tsel(data, i):
    return tmap(lambda a: z3.Select(a, i), data)


def tstore(data, i, v):
    def f(a, x):
        if a.sort().range() != x.sort():
            if a.sort().range() == z3.RealSort() and z3.is_int(x):
                x = z3.ToReal(x)
        return z3.Store(a, i, x)
    return tzip(f, data, v)


# ---- shapes -----------------------------------------------------------------

_sorts = {}


def opaque_sort(name):
    if name not in _sorts:
        _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]


def shape_children(s):
    k = s[0]
    if k == 'rec':
        return list(s[2])
    if k == 'tup':
        return [(i, x) for i, x in enumerate(s[1])]
    if k == 'arr' and s[1] <= 64:
        return [(i, s[2]) for i in range(s[1])]
    return None


def lift_sort(srt, depth):
    for _ in range(depth):
        srt = z3.ArraySort(z3.IntSort(), srt)
    return srt


def leaf_sort(s):
    k = s[0]
    if k == 'int':
        return z3.IntSort()
    if k == 'bool':
        return z3.BoolSort()
    if k == 'dbl':
        return z3.RealSort()
    if k == 'opaque':
        return opaque_sort(s[1])
    if k == 'iset':
        return z3.ArraySort(z3.IntSort(), z3.BoolSort())
    return None


def build(s, mk, pre='', depth=0):
    """Tree of shape s; mk(path name, leaf sort, leaf shape, depth) makes leaves."""
    k = s[0]
    if k in ('int', 'bool', 'dbl', 'opaque', 'iset'):
        return mk(pre, lift_sort(leaf_sort(s), depth), s, depth)
    if k == 'dblx':
        return Node('dbl', None, {
            'r': mk(pre + '.r', lift_sort(z3.RealSort(), depth), ('dbl',), depth),
            'k': mk(pre + '.k', lift_sort(z3.IntSort(), depth), ('kind',), depth)})
    if k == 'rec':
        return Node('rec', s[1], {f: build(fs, mk, pre + '.' + f.split('::')[-1], depth) for f, fs in s[2]})
    if k == 'tup':
        return Node('tup', None, {i: build(x, mk, f'{pre}.{i}', depth) for i, x in enumerate(s[1])})
    if k == 'arr':
        if s[1] <= 64:
            return Node('arr', s, {i: build(s[2], mk, f'{pre}.{i}', depth) for i in range(s[1])})
        return Node('vec', s[2], {'len': mk(pre + '.len', lift_sort(z3.IntSort(), depth), ('len', s[1]), depth),
                                  'data': build(s[2], mk, pre + '.e', depth + 1)})
    if k == 'vec':
        return Node('vec', s[1], {'len': mk(pre + '.len', lift_sort(z3.IntSort(), depth), ('len', None), depth),
                                  'data': build(s[1], mk, pre + '.e', depth + 1)})
    if k == 'uptr':
        return Node('uptr', s[1], {'null': mk(pre + '.null', lift_sort(z3.BoolSort(), depth), ('bool',), depth),
                                   'val': build(s[1], mk, pre + '.val', depth)})
    if k == 'sref':
        return Node('sref', s[1], {'h': mk(pre + '.h', lift_sort(z3.IntSort(), depth), ('ref',), depth)})
    if k == 'ptr':
        return Node('ptr', None, {})
    raise Unsupported(f'shape {s}')


def int_range(w, sg):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)


def leaf_facts(t, s, depth):
    """Type facts of a fresh leaf (int ranges, non-negative lengths)."""
    def body(x):
        if s[0] == 'int':
            lo, hi = int_range(s[1], s[2])
            return z3.And(x >= lo, x <= hi)
        if s[0] == 'len':
            if s[1] is not None:
                return x == s[1]
            return z3.And(x >= 0, x < (1 << 62))
        if s[0] == 'kind':
            return z3.And(x >= 0, x <= 3)
        if s[0] == 'ref':
            return x >= 0
        return None
    if s[0] not in ('int', 'len', 'kind', 'ref'):
        return []
    if depth == 0:
        return [body(t)]
    vs = [z3.Int(f'q!{d}') for d in range(depth)]
    x = t
    for v in vs:
        x = z3.Select(x, v)
    b = body(x)
    return [z3.ForAll(vs, b, patterns=[x])]
