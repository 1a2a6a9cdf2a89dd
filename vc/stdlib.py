"""Models of the standard-library functions the code calls.  Trusted."""
import re
import z3
from .values import *
from . import values as V

HANDLERS = {}


def h(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def fin(eng, v, what):
    if not is_leaf(v):
        eng.oblige(v.ch['k'] == FIN, 'safety', f'finite argument of {what}')
        return v.ch['r']
    return eng.toreal(v)


# ---- mathematics ---------------------------------------------------------------
RS = z3.RealSort()
PI = z3.Real('M_PI_exact')


def uf1(eng, n, x):
    f = z3.Function('m_' + n, RS, RS)
    return f(eng.toreal(x))


def once(eng, key):
    if key in eng.axioms_seen:
        return False
    eng.axioms_seen.add(key)
    return True


def sqrt_term(eng, x):
    f = z3.Function('m_sqrt', RS, RS)
    x = eng.toreal(x)
    t = f(x)
    if once(eng, ('sqrt', x.get_id())):
        eng.assume(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
    return t


def trig_term(eng, n, x):
    x = eng.toreal(x)
    s, c = z3.Function('m_sin', RS, RS)(x), z3.Function('m_cos', RS, RS)(x)
    if once(eng, ('trig', x.get_id())):
        eng.assume(z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1))
        eng.assume(z3.Implies(x == 0, z3.And(s == 0, c == 1)))
    return s if n == 'sin' else c


@h('sin', 'std::sin')
def _(eng, e, o, a):
    return trig_term(eng, 'sin', fin(eng, eng.rv(a[0]), 'sin'))


@h('cos', 'std::cos')
def _(eng, e, o, a):
    return trig_term(eng, 'cos', fin(eng, eng.rv(a[0]), 'cos'))


@h('sqrt', 'std::sqrt')
def _(eng, e, o, a):
    v = eng.toreal(eng.rv(a[0]))
    if is_leaf(v):
        t = sqrt_term(eng, v)
        if eng.quick(v >= 0):
            return t
        return mkdbl(t, z3.If(v >= 0, I(FIN), I(NAN)))
    r, k = v.ch['r'], v.ch['k']
    t = sqrt_term(eng, r)
    return mkdbl(t, z3.If(k == FIN, z3.If(r >= 0, I(FIN), I(NAN)), z3.If(k == PINF, I(PINF), I(NAN))))


@h('exp', 'std::exp')
def _(eng, e, o, a):
    v = fin(eng, eng.rv(a[0]), 'exp')
    t = uf1(eng, 'exp', v)
    if once(eng, ('exp', v.get_id())):
        eng.assume(z3.And(t > 0, z3.Implies(v <= 0, t <= 1), z3.Implies(v < 0, t < 1), z3.Implies(v == 0, t == 1), z3.Implies(v > 0, t > 1)))
    return t


@h('acos', 'std::acos')
def _(eng, e, o, a):
    v = eng.toreal(eng.rv(a[0]))
    r = dr(v)
    t = uf1(eng, 'acos', r)
    eng.assume(z3.And(t >= 0, t <= R('3.14159265358979323846')))
    return mkdbl(t, z3.If(z3.And(dk(v) == FIN, r >= -1, r <= 1), I(FIN), I(NAN)))


@h('atan2', 'std::atan2')
def _(eng, e, o, a):
    f = z3.Function('m_atan2', RS, RS, RS)
    y, x = fin(eng, eng.rv(a[0]), 'atan2'), fin(eng, eng.rv(a[1]), 'atan2')
    return f(y, x)


@h('pow', 'std::pow')
def _(eng, e, o, a):
    x, y = eng.toreal(eng.rv(a[0])), eng.toreal(eng.rv(a[1]))
    y = z3.simplify(y) if is_leaf(y) else y
    if is_leaf(y) and z3.is_rational_value(y):
        q = y.as_fraction()
        if q == 2:
            return eng.darith('*', x, x)
        if q == 1:
            return x
        if q == 0:
            return R(1)
        if q.denominator == 1 and 2 < q.numerator <= 4:
            r = x
            for _ in range(q.numerator - 1):
                r = eng.darith('*', r, x)
            return r
    x, y = fin(eng, x, 'pow'), fin(eng, y, 'pow')
    t = z3.Function('m_pow', RS, RS, RS)(x, y)
    if once(eng, ('pow', x.get_id(), y.get_id())):
        eng.assume(z3.Implies(x >= 0, t >= 0))
        eng.assume(z3.Implies(x > 0, t > 0))
        eng.assume(z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), t <= 1))
        eng.assume(z3.Implies(y == 0, t == 1))
        eng.assume(z3.Implies(y == 1, t == x))
    return t


@h('abs', 'std::abs', 'fabs', 'std::fabs')
def _(eng, e, o, a):
    v = eng.rv(a[0])
    T = eng.T(e['t'])
    if T['c'] == 'float':
        v = eng.toreal(v)
        if is_leaf(v):
            if eng.quick(v >= 0):
                return v
            return z3.If(v >= 0, v, -v)
        k = v.ch['k']
        return mkdbl(z3.If(v.ch['r'] >= 0, v.ch['r'], -v.ch['r']), z3.If(k == NINF, I(PINF), k))
    lo, hi = int_range(T['w'], T['sg'])
    eng.oblige(v > lo, 'safety', 'abs of the least integer')
    return z3.If(v >= 0, v, -v)


def rounder(f):
    def g(eng, e, o, a):
        v = eng.toreal(eng.rv(a[0]))
        if is_leaf(v):
            return z3.ToReal(f(v))
        return mkdbl(z3.ToReal(f(v.ch['r'])), v.ch['k'])
    return g


HANDLERS['floor'] = HANDLERS['std::floor'] = rounder(z3.ToInt)
HANDLERS['ceil'] = HANDLERS['std::ceil'] = rounder(lambda r: -z3.ToInt(-r))
HANDLERS['trunc'] = HANDLERS['std::trunc'] = rounder(lambda r: z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
HANDLERS['round'] = HANDLERS['std::round'] = rounder(lambda r: z3.If(r >= 0, z3.ToInt(r + z3.Q(1, 2)), -z3.ToInt(-r + z3.Q(1, 2))))


@h('std::isnan', 'isnan')
def _(eng, e, o, a):
    return z3.simplify(dk(eng.toreal(eng.rv(a[0]))) == NAN)


@h('std::isinf')
def _(eng, e, o, a):
    k = dk(eng.toreal(eng.rv(a[0])))
    return z3.simplify(z3.Or(k == PINF, k == NINF))


@h('std::isfinite')
def _(eng, e, o, a):
    return z3.simplify(dk(eng.toreal(eng.rv(a[0]))) == FIN)


def minmax(op):
    def g(eng, e, o, a):
        if len(a) == 1:
            v = eng.rv(a[0])
            vals = [v.ch[i] for i in range(len(v.ch))] if v.kind == 'arr' else None
            if vals is None:
                raise Unsupported('min/max of a list')
        else:
            vals = [eng.rv(x) for x in a]
        r = vals[0]
        for x in vals[1:]:
            # std::min(a,b): b < a ? b : a ; std::max(a,b): a < b ? b : a
            c = eng.compare('<', x, r) if op == '<' else eng.compare('<', r, x)
            r = merge(c, x, r)
        return r
    return g


HANDLERS['std::min'] = minmax('<')
HANDLERS['std::max'] = minmax('>')


@h('std::numeric_limits<double>::epsilon', 'std::numeric_limits::epsilon')
def _(eng, e, o, a):
    return z3.Q(1, 1 << 52)


@h('std::numeric_limits<double>::infinity', 'std::numeric_limits::infinity')
def _(eng, e, o, a):
    return Node('dbl', None, {'r': R(0), 'k': I(PINF)})


@h('std::numeric_limits<double>::quiet_NaN', 'std::numeric_limits::quiet_NaN')
def _(eng, e, o, a):
    return Node('dbl', None, {'r': R(0), 'k': I(NAN)})


DBL_MAX = (2 ** 1024 - 2 ** 971)


@h('std::numeric_limits<double>::max')
def _(eng, e, o, a):
    return R(str(DBL_MAX))


@h('std::numeric_limits<double>::lowest')
def _(eng, e, o, a):
    return R(str(-DBL_MAX))


# ---- utilities -----------------------------------------------------------------
def elem_out(eng, out):
    """(location of the sequence, index) an output pointer or iterator designates."""
    if out.kind == 'iter':
        return out.meta, out.ch['idx']
    if out.kind == 'ptr' and out.meta is not None and out.meta.path and out.meta.path[-1][0] == 'i':
        return Loc(out.meta.root, out.meta.path[:-1]), out.meta.path[-1][1]
    raise Unsupported(f'output range through {out.kind}')


def range_transfer(eng, a, moves):
    b, en, out = [eng.rv(x) for x in a]
    if out.kind == 'binserter' and not moves:
        (src, lo), (end, hi) = elem_out(eng, b), elem_out(eng, en)
        if not src.same(end):
            raise Unsupported('copy of a range')
        append_range(eng, out.meta, src, lo, hi)
        return out
    dst, k = elem_out(eng, out)
    (src, lo), (end, hi) = elem_out(eng, b), elem_out(eng, en)
    if dst.same(src) or not src.same(end):
        raise Unsupported('copy of a range')
    sv, dv = eng.load(src), eng.load(dst)
    if sv.kind != 'vec' or dv.kind != 'vec':
        raise Unsupported('copy of a range')
    eng.oblige(z3.And(lo >= 0, lo <= hi, hi <= vlen(sv)), 'safety', 'copied range lies in its vector')
    eng.oblige(z3.And(k >= 0, k + (hi - lo) <= vlen(dv)), 'safety', 'target range lies in its vector')

    def f(new, old):
        t = z3.Const(eng.fresh_name('moved'), old.sort())
        i = z3.Int('i?')
        eng.assume(z3.ForAll([i], z3.Select(t, i) == z3.If(z3.And(i >= k, i < k + (hi - lo)), z3.Select(new, i - k + lo), z3.Select(old, i)),
                             patterns=[z3.Select(t, i)]))
        return t
    eng.store(dst, dv.with_('data', tzip(f, sv.ch['data'], dv.ch['data'])))
    d = sv.ch['data']
    if moves and not is_leaf(d) and 'null' in d.ch:
        t = z3.Const(eng.fresh_name('left'), d.ch['null'].sort())
        i = z3.Int('i?')
        eng.assume(z3.ForAll([i], z3.Select(t, i) == z3.Or(z3.And(i >= lo, i < hi), z3.Select(d.ch['null'], i)), patterns=[z3.Select(t, i)]))
        eng.store(src, sv.with_('data', d.with_('null', t)))
    if moves and not is_leaf(d) and d.kind == 'sref':
        t = z3.Const(eng.fresh_name('left'), d.ch['h'].sort())
        i = z3.Int('i?')
        eng.assume(z3.ForAll([i], z3.Select(t, i) == z3.If(z3.And(i >= lo, i < hi), 0, z3.Select(d.ch['h'], i)), patterns=[z3.Select(t, i)]))
        eng.store(src, sv.with_('data', d.with_('h', t)))
    if out.kind == 'iter':
        return out.with_('idx', k + (hi - lo))
    return Node('ptr', dst.i(k + (hi - lo)), {})


@h('std::copy')
def _(eng, e, o, a):
    return range_transfer(eng, a, False)


@h('std::move', 'std::forward')
def _(eng, e, o, a):
    if len(a) == 3:
        return range_transfer(eng, a, True)
    return a[0]


@h('std::swap')
def _(eng, e, o, a):
    x, y = eng.rv(a[0]), eng.rv(a[1])
    eng.store(a[0], y)
    eng.store(a[1], x)


@h('std::make_tuple', 'std::make_pair')
def _(eng, e, o, a):
    return Node('tup', None, {i: eng.rv(x) for i, x in enumerate(a)})


@h('std::tie')
def _(eng, e, o, a):
    return Node('tie', None, {i: Node('ptr', x, {}) if isinstance(x, Loc) else x for i, x in enumerate(a)})


@h('std::tuple::operator=', 'std::pair::operator=')
def _(eng, e, o, a):
    lhs = eng.rv(o)
    rhs = eng.rv(a[0])
    if lhs.kind == 'tie':
        for i, p in lhs.ch.items():
            if isinstance(p, Node) and p.kind == 'ignore':
                continue
            v = rhs.ch[i]
            tgt = p.meta
            if isinstance(v, Node) and v.kind == 'ptr' and rhs.kind == 'tie':
                v = eng.load(v.meta)
            eng.store(tgt, eng._coerce(eng.load(tgt) if is_leaf_safe(eng, tgt) else None, v))
        return o
    eng.store(o, rhs)
    return o


def is_leaf_safe(eng, loc):
    try:
        return is_leaf(eng.load(loc))
    except Unsupported:
        return False


@h('std::tuple::#ctor', 'std::pair::#ctor')
def _(eng, e, o, a):
    if len(a) == 1:
        return eng.rv(a[0])
    if not a:
        return eng.zero(eng.shape(e['ty']))
    s = eng.shape(e['ty'])
    return Node('tup', None, {i: coerce_shape(eng, eng.rv(x), s[1][i]) for i, x in enumerate(a)})


def coerce_shape(eng, v, s):
    if is_leaf(v) and s[0] in ('dbl', 'dblx') and z3.is_int(v):
        return z3.ToReal(v)
    return v


@h('std::get')
def _(eng, e, o, a):
    i = e['targs'][0]
    if not isinstance(i, int):
        raise Unsupported('std::get by type')
    x = a[0]
    return x.f(i) if isinstance(x, Loc) else x.ch[i]


@h('std::pair::first', 'std::pair::second')
def _(eng, e, o, a):
    raise Unsupported('pair member')


# ---- vector -------------------------------------------------------------------
def elshape(eng, t):
    return eng.shape(eng.T(t)['targs'][0])


def vec_type(eng, e):
    t = e['ty'] if 'ty' in e else e['t']
    return eng.strip_ref(t)


@h('std::vector::#ctor')
def _(eng, e, o, a):
    s = eng.shape(e['ty'])
    if s[0] != 'vec':
        raise Unsupported('vector shape')
    el = s[1]
    pts = e.get('pt', [])
    args = [x for x, p in zip(a, pts) if 'allocator' not in eng.T(eng.strip_ref(p))['s'].split('<')[0]]
    if not args:
        return eng.empty_vec(el)
    p0 = eng.T(eng.strip_ref(pts[0]))
    if p0.get('tmpl') == 'std::vector':
        v = eng.rv(args[0])
        if e.get('mv') and isinstance(a[0], Loc):
            eng.store(a[0], eng.empty_vec(el))
        return v
    if p0.get('tmpl') == 'std::initializer_list':
        v = eng.rv(args[0])
        return list_to_vec(eng, v, el)
    if p0['c'] == 'int':
        n = eng.rv(args[0])
        x = eng.rv(args[1]) if len(args) > 1 else eng.zero(el)
        x = coerce_shape(eng, x, el)
        return Node('vec', el, {'len': n, 'data': eng.const_data(x)})
    if len(args) >= 2 and isinstance(eng.rv(args[0]), Node) and eng.rv(args[0]).kind == 'iter':
        b, en = eng.rv(args[0]), eng.rv(args[1])
        v = eng.load(b.meta)
        if const_int(b.ch['idx']) == 0:
            return Node('vec', el, {'len': en.ch['idx'], 'data': v.ch['data']})
        nv = eng.fresh(('vec', el), 'vcopy')
        n = en.ch['idx'] - b.ch['idx']
        eng.assume(nv.ch['len'] == n)
        for (p, x), (_, y) in zip(tree_leaves(nv.ch['data']), tree_leaves(v.ch['data'])):
            i = z3.Int('i?')
            eng.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(x, i) == z3.Select(y, i + b.ch['idx']))))
        return nv
    raise Unsupported(f'vector constructor {e["fn"]}')


def list_to_vec(eng, v, el):
    if isinstance(v, Node) and v.kind == 'vec':
        return v
    r = eng.empty_vec(el)
    d = r.ch['data']
    for i in range(len(v.ch)):
        d = eng._tstore(d, I(i), coerce_shape(eng, v.ch[i], el))
    return Node('vec', el, {'len': I(len(v.ch)), 'data': d})


def vload(eng, o):
    v = eng.rv(o)
    if not isinstance(v, Node) or v.kind not in ('vec', 'arr'):
        raise Unsupported('vector operation on ' + str(getattr(v, 'kind', v)))
    return v


def vlen(v):
    return v.ch['len'] if v.kind == 'vec' else I(len(v.ch))


@h('std::vector::size', 'std::array::size', 'std::initializer_list::size')
def _(eng, e, o, a):
    return vlen(vload(eng, o))


@h('std::vector::empty')
def _(eng, e, o, a):
    return vlen(vload(eng, o)) == 0


@h('std::vector::operator[]', 'std::array::operator[]', 'std::vector::at', 'std::array::at')
def _(eng, e, o, a):
    v = vload(eng, o)
    i = eng.rv(a[0])
    eng.oblige(z3.And(i >= 0, i < vlen(v)), 'safety', 'container index in range')
    return eng.as_loc(o).i(i)


@h('std::vector::back')
def _(eng, e, o, a):
    v = vload(eng, o)
    eng.oblige(vlen(v) > 0, 'safety', 'back() of a non-empty container')
    return eng.as_loc(o).i(z3.simplify(vlen(v) - 1))


@h('std::vector::front')
def _(eng, e, o, a):
    v = vload(eng, o)
    eng.oblige(vlen(v) > 0, 'safety', 'front() of a non-empty container')
    return eng.as_loc(o).i(I(0))


def vpush(eng, o, x):
    v = vload(eng, o)
    n = v.ch['len']
    x = coerce_shape(eng, x, v.meta)
    eng.store(o, Node('vec', v.meta, {'len': z3.simplify(n + 1), 'data': eng._tstore(v.ch['data'], n, x)}))


@h('std::vector::push_back')
def _(eng, e, o, a):
    x = eng.rv(a[0])
    vpush(eng, o, x)
    if isinstance(x, Node) and x.kind == 'uptr' and isinstance(a[0], Loc):
        eng.store(a[0], x.with_('null', B(True)))


@h('std::vector::emplace_back')
def _(eng, e, o, a):
    t = eng.strip_ref(e['obj']['t'])
    el = eng.T(t)['targs'][0]
    vpush(eng, o, construct_any(eng, el, a))


def construct_cls(eng, cls, a):
    b = inherits_ctors(eng, cls)
    if b and a and not any(f.get('ctor') and f.get('cls') == cls and len(f['params']) == len(a) for f in eng.prog.funcs.values()):
        base = construct_cls(eng, b, a)
        ch = dict(base.ch)
        for f in eng.prog.recs[cls]['fields']:
            root = eng.fresh_name('obj')
            eng.mem[root] = Node('rec', cls, dict(ch))
            ch[f'{cls}::{f["name"]}'] = eng.default_field(cls, f, Loc(root))
            eng.mem.pop(root, None)
        return Node('rec', cls, ch)
    k = pick_ctor(eng, cls, a)
    return eng.construct(cls, k, conv_args(eng, k, a))


def construct_any(eng, t, a):
    """T(args...) for a value type t."""
    T = eng.T(t)
    if T['c'] == 'rec' and T['rec'] in eng.prog.recs:
        cls = T['rec']
        if len(a) == 1:
            v = eng.rv(a[0])
            if isinstance(v, Node) and v.kind == 'rec' and cls in eng.prog.mro(v.meta):
                return eng.copy_value(a[0], cls)
            sh = eng.rec_shape(cls)
            if sh[0] == 'opaque' and is_leaf(v) and v.sort() == z3.DeclareSort(sh[1]):
                return v  # a copy of an opaque object
        return construct_cls(eng, cls, a)
    if T['c'] == 'rec' and T.get('tmpl') in ('std::tuple', 'std::pair') and len(a) > 1:
        return Node('tup', None, {i: eng.rv(x) for i, x in enumerate(a)})
    if len(a) == 1:
        v = eng.rv(a[0])
        return eng.toreal(v) if T['c'] == 'float' else v
    if not a:
        return eng.zero(eng.shape(t))
    raise Unsupported(f'construct {T["s"]}')


def conv_args(eng, key, a):
    f = eng.prog.funcs.get(key)
    if not f:
        return a
    out = []
    for i, p in enumerate(f['params']):
        if i < len(a):
            x = a[i]
            if eng.T(p['t'])['c'] == 'ref':
                x = eng.as_loc(x)
            else:
                x = eng.rv(x)
                T = eng.T(p['t'])
                if T['c'] == 'float':
                    x = eng.toreal(x)
                elif T['c'] == 'int' and is_leaf(x) and z3.is_bool(x):
                    x = z3.If(x, I(1), I(0))
                elif T['c'] == 'int' and is_leaf(x) and z3.is_int(x):
                    x = eng.wrap(x, T)
                elif T['c'] == 'int' and (is_leaf(x) and z3.is_real(x) or isinstance(x, Node) and x.kind == 'dbl'):
                    x = eng.d2i(x, T)
                elif T['c'] == 'bool' and is_leaf(x) and not z3.is_bool(x):
                    x = x != 0
            out.append(x)
        elif p.get('dflt'):
            x = eng.ev(p['dflt'])
            out.append(eng.as_loc(x) if eng.T(p['t'])['c'] == 'ref' else eng.toreal(eng.rv(x)) if eng.T(p['t'])['c'] == 'float' else eng.rv(x))
        else:
            raise Unsupported(f'default argument of {key}')
    return out


def inherits_ctors(eng, cls):
    """The single base whose constructors this class takes over unchanged."""
    bs = [b for b in eng.prog.bases(cls) if b in eng.prog.recs]
    own = [m for m in eng.prog.recs[cls].get('methods', []) if '#ctor' in m['key'] and not m['implicit']]
    return bs[0] if len(bs) == 1 and not own else None


def pick_ctor(eng, cls, a):
    best, more = [], []
    for k, f in eng.prog.funcs.items():
        if f.get('ctor') and f.get('cls') == cls and len(f['params']) >= len(a):
            if len(f['params']) != len(a):
                if all(p.get('dflt') for p in f['params'][len(a):]):
                    more.append(k)
                continue
            best.append(k)
    best = best or more
    if not best:
        m = [x for x in eng.prog.recs[cls].get('methods', []) if '#ctor' in x['key'] and x['implicit']]
        if not a and m:
            return f'{cls}::#ctor()'
        raise Unsupported(f'no constructor of {cls} with {len(a)} arguments')
    if len(best) > 1:
        def score(k):
            f = eng.prog.funcs[k]
            s = 0
            for p, x in zip(f['params'], a):
                v = eng.rv(x)
                T = eng.T(eng.strip_ref(p['t']))
                if isinstance(v, Node) and v.kind == 'rec':
                    s += 2 if T.get('rec') == v.meta else (1 if T.get('rec') in eng.prog.mro(v.meta) else -5)
                elif is_leaf(v):
                    if T['c'] == 'rec':
                        s -= 5
                    elif z3.is_real(v) == (T['c'] == 'float'):
                        s += 1
            if f.get('defaulted') or f['params'] and eng.T(eng.strip_ref(f['params'][0]['t'])).get('rec') == cls:
                s -= 1
            return s
        best.sort(key=score, reverse=True)
    return best[0]


@h('std::vector::pop_back')
def _(eng, e, o, a):
    v = vload(eng, o)
    eng.oblige(vlen(v) > 0, 'safety', 'pop_back() of a non-empty container')
    eng.store(o, v.with_('len', z3.simplify(vlen(v) - 1)))


@h('std::vector::clear')
def _(eng, e, o, a):
    v = vload(eng, o)
    eng.store(o, v.with_('len', I(0)))


@h('std::vector::reserve', 'std::vector::shrink_to_fit')
def _(eng, e, o, a):
    return None


@h('std::vector::resize')
def _(eng, e, o, a):
    v = vload(eng, o)
    n = eng.rv(a[0])
    if len(a) > 1:
        x = coerce_shape(eng, eng.rv(a[1]), v.meta)
    else:
        x = eng.zero(v.meta)
    old = vlen(v)
    c0 = const_int(old)
    if c0 == 0:
        data = eng.const_data(x)
    else:
        def f(arr, y):
            t = z3.Const(eng.fresh_name('rs'), arr.sort())
            i = z3.Int('i?')
            eng.assume(z3.ForAll([i], z3.Select(t, i) == z3.If(z3.And(i >= old, i < n), y, z3.Select(arr, i)),
                                 patterns=[z3.Select(t, i)]))
            return t
        data = tzip(f, v.ch['data'], x)
    eng.store(o, Node('vec', v.meta, {'len': n, 'data': data}))


def append_range(eng, o, src, lo, hi):
    """Appends src[lo..hi) to the vector at o."""
    v, sv = vload(eng, o), eng.load(src)
    if sv.kind != 'vec':
        raise Unsupported('appended range')
    if isinstance(o, Loc) and o.same(src):
        raise Unsupported('appending a vector to itself')
    old = vlen(v)
    eng.oblige(z3.And(0 <= lo, lo <= hi, hi <= vlen(sv)), 'safety', 'appended range lies in its vector')
    n = z3.simplify(old + (hi - lo))
    if const_int(old) == 0 and const_int(lo) == 0:
        data = sv.ch['data']
    else:
        def f(arr, y):
            t = z3.Const(eng.fresh_name('app'), arr.sort())
            i = z3.Int('i?')
            eng.assume(z3.ForAll([i], z3.Select(t, i) == z3.If(z3.And(i >= old, i < n), z3.Select(y, i - old + lo), z3.Select(arr, i)), patterns=[z3.Select(t, i)]))
            return t
        data = tzip(f, v.ch['data'], sv.ch['data'])
    eng.store(o, Node('vec', v.meta, {'len': n, 'data': data}))


@h('std::vector::data')
def _(eng, e, o, a):
    return Node('ptr', eng.as_loc(o).i(I(0)), {})


@h('std::vector::insert')
def _(eng, e, o, a):
    if len(a) == 2:
        return insert_one(eng, o, eng.rv(a[0]), a[1])
    if len(a) != 3:
        raise Unsupported('vector::insert')
    at, b, en = [eng.rv(x) for x in a]
    if not all(isinstance(x, Node) and x.kind in ('iter', 'ptr') for x in (at, b, en)) or at.kind != 'iter':
        raise Unsupported('vector::insert')
    if not eng.quick(at.ch['idx'] == vlen(vload(eng, o))):
        raise Unsupported('insertion inside a vector')
    (src, lo), (end, hi) = elem_out(eng, b), elem_out(eng, en)
    if not src.same(end):
        raise Unsupported('vector::insert')
    append_range(eng, o, src, lo, hi)
    return at


@h('std::vector::operator=')
def _(eng, e, o, a):
    eng.store(o, list_to_vec(eng, eng.rv(a[0]), eng.load(o).meta))
    return o


def insert_one(eng, o, at, src):
    """v.insert(at, x): the elements from at on move one place up."""
    if not isinstance(at, Node) or at.kind != 'iter':
        raise Unsupported('vector::insert')
    x = eng.rv(src)
    v = vload(eng, o)
    n, p = vlen(v), at.ch['idx']
    eng.oblige(z3.And(0 <= p, p <= n), 'safety', 'insertion position lies in the vector')
    shifted = eng.fresh(('vec', v.meta), 'insd').ch['data']

    def f(t, arr):
        i = z3.Int('i?')
        for pat in (z3.Select(t, i), z3.Select(arr, i)):
            eng.assume(z3.ForAll([i], z3.Implies(i < p, z3.Select(t, i) == z3.Select(arr, i)), patterns=[pat]))
        eng.assume(z3.ForAll([i], z3.Implies(i > p, z3.Select(t, i) == z3.Select(arr, i - 1)), patterns=[z3.Select(t, i)]))
        eng.assume(z3.ForAll([i], z3.Implies(i >= p, z3.Select(t, i + 1) == z3.Select(arr, i)), patterns=[z3.Select(arr, i)]))
        return t
    data = tzip(f, shifted, v.ch['data'])
    eng.store(o, Node('vec', v.meta, {'len': z3.simplify(n + 1), 'data': eng._tstore(data, p, coerce_shape(eng, x, v.meta))}))
    if isinstance(x, Node) and x.kind == 'uptr' and isinstance(src, Loc):
        eng.store(src, x.with_('null', B(True)))
    return at


@h('std::vector::rbegin')
def _(eng, e, o, a):
    o = eng.as_loc(o)
    return itr(o, vlen(vload(eng, o)), True)


@h('std::vector::rend')
def _(eng, e, o, a):
    return itr(eng.as_loc(o), I(0), True)


@h('std::reverse_iterator::operator+')
def _(eng, e, o, a):
    v = eng.rv(o)
    return v.with_('idx', z3.simplify(v.ch['idx'] - eng.rv(a[0])))


@h('std::reverse_iterator::operator-')
def _(eng, e, o, a):
    v = eng.rv(o)
    return v.with_('idx', z3.simplify(v.ch['idx'] + eng.rv(a[0])))


@h('std::reverse_iterator::base')
def _(eng, e, o, a):
    v = eng.rv(o)
    return itr(v.meta, v.ch['idx'])


def itr(o, idx, rev=False):
    return Node('riter' if rev else 'iter', o, {'idx': idx})


@h('std::vector::begin', 'std::array::begin', 'std::begin', 'std::initializer_list::begin', 'std::vector::cbegin')
def _(eng, e, o, a):
    return itr(eng.as_loc(o if o is not None else a[0]), I(0))


@h('std::vector::end', 'std::array::end', 'std::end', 'std::initializer_list::end', 'std::vector::cend')
def _(eng, e, o, a):
    o = eng.as_loc(o if o is not None else a[0])
    return itr(o, vlen(vload(eng, o)))


@h('__gnu_cxx::__normal_iterator::#ctor')
def _(eng, e, o, a):
    return eng.rv(a[0])


@h('__gnu_cxx::__normal_iterator::operator*', '__gnu_cxx::__normal_iterator::operator->')
def _(eng, e, o, a):
    v = eng.deref(eng.rv(o))
    if e.get('op') == '->':
        return Node('ptr', v, {})
    return v


@h('__gnu_cxx::__normal_iterator::operator++')
def _(eng, e, o, a):
    v = eng.rv(o)
    eng.store(o, v.with_('idx', v.ch['idx'] + 1))
    return v if a else o


@h('__gnu_cxx::__normal_iterator::operator--')
def _(eng, e, o, a):
    v = eng.rv(o)
    eng.store(o, v.with_('idx', v.ch['idx'] - 1))
    return v if a else o


@h('__gnu_cxx::__normal_iterator::operator+')
def _(eng, e, o, a):
    v = eng.rv(o)
    return v.with_('idx', z3.simplify(v.ch['idx'] + eng.rv(a[0])))


@h('__gnu_cxx::__normal_iterator::operator-')
def _(eng, e, o, a):
    v = eng.rv(o)
    return v.with_('idx', z3.simplify(v.ch['idx'] - eng.rv(a[0])))


@h('__gnu_cxx::operator!=')
def _(eng, e, o, a):
    return eng.rv(a[0]).ch['idx'] != eng.rv(a[1]).ch['idx']


@h('__gnu_cxx::operator==')
def _(eng, e, o, a):
    return eng.rv(a[0]).ch['idx'] == eng.rv(a[1]).ch['idx']


@h('__gnu_cxx::operator-', 'std::distance')
def _(eng, e, o, a):
    x, y = eng.rv(a[0]), eng.rv(a[1])
    return x.ch['idx'] - y.ch['idx'] if norm(e) == '__gnu_cxx::operator-' else y.ch['idx'] - x.ch['idx']


def norm(e):
    from .engine import norm_name
    return norm_name(e.get('fn', ''))


for opn, op in (('<', lambda x, y: x < y), ('<=', lambda x, y: x <= y), ('>', lambda x, y: x > y), ('>=', lambda x, y: x >= y)):
    def mk(op):
        return lambda eng, e, o, a: op(eng.rv(a[0]).ch['idx'], eng.rv(a[1]).ch['idx'])
    HANDLERS['__gnu_cxx::operator' + opn] = mk(op)


@h('std::fill')
def _(eng, e, o, a):
    b, en = eng.rv(a[0]), eng.rv(a[1])
    x = eng.rv(a[2])
    v = eng.load(b.meta)
    if v.kind == 'arr':
        if const_int(b.ch['idx']) != 0 or const_int(en.ch['idx']) != len(v.ch):
            raise Unsupported('partial fill')
        eng.store(b.meta, Node('arr', v.meta, {i: x for i in v.ch}))
        return
    x = coerce_shape(eng, x, v.meta)
    lo, hi = b.ch['idx'], en.ch['idx']
    if const_int(lo) == 0 and eng.quick(hi == v.ch['len']):
        eng.store(b.meta, v.with_('data', eng.const_data(x)))
        return

    def f(arr, y):
        t = z3.Const(eng.fresh_name('fill'), arr.sort())
        i = z3.Int('i?')
        eng.assume(z3.ForAll([i], z3.Select(t, i) == z3.If(z3.And(i >= lo, i < hi), y, z3.Select(arr, i)),
                             patterns=[z3.Select(t, i)]))
        return t
    eng.store(b.meta, v.with_('data', tzip(f, v.ch['data'], x)))


def extremum(less):
    def g(eng, e, o, a):
        b, en = eng.rv(a[0]), eng.rv(a[1])
        v = eng.load(b.meta)
        if v.kind != 'vec' or not is_leaf(v.ch['data']) or len(a) > 2:
            raise Unsupported('extremum of ' + v.kind)
        lo, hi = b.ch['idx'], en.ch['idx']
        eng.oblige(z3.And(lo >= 0, lo <= hi, hi <= vlen(v)), 'safety', 'searched range lies in its vector')
        m, i, d = z3.Int(eng.fresh_name('ext')), z3.Int('i?'), v.ch['data']
        eng.assume(z3.Implies(lo == hi, m == hi))
        eng.assume(z3.Implies(lo < hi, z3.And(lo <= m, m < hi)))
        x, y = z3.Select(d, i), z3.Select(d, m)
        eng.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.And(Not_(less(y, x)), z3.Implies(i < m, less(x, y)))), patterns=[x]))
        return b.with_('idx', m)
    return g


def Not_(x):
    return z3.Not(x)


# the first element no other one is greater (less) than
HANDLERS['std::max_element'] = extremum(lambda a, b: a < b)
HANDLERS['std::min_element'] = extremum(lambda a, b: a > b)


@h('std::array::fill')
def _(eng, e, o, a):
    v = eng.rv(o)
    x = eng.rv(a[0])
    if v.kind == 'vec':
        eng.store(o, v.with_('data', eng.const_data(coerce_shape(eng, x, v.meta))))
        return
    eng.store(o, Node('arr', v.meta, {i: x for i in v.ch}))


@h('std::array::#ctor')
def _(eng, e, o, a):
    if a:
        return eng.rv(a[0])
    s = eng.shape(e['ty'])
    return eng.zero(s) if e.get('zero') else eng.fresh(s, 'uninit_array')


@h('std::allocator::#ctor')
def _(eng, e, o, a):
    return Node('ptr', None, {})


# ---- smart pointers --------------------------------------------------------------
@h('std::make_unique')
def _(eng, e, o, a):
    t = e['targs'][0]
    v = construct_any(eng, t, a)
    return Node('uptr', None, {'null': B(False), 'val': v})


@h('std::dynamic_pointer_cast')
def _(eng, e, o, a):
    """The same object when it is of the class, else null; which of them is the object's own unknown."""
    s = eng.shape(e['t'])
    v = eng.rv(a[0])
    if s[0] != 'sref' or not isinstance(v, Node) or v.kind != 'sref':
        raise Unsupported('dynamic_pointer_cast')
    isa = eng.uf('is_a_' + re.sub(r'\W+', '_', eng.T(e['targs'][0])['s']), [v.ch['h']], z3.BoolSort())
    return Node('sref', v.meta, {'h': z3.If(z3.And(v.ch['h'] != 0, isa), v.ch['h'], I(0))})


@h('std::make_shared')
def _(eng, e, o, a):
    t = e['targs'][0]
    s = eng.shape(e['t'])
    if s and s[0] == 'sref':
        mk = eng.cfg.get('make_shared', {}).get(eng.T(t)['s'])
        if mk is None:
            raise Unsupported('make_shared of a shared class: ' + eng.T(t)['s'])
        return heap_new(eng, s[1], construct_any(eng, t, a) if mk is True else mk(eng, a))
    v = construct_any(eng, t, a)
    return Node('ptr', eng.alloc(v, 'shared', None), {})


@h('std::unique_ptr::#ctor')
def _(eng, e, o, a):
    if not a:
        return eng.zero(eng.shape(e['ty']))
    v = eng.rv(a[0])
    if isinstance(v, Node) and v.kind == 'ptr':
        if v.meta is None:
            return eng.zero(eng.shape(e['ty']))
        return Node('uptr', None, {'null': B(False), 'val': eng.load(v.meta)})
    if isinstance(a[0], Loc):
        eng.store(a[0], v.with_('null', B(True)))
    return v


@h('std::unique_ptr::operator=')
def _(eng, e, o, a):
    v = eng.rv(a[0])
    if isinstance(v, Node) and v.kind == 'ptr' and v.meta is None:
        eng.store(o, eng.load(o).with_('null', B(True)))
        return o
    eng.store(o, v)
    if isinstance(a[0], Loc):
        eng.store(a[0], v.with_('null', B(True)))
    return o


def uptr_loc(eng, o):
    v = eng.rv(o)
    if v.kind == 'ptr' or v.kind == 'sref':
        return eng.deref(v)
    eng.oblige(z3.Not(v.ch['null']), 'safety', 'unique_ptr not null')
    return eng.as_loc(o).f('val')


@h('std::unique_ptr::operator*')
def _(eng, e, o, a):
    return uptr_loc(eng, o)


@h('std::unique_ptr::operator->')
def _(eng, e, o, a):
    return Node('ptr', uptr_loc(eng, o), {})


@h('std::unique_ptr::get')
def _(eng, e, o, a):
    v = eng.rv(o)
    if v.kind == 'ptr':
        return v
    if eng.decide(v.ch['null']):
        return Node('ptr', None, {})
    return Node('ptr', eng.as_loc(o).f('val'), {})


@h('std::unique_ptr::release')
def _(eng, e, o, a):
    v = eng.rv(o)
    n = eng.alloc(v.ch['val'], 'released')
    if eng.decide(v.ch['null']):
        return Node('ptr', None, {})
    eng.store(o, v.with_('null', B(True)))
    return Node('ptr', n, {})


@h('std::unique_ptr::reset')
def _(eng, e, o, a):
    v = eng.rv(o)
    p = eng.rv(a[0]) if a else Node('ptr', None, {})
    if p.meta is None:
        eng.store(o, v.with_('null', B(True)))
    else:
        eng.store(o, Node('uptr', v.meta, {'null': B(False), 'val': eng.load(p.meta)}))


@h('std::unique_ptr::operator bool')
def _(eng, e, o, a):
    v = eng.rv(o)
    if v.kind == 'ptr':
        return B(v.meta is not None)
    return z3.Not(v.ch['null'])


@h('std::shared_ptr::#ctor', 'std::weak_ptr::#ctor')
def _(eng, e, o, a):
    s = eng.shape(e['ty'])
    if not a:
        return eng.zero(s)
    v = eng.rv(a[0])
    if v.kind == 'ptr' and v.meta is None:
        return eng.zero(s)
    if s[0] == 'sref' and v.kind == 'ptr':
        # adopt the freshly allocated object into the heap of its class
        return heap_new(eng, s[1], eng.load(v.meta))
    if v.kind == 'uptr':
        return adopt(eng, s, v)
    return v


def adopt(eng, s, v):
    """A shared pointer made of a unique one."""
    if s and s[0] == 'sref':
        if eng.decide(v.ch['null']):
            return Node('sref', s[1], {'h': I(0)})
        return heap_new(eng, s[1], v.ch['val'])
    return Node('ptr', eng.alloc(v.ch['val'], 'shared'), {})


def heap_new(eng, cls, val):
    root = 'heap:' + cls
    hv = eng.mem[root]
    n = hv.ch['len']
    eng.assume(n >= 1)
    eng.mem[root] = Node('vec', hv.meta, {'len': z3.simplify(n + 1), 'data': eng._tstore(hv.ch['data'], n, val)})
    return Node('sref', cls, {'h': n})


@h('std::shared_ptr::operator=', 'std::weak_ptr::operator=')
def _(eng, e, o, a):
    v = eng.rv(a[0])
    cur = eng.load(o)
    if isinstance(cur, Node) and cur.kind == 'sref' and v.kind == 'ptr':
        v = heap_new(eng, cur.meta, eng.load(v.meta)) if v.meta is not None else Node('sref', cur.meta, {'h': I(0)})
    if v.kind == 'uptr':
        v = adopt(eng, ('sref', cur.meta) if isinstance(cur, Node) and cur.kind == 'sref' else None, v)
    eng.store(o, v)
    return o


@h('std::__shared_ptr_access::operator*')
def _(eng, e, o, a):
    return eng.deref(eng.rv(o))


@h('std::__shared_ptr_access::operator->', 'std::__shared_ptr::operator->')
def _(eng, e, o, a):
    return Node('ptr', eng.deref(eng.rv(o)), {})


@h('std::__shared_ptr::get', 'std::shared_ptr::get')
def _(eng, e, o, a):
    v = eng.rv(o)
    return v


@h('std::__shared_ptr::operator bool')
def _(eng, e, o, a):
    v = eng.rv(o)
    if v.kind == 'sref':
        return v.ch['h'] != 0
    return B(v.meta is not None)


@h('std::__shared_ptr::reset')
def _(eng, e, o, a):
    v = eng.rv(o)
    p = eng.rv(a[0]) if a else Node('ptr', None, {})
    if v.kind == 'sref':
        if p.kind == 'sref':
            eng.store(o, p)
        elif p.meta is None:
            eng.store(o, Node('sref', v.meta, {'h': I(0)}))
        else:
            eng.store(o, heap_new(eng, v.meta, eng.load(p.meta)))
        return
    eng.store(o, p)


@h('std::__shared_ptr::use_count')
def _(eng, e, o, a):
    """The number of owners of a tile: any positive number.  What the count says
    about aliasing is added by the property that needs it (cfg use_count)."""
    f = eng.cfg.get('use_count')
    t = z3.Int(eng.fresh_name('use_count'))
    v = eng.rv(o)
    eng.assume(t >= 1)
    if f:
        f(eng, o, v, t)
    return t


@h('std::weak_ptr::lock')
def _(eng, e, o, a):
    return eng.rv(o)


@h('std::operator!=', 'std::operator==')
def _(eng, e, o, a):
    x, y = eng.rv(a[0]), eng.rv(a[1])
    op = '==' if norm(e).endswith('==') else '!='
    if isinstance(x, Node) and x.kind == 'sref' or isinstance(y, Node) and y.kind == 'sref':
        hx = x.ch['h'] if x.kind == 'sref' else I(0)
        hy = y.ch['h'] if y.kind == 'sref' else I(0)
        return hx == hy if op == '==' else hx != hy
    if isinstance(x, Node) and x.kind == 'uptr':
        return x.ch['null'] if op == '==' else z3.Not(x.ch['null'])
    if is_leaf(x) and is_leaf(y):
        return x == y if op == '==' else x != y
    if x.kind == 'rec' or x.kind == 'tup':
        cs = [p[1] == q[1] for p, q in zip(tree_leaves(x), tree_leaves(y))]
        return z3.And(*cs) if op == '==' else z3.Not(z3.And(*cs))
    return eng.compare(op, x, y)


# ---- strings ---------------------------------------------------------------------
def chr_str(c):
    """The one-character string of a char (bytes are code points 0..255)."""
    n = const_int(c)
    return z3.StringVal(chr(n % 256)) if n is not None else z3.StrFromCode(z3.If(c < 0, c + 256, c))


class Strings:
    """String operations: z3's theory, or (cfg strings='uf') uninterpreted functions, which is less but quicker."""

    def __init__(self, eng):
        self.eng, self.uf_ = eng, eng.cfg.get('strings') == 'uf'

    def len(self, s):
        if not self.uf_ or z3.is_string_value(s):
            return z3.simplify(z3.Length(s))
        n = self.eng.uf('str_len', [s], z3.IntSort())
        return z3.If(n < 0, I(0), n)

    def chr(self, s, i):
        if self.uf_:
            c = self.eng.uf('str_chr', [s, z3.simplify(i)], z3.IntSort())
            return z3.If(c < -128, I(-128), z3.If(c > 127, I(127), c))
        c = z3.StrToCode(z3.SubString(s, i, 1))
        return z3.If(c >= 128, c - 256, c)

    def find(self, s, c, p):
        if not self.uf_:
            return z3.IndexOf(s, c, p)
        i = self.eng.uf('str_find', [s, c, p], z3.IntSort())
        return z3.If(z3.Or(i < p, i > self.len(s) - self.len(c)), I(-1), i)

    def sub(self, s, p, n):
        if not self.uf_:
            return z3.SubString(s, p, n)
        p, n = I(p) if isinstance(p, int) else p, z3.simplify(n)
        return z3.If(z3.And(p == 0, n == self.len(s)), s, self.eng.uf('str_sub', [s, z3.simplify(p), n], z3.StringSort()))

    def cat(self, a, b):
        if self.uf_ and not (z3.is_string_value(a) and z3.is_string_value(b)):
            if not self.eng.cfg.get('text_laws'):
                return self.eng.uf('str_cat', [a, b], z3.StringSort())
            r, i, n = self.new(), z3.Int('i?'), self.len(a)
            self.law(r, n + self.len(b), i, z3.If(i < n, self.chr(a, i), self.chr(b, i - n)))
            return r
        return z3.simplify(z3.Concat(a, b))


    def new(self):
        return z3.Const(self.eng.fresh_name('text'), z3.StringSort())

    def law(self, s, n, i, c):
        """Length and characters of a new string."""
        self.eng.assume(self.len(s) == n)
        t = self.chr(s, i)
        self.eng.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), t == c), patterns=[self.eng.uf('str_chr', [s, i], z3.IntSort())]))

    def push(self, s, c):
        r = self.new()
        i, n = z3.Int('i?'), self.len(s)
        self.law(r, n + 1, i, z3.If(i < n, self.chr(s, i), c))
        return r

    def fill(self, n, c):
        r = self.new()
        self.law(r, n, z3.Int('i?'), c)
        return r


def as_str(eng, x):
    """A string operand: std::string, a literal, a char or a C string."""
    v = eng.rv(x)
    if isinstance(v, Node) and v.kind == 'ptr' and v.meta is not None:
        v = eng.load(v.meta)
    if isinstance(v, Node) and v.kind == 'rec' and v.meta == 'char[]':
        eng.oblige(Strings(eng).len(v.ch['s']) < v.ch['cap'], 'safety', 'C string is terminated')
        v = v.ch['s']
    if is_leaf(v) and z3.is_int(v):
        return chr_str(v)
    if is_leaf(v) and v.sort() == z3.StringSort():
        return v
    raise Unsupported(f'string operand {v if is_leaf(v) else (v.kind, v.meta)}')


@h('std::basic_string::#ctor')
def _(eng, e, o, a):
    if not a:
        return z3.StringVal('')
    v = eng.rv(a[0])
    if isinstance(v, Node) and v.kind == 'iter' and len(a) >= 2:
        w = eng.rv(a[1])
        s = eng.load(v.meta)
        if not is_leaf(s) or s.sort() != z3.StringSort() or not v.meta.same(w.meta):
            raise Unsupported('string of a range')
        b, n = v.ch['idx'], w.ch['idx']
        eng.oblige(z3.And(0 <= b, b <= n, n <= Strings(eng).len(s)), 'safety', 'string range')
        return Strings(eng).sub(s, b, n - b)
    if len(a) >= 2 and eng.cfg.get('text_laws') and is_leaf(v) and z3.is_int(v):
        eng.oblige(v >= 0, 'safety', 'length of a new string')
        return Strings(eng).fill(v, eng.rv(a[1]))
    if len(a) >= 2 and is_leaf(v) and v.sort() == z3.StringSort() and z3.is_expr(eng.rv(a[1])):
        p = eng.rv(a[1])
        n = eng.rv(a[2]) if len(a) > 2 and is_leaf(eng.rv(a[2])) else Strings(eng).len(v)
        return Strings(eng).sub(v, p, n)
    return as_str(eng, a[0])


@h('std::operator+')
def _(eng, e, o, a):
    return Strings(eng).cat(as_str(eng, a[0]), as_str(eng, a[1]))


@h('std::basic_string::operator=')
def _(eng, e, o, a):
    eng.store(o, as_str(eng, a[0]))
    return o


@h('std::basic_string::operator+=', 'std::basic_string::append', 'std::basic_string::push_back')
def _(eng, e, o, a):
    if len(a) != 1:
        raise Unsupported('string append')
    c = eng.rv(a[0]) if eng.cfg.get('text_laws') else None
    if c is not None and is_leaf(c) and z3.is_int(c):
        eng.store(o, Strings(eng).push(eng.rv(o), c))
        return o
    eng.store(o, Strings(eng).cat(eng.rv(o), as_str(eng, a[0])))
    return o


@h('std::basic_string::size', 'std::basic_string::length')
def _(eng, e, o, a):
    n = Strings(eng).len(eng.rv(o))
    eng.assume(n < (1 << 62))
    return n


@h('std::basic_string::empty')
def _(eng, e, o, a):
    return Strings(eng).len(eng.rv(o)) == 0


@h('std::basic_string::front', 'std::basic_string::back', 'std::basic_string::operator[]', 'std::basic_string::at')
def _(eng, e, o, a):
    s = eng.rv(o)
    n = norm(e)
    i = I(0) if n.endswith('front') else Strings(eng).len(s) - 1 if n.endswith('back') else eng.rv(a[0])
    if n.endswith('at'):
        eng.throw_if(z3.Not(z3.And(0 <= i, i < Strings(eng).len(s))), 'out_of_range')
    eng.oblige(z3.And(0 <= i, i < Strings(eng).len(s)), 'safety', 'character of the string')
    return Strings(eng).chr(s, i)


NPOS = (1 << 64) - 1


@h('std::basic_string::find')
def _(eng, e, o, a):
    s, p = eng.rv(o), (eng.rv(a[1]) if len(a) > 1 else I(0))
    i = Strings(eng).find(s, as_str(eng, a[0]), p)
    eng.assume(Strings(eng).len(s) < (1 << 62))
    return z3.If(i < 0, I(NPOS), i)


@h('std::basic_string::substr')
def _(eng, e, o, a):
    s = eng.rv(o)
    p = eng.rv(a[0]) if a else I(0)
    n = eng.rv(a[1]) if len(a) > 1 else I(NPOS)
    eng.throw_if(p > Strings(eng).len(s), 'out_of_range')
    return Strings(eng).sub(s, p, n)


@h('std::basic_string::c_str', 'std::basic_string::data')
def _(eng, e, o, a):
    return Node('ptr', eng.alloc(eng.rv(o), 'c_str', ('str',)), {})


@h('std::basic_string::begin', 'std::basic_string::cbegin')
def _(eng, e, o, a):
    return itr(eng.as_loc(o), I(0))


@h('std::basic_string::end', 'std::basic_string::cend')
def _(eng, e, o, a):
    return itr(eng.as_loc(o), Strings(eng).len(eng.rv(o)))


@h('std::basic_string::compare')
def _(eng, e, o, a):
    x, y = eng.rv(o), as_str(eng, a[0])
    if len(a) > 1:
        raise Unsupported('partial comparison')
    r = z3.Int(eng.fresh_name('order'))
    eng.assume((r == 0) == (x == y))
    return r


@h('std::stoi', 'std::stoul', 'std::stod', 'std::stol', 'std::stof', 'std::stoull')
def _(eng, e, o, a):
    """The number a string spells: a function of the string (text that spells none throws)."""
    n = norm(e).split('::')[-1]
    s = as_str(eng, a[0])
    if any(not (isinstance(v, Node) and v.kind == 'ptr') and const_int(v) != 10 for v in (eng.rv(x) for x in a[1:])):
        raise Unsupported('number in another base')
    eng.throw_if(z3.Not(eng.uf('spells_' + n, [s], z3.BoolSort())), 'invalid_argument')
    if n in ('stod', 'stof'):
        return eng.uf(n, [s], z3.RealSort())
    r = eng.uf(n, [s], z3.IntSort())
    lo, hi = (0, NPOS) if n.startswith('stou') else (-(1 << 31), (1 << 31) - 1) if n == 'stoi' else (-(1 << 63), (1 << 63) - 1)
    eng.assume(z3.And(r >= lo, r <= hi))
    return r


@h('strncpy')
def _(eng, e, o, a):
    d = eng.deref(eng.rv(a[0]))
    b, n = eng.load(d), eng.rv(a[2])
    if b.meta != 'char[]':
        raise Unsupported('strncpy')
    eng.oblige(n <= b.ch['cap'], 'safety', 'strncpy within the buffer')
    eng.oblige(z3.Or(n >= Strings(eng).len(eng.load(eng.rv(a[1]).meta)), Strings(eng).len(b.ch['s']) == 0), 'safety', 'no old text behind the copy')
    eng.store(d, b.with_('s', Strings(eng).sub(as_str(eng, a[1]), 0, n)))
    return a[0]


@h('dirname')
def _(eng, e, o, a):
    s = as_str(eng, a[0])
    d = eng.deref(eng.rv(a[0]))
    eng.store(d, eng.load(d).with_('s', z3.String(eng.fresh_name('after_dirname'))))
    return Node('ptr', eng.alloc(eng.uf('dirname', [s], z3.StringSort()), 'dir', ('str',)), {})


# ---- files: lines of text, a function of the path ---------------------------------------
def file_lines(eng, path):
    n = eng.uf('file_lines', [path], z3.IntSort())
    return z3.If(eng.uf('file_exists', [path], z3.BoolSort()), z3.If(n < 0, I(0), n), I(0))


@h('std::basic_ifstream::#ctor')
def _(eng, e, o, a):
    v = eng.rv(a[0])
    if isinstance(v, Node) and v.kind == 'rec':
        return v
    p = as_str(eng, a[0])
    return Node('rec', 'std::basic_ifstream', {'path': p, 'pos': I(0), 'fail': z3.Not(eng.uf('file_exists', [p], z3.BoolSort()))})


@h('std::basic_ios::operator!', 'std::basic_ios::operator bool', 'std::basic_ios::fail', 'std::basic_ios::good', 'std::basic_ifstream::is_open')
def _(eng, e, o, a):
    v = eng.rv(o)
    n = norm(e)
    if isinstance(v, Node) and v.kind == 'rec' and 'lines' in v.ch and n.endswith('good'):
        return v.ch['good']
    if not (isinstance(v, Node) and v.kind == 'rec' and 'fail' in v.ch) or n.endswith('good'):
        raise Unsupported('stream state')
    if n.endswith('is_open'):
        return eng.uf('file_exists', [v.ch['path']], z3.BoolSort())
    return z3.Not(v.ch['fail']) if n.endswith('bool') else v.ch['fail']


@h('std::getline')
def _(eng, e, o, a):
    f = eng.rv(a[0])
    if len(a) == 2 and isinstance(f, Node) and f.kind == 'rec' and 'lines' in f.ch:
        # a stream known by the lines it delivers (uf 'line') and how long it stays good
        eng.store(a[1], z3.If(f.ch['good'], eng.uf('line', [f.ch['lines'], f.ch['pos']], z3.StringSort()), eng.rv(a[1])))
        eng.store(a[0], f.with_('good', z3.And(f.ch['good'], eng.uf('still_good', [f.ch['lines'], f.ch['pos']], z3.BoolSort()))).with_('pos', z3.If(f.ch['good'], f.ch['pos'] + 1, f.ch['pos'])))
        return a[0]
    if len(a) != 2 or not (isinstance(f, Node) and f.kind == 'rec' and 'pos' in f.ch):
        raise Unsupported('getline')
    ok = z3.And(z3.Not(f.ch['fail']), f.ch['pos'] < file_lines(eng, f.ch['path']))
    eng.store(a[1], z3.If(ok, eng.uf('file_line', [f.ch['path'], f.ch['pos']], z3.StringSort()), z3.If(f.ch['fail'], eng.rv(a[1]), z3.StringVal(''))))
    eng.store(a[0], f.with_('pos', z3.If(ok, f.ch['pos'] + 1, f.ch['pos'])).with_('fail', z3.Not(ok)))
    return a[0]


for _n, _d in (('std::next', 1), ('std::prev', -1)):
    def _mk(d):
        def f(eng, e, o, a):
            v = eng.rv(a[0])
            if not isinstance(v, Node) or v.kind != 'iter':
                raise Unsupported('iterator step')
            n = eng.rv(a[1]) if len(a) > 1 else I(1)
            return itr(v.meta, z3.simplify(v.ch['idx'] + d * n))
        return f
    HANDLERS[_n] = _mk(_d)


@h('std::to_string')
def _(eng, e, o, a):
    x = eng.rv(a[0])
    return z3.If(x >= 0, z3.IntToStr(x), z3.Concat(z3.StringVal('-'), z3.IntToStr(-x)))


# Output: with a ghost 'out', what is written is recorded as text and, from the first byte that is not constant on, as bytes.
def out_text(eng, s):
    v = eng.mem['heap:out']
    t, px = v.ch['Out::text'], v.ch['Out::px']
    s = Strings(eng).cat(s, z3.StringVal('')) if eng.cfg.get('strings') != 'uf' else s
    eng.oblige(vlen(px) == 0, 'safety', 'text is written before the bytes')
    eng.mem['heap:out'] = Node('rec', v.meta, dict(v.ch, **{'Out::text': Strings(eng).cat(t, s)}))


def out_byte(eng, b):
    v = eng.mem['heap:out']
    px = v.ch['Out::px']
    n = vlen(px)
    c = const_int(b)
    if c is not None and eng.quick(n == 0):
        return out_text(eng, chr_str(b))
    b = z3.If(b < 0, b + 256, b)
    eng.mem['heap:out'] = Node('rec', v.meta, dict(v.ch, **{'Out::px': Node('vec', px.meta, {'len': z3.simplify(n + 1), 'data': tstore(px.ch['data'], n, b)})}))


def out_any(eng, x, t=None):
    v = eng.rv(x)
    if is_leaf(v) and z3.is_int(v):
        return out_byte(eng, v)
    return out_text(eng, as_str(eng, x))


@h('std::basic_ofstream::#ctor')
def _(eng, e, o, a):
    if 'heap:out' not in eng.mem or not a:
        raise Unsupported('output file')
    v = eng.mem['heap:out']
    x = eng.rv(a[0])
    if is_leaf(x) and x.sort().name() == 'ofstream':
        return x  # moved
    f = eng.fresh(eng.shape(e['ty']), 'file')
    eng.mem['heap:out'] = Node('rec', v.meta, dict(v.ch, **{'Out::path': as_str(eng, a[0])}))
    return f


@h('std::operator|', 'std::operator&')
def _(eng, e, o, a):
    x, y = eng.rv(a[0]), eng.rv(a[1])
    return eng.uf('flags_or' if norm(e).endswith('|') else 'flags_and', [x, y], z3.IntSort())


@h('std::basic_ofstream::close', 'std::basic_ostream::flush')
def _(eng, e, o, a):
    return o


@h('std::basic_ostream::put')
def _(eng, e, o, a):
    if 'heap:out' not in eng.mem:
        raise Unsupported('output')
    out_byte(eng, eng.rv(a[0]))
    return o


@h('std::basic_ostream::write')
def _(eng, e, o, a):
    if 'heap:out' not in eng.mem:
        raise Unsupported('output')
    p, n = eng.rv(a[0]), eng.rv(a[1])
    if is_leaf(p) and p.sort() == z3.StringSort() or isinstance(p, Node) and p.kind == 'arr':
        p = Node('ptr', eng.as_loc(p, 'bytes'), {})  # a literal or an array
    if not isinstance(p, Node) or p.kind not in ('ptr', 'byteptr') or p.meta is None:
        raise Unsupported('output of bytes from ' + (str(p) if is_leaf(p) else p.kind))
    l = p.meta
    k = const_int(n)
    if l.path and l.path[-1][0] == 'i' and isinstance(l.path[-1][1], int) or l.path and l.path[-1][0] == 'i' and const_int(l.path[-1][1]) == 0:
        l = Loc(l.root, l.path[:-1])  # a decayed array
    v = eng.load(l)
    if is_leaf(v) and v.sort() == z3.StringSort():
        ln = Strings(eng).len(v)
        eng.oblige(z3.And(0 <= n, n <= ln), 'safety', 'bytes written lie in the string')
        out_text(eng, v if eng.quick(n == ln) else Strings(eng).sub(v, I(0), n))
    elif is_leaf(v) and z3.is_int(v):
        eng.oblige(n == 1, 'safety', 'one byte is written')
        out_byte(eng, v)
    elif isinstance(v, Node) and v.kind == 'arr' and k is not None and k <= v.meta[1]:
        for i in range(k):
            out_byte(eng, eng.rv(v.ch[i]) if i in v.ch else eng.rv(eng.load(l.i(I(i)))))
    else:
        raise Unsupported(f'output of bytes from {v if is_leaf(v) else (v.kind, v.meta, v.ch)} {k}')
    return o


@h('std::operator<<')
def _(eng, e, o, a):
    if 'heap:out' in eng.mem:
        out_any(eng, a[1])
    return a[0]


@h('std::basic_ostream::operator<<')
def _(eng, e, o, a):
    if 'heap:out' in eng.mem:
        x = eng.rv(a[0])
        if not (is_leaf(x) and z3.is_int(x)):
            raise Unsupported('output of a number')
        out_text(eng, z3.If(x >= 0, z3.IntToStr(x), z3.Concat(z3.StringVal('-'), z3.IntToStr(-x))))
    return o


@h('exit')
def _(eng, e, o, a):
    if eng.cfg.get('exit_ok', True):
        from .engine import PathEnd
        raise PathEnd()


@h('std::abort')
def _(eng, e, o, a):
    from .engine import PathEnd
    eng.oblige(False, 'safety', 'abort not reached')
    raise PathEnd()


@h('std::function::#ctor')
def _(eng, e, o, a):
    return eng.rv(a[0])


for _n in ('std::less::#ctor', 'std::greater::#ctor'):
    HANDLERS[_n] = lambda eng, e, o, a: Node('ptr', None, {})


# ---- random numbers ---------------------------------------------------------------
@h('std::normal_distribution::operator()')
def _(eng, e, o, a):
    return z3.Real(eng.fresh_name('normal_sample'))


@h('std::uniform_real_distribution::operator()')
def _(eng, e, o, a):
    """Any number of the distribution's range; cfg 'draws' names a ghost log of the numbers drawn."""
    u = z3.Real(eng.fresh_name('uniform_sample'))
    d = eng.rv(o)
    if is_leaf(d):
        lo, hi = (eng.uf(f'uniform_{x}', [d], z3.RealSort()) for x in ('lo', 'hi'))
        eng.assume(z3.Implies(lo < hi, z3.And(lo <= u, u < hi)))
    if eng.cfg.get('draws'):
        root = 'heap:' + eng.cfg['draws']
        v = eng.mem[root]
        el = Node('rec', v.meta[1], {v.meta[2][0][0]: u})
        eng.mem[root] = Node('vec', v.meta, {'len': z3.simplify(v.ch['len'] + 1), 'data': eng._tstore(v.ch['data'], v.ch['len'], el)})
    return u


@h('std::uniform_real_distribution::#ctor')
def _(eng, e, o, a):
    d = eng.fresh(eng.shape(e['ty']), 'rng')
    if is_leaf(d):
        vals = [eng.rv(x) for x in a] if len(a) == 2 else [z3.RealVal(0), z3.RealVal(1)]
        if len(a) == 1:
            vals = [eng.rv(a[0]), z3.RealVal(1)]
        for x, v in zip(('lo', 'hi'), vals):
            if isinstance(v, Node):
                continue
            eng.assume(eng.uf(f'uniform_{x}', [d], z3.RealSort()) == (z3.ToReal(v) if z3.is_int(v) else v))
    return d


# ---- sets of integers ---------------------------------------------------------------
for _c in ('std::unordered_set', 'std::set'):
    @h(_c + '::#ctor')
    def _(eng, e, o, a):
        if not a:
            return z3.K(z3.IntSort(), B(False))
        v = eng.rv(a[0])
        if is_leaf(v) and z3.is_array(v):
            return v
        if isinstance(v, Node) and v.kind == 'arr' and v.meta[1] == 2 and v.meta[2][0] == 'dbl' and 'unordered' not in norm(e):
            p, q = [eng.rv(x) for x in (v.ch[0], v.ch[1])] if 0 in v.ch else [tsel(v.ch['data'], I(k)) for k in (0, 1)]
            data = tstore(tstore(eng.fresh(('vec', v.meta[2]), 'set').ch['data'], I(0), z3.If(q < p, q, p)), I(1), z3.If(q < p, p, q))
            return Node('vec', v.meta[2], {'len': z3.If(p == q, I(1), I(2)), 'data': data})
        raise Unsupported('set constructor')

    @h(_c + '::count', _c + '::contains')
    def _(eng, e, o, a):
        c = z3.Select(eng.rv(o), eng.rv(a[0]))
        return z3.If(c, I(1), I(0)) if norm(e).endswith('count') else c

    @h(_c + '::insert', _c + '::emplace')
    def _(eng, e, o, a):
        s, k = eng.rv(o), eng.rv(a[0])
        eng.store(o, z3.Store(s, k, B(True)))
        return Node('tup', None, {0: Node('ptr', None, {}), 1: z3.Not(z3.Select(s, k))})

    @h(_c + '::erase')
    def _(eng, e, o, a):
        s, k = eng.rv(o), eng.rv(a[0])
        eng.store(o, z3.Store(s, k, B(False)))
        return z3.If(z3.Select(s, k), I(1), I(0))

    @h(_c + '::clear')
    def _(eng, e, o, a):
        eng.store(o, z3.K(z3.IntSort(), B(False)))


# ---- maps from strings to strings ------------------------------------------------------
def _smit(kind, m, key=None):
    return Node('smit', (kind, m, key), {})


for _c in ('std::unordered_map', 'std::map'):
    @h(_c + '::#ctor')
    def _(eng, e, o, a):
        if not a:
            return eng.zero(('smap',))
        v = eng.rv(a[0])
        if isinstance(v, Node) and v.kind == 'smap':
            return v
        raise Unsupported('map constructor')

    @h(_c + '::operator=')
    def _(eng, e, o, a):
        v = eng.rv(a[0])
        if not (isinstance(v, Node) and v.kind == 'smap'):
            raise Unsupported('map assignment')
        eng.store(o, v)
        return o

    @h(_c + '::count', _c + '::contains')
    def _(eng, e, o, a):
        c = z3.Select(eng.rv(o).ch['has'], eng.rv(a[0]))
        return z3.If(c, I(1), I(0)) if norm(e).endswith('count') else c

    @h(_c + '::find')
    def _(eng, e, o, a):
        return _smit('at', eng.as_loc(o), eng.rv(a[0]))

    @h(_c + '::end', _c + '::cend')
    def _(eng, e, o, a):
        return _smit('end', eng.as_loc(o))

    @h(_c + '::begin', _c + '::cbegin')
    def _(eng, e, o, a):
        return _smit('begin', eng.as_loc(o))

    @h(_c + '::at')
    def _(eng, e, o, a):
        k = eng.rv(a[0])
        m = eng.as_loc(o)
        eng.throw_if(z3.Not(z3.Select(eng.rv(m).ch['has'], k)), 'at() of a missing key')
        return m.i(k)

    @h(_c + '::operator[]')
    def _(eng, e, o, a):
        k, m = eng.rv(a[0]), eng.rv(o)
        h_ = z3.Select(m.ch['has'], k)
        eng.store(o, Node('smap', None, {
            'has': z3.Store(m.ch['has'], k, B(True)),
            'data': z3.Store(m.ch['data'], k, z3.If(h_, z3.Select(m.ch['data'], k), z3.StringVal('')))}))
        return o.i(k)

    @h(_c + '::insert', _c + '::emplace')
    def _(eng, e, o, a):
        m = eng.rv(o)
        vs = [eng.rv(x) for x in a]
        if len(vs) == 2 and all(isinstance(v, Node) and v.kind == 'smit' for v in vs):
            if vs[0].meta[0] != 'begin' or vs[1].meta[0] != 'end' or not vs[0].meta[1].same(vs[1].meta[1]):
                raise Unsupported('insertion of a part of a map')
            q = eng.rv(vs[0].meta[1])
            n = eng.fresh(('smap',), 'union')
            k = z3.String(eng.fresh_name('key'))
            eng.assume(z3.ForAll([k], z3.Select(n.ch['has'], k) == z3.Or(z3.Select(m.ch['has'], k), z3.Select(q.ch['has'], k)),
                                 patterns=[z3.Select(n.ch['has'], k)]))
            eng.assume(z3.ForAll([k], z3.Select(n.ch['data'], k) == z3.If(z3.Select(m.ch['has'], k), z3.Select(m.ch['data'], k), z3.Select(q.ch['data'], k)),
                                 patterns=[z3.Select(n.ch['data'], k)]))
            eng.store(o, n)
            return None
        if len(vs) == 1 and isinstance(vs[0], Node) and vs[0].kind == 'tup':
            vs = [vs[0].ch[0], vs[0].ch[1]]
        if len(vs) != 2 or not all(is_leaf(v) and v.sort() == z3.StringSort() for v in vs):
            raise Unsupported('map insertion')
        k, v = vs
        h_ = z3.Select(m.ch['has'], k)
        eng.store(o, Node('smap', None, {'has': z3.Store(m.ch['has'], k, B(True)),
                                         'data': z3.Store(m.ch['data'], k, z3.If(h_, z3.Select(m.ch['data'], k), v))}))
        return Node('tup', None, {0: _smit('at', o, k), 1: z3.Not(h_)})

    @h(_c + '::insert_or_assign')
    def _(eng, e, o, a):
        m, k, v = eng.rv(o), eng.rv(a[0]), eng.rv(a[1])
        eng.store(o, Node('smap', None, {'has': z3.Store(m.ch['has'], k, B(True)), 'data': z3.Store(m.ch['data'], k, v)}))
        return Node('tup', None, {0: _smit('at', o, k), 1: z3.Not(z3.Select(m.ch['has'], k))})

    @h(_c + '::erase')
    def _(eng, e, o, a):
        m, k = eng.rv(o), eng.rv(a[0])
        if not is_leaf(k):
            raise Unsupported('erase by iterator')
        eng.store(o, m.with_('has', z3.Store(m.ch['has'], k, B(False))))
        return z3.If(z3.Select(m.ch['has'], k), I(1), I(0))

    @h(_c + '::clear')
    def _(eng, e, o, a):
        eng.store(o, eng.zero(('smap',)))


@h('std::__detail::operator!=', 'std::__detail::operator==')
def _(eng, e, o, a):
    x, y = eng.rv(a[0]), eng.rv(a[1])
    if x.kind != 'smit' or y.kind != 'smit' or not x.meta[1].same(y.meta[1]) or 'begin' in (x.meta[0], y.meta[0]):
        raise Unsupported('map iterators')
    if x.meta[0] == y.meta[0] == 'at':
        raise Unsupported('map iterators')
    if x.meta[0] == y.meta[0] == 'end':
        eq_ = B(True)
    else:
        eq_ = z3.Not(z3.Select(eng.load(x.meta[1]).ch['has'], (x if x.meta[0] == 'at' else y).meta[2]))
    return eq_ if norm(e).endswith('==') else z3.Not(eq_)


@h('std::__detail::_Node_const_iterator::#ctor', 'std::__detail::_Node_iterator::#ctor')
def _(eng, e, o, a):
    return eng.rv(a[0])


@h('std::__detail::_Node_iterator::operator->', 'std::__detail::_Node_const_iterator::operator->', 'std::__detail::_Node_iterator::operator*', 'std::__detail::_Node_const_iterator::operator*')
def _(eng, e, o, a):
    it = eng.rv(o)
    if it.kind != 'smit' or it.meta[0] != 'at':
        raise Unsupported('map iterator')
    m = eng.load(it.meta[1])
    eng.oblige(z3.Select(m.ch['has'], it.meta[2]), 'safety', 'the iterator points at an entry')
    l = eng.alloc(Node('tup', None, {0: it.meta[2], 1: z3.Select(m.ch['data'], it.meta[2])}), 'entry')
    return Node('ptr', l, {}) if norm(e).endswith('->') else l


@h('std::priority_queue::#ctor')
def _(eng, e, o, a):
    if a:
        raise Unsupported('priority_queue constructor')
    return eng.zero(eng.shape(e['ty']))


@h('std::priority_queue::push')
def _(eng, e, o, a):
    vpush(eng, o, eng.rv(a[0]))


@h('std::priority_queue::empty')
def _(eng, e, o, a):
    return vlen(vload(eng, o)) == 0


@h('std::priority_queue::size')
def _(eng, e, o, a):
    return vlen(vload(eng, o))


def pq_top(eng, v):
    """A bag; the top is one of the elements nothing in the bag precedes (cfg 'pq_max' says what that means)."""
    leaves = []
    tmap(lambda x: leaves.append(x) or x, v.ch['data'])
    t = eng.uf('pq_top', [vlen(v)] + leaves, z3.IntSort())
    eng.oblige(vlen(v) > 0, 'safety', 'the queue is not empty')
    eng.assume(z3.And(t >= 0, t < vlen(v)))
    mx = eng.cfg.get('pq_max')
    if mx:
        eng.assume(mx(eng, v, t))
    return t


@h('std::priority_queue::top')
def _(eng, e, o, a):
    l = eng.as_loc(o)
    return l.i(pq_top(eng, vload(eng, l)))


@h('std::priority_queue::pop')
def _(eng, e, o, a):
    v = vload(eng, o)
    t = pq_top(eng, v)
    n = z3.simplify(vlen(v) - 1)
    last = eng.load(eng.as_loc(o).i(n))
    eng.store(o, Node('vec', v.meta, {'len': n, 'data': eng._tstore(v.ch['data'], t, last)}))


@h('std::mersenne_twister_engine::#ctor')
def _(eng, e, o, a):
    v = eng.fresh(eng.shape(e['ty']), 'rng')
    if len(a) == 1 and is_leaf(v):
        s = eng.rv(a[0])
        if is_leaf(s) and z3.is_int(s):
            return eng.uf('seeded', [s], v.sort())
    return v


for _n in ('std::random_device::#ctor', 'std::normal_distribution::#ctor'):
    def mk2(n):
        def g(eng, e, o, a):
            return eng.fresh(eng.shape(e['ty']), 'rng')
        return g
    HANDLERS[_n] = mk2(_n)


@h('std::random_device::operator()')
def _(eng, e, o, a):
    t = z3.Int(eng.fresh_name('rd'))
    eng.assume(z3.And(t >= 0, t < 1 << 32))
    return t


@h('std::mersenne_twister_engine::operator=', 'std::priority_queue::operator=')
def _(eng, e, o, a):
    eng.store(o, eng.rv(a[0]))
    return o


# ---- algorithms -------------------------------------------------------------------
@h('std::back_inserter')
def _(eng, e, o, a):
    return Node('binserter', a[0], {})


@h('std::back_insert_iterator::#ctor')
def _(eng, e, o, a):
    return eng.rv(a[0])


def small_int(eng, t, cap=6):
    """The value of an integer term, by case split; it must be provably small."""
    t = z3.simplify(t)
    c = const_int(t)
    if c is not None:
        return c
    for k in range(cap + 1):
        if eng.decide(t == k):
            return k
    raise Unsupported('a library algorithm over an unbounded container')


def elem_eq(eng, x, y):
    v = eng.load(x)
    if is_leaf(v):
        return v == eng.load(y)
    if v.kind == 'dbl':
        return V.deq(v, eng.load(y)) if hasattr(V, 'deq') else eng.dcmp('==', v, eng.load(y))
    if v.kind == 'rec':
        todo = [v.meta]
        while todo:
            cls = todo.pop(0)
            for key in (f'{cls}::operator==(const {cls} &) const',):
                if key in eng.prog.funcs:
                    return eng.rv(eng.call(key, x, [y]))
            todo += eng.prog.bases(cls)
    raise Unsupported('equality of ' + v.kind)


@h('std::unique')
def _(eng, e, o, a):
    b, en = eng.rv(a[0]), eng.rv(a[1])
    v = eng.load(b.meta)
    lo, hi = small_int(eng, b.ch['idx']), small_int(eng, en.ch['idx'])
    if v.kind != 'vec' or len(a) > 2:
        raise Unsupported('std::unique')
    kept = []
    for i in range(lo, hi):
        x = b.meta.i(I(i))
        if kept and eng.decide(elem_eq(eng, eng.as_loc(kept[-1], 'kept'), x)):
            continue
        kept.append(eng.load(x))
    for i, x in enumerate(kept):
        eng.store(b.meta.i(I(lo + i)), x)
    return b.with_('idx', I(lo + len(kept)))


@h('std::vector::erase')
def _(eng, e, o, a):
    b = eng.rv(a[0])
    v = vload(eng, o)
    en = eng.rv(a[1]) if len(a) > 1 else b.with_('idx', b.ch['idx'] + 1)
    lo, hi, n = b.ch['idx'], en.ch['idx'], vlen(v)
    eng.oblige(z3.And(0 <= lo, lo <= hi, hi <= n), 'safety', 'erased range lies in its vector')
    if eng.quick(hi == n):
        eng.store(o, v.with_('len', z3.simplify(lo)))
        return b

    def f(arr, _):
        t = z3.Const(eng.fresh_name('erased'), arr.sort())
        i = z3.Int('i?')
        eng.assume(z3.ForAll([i], z3.Select(t, i) == z3.If(i < lo, z3.Select(arr, i), z3.Select(arr, i + (hi - lo))), patterns=[z3.Select(t, i)]))
        return t
    eng.store(o, Node('vec', v.meta, {'len': z3.simplify(n - (hi - lo)), 'data': tzip(f, v.ch['data'], v.ch['data'])}))
    return b


@h('std::copy_if')
def _(eng, e, o, a):
    """By case split over containers of a provably small length."""
    b, en, out, pred = [eng.rv(x) for x in a]
    lo, hi = small_int(eng, b.ch['idx']), small_int(eng, en.ch['idx'])
    for i in range(lo, hi):
        el = b.meta.i(I(i))
        if eng.decide(call_pred(eng, pred, [el])):
            vpush(eng, out.meta, eng.load(el))
    return out


def call_pred(eng, pred, args):
    if pred.kind == 'clo':
        return eng.rv(eng.call_closure(pred, args))
    raise Unsupported('predicate')


@h('std::generate_n')
def _(eng, e, o, a):
    out, n, g = [eng.rv(x) for x in a]
    if out.kind != 'binserter':
        raise Unsupported('generate_n')
    x = eng.rv(eng.call_closure(g, []))
    v = eng.load(out.meta)
    old = vlen(v)
    x = coerce_shape(eng, x, v.meta)
    if const_int(old) == 0:
        data = eng.const_data(x)
    else:
        def f(arr, y):
            t = z3.Const(eng.fresh_name('gen'), arr.sort())
            i = z3.Int('i?')
            eng.assume(z3.ForAll([i], z3.Select(t, i) == z3.If(z3.And(i >= old, i < old + n), y, z3.Select(arr, i)),
                                 patterns=[z3.Select(t, i)]))
            return t
        data = tzip(f, v.ch['data'], x)
    eng.store(out.meta, Node('vec', v.meta, {'len': z3.simplify(old + n), 'data': data}))
    return out


# ---- searching by a predicate -------------------------------------------------
def pred_at(eng, clo, elem, k, guard):
    """The predicate's answer for the element at index k (a fresh constant)."""
    pc0, mem0, rs0 = list(eng.pc), dict(eng.mem), dict(eng.rshape)
    eng.solver.push()
    try:
        eng.assume(guard)
        n = len(eng.pc)
        t = eng.rv(eng.call_closure(clo, [elem]))
        if any(c.get_id() not in eng.obliged for _, c in eng.pc[n:]) or not is_leaf(t):
            raise Unsupported('predicate of a search')
        for r, v in mem0.items():
            if eng.mem.get(r) is not v and not (isinstance(v, Node) and repr(eng.mem.get(r)) == repr(v)):
                raise Unsupported('predicate with effects')
    finally:
        eng.solver.pop()
        eng.pc, eng.mem, eng.rshape = pc0, mem0, rs0
    return t if z3.is_bool(t) else t != 0


def searcher(kind):
    def f(eng, e, o, a):
        b, en, clo = eng.rv(a[0]), eng.rv(a[1]), eng.rv(a[2])
        lo, hi = b.ch['idx'], en.ch['idx']
        k = z3.Int(eng.fresh_name('k'))
        t = pred_at(eng, clo, b.meta.i(k), k, z3.And(lo <= k, k < hi))
        if kind == 'any':
            return z3.Exists([k], z3.And(lo <= k, k < hi, t))
        if kind == 'all':
            return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), t))
        if kind == 'none':
            return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.Not(t)))
        r = z3.Int(eng.fresh_name('found'))
        want = t if kind == 'find' else z3.Not(t)
        at = lambda c: z3.substitute(want, (k, c))
        j = z3.Int(eng.fresh_name('j'))
        eng.assume(z3.And(lo <= r, r <= hi))
        eng.assume(z3.Implies(r < hi, at(r)))
        eng.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < r), z3.Not(at(j)))))
        return b.with_('idx', r)
    return f


for _n, _k in (('any_of', 'any'), ('all_of', 'all'), ('none_of', 'none'), ('find_if', 'find'), ('find_if_not', 'findnot')):
    HANDLERS['std::' + _n] = searcher(_k)


@h('std::mersenne_twister_engine::seed')
def _(eng, e, o, a):
    """The state after seeding is a function of the seed."""
    v = eng.rv(o)
    if not is_leaf(v):
        raise Unsupported('seed of a modelled engine')
    seed = eng.rv(a[0]) if a else I(5489)
    eng.store(o, eng.uf('seeded', [seed], v.sort()))


@h('memcpy', 'std::memcpy', '__builtin_memcpy', 'memmove', 'std::memmove')
def _(eng, e, o, a):
    """Copies of whole objects into or out of a byte vector."""
    dst, src, n = [eng.rv(x) for x in a]
    n = const_int(n)

    def pointee(x):
        while x.get('k') == 'Cast':
            x = x['e']
        T = eng.T(x['t'])
        return T['e'] if T['c'] == 'ptr' else None

    def bytes_at(p):
        return isinstance(p, Node) and p.kind == 'ptr' and p.meta is not None and p.meta.path and p.meta.path[-1][0] == 'i'
    td, ts = [pointee(x) for x in e['args'][:2]]
    nm = lambda t: eng.T(t)['s'].replace('const ', '') if t else None
    if n is None or not td or not ts:
        raise Unsupported('memcpy')
    wide = lambda p, t: Loc(p.meta.root, p.meta.path[:-1] + (('w', (p.meta.path[-1][1], t)),))
    if nm(td) == nm(ts) == 'char' and n == 1 and all(x.kind == 'ptr' and x.meta is not None for x in (dst, src)):
        eng.store(dst.meta, eng.load(src.meta))
    elif nm(td) == 'char' and bytes_at(dst) and nm(ts) != 'char' and src.kind == 'ptr' and eng.wide_type(ts)[1] == n:
        eng.store(wide(dst, ts), eng.load(src.meta))
    elif nm(ts) == 'char' and bytes_at(src) and nm(td) != 'char' and dst.kind == 'ptr' and eng.wide_type(td)[1] == n:
        eng.store(dst.meta, eng.load(wide(src, td)))
    else:
        raise Unsupported('memcpy')
    return dst
