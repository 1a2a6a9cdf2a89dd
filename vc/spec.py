"""Contracts and the views through which their clauses see program state."""
import re
import z3
from .values import *
from . import values as V


class FnSpec:
    def __init__(self, key, requires=(), ensures=(), modifies=(), loops=None, contract=True, ret=None,
                 returns=None, may_throw=False, hints=(), dyn=None, entry_hints=(), cls=None, setup=None,
                 trusted=False, aux=(), lets=None, cfg=None, bound=3, post_hints=(), noverify=False, inst=None, defs=(), derived=(), ghost_ret=None, ret_heap=None):
        self.key, self.requires, self.ensures = key, list(requires), list(ensures)
        self.modifies, self.loops, self.contract = list(modifies), loops or {}, contract
        self.ret, self.returns, self.may_throw = ret, returns, may_throw
        self.hints, self.dyn, self.entry_hints, self.cls = list(hints), dyn, list(entry_hints), cls
        self.setup, self.trusted, self.aux = setup, trusted, list(aux)
        self.lets = lets or {}
        self.cfg = cfg
        self.bound = bound
        self.post_hints = list(post_hints)
        self.noverify = noverify
        self.derived = list(derived)  # consequences of the postcondition by a separately proved lemma; assumed at calls
        self.ret_heap = ret_heap  # the call returns a reference to an object of this class's heap (result_h names it)
        self.ghost_ret = ghost_ret  # a ghost that keeps the returned sequence for the caller's contract
        self.defs = list(defs)  # definitions of ghost functions: assumed inside, not demanded of callers
        self.inst = inst or (cls if cls else None)
        self.id = key + (f' [{self.inst}]' if self.inst else '')


class DV:
    """A double with an explicit kind (finite, NaN, +inf, -inf)."""
    def __init__(self, n):
        self.r, self.k = n.ch['r'], n.ch['k']


class View:
    def __init__(self, ns, val, mem):
        self.__dict__['_ns'], self.__dict__['_v'], self.__dict__['_m'] = ns, val, mem

    def __getattr__(self, name):
        v = self._v
        if name.startswith('__'):
            raise AttributeError(name)
        return self._ns.attr(v, name, self._m)

    def __getitem__(self, i):
        v = self._v
        if isinstance(i, int):
            i = I(i)
        if v.kind == 'vec':
            return self._ns.wrap(tsel(v.ch['data'], i), self._m)
        if v.kind in ('arr', 'tup'):
            c = const_int(i)
            if c is not None:
                return self._ns.wrap(v.ch[c], self._m)
            return self._ns.wrap(self._ns.eng.child(v, 'i', i), self._m)
        raise KeyError(i)


class SpecError(Exception):
    pass


def isreal(x):
    return z3.is_real(x)


class Namespace:
    def __init__(self, eng, names, old_names, mem, old_mem, extra=None, lets=None, func=None):
        self.eng, self.names, self.old_names, self.mem, self.old_mem = eng, names, old_names, mem, old_mem
        self.extra = extra or {}
        self.lets = lets or {}
        self.func = func
        self.bound_n = 0

    # values -> views
    def wrap(self, v, mem):
        if isinstance(v, Loc):
            v = self.eng.load(v, mem)
        if v is None:
            return None
        if is_leaf(v):
            return v
        if v.kind == 'dbl':
            return DV(v)
        if v.kind == 'ptr':
            if v.meta is None:
                return None
            return self.wrap(self.eng.load(v.meta, mem), mem)
        return View(self, v, mem)

    def attr(self, v, name, mem):
        if v.kind in ('vec',):
            if name == 'len':
                return v.ch['len']
            if name == 'data':
                return self.wrap(v.ch['data'], mem)
        if v.kind == 'uptr':
            if name == 'null':
                return v.ch['null']
            if name == 'val':
                return self.wrap(v.ch['val'], mem)
            return self.attr(v.ch['val'], name, mem)
        if v.kind == 'iter':
            return v.ch['idx']
        if v.kind == 'arr' and name == 'len':
            return I(len(v.ch))
        if v.kind == 'sref' and name == 'h':
            return v.ch['h']
        if v.kind == 'rec':
            k = self.field(v, name)
            x = v.ch[k]
            return self.wrap(x, mem)
        if name in v.ch:
            return self.wrap(v.ch[name], mem)
        raise SpecError(f'no attribute {name} in {v.kind}')

    def field(self, v, name):
        ks = [k for k in v.ch if k.split('::')[-1] == name]
        if not ks:
            ks = self.eng.cfg['snapshot'].field_alias(self.eng.prog, v.meta, name)
            ks = [k for k in ks if k in v.ch]
        if not ks:
            raise SpecError(f'no field {name} in {v.meta}')
        return ks[-1]

    def lookup(self, name, old=False):
        names = self.old_names if old else self.names
        mem = self.old_mem if old else self.mem
        if name in self.extra and not old:
            return self.extra[name]
        if name in names:
            x = names[name]
            return self.wrap(x, mem)
        if self.func is not None:
            al = self.eng.cfg['snapshot'].local_alias(self.func, name, names)
            if al is not None and al in names:
                return self.wrap(names[al], mem)
        raise SpecError(f'unknown name {name}')

    def env(self):
        ns = self
        eng = self.eng

        class Old:
            def __getattr__(s, n):
                return ns.lookup('this' if n == 'this' else n, True)

        class D(dict):
            def __missing__(s, n):
                if n == 'old':
                    return Old()
                v = eval(ns.lets[n], s) if n in ns.lets else ns.lookup(n)
                s[n] = v
                return v
        d = D()
        d.update(FUNCS)
        d.update(self.extra)
        d.update({'forall': self.forall, 'exists': self.exists, 'isnan': isnan, 'isinf': isinf, 'finite': finite,
                  'val': dr, 'real': real, 'And': And, 'Or': Or, 'Not': z3.Not, 'Implies': Implies, 'If': If,
                  'same': self.same, 'eq': deq, 'absr': absr, 'floor': z3.ToInt, 'iabs': iabs, 'sqrt': lambda x: eng_sqrt(eng, x),
                  'fn': eng.cfg.get('fns', {}), 'kind': dk, 'uf': self.uf, 'z3': z3, 'eng': eng, 'imin': imin, 'imax': imax,
                  'unchanged_except': self.unchanged_except, 'ns': self, 'sin': lambda x: eng_trig(eng, 'sin', x),
                  'cos': lambda x: eng_trig(eng, 'cos', x), 'exp': lambda x: eng_uf1(eng, 'exp', x),
                  'R': lambda x: R(str(x)), 'ite': If, 'mod': lambda a, b: a % b, 'trigger': trigger,
                  'all_of': And, 'heap': lambda c: self.wrap(self.mem['heap:' + c], self.mem), 'oldheap': lambda c: self.wrap(self.old_mem['heap:' + c], self.old_mem), 'locof': self.locof})
        for k, f in eng.cfg.get('spec_funcs', {}).items():
            d[k] = (lambda f: lambda *a: f(self, *a))(f)
        return d

    def uf(self, name, srt, *args):
        leaves = []
        for a in args:
            leaves += self.leaves(a)
        s = {'real': z3.RealSort(), 'int': z3.IntSort(), 'bool': z3.BoolSort(), 'str': z3.StringSort()}[srt]
        return self.eng.uf(name, leaves, s)

    def leaves(self, a):
        if isinstance(a, View):
            return self.eng.flat(a._v)
        if isinstance(a, DV):
            return [a.r, a.k]
        if isinstance(a, (int, float)):
            a = z3.IntVal(a) if isinstance(a, int) else R(str(a))
        return [a]

    def ev(self, text):
        try:
            code = COMPILED.get(text)
            if code is None:
                code = COMPILED[text] = compile(text, '<spec>', 'eval')
            return eval(code, self.env())
        except SpecError as e:
            raise Unsupported(f'specification clause "{text}": {e}')
        except (AttributeError, KeyError, TypeError, z3.Z3Exception, NameError) as e:
            raise Unsupported(f'specification clause "{text}": {type(e).__name__} {e}')

    def bool(self, text):
        r = text(self) if callable(text) else self.ev(text)
        if isinstance(r, bool):
            r = B(r)
        if not z3.is_bool(r):
            raise Unsupported(f'clause "{text}" is not boolean: {r}')
        return r

    def term(self, text):
        return self.ev(text)

    def assume_hint(self, h):
        """A hint is a proved fact: an obligation that is then available."""
        c = self.bool(h)
        self.eng.oblige(c, 'lemma', f'hint {h if isinstance(h, str) else "fn"}', None, False)

    def forall(self, f, *sorts, pat=None):
        import inspect
        ps = list(inspect.signature(f).parameters)
        self.eng.cfg.setdefault('_q', [0])[0] += 1
        n = 0
        vs = []
        for i, p in enumerate(ps):
            s = sorts[i] if i < len(sorts) else 'int'
            srt = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort(), 'str': z3.StringSort()}[s]
            vs.append(z3.Const(f'{p}?', srt))
        b = f(*vs)
        if isinstance(b, tuple):
            b, pats = b
            return z3.ForAll(vs, b, patterns=pats if isinstance(pats, list) else [pats])
        return z3.ForAll(vs, b)

    def exists(self, f, *sorts):
        import inspect
        ps = list(inspect.signature(f).parameters)
        vs = []
        for i, p in enumerate(ps):
            s = sorts[i] if i < len(sorts) else 'int'
            srt = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort(), 'str': z3.StringSort()}[s]
            vs.append(z3.Const(f'{p}?', srt))
        return z3.Exists(vs, f(*vs))

    def unv(self, a):
        if isinstance(a, View):
            return a._v
        if isinstance(a, DV):
            return Node('dbl', None, {'r': a.r, 'k': a.k})
        if isinstance(a, bool):
            return B(a)
        if isinstance(a, int):
            return I(a)
        if isinstance(a, float):
            return R(str(a))
        return a

    def same(self, a, b, memb=None):
        """Structural equality of two values (vectors: same length, same elements)."""
        cs = []
        ma = a._m if isinstance(a, View) else self.mem
        mb = b._m if isinstance(b, View) else self.mem
        self.same_v(self.unv(a), self.unv(b), cs, ma, mb)
        return z3.And(*cs) if cs else B(True)

    def same_v(self, a, b, cs, ma, mb, depth=0):
        if isinstance(a, Node) and a.kind == 'dbl' or isinstance(b, Node) and b.kind == 'dbl':
            cs.append(deq(a, b))
            return
        if is_leaf(a) and is_leaf(b):
            if z3.is_int(a) and z3.is_real(b):
                a = z3.ToReal(a)
            if z3.is_int(b) and z3.is_real(a):
                b = z3.ToReal(b)
            if not z3.eq(a, b):
                cs.append(a == b)
            return
        if is_leaf(a) or is_leaf(b) or a.kind != b.kind:
            raise SpecError('comparison of different shapes')
        if a.kind == 'ptr':
            if a.meta is None or b.meta is None:
                cs.append(B(a.meta is None and b.meta is None))
                return
            self.same_v(self.eng.load(a.meta, ma), self.eng.load(b.meta, mb), cs, ma, mb)
            return
        if a.kind == 'clo':
            return
        if a.kind == 'uptr':
            c2 = []
            self.same_v(a.ch['val'], b.ch['val'], c2, ma, mb)
            cs.append(a.ch['null'] == b.ch['null'])
            if c2:
                cs.append(z3.Or(a.ch['null'], z3.And(*c2)))
            return
        if a.kind == 'vec':
            la, lb = list(tree_leaves(a.ch['data'])), list(tree_leaves(b.ch['data']))
            cs.append(a.ch['len'] == b.ch['len'])
            if all(z3.eq(x[1], y[1]) for x, y in zip(la, lb)):
                return
            i = z3.Int(f'i{depth}?')
            c2 = []
            self.same_v(tsel(a.ch['data'], i), tsel(b.ch['data'], i), c2, ma, mb, depth + 1)
            if c2:
                cs.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.ch['len']), z3.And(*c2))))
            return
        if a.ch.keys() != b.ch.keys():
            raise SpecError('comparison of different records')
        for k in a.ch:
            self.same_v(a.ch[k], b.ch[k], cs, ma, mb, depth)

    def unchanged_except(self, obj, old, *fields):
        cs = []
        for k in obj._v.ch:
            if k.split('::')[-1] in fields:
                continue
            self.same_v(obj._v.ch[k], old._v.ch[k], cs, obj._m, old._m)
        return z3.And(*cs) if cs else B(True)

    # lvalue paths: name(.field)*
    def loc(self, text):
        parts, depth = [''], 0
        for c in text:
            depth += (c == '[') - (c == ']')
            if c == '[' and depth == 1:
                parts.append('[')
            elif c == ']' and depth == 0:
                pass
            elif c == '.' and depth == 0:
                parts.append('')
            else:
                parts[-1] += c
        name = parts[0]
        x = Loc(name) if name.startswith('heap:') else self.names.get(name)
        if x is None and self.func is not None:
            al = self.eng.cfg['snapshot'].local_alias(self.func, name, self.names)
            x = self.names.get(al)
        if x is None:
            raise Unsupported(f'modifies clause {text}: no {name}')
        if not isinstance(x, Loc):
            return None
        for p in parts[1:]:
            v = self.eng.load(x)
            if isinstance(v, Node) and v.kind == 'ptr':
                x = v.meta
                v = self.eng.load(x)
            if p == '*':
                continue
            if p[:1] == '[':
                x = x.i(self.ev(p[1:]))
                continue
            if isinstance(v, Node) and v.kind == 'uptr' and p not in ('val', 'null'):
                x = x.f('val')
                v = self.eng.load(x)
            if v.kind == 'rec':
                x = x.f(self.field(v, p))
            else:
                x = x.f(p)
        v = self.eng.load(x)
        if isinstance(v, Node) and v.kind == 'ptr' and text.endswith('*'):
            x = v.meta
        return x

    def locof(self, text):
        return self.loc(text)


COMPILED = {}
FUNCS = {'__builtins__': {'range': range, 'len': len, 'abs': abs, 'min': min, 'max': max, 'sum': sum, 'list': list,
                          'zip': zip, 'True': True, 'False': False, 'int': int, 'isinstance': isinstance, 'tuple': tuple}}


def _b(x):
    return B(x) if isinstance(x, bool) else x


def And(*a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        a = a[0]
    return z3.And(*[_b(x) for x in a])


def Or(*a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        a = a[0]
    return z3.Or(*[_b(x) for x in a])


def Implies(a, b):
    return z3.Implies(_b(a), _b(b))


def If(c, a, b):
    if isinstance(a, (View, DV)) or isinstance(b, (View, DV)):
        raise SpecError('If over aggregates')
    c = _b(c)
    if isinstance(a, int) and isinstance(b, int):
        a = I(a)
    if z3.is_expr(a) and z3.is_real(a) and isinstance(b, int):
        b = R(b)
    if z3.is_expr(b) and z3.is_real(b) and isinstance(a, int):
        a = R(a)
    return z3.If(c, a, b)


def trigger(*a):
    return a


def imin(a, b):
    return If(a <= b, a, b)


def imax(a, b):
    return If(a >= b, a, b)


def _rk(x):
    if isinstance(x, DV):
        return x.r, x.k
    if isinstance(x, Node):
        return x.ch['r'], x.ch['k']
    if isinstance(x, int):
        return R(x), I(FIN)
    if isinstance(x, float):
        return R(str(x)), I(FIN)
    if z3.is_int(x):
        x = z3.ToReal(x)
    return x, I(FIN)


def dk(x):
    return _rk(x)[1]


def dr(x):
    return _rk(x)[0]


def isnan(x):
    return _rk(x)[1] == NAN


def isinf(x):
    k = _rk(x)[1]
    return z3.Or(k == PINF, k == NINF)


def finite(x):
    return _rk(x)[1] == FIN


def real(x):
    if isinstance(x, (DV, Node)):
        return _rk(x)[0]
    if isinstance(x, int):
        return R(x)
    if isinstance(x, float):
        return R(str(x))
    return z3.ToReal(x) if z3.is_int(x) else x


def deq(a, b):
    """Bitwise-like equality of doubles: same kind, and same value when finite."""
    ra, ka = _rk(a)
    rb, kb = _rk(b)
    return z3.And(ka == kb, z3.Or(ka != FIN, ra == rb))


def absr(x):
    return z3.If(x >= 0, x, -x)


def iabs(x):
    return z3.If(x >= 0, x, -x)


def eng_sqrt(eng, x):
    from .stdlib import sqrt_term
    return sqrt_term(eng, x)


def eng_trig(eng, n, x):
    from .stdlib import trig_term
    return trig_term(eng, n, x)


def eng_uf1(eng, n, x):
    from .stdlib import uf1
    return uf1(eng, n, x)


def loop_namespace(eng, fr, s, entry_mem):
    names = dict(fr.names)
    for i, p in enumerate(fr.func['params']):
        if p['name'] in names:
            names.setdefault(f'a{i}', names[p['name']])
    if fr.this is not None:
        names['this'] = fr.this
    # loop counters: _i of the innermost counting loop, _o of the one around it
    act = [x for x in fr.counters if x is not None]
    for n, x in zip(('_i', '_o'), reversed(act)):
        names[n] = x
    old_names = dict(fr.names)
    if fr.this is not None:
        old_names['this'] = fr.this
    sp = eng.specs.get(fr.func['key'])
    ns = Namespace(eng, names, old_names, dict(eng.mem), fr.entry, lets=dict(eng.cfg.get('lets', {}), **(sp.lets if sp else {})), func=fr.func)

    class Pre:
        def __getattr__(self, n):
            return ns.wrap(names[n], entry_mem)
    ns.extra['pre'] = Pre()
    if eng.frames:
        ns.extra['top'] = TopView(eng, ns)
    return ns


class TopView:
    """Entry values of the function being verified."""
    def __init__(self, eng, ns):
        self.__dict__['eng'], self.__dict__['ns'] = eng, ns

    def __getattr__(self, n):
        fr = self.eng.frames[0]
        if n == 'this':
            return self.ns.wrap(fr.this, fr.entry)
        return self.ns.wrap(fr.names[n], fr.entry)


def call_namespace(eng, sp, f, this, args, old_mem, result=None):
    names = {}
    if f is not None:
        for p, a in zip(f['params'], args):
            names[p['name']] = a
    pn = eng.cfg['snapshot'].param_names(sp.key)
    for i, a in enumerate(args):
        names[f'a{i}'] = a
        if pn and i < len(pn):
            names.setdefault(pn[i], a)
    if this is not None:
        names['this'] = this
    ns = Namespace(eng, names, names, dict(eng.mem), old_mem, lets=dict(eng.cfg.get('lets', {}), **sp.lets), func=None)
    if result is not None:
        ns.extra['result'] = ns.wrap(result, ns.mem)
        if isinstance(result, Loc) and result.root.startswith('heap:') and result.path:
            ns.extra['result_h'] = result.path[0][1]
    return ns
