"""Symbolic executor over the extracted AST: turns a function under contract into
proof obligations.  Calls are replaced by the callee's contract when it has one,
inlined otherwise; loops are cut at their invariants."""
import fractions, re
import z3
from .values import *
from . import values as V

LIM = 1 << 62


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class NeedFork(Exception):
    pass


class TooMany(Exception):
    pass


class RetEx(Exception):
    def __init__(self, v):
        self.v = v


class BrkEx(Exception):
    pass


class ContEx(Exception):
    pass


class Oracle:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []          # (value, forced)


class Frame:
    def __init__(self, func, this, env=None, cls=None):
        self.func, self.this, self.cls = func, this, cls
        self.env = env if env is not None else {}
        self.names = {}          # local name -> Loc, for loop specs
        self.counters = []       # counters of the loops being run, outermost first
        self.entry = None        # mem at function entry
        self.args = None


def const_leaf(x):
    x = z3.simplify(x)
    return z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_true(x) or z3.is_false(x) or z3.is_string_value(x)


def static_frozen(frames, d):
    """A static local that is const, or only ever copied from."""
    if d.get('const'):
        return True
    n = [0, 0]

    def walk(x, anc):
        if isinstance(x, list):
            for y in x:
                walk(y, anc)
        elif isinstance(x, dict):
            if x.get('k') == 'Ref' and x.get('d', {}).get('id') == d['id']:
                n[0] += 1
                up = [a for a in anc if a.get('k') == 'Cast']
                if up and anc[-1] is up[-1] and (up[-1].get('ck') == 'LValueToRValue' or
                                                 up[-1].get('ck') == 'NoOp' and len(anc) > 1 and anc[-2].get('k') == 'Ctor' and anc[-2].get('cm')):
                    n[1] += 1
            a2 = anc + [x] if x.get('k') else anc
            for y in x.values():
                walk(y, a2)
    walk(frames[-1].func.get('body'), [])
    return n[0] == n[1]


_SK = [0]


def split_goal(c, depth=0):
    """Splits a goal into (assumptions, goal) parts: conjunctions, implications, and universal
    goals over an updated array (one case per updated index, one for all others)."""
    if z3.is_and(c):
        return [p for x in c.children() for p in split_goal(x, depth)]
    if z3.is_implies(c) and depth > 0:
        return [([c.arg(0)] + e, g) for e, g in split_goal(c.arg(1), depth)]
    if z3.is_quantifier(c) and c.is_forall() and depth < 3:
        vs = []
        for i in range(c.num_vars()):
            _SK[0] += 1
            vs.append(z3.Const(f'sk!{c.var_name(i).rstrip("?")}!{_SK[0]}', c.var_sort(i)))
        b = z3.substitute_vars(c.body(), *reversed(vs))
        out = []
        for e, g in split_stores(b, vs):
            gs = split_goal(g, depth + 1)
            out += [(e + e2, g2) for e2, g2 in gs]
        return out
    return [([], c)]


def instances(pc, parts):
    """Instances of the universal facts at the constants introduced for the goal."""
    sks, seen = [], set()

    def find(t):
        if t.get_id() in seen or z3.is_quantifier(t):
            return
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().name().startswith('sk!'):
            sks.append(t)
        for x in t.children():
            find(x)
    for t in parts:
        find(t)
    out = []

    def walk(t, guard):
        if z3.is_and(t):
            for x in t.children():
                walk(x, guard)
        elif z3.is_implies(t) and not has_quant(t.arg(0)):
            walk(t.arg(1), guard + [t.arg(0)])
        elif z3.is_quantifier(t) and t.is_forall() and t.num_vars() == 1 and len(out) < 60:
            for k in sks[-3:]:
                if k.sort() == t.var_sort(0):
                    b = z3.substitute_vars(t.body(), k)
                    out.append(z3.Implies(z3.And(*guard), b) if guard else b)
    if sks:
        for t in pc:
            walk(t, [])
    return out


def split_stores(b, vs):
    idx, seen = [], set()

    def find(t):
        if t.get_id() in seen or z3.is_quantifier(t):
            return
        seen.add(t.get_id())
        if z3.is_select(t) and z3.is_store(t.arg(0)):
            i = t.arg(1)
            for v in vs:
                if uses(i, v):
                    a = t.arg(0)
                    while z3.is_store(a):
                        if z3.is_int(a.arg(1)) and not any(z3.eq(i, x) and z3.eq(a.arg(1), y) for x, y in idx):
                            idx.append((i, a.arg(1)))
                        a = a.arg(0)
        for x in t.children():
            find(x)
    find(b)
    cases = [([], b)]
    for i, k in idx[:4]:
        nxt = []
        for e, g in cases:
            eqv = z3.simplify(i == k)
            if z3.is_false(eqv) or z3.is_true(eqv):
                nxt.append((e, g))
                continue
            v = [x for x in vs if z3.eq(x, i)]
            if v:
                nxt.append(([z3.substitute(x, (v[0], k)) for x in e], rewrite_sel(z3.substitute(g, (v[0], k)), k, k)))
            else:
                nxt.append((e + [i == k], rewrite_sel(z3.substitute(g, (i, k)), k, k)))
            nxt.append((e + [i != k], rewrite_sel(g, i, k, False)))
        cases = nxt
    return cases


def uses(t, v):
    if z3.eq(t, v):
        return True
    return any(uses(x, v) for x in t.children())


def rewrite_sel(t, i, k, hit=True):
    """Rewrites select(store(a, k, x), i) to x (hit) or select(a, i)."""
    memo = {}

    def go(t):
        m = memo.get(t.get_id())
        if m is not None:
            return m
        if z3.is_quantifier(t) or t.num_args() == 0:
            r = t
        else:
            ch = [go(x) for x in t.children()]
            r = t.decl()(*ch) if any(not z3.eq(x, y) for x, y in zip(ch, t.children())) else t
            if z3.is_select(r) and z3.eq(r.arg(1), i):
                a = r.arg(0)
                while z3.is_store(a) and z3.eq(a.arg(1), k):
                    if hit:
                        r = a.arg(2)
                        break
                    a = a.arg(0)
                else:
                    if not z3.eq(a, r.arg(0)):
                        r = z3.Select(a, i)
        memo[t.get_id()] = r
        return r
    return go(t)


class Ob:
    __slots__ = ('role', 'label', 'line', 'func', 'pc', 'goal', 'hints', 'main')

    def __init__(s, role, label, line, func, pc, goal, hints, main):
        s.role, s.label, s.line, s.func, s.pc, s.goal, s.hints, s.main = role, label, line, func, pc, goal, hints, main


def norm_name(fn):
    """std::vector<int>::push_back(const int &) -> std::vector::push_back"""
    out, d = [], 0
    i = 0
    while i < len(fn):
        if fn.startswith('operator', i) and d == 0:
            j = i + 8
            m = re.match(r'(\(\)|\[\]|->|<<=|>>=|<=|>=|<<|>>|<|>|==|!=|\+=|-=|[-+*/!=%&|~^]| bool)', fn[j:])
            if m:
                out.append('operator' + m.group(1))
                i = j + len(m.group(1))
                continue
        c = fn[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            if c == '(':
                break
            out.append(c)
        i += 1
    return ''.join(out)


def has_quant(t, memo={}):
    k = t.get_id()
    if k in memo and z3.eq(memo[k][0], t):
        return memo[k][1]
    r = False
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    memo[k] = (t, r)
    return r


CBUF = ('rec', 'char[]', (('s', ('str',)), ('cap', ('int', 64, False))))


class Engine:
    def __init__(self, prog, specs, cfg, bounded=None):
        self.prog, self.specs, self.cfg = prog, specs, cfg
        self.bounded = bounded
        self.loopmods = {}
        self.answers = {}
        self.nomerge = set()
        self.obs, self.obkeys = [], set()
        self.max_paths = cfg.get('max_paths', 3000)
        self.used_contracts, self.inlined, self.trusted = set(), set(), set()
        self.reached_returns = 0
        self.shape_cache = {}
        self.bound_hit = False
        self.static_id = 0
        from . import stdlib
        self.handlers = stdlib.HANDLERS
        for f in prog.funcs.values():
            if '_numbered' not in f:
                f['_numbered'] = True
                self._number(f)

    def _number(self, f):
        n = [0]

        def walk(x):
            if isinstance(x, dict):
                if x.get('k') in ('For', 'While', 'Do', 'Range'):
                    x['_li'] = n[0]
                    x['_fk'] = f['key']
                    n[0] += 1
                for v in list(x.values()):
                    if isinstance(v, (dict, list)):
                        walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(f.get('inits'))
        walk(f.get('body'))
        f['_nloops'] = n[0]

    # ---- state -------------------------------------------------------------
    def reset(self):
        self.mem, self.rshape, self.pc = {}, {}, []
        self.cnt = 0
        self.frames = []
        self.depth = 0
        self.solver = z3.Solver()
        self.axioms_seen = set()
        self.hints = []
        self.ghost = {}
        self.linemark = 0
        self.obliged = {}

    def fresh_name(self, base):
        self.cnt += 1
        return f'{base}!{self.cnt}'

    def assume(self, c, kind='a'):
        if isinstance(c, bool):
            c = B(c)
        if z3.is_true(c):
            return
        self.pc.append((kind, c))
        if not has_quant(c):
            self.solver.add(c)
        if z3.is_false(c):
            raise PathEnd()

    def quick(self, c):
        """True if c is quickly shown to follow from the path condition."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.refuted(z3.Not(c), 50)

    def refuted(self, c, ms=200):
        """c is quickly shown to contradict the path condition; paths that share a prefix share the answers."""
        key = (c.get_id(),) + tuple(p[1].get_id() for p in self.pc)
        r = self.answers.get(key)
        if r is None:
            self.solver.set('timeout', ms)
            r = self.answers[key] = (self.solver.check(c) == z3.unsat, c, list(self.pc))
        return r[0]

    def oblige(self, c, role, label, line=None, main=True):
        if isinstance(c, bool):
            c = B(c)
        line = line or self.linemark
        s = z3.simplify(c) if not has_quant(c) else c
        if z3.is_true(s):
            fkey = self.frames[-1].func['key'] if self.frames else ''
            key = (role, label, fkey, line, 'trivial')
            if role in ('post', 'assert', 'pre', 'inv', 'frame', 'lemma') and key not in self.obkeys:
                self.obkeys.add(key)
                self.obs.append(Ob(role, label, line, fkey, [], B(True), [], main))
            return
        fkey = self.frames[-1].func['key'] if self.frames else ''
        key = (role, label, line, c.get_id(), tuple(p[1].get_id() for p in self.pc))
        if key not in self.obkeys:
            self.obkeys.add(key)
            pc = [p[1] for p in self.pc]
            for extra, g in split_goal(c):
                if extra:
                    extra = extra + instances(pc, extra + [g])
                self.obs.append(Ob(role, label, line, fkey, pc + extra, g, list(self.hints), main))
        self.obliged[c.get_id()] = c
        self.assume(c)

    # ---- decisions ---------------------------------------------------------
    def decide(self, c):
        b = const_bool(c)
        if b is not None:
            return b
        o = self.oracle
        n = len(o.trace)
        if n < len(o.prefix):
            v, forced = o.prefix[n]
        else:
            ft = not self.refuted(c)
            ff = not self.refuted(z3.Not(c))
            if ft and ff:
                v, forced = True, False
            elif ft:
                v, forced = True, True
            elif ff:
                v, forced = False, True
            else:
                raise PathEnd()
        o.trace.append((v, forced))
        self.assume(c if v else z3.Not(c), 'd')
        return v

    def choose(self, n):
        """Non-deterministic choice among n."""
        for i in range(n - 1):
            if self.decide(z3.Bool(self.fresh_name('choice'))):
                return i
        return n - 1

    @staticmethod
    def alternatives(o):
        out = []
        for n in range(len(o.prefix), len(o.trace)):
            v, forced = o.trace[n]
            if forced:
                continue
            out.append(o.trace[:n] + [(not v, False)])
        return out

    def explore(self, thunk):
        """All paths of thunk, each from a fresh state."""
        while True:
            try:
                stack, n = [[]], 0
                while stack:
                    self.reset()
                    self.oracle = o = Oracle(stack.pop())
                    n += 1
                    if n > self.max_paths:
                        raise TooMany(f'more than {self.max_paths} paths')
                    try:
                        thunk()
                    except PathEnd:
                        pass
                    stack.extend(self.alternatives(o))
                self.npaths = n
                return
            except Restart:
                self.obs, self.obkeys = [], set()
                self.reached_returns = 0
                continue

    def merged(self, site, thunk):
        """Runs thunk along all its paths and merges the results into one state."""
        if site in self.nomerge:
            return thunk()
        outer = self.oracle
        mem0, rs0, npc, cnt0 = dict(self.mem), dict(self.rshape), len(self.pc), self.cnt
        pc0 = list(self.pc)
        nfr, dep = len(self.frames), self.depth
        ax0 = set(self.axioms_seen)
        gh0 = dict(self.ghost)
        done, stack, maxc = [], [[]], cnt0
        fail = None
        npaths = 0
        while stack:
            self.oracle = o = Oracle(stack.pop())
            npaths += 1
            self.mem, self.rshape, self.pc = dict(mem0), dict(rs0), list(pc0)
            self.axioms_seen = set(ax0)
            self.ghost = dict(gh0)
            del self.frames[nfr:]
            self.depth = dep
            self.solver.push()
            try:
                r = thunk()
                done.append((self.pc[npc:], r, self.mem, self.rshape, self.ghost))
                if npaths > 64:
                    fail = True
            except PathEnd:
                pass
            except NeedFork:
                fail = True
            except (BrkEx, ContEx, RetEx):
                fail = True
            finally:
                self.solver.pop()
                self.oracle = outer
            if fail:
                break
            stack.extend(self.alternatives(o))
        del self.frames[nfr:]
        self.depth = dep
        self.pc = list(pc0)
        if not fail:
            if not done:
                raise PathEnd()
            if len(done) == 1:
                pcs, r, self.mem, self.rshape, self.ghost = done[0]
                for k, c in pcs:
                    self.assume(c, k if k == 'a' else 'a')
                return r
            try:
                res, mem, rs = self._merge_paths(done, mem0)
                gh = done[0][4]
                if any(d[4] != gh for d in done):
                    raise Unsupported('ghost differs')
            except Unsupported:
                fail = True
        if fail:
            self.nomerge.add(site)
            self.mem, self.rshape, self.cnt, self.axioms_seen = mem0, rs0, cnt0, ax0
            self.ghost = gh0
            self.pc = pc0
            return thunk()
        self.mem, self.rshape = mem, rs
        self.axioms_seen = ax0
        self.ghost = gh
        disj = []
        for pcs, *_ in done:
            ds = []
            for k, c in pcs:
                if k == 'd':
                    ds.append(c)
                else:
                    self.assume(z3.Implies(z3.And(*ds), c) if ds else c)
            disj.append(z3.And(*ds) if len(ds) != 1 else ds[0])
        self.assume(z3.simplify(z3.Or(*disj)))
        return res

    def _merge_paths(self, done, mem0):
        def cond(pcs):
            ds = [c for k, c in pcs if k == 'd']
            return z3.And(*ds) if len(ds) != 1 else ds[0]
        pcs, res, mem, rs, _ = done[-1]
        mem = dict(mem)
        rs = dict(rs)
        for pcs, r, m, s, _ in reversed(done[:-1]):
            c = cond(pcs)
            for root in list(mem):
                if root in m:
                    if m[root] is not mem[root]:
                        mem[root] = merge(c, m[root], mem[root])
            for root in m:
                if root not in mem:
                    mem[root] = m[root]
                    rs[root] = s.get(root)
            if r is None and res is None:
                continue
            res = merge(c, r, res)
        return res, mem, rs

    # ---- types and shapes ----------------------------------------------------
    def T(self, t):
        return self.prog.types[t]

    def strip_ref(self, t):
        while self.T(t)['c'] == 'ref':
            t = self.T(t)['e']
        return t

    def shape(self, t, owner=None):
        ov = self.cfg.get('shapes', {})
        if owner and owner in ov:
            s = ov[owner]
            return s(self) if callable(s) else s
        T = self.T(t)
        if ov.get(T['s']) is not None:
            s = ov[T['s']]
            return s(self) if callable(s) else s
        c = T['c']
        if c == 'bool':
            return ('bool',)
        if c == 'int':
            return ('int', T['w'], T['sg'])
        if c == 'enum':
            return ('int', T['w'], T['sg'])
        if c == 'float':
            return ('dblx',) if self.cfg.get('dblx') else ('dbl',)
        if c == 'ref' or c == 'ptr':
            return ('ptr', T['e'])
        if c == 'arr':
            return ('arr', T['n'], self.shape(T['e']))
        if c == 'rec':
            tm = T.get('tmpl', '')
            ta = T.get('targs', [])
            if tm == 'std::vector':
                return ('vec', self.shape(ta[0]))
            if tm == 'std::unique_ptr' and self.T(ta[0])['s'] == 'char[]':
                return ('uptr', CBUF)
            if tm == 'std::unique_ptr':
                return ('uptr', self.shape(ta[0]))
            if tm in ('std::shared_ptr', 'std::weak_ptr'):
                return ('ptr', ta[0])
            if tm in ('std::tuple', 'std::pair'):
                return ('tup', tuple(self.shape(x) for x in ta))
            if tm == 'std::array':
                return ('arr', ta[1], self.shape(ta[0]))
            if tm == 'std::initializer_list':
                return ('vec', self.shape(ta[0]))
            if tm == 'std::basic_string':
                return ('str',)
            if tm == 'std::basic_ifstream':
                return ('rec', 'std::basic_ifstream', (('path', ('str',)), ('pos', ('int', 64, False)), ('fail', ('bool',))))
            if tm == 'std::priority_queue':
                return ('vec', self.shape(ta[0]))
            if tm in ('std::unordered_map', 'std::map') and all(self.shape(x)[0] == 'str' for x in ta[:2]):
                return ('smap',)
            if tm in ('std::unordered_set', 'std::set') and self.shape(ta[0])[0] == 'int':
                return ('iset',)
            if tm == 'std::set' and self.shape(ta[0])[0] == 'dbl':
                return ('vec', self.shape(ta[0]))  # only sets made of a list of at most two numbers, iterated over
            return self.rec_shape(T['rec'])
        return ('opaque', re.sub(r'\W+', '_', T['s']))

    def rec_shape(self, cls):
        dyn = self.cfg.get('dyn', {})
        d = dyn.get(cls)
        if d == 'fields':
            pass  # an abstract class whose own state matters; its virtual methods stay abstract
        elif d is not None:
            if d == 'opaque':
                return ('opaque', re.sub(r'\W+', '_', cls))
            if isinstance(d, tuple):
                return d
            cls = d
        if cls in self.shape_cache:
            return self.shape_cache[cls]
        r = self.prog.recs.get(cls)
        if r is None:
            return ('opaque', re.sub(r'\W+', '_', cls))
        if d != 'fields' and self.is_abstract(cls):
            return ('opaque', re.sub(r'\W+', '_', cls))
        s = ('rec', cls, tuple((f'{o}::{f["name"]}', self.shape(f['t'], f'{o}::{f["name"]}'))
                               for o, f in self.prog.fields(cls)))
        self.shape_cache[cls] = s
        return s

    def is_abstract(self, cls):
        """Some virtual method resolves to a function without a body."""
        if not self.prog.recs.get(cls, {}).get('poly'):
            return False
        seen = {}
        for c in self.prog.mro(cls):
            for m in self.prog.recs.get(c, {}).get('methods', []):
                if m['virtual'] and m['name'] and not m['name'].startswith('~'):
                    k = self.prog.resolve_virtual(cls, m['key'])
                    if k not in self.prog.funcs and not (self.prog.find_method(k) or {}).get('implicit'):
                        return True
        return False

    def new_heap(self, cls):
        """The objects of a class reached through shared handles kept in containers; handle 0 is null."""
        s = ('vec', self.rec_shape(cls))
        self.mem['heap:' + cls] = self.fresh(s, 'heap_' + re.sub(r'\W+', '_', cls))
        self.rshape['heap:' + cls] = s
        self.assume(self.mem['heap:' + cls].ch['len'] >= 1)

    def fresh(self, s, name='v'):
        facts = []

        def go(s, pre, depth):
            k = s[0]
            if k == 'ptr' and depth == 0:
                if s[1] is None:
                    return Node('ptr', None, {})
                ps = self.shape(s[1])
                if ps[0] == 'opaque' and False:
                    pass
                root = self.fresh_name(pre + '*')
                self.mem[root] = go(ps, pre + '*', 0)
                self.rshape[root] = ps
                return Node('ptr', Loc(root), {})
            if k == 'ptr':
                raise Unsupported('pointer inside array')
            if k == 'str':
                return mk(pre, lift_sort(z3.StringSort(), depth), s, depth)
            if k in ('rec',):
                return Node('rec', s[1], {f: go(fs, pre + '.' + f.split('::')[-1], depth) for f, fs in s[2]})
            if k == 'tup':
                return Node('tup', None, {i: go(x, f'{pre}.{i}', depth) for i, x in enumerate(s[1])})
            if k == 'arr' and s[1] <= 64:
                return Node('arr', s, {i: go(s[2], f'{pre}.{i}', depth) for i in range(s[1])})
            if k in ('vec', 'arr'):
                el = s[1] if k == 'vec' else s[2]
                n = None if k == 'vec' else s[1]
                return Node('vec', el, {'len': mk(pre + '.len', lift_sort(z3.IntSort(), depth), ('len', n), depth),
                                        'data': go(el, pre + '.e', depth + 1)})
            if k == 'uptr':
                return Node('uptr', s[1], {'null': mk(pre + '.null', lift_sort(z3.BoolSort(), depth), ('bool',), depth),
                                           'val': go(s[1], pre + '.val', depth)})
            if k == 'fn':
                return s[1]
            if k == 'smap' and depth == 0:
                return Node('smap', None, {'has': mk(pre + '.has', z3.ArraySort(z3.StringSort(), z3.BoolSort()), ('map',), 0),
                                           'data': mk(pre + '.data', z3.ArraySort(z3.StringSort(), z3.StringSort()), ('map',), 0)})
            return V.build(s, mk, pre, depth)

        def mk(nm, srt, ls, depth):
            t = z3.Const(self.fresh_name(nm), srt)
            facts.extend(leaf_facts(t, ls, depth))
            return t
        v = go(s, name, 0)
        for f in facts:
            self.assume(f)
        return v

    def zero(self, s):
        """Value-initialised object of shape s."""
        k = s[0]
        if k == 'int':
            return I(0)
        if k == 'bool':
            return B(False)
        if k in ('dbl', 'dblx'):
            return R(0)
        if k == 'str':
            return z3.StringVal('')
        if k == 'smap':
            return self.fresh(s, 'nomap').with_('has', z3.K(z3.StringSort(), B(False)))
        if k == 'tup':
            return Node('tup', None, {i: self.zero(x) for i, x in enumerate(s[1])})
        if k == 'arr' and s[1] <= 64:
            return Node('arr', s, {i: self.zero(s[2]) for i in range(s[1])})
        if k == 'vec':
            return self.empty_vec(s[1])
        if k == 'arr':
            return Node('vec', s[2], {'len': I(s[1]), 'data': self.const_data(self.zero(s[2]))})
        if k == 'uptr':
            return Node('uptr', s[1], {'null': B(True), 'val': self.fresh(s[1], 'nullval')})
        if k == 'ptr':
            return Node('ptr', None, {})
        if k == 'sref':
            return Node('sref', s[1], {'h': I(0)})
        if k == 'rec':
            c = self.find_default_ctor(s[1])
            if c:
                return self.construct(s[1], c, [])
            return Node('rec', s[1], {f: self.zero(fs) for f, fs in s[2]})
        return self.fresh(s, 'zero')

    def find_default_ctor(self, cls):
        for k in (f'{cls}::#ctor()',):
            if k in self.prog.funcs:
                return k
        for k, f in self.prog.funcs.items():
            pass
        return None

    def const_data(self, v):
        return tmap(lambda t: z3.K(z3.IntSort(), t), v)

    def empty_vec(self, el):
        sv = self.facts_off_fresh(el)
        return Node('vec', el, {'len': I(0), 'data': sv})

    def facts_off_fresh(self, el):
        """Arbitrary array contents for an element shape, with type facts."""
        s = self.fresh(('vec', el), 'ev')
        return s.ch['data']

    # ---- memory ------------------------------------------------------------
    def alloc(self, v, name='tmp', shape=None):
        root = self.fresh_name(name)
        self.mem[root] = v
        self.rshape[root] = shape
        return Loc(root)

    def load(self, loc, mem=None):
        mem = self.mem if mem is None else mem
        if loc.root not in mem:
            raise Unsupported(f'dangling {loc.root}')
        v = mem[loc.root]
        for k, x in loc.path:
            v = self.child(v, k, x)
        return v

    def child(self, v, k, x):
        if is_leaf(v):
            raise Unsupported(f'member {x} of a scalar/opaque value')
        if k == 'f':
            if x not in v.ch:
                raise Unsupported(f'no field {x} in {v.kind} {v.meta}')
            return v.ch[x]
        if k == 'w':
            return self.wide_load(v, *x)
        if v.kind in ('vec', 'smap'):
            return tsel(v.ch['data'], x)
        if v.kind == 'arr':
            c = const_int(x)
            if c is not None:
                if c not in v.ch:
                    raise Unsupported('array index')
                return v.ch[c]
            n = len(v.ch)
            r = v.ch[n - 1]
            for j in range(n - 2, -1, -1):
                r = merge(x == j, v.ch[j], r)
            return r
        raise Unsupported(f'index into {v.kind}')

    def store(self, loc, val):
        if isinstance(val, Loc):
            raise Unsupported('storing a location')
        if loc.root not in self.mem:
            raise Unsupported(f'dangling {loc.root}')
        self.mem[loc.root] = self._upd(self.mem[loc.root], list(loc.path), val)

    def _coerce(self, old, val):
        """val adapted to the representation of old (kinds of doubles)."""
        if is_leaf(old) and is_leaf(val) and old.sort() != val.sort():
            if z3.is_real(old) and z3.is_int(val):
                return z3.ToReal(val)
        if isinstance(old, Node) and old.kind == 'sref' and isinstance(val, Node) and val.kind == 'ptr' and val.meta is None:
            return Node('sref', old.meta, {'h': I(0)})
        return val

    def _upd(self, v, path, val):
        if not path:
            return self._coerce(v, val)
        (k, x), rest = path[0], path[1:]
        if is_leaf(v):
            raise Unsupported('store into scalar')
        if k == 'f':
            if x not in v.ch:
                raise Unsupported(f'no field {x}')
            return v.with_(x, self._upd(v.ch[x], rest, val))
        if k == 'w':
            return self.wide_store(v, *x, val)
        if v.kind in ('vec', 'smap'):
            old = tsel(v.ch['data'], x)
            new = self._upd(old, rest, val)
            return v.with_('data', self._tstore(v.ch['data'], x, new))
        if v.kind == 'arr':
            c = const_int(x)
            if c is not None:
                return v.with_(c, self._upd(v.ch[c], rest, val))
            ch = {}
            for j in v.ch:
                ch[j] = merge(x == j, self._upd(v.ch[j], rest, val), v.ch[j])
            return Node('arr', v.meta, ch)
        raise Unsupported(f'index store into {v.kind}')

    def _tstore(self, data, i, v):
        if is_leaf(data) and not is_leaf(v) and v.kind == 'dbl':
            self.oblige(v.ch['k'] == FIN, 'safety', 'finite value stored in array')
            v = v.ch['r']
        elif not is_leaf(data) and not is_leaf(v) and data.kind != 'dbl':
            if data.kind != v.kind or data.ch.keys() != v.ch.keys():
                raise Unsupported(f'array element shape mismatch {data.kind}/{v.kind}')
            return Node(data.kind, data.meta, {k: self._tstore(data.ch[k], i, v.ch[k]) for k in data.ch})
        return tstore(data, i, v)

    # Objects in raw bytes: a store of v writes the bytes enc_T_k(v), a load of T gives
    # dec_T(bytes); the representation law dec_T(enc_T_0(v), ..) == v is all that is
    # assumed about them (trivially copyable types, same program on both sides).
    WIDE = {'double': ('dbl', 8), 'int': ('int', 4), 'bool': ('bool', 1), 'unsigned long': ('ulong', 8), 'unsigned int': ('uint', 4),
            'long': ('long', 8), 'short': ('short', 2), 'char': ('char', 1), 'unsigned char': ('uchar', 1), 'unsigned short': ('ushort', 2)}

    def wide_type(self, tid):
        s = self.T(tid)['s'].replace('const ', '')
        if s not in self.WIDE:
            raise Unsupported(f'{s} in raw bytes')
        return self.WIDE[s]

    def wide_range(self, v, idx, n):
        if v.kind != 'vec' or not is_leaf(v.ch['data']) or v.ch['data'].sort().range() != z3.IntSort():
            raise Unsupported('raw access to something other than bytes')
        self.oblige(z3.And(idx >= 0, idx + n <= v.ch['len']), 'safety', f'{n} bytes lie in the buffer')

    def wide_load(self, v, idx, tid):
        nm, n = self.wide_type(tid)
        self.wide_range(v, idx, n)
        srt = {'dbl': z3.RealSort(), 'bool': z3.BoolSort()}.get(nm, z3.IntSort())
        if nm == 'char':
            return z3.Select(v.ch['data'], idx)
        bs = [z3.Select(v.ch['data'], z3.simplify(idx + k)) for k in range(n)]
        t = self.uf('dec_' + nm, bs, srt)
        if nm == 'dbl' and self.cfg.get('dblx'):
            kd = self.uf('deck_dbl', bs, z3.IntSort())
            self.assume(z3.And(kd >= 0, kd <= 3))
            return Node('dbl', None, {'r': t, 'k': kd})
        if srt == z3.IntSort():
            T = self.T(tid)
            lo, hi = V.int_range(T['w'], T['sg'])
            self.assume(z3.And(t >= lo, t <= hi))
        return t

    def wide_store(self, v, idx, tid, val):
        nm, n = self.wide_type(tid)
        self.wide_range(v, idx, n)
        if nm == 'char':
            return v.with_('data', z3.Store(v.ch['data'], idx, val))
        x = [dr(val), dk(val)] if nm == 'dbl' else [val]
        bs = [self.uf(f'enc_{nm}_{k}', x, z3.IntSort()) for k in range(n)]
        self.assume(z3.And([z3.And(b >= -128, b <= 127) for b in bs]))
        self.assume(self.uf('dec_' + nm, bs, x[0].sort()) == x[0])
        if nm == 'dbl':
            self.assume(self.uf('deck_dbl', bs, z3.IntSort()) == x[1])
        d = v.ch['data']
        for k, b in enumerate(bs):
            d = z3.Store(d, z3.simplify(idx + k), b)
        return v.with_('data', d)

    def rv(self, x):
        return self.load(x) if isinstance(x, Loc) else x

    def as_loc(self, x, name='tmp'):
        return x if isinstance(x, Loc) else self.alloc(x, name)

    def fieldkey(self, rec, f):
        return f'{rec}::{f}'

    # ---- expressions -------------------------------------------------------
    def ev(self, e):
        k = e['k']
        if e.get('l'):
            self.linemark = e['l']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported(f'expression {k} {e.get("cls", "")} line {e.get("l")}')
        return m(e)

    def val(self, e):
        return self.rv(self.ev(e))

    def e_Int(self, e):
        return I(int(e['v']))

    def e_Bool(self, e):
        return B(e['v'])

    def e_Str(self, e):
        return z3.StringVal(e['v'])

    def e_Null(self, e):
        return Node('ptr', None, {})

    def e_Float(self, e):
        s = e.get('src') or e['v']
        s = s.rstrip('fFlL')
        try:
            q = fractions.Fraction(s)
        except ValueError:
            q = fractions.Fraction(e['v'])
        return R(str(q))

    def e_Ref(self, e):
        d = e['d']
        dk = d['dk']
        if dk == 'enum':
            return I(int(d['v']))
        if dk == 'func':
            return Node('clo', ('fn', d['fn']), {})
        if dk in ('parm', 'local', 'static', 'global'):
            env = self.frames[-1].env
            if d.get('id') in env:
                return env[d['id']]
            if 'cv' in d:
                t = self.T(d['t'])
                if t['c'] == 'bool':
                    return B(bool(int(d['cv'])))
                return I(int(d['cv']))
            if 'cvf' in d:
                return self.flt(d['cvf'])
            if d.get('init'):
                v = self.ev(d['init'])
                return self.as_loc(v, d['name'])
            if d.get('qn') in ('std::cout', 'std::cerr', 'std::clog'):
                return self.as_loc(z3.Const('ostream', opaque_sort('ostream')), 'ostream')
            if d.get('qn') in ('std::ignore',):
                return Node('ignore', None, {})
            if dk == 'global' and d.get('qn') in self.ghost.get('globals', {}):
                return self.ghost['globals'][d['qn']]
            raise Unsupported(f'reference to {dk} {d["name"]}')
        raise Unsupported(f'reference kind {dk}')

    def e_This(self, e):
        return Node('ptr', self.frames[-1].this, {})

    def deref(self, p, what='pointer dereference'):
        if isinstance(p, Loc):
            p = self.load(p)
        if p.kind == 'ptr':
            if p.meta is None:
                self.oblige(False, 'safety', f'{what} of null')
                raise PathEnd()
            return p.meta
        if p.kind == 'iter':
            vec = p.meta
            n = self.load(vec).ch['len']
            i = p.ch['idx']
            self.oblige(z3.And(i >= 0, i < n), 'safety', 'iterator in range')
            return vec.i(i)
        if p.kind == 'sref':
            self.oblige(p.ch['h'] != 0, 'safety', 'shared pointer not null')
            return Loc('heap:' + p.meta).i(p.ch['h'])
        if is_leaf(p) and p.sort().name().endswith('Ref'):
            return self.as_loc(p, 'pointee')  # an object known only by the identity of its owner
        raise Unsupported(f'dereference of {p.sort() if is_leaf(p) else p.kind}')

    def e_Mem(self, e):
        if 'm' in e:
            raise Unsupported('bound member function')
        b = self.ev(e['b'])
        key = self.fieldkey(e['rec'], e['f'])
        if e['arrow']:
            b = self.deref(self.rv(b))
        if isinstance(b, Loc):
            loc = b.f(key)
            T = self.field_type(e['rec'], e['f'])
            if T and self.T(T)['c'] == 'ref':
                return self.deref(self.load(loc))
            return loc
        return self.child(b, 'f', key)

    def field_type(self, rec, f):
        r = self.prog.recs.get(rec)
        if not r:
            return None
        for x in r['fields']:
            if x['name'] == f:
                return x['t']

    def e_Mat(self, e):
        v = self.ev(e['e'])
        return self.as_loc(v, 'tmp')

    def e_Zero(self, e):
        return self.zero(self.shape(e['t']))

    def e_Cond(self, e):
        # assert(c) is ((c) ? void : __assert_fail())
        b = e['b']
        if b.get('k') == 'Call' and b.get('qn') == '__assert_fail':
            c = self.val(e['c'])
            if isinstance(c, Node):
                raise Unsupported('assert condition')
            txt = b['args'][0]
            while txt.get('k') == 'Cast':
                txt = txt['e']
            self.oblige(c, 'assert', 'assert ' + str(txt.get('v', '')), e['l'])
            return None
        c = self.val(e['c'])
        cb = const_bool(c)
        if cb is not None:
            return self.ev(e['a'] if cb else e['b'])

        def run():
            if self.decide(c):
                return self.ev(e['a'])
            return self.ev(e['b'])

        def run_m():
            r = run()
            if e['t'] and not e['lv']:
                r = self.rv(r) if isinstance(r, Loc) else r
            return r
        return self.merged(('cond', id(e)), run_m)

    def e_Un(self, e):
        op = e['op']
        if op == '&':
            v = self.ev(e['e'])
            return Node('ptr', self.as_loc(v), {})
        if op == '*':
            return self.deref(self.val(e['e']))
        if op in ('++', '--'):
            loc = self.ev(e['e'])
            old = self.load(loc)
            d = 1 if op == '++' else -1
            if isinstance(old, Node) and old.kind == 'iter':
                new = old.with_('idx', old.ch['idx'] + d)
            else:
                new = self.arith('+' if d > 0 else '-', old, I(1) if z3.is_int(old) else R(1), e['t'])
            self.store(loc, new)
            return old if e['post'] else loc
        v = self.val(e['e'])
        if op == '!':
            return z3.Not(v)
        if op == '+':
            return v
        if op == '-':
            if self.T(e['t'])['c'] == 'float':
                return self.dneg(v)
            return self.arith('-', I(0), v, e['t'])
        if op == '~' :
            T = self.T(e['t'])
            return self.wrap(-v - 1, T)
        if op in ('__extension__',):
            return v
        raise Unsupported(f'unary {op}')

    def flt(self, t):
        t = str(t).lower()
        if 'inf' in t:
            return mkdbl(R(0), I(NINF if t.startswith('-') else PINF))
        if 'nan' in t:
            return mkdbl(R(0), I(NAN))
        return R(str(fractions.Fraction(repr(float(t)))))

    def dneg(self, v):
        if is_leaf(v):
            return -v
        k = v.ch['k']
        return mkdbl(-v.ch['r'], z3.If(k == PINF, I(NINF), z3.If(k == NINF, I(PINF), k)))

    def e_Bin(self, e):
        op = e['op']
        if op == '=':
            b = self.val(e['b'])
            a = self.ev(e['a'])
            self.store(a, b)
            return a
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op in ('&&', '||'):
            a = self.val(e['a'])
            cb = const_bool(a)
            if cb is not None:
                if op == '&&':
                    return self.val(e['b']) if cb else B(False)
                return B(True) if cb else self.val(e['b'])

            def run():
                if op == '&&':
                    return self.val(e['b']) if self.decide(a) else B(False)
                return B(True) if self.decide(a) else self.val(e['b'])
            return self.merged(('bin', id(e)), run)
        a = self.val(e['a'])
        b = self.val(e['b'])
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return self.compare(op, a, b)
        return self.arith(op, a, b, e['t'])

    def compare(self, op, a, b):
        if isinstance(a, Node) and a.kind == 'sref' or isinstance(b, Node) and b.kind == 'sref':
            ha, hb = (x.ch['h'] if x.kind == 'sref' else I(0) if x.meta is None else None for x in (a, b))
            if ha is None or hb is None or op not in ('==', '!='):
                raise Unsupported('pointer comparison')
            return ha == hb if op == '==' else ha != hb
        if isinstance(a, Node) and a.kind in ('ptr', 'clo') or isinstance(b, Node) and b.kind in ('ptr', 'clo'):
            if a.kind == 'ptr' and b.kind == 'ptr':
                if a.meta is None or b.meta is None:
                    r = a.meta is None and b.meta is None
                elif a.meta.same(b.meta):
                    r = True
                elif a.meta.root != b.meta.root:
                    r = False
                else:
                    raise Unsupported('pointer comparison')
                if op in ('==', '!='):
                    return B(r if op == '==' else not r)
            raise Unsupported('pointer comparison')
        if isinstance(a, Node) and a.kind == 'iter':
            a, b = a.ch['idx'], b.ch['idx']
        isd = isinstance(a, Node) or isinstance(b, Node)
        if not isd:
            if z3.is_bool(a) and z3.is_bool(b):
                if op == '==':
                    return a == b
                if op == '!=':
                    return a != b
                a, b = z3.If(a, I(1), I(0)), z3.If(b, I(1), I(0))
            if z3.is_int(a) and z3.is_real(b):
                a = z3.ToReal(a)
            if z3.is_int(b) and z3.is_real(a):
                b = z3.ToReal(b)
            return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                    '==': lambda: a == b, '!=': lambda: a != b}[op]()
        if (isinstance(a, Node) and a.kind != 'dbl') or (isinstance(b, Node) and b.kind != 'dbl'):
            raise Unsupported('comparison of aggregates')
        ra, ka, rb, kb = dr(a), dk(a), dr(b), dk(b)
        nn = z3.And(ka != NAN, kb != NAN)
        bothfin = z3.And(ka == FIN, kb == FIN)
        if op in ('>', '>='):
            op = {'>': '<', '>=': '<='}[op]
            ra, ka, rb, kb = rb, kb, ra, ka
        if op == '<':
            lt = z3.Or(z3.And(bothfin, ra < rb),
                       z3.And(ka == NINF, kb != NINF), z3.And(kb == PINF, ka != PINF))
            return z3.simplify(z3.And(nn, lt))
        if op == '<=':
            le = z3.Or(z3.And(bothfin, ra <= rb), ka == NINF, kb == PINF)
            return z3.simplify(z3.And(nn, le))
        eq = z3.simplify(z3.And(nn, ka == kb, z3.Or(ka != FIN, ra == rb)))
        return eq if op == '==' else z3.Not(eq)

    def wrap(self, t, T, safe=False):
        """Reduction of t modulo the unsigned (or implementation-defined signed) type T."""
        w, sg = T['w'], T['sg']
        lo, hi = int_range(w, sg)
        c = const_int(t)
        if c is not None:
            m = (c - lo) % (1 << w) + lo
            return I(m)
        if self.quick(z3.And(t >= lo, t <= hi)):
            return t
        m = 1 << w
        if sg:
            return z3.If(z3.And(t >= lo, t <= hi), t, (t - lo) % m + lo)
        return z3.If(z3.And(t >= lo, t <= hi), t, t % m)

    def arith(self, op, a, b, t):
        T = self.T(t)
        if isinstance(a, Node) and a.kind == 'iter':
            d = b if not isinstance(b, Node) else b.ch['idx']
            if isinstance(b, Node):
                return a.ch['idx'] - d
            return a.with_('idx', a.ch['idx'] + d if op == '+' else a.ch['idx'] - d)
        if isinstance(a, Node) and a.kind == 'ptr':
            if a.meta is None or not a.meta.path or a.meta.path[-1][0] != 'i' or isinstance(b, Node) or op not in ('+', '-'):
                raise Unsupported('pointer arithmetic')
            i = a.meta.path[-1][1]
            return Node('ptr', Loc(a.meta.root, a.meta.path[:-1] + (('i', z3.simplify(i + b if op == '+' else i - b)),)), {})
        if T['c'] == 'float':
            return self.darith(op, a, b)
        if T['c'] not in ('int', 'enum', 'bool'):
            raise Unsupported(f'arithmetic on {T["s"]}')
        if z3.is_bool(a):
            a = z3.If(a, I(1), I(0))
        if z3.is_bool(b):
            b = z3.If(b, I(1), I(0))
        sg = T.get('sg', False)
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op in ('/', '%'):
            self.oblige(b != 0, 'safety', 'division by zero')
            if not sg or (self.quick(a >= 0) and self.quick(b > 0)):
                q = a / b
                return q if op == '/' else a % b
            aa = z3.If(a >= 0, a, -a)
            bb = z3.If(b >= 0, b, -b)
            q = aa / bb
            q = z3.If((a >= 0) == (b >= 0), q, -q)
            if op == '/':
                r = q
            else:
                return a - q * b
        elif op in ('<<', '>>'):
            c = const_int(b)
            if c is None:
                raise Unsupported('shift by a variable')
            if op == '<<':
                r = a * (1 << c)
            else:
                r = a / (1 << c)
        elif op in ('&', '|', '^'):
            r = self.bitop(op, a, b)
        else:
            raise Unsupported(f'operator {op}')
        if const_int(r) is not None:
            r = I(const_int(r))
        if sg:
            lo, hi = int_range(T['w'], True)
            if not self.quick(z3.And(r >= lo, r <= hi)):
                self.oblige(z3.And(r >= lo, r <= hi), 'safety', f'no signed overflow in {op}')
            return r
        return self.wrap(r, T)

    def bitop(self, op, a, b):
        ca, cb = const_int(a), const_int(b)
        if ca is not None and cb is not None:
            return I({'&': ca & cb, '|': ca | cb, '^': ca ^ cb}[op])
        if op == '&' and cb is not None and cb >= 0 and (cb & (cb + 1)) == 0:
            return a % (cb + 1)
        if op == '&' and ca is not None and ca >= 0 and (ca & (ca + 1)) == 0:
            return b % (ca + 1)
        # small operands: bit by bit
        for w in (1, 2, 4, 8):
            m = 1 << w
            if self.quick(z3.And(a >= 0, a < m, b >= 0, b < m)):
                r = I(0)
                for i in range(w):
                    x = (a / (1 << i)) % 2 == 1
                    y = (b / (1 << i)) % 2 == 1
                    c = {'&': z3.And(x, y), '|': z3.Or(x, y), '^': z3.Xor(x, y)}[op]
                    r = r + z3.If(c, I(1 << i), I(0))
                return r
        raise Unsupported('bit operation')

    def toreal(self, a):
        if is_leaf(a) and z3.is_int(a):
            return z3.ToReal(a)
        if is_leaf(a) and z3.is_bool(a):
            return z3.If(a, R(1), R(0))
        return a

    def darith(self, op, a, b):
        a, b = self.toreal(a), self.toreal(b)
        if is_leaf(a) and is_leaf(b):
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                c = z3.simplify(b)
                if z3.is_rational_value(c):
                    if c.as_fraction() != 0:
                        return a / b
                elif self.quick(b != 0):
                    return a / b
                k = z3.If(b != 0, I(FIN), z3.If(a == 0, I(NAN), z3.If(a > 0, I(PINF), I(NINF))))
                return mkdbl(a / b, k)
            raise Unsupported(f'float {op}')
        ra, ka, rb, kb = dr(a), dk(a), dr(b), dk(b)
        fin = z3.And(ka == FIN, kb == FIN)
        nan = z3.Or(ka == NAN, kb == NAN)
        if op == '-':
            kb = z3.If(kb == PINF, I(NINF), z3.If(kb == NINF, I(PINF), kb))
            rb = -rb
            op = '+'
        if op == '+':
            k = z3.If(nan, I(NAN), z3.If(ka == FIN, kb, z3.If(kb == FIN, ka, z3.If(ka == kb, ka, I(NAN)))))
            return mkdbl(ra + rb, k)
        sa = z3.If(ka == FIN, z3.If(ra > 0, I(1), z3.If(ra < 0, I(-1), I(0))), z3.If(ka == PINF, I(1), I(-1)))
        sb = z3.If(kb == FIN, z3.If(rb > 0, I(1), z3.If(rb < 0, I(-1), I(0))), z3.If(kb == PINF, I(1), I(-1)))
        if op == '*':
            k = z3.If(nan, I(NAN), z3.If(fin, I(FIN), z3.If(sa * sb == 0, I(NAN), z3.If(sa * sb > 0, I(PINF), I(NINF)))))
            return mkdbl(ra * rb, k)
        if op == '/':
            k = z3.If(nan, I(NAN),
                z3.If(fin, z3.If(rb != 0, I(FIN), z3.If(ra == 0, I(NAN), z3.If(ra > 0, I(PINF), I(NINF)))),
                z3.If(ka == FIN, I(FIN), z3.If(kb == FIN, z3.If(z3.Or(sb > 0, sb == 0) == (ka == PINF), I(PINF), I(NINF)), I(NAN)))))
            r = z3.If(z3.And(ka == FIN, kb != FIN), R(0), ra / rb)
            return mkdbl(r, k)
        raise Unsupported(f'float {op}')

    def e_CAsg(self, e):
        op = e['op'][:-1]
        b = self.val(e['b'])
        a = self.ev(e['a'])
        old = self.load(a)
        T = self.T(e['t'])
        CT = e['ct']
        if self.T(CT)['c'] == 'float':
            r = self.darith(op, self.toreal(old), b)
            if T['c'] in ('int', 'enum'):
                r = self.d2i(r, T)
        else:
            r = self.arith(op, old, b, CT)
            if T['c'] == 'bool':
                r = r != 0
            elif T['c'] in ('int', 'enum') and T != self.T(CT):
                r = self.wrap(r, T)
        self.store(a, r)
        return a

    def trunc(self, r):
        return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))

    def d2i(self, v, T):
        if not is_leaf(v):
            self.oblige(v.ch['k'] == FIN, 'safety', 'finite value converted to integer')
            v = v.ch['r']
        s = z3.simplify(v)
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_TO_REAL:
            t = s.arg(0)
        elif self.quick(v >= 0):
            t = z3.ToInt(v)
        else:
            t = self.trunc(v)
        lo, hi = int_range(T['w'], T['sg'])
        self.oblige(z3.And(t >= lo, t <= hi), 'safety', 'value fits the integer it is converted to')
        return t

    def e_Cast(self, e):
        ck = e['ck']
        if ck in ('LValueToRValue',):
            return self.rv(self.ev(e['e']))
        if ck == 'LValueBitCast':
            raise Unsupported('reinterpreting an object')
        if ck == 'BitCast':
            v = self.val(e['e'])
            to, fr = [self.T(self.T(x)['e']) if self.T(x)['c'] == 'ptr' else None for x in (e['t'], e['e']['t'])]
            if not to or not fr:
                raise Unsupported('reinterpreting a pointer')
            nm = lambda t: t['s'].replace('const ', '')
            if nm(to) == nm(fr) or to['c'] == 'void':
                return v
            if {nm(to), nm(fr)} <= {'char', 'unsigned char', 'signed char'} and v.kind == 'ptr' and v.meta is not None:
                return Node('byteptr', v.meta, {})  # a byte seen as another kind of byte: only good for writing it out
            if nm(fr) == 'char' and v.kind == 'ptr' and v.meta is not None and v.meta.path and v.meta.path[-1][0] == 'i':
                l = v.meta
                return Node('ptr', Loc(l.root, l.path[:-1] + (('w', (l.path[-1][1], self.T(e['t'])['e'])),)), {})
            raise Unsupported('reinterpreting a pointer')
        if ck in ('NoOp', 'FunctionToPointerDecay', 'UserDefinedConversion',
                  'ConstructorConversion', 'ArrayToPointerDecay', 'Dependent', 'NonAtomicToAtomic'):
            return self.ev(e['e'])
        if ck == 'ToVoid':
            self.ev(e['e'])
            return None
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            return self.ev(e['e'])
        if ck in ('BaseToDerived', 'Dynamic'):
            v = self.ev(e['e'])
            T = self.T(e['t'])
            tgt = self.T(self.strip_ref(e['t']) if T['c'] != 'ptr' else T['e']).get('rec')
            loc = v if isinstance(v, Loc) else (v.meta if isinstance(v, Node) and v.kind == 'ptr' else None)
            if T['c'] == 'ptr' and isinstance(v, Loc):
                v = self.load(v)
                loc = v.meta
            if loc is not None:
                o = self.load(loc)
                dyn = o.meta if isinstance(o, Node) and o.kind == 'rec' else None
                if dyn is None or tgt not in self.prog.mro(dyn):
                    cd = self.cfg.get('downcast', {})
                    if tgt in cd:
                        return v
                    if ck == 'Dynamic' and dyn is not None:
                        return Node('ptr', None, {})
                    if dyn is None:
                        raise Unsupported(f'downcast of an abstract object to {tgt}')
                    self.oblige(False, 'safety', f'downcast to {tgt}: object is {dyn}')
                    raise PathEnd()
            return v
        v = self.val(e['e'])
        if ck == 'NullToPointer':
            return Node('ptr', None, {})
        if ck == 'PointerToBoolean':
            if is_leaf(v):
                if z3.is_string_value(v):
                    return B(True)
                raise Unsupported('pointer to bool')
            if v.kind == 'ptr':
                return B(v.meta is not None)
            if v.kind == 'sref':
                return v.ch['h'] != 0
            raise Unsupported('pointer to bool')
        T = self.T(e['t'])
        S = self.T(e['e']['t'])
        if ck == 'IntegralCast':
            if z3.is_bool(v):
                return z3.If(v, I(1), I(0))
            if T['c'] == 'bool':
                return v != 0
            return self.wrap_from(v, S, T)
        if ck == 'IntegralToFloating':
            return self.toreal(v)
        if ck == 'FloatingToIntegral':
            return self.d2i(v, T)
        if ck in ('IntegralToBoolean',):
            return v != 0 if not z3.is_bool(v) else v
        if ck == 'FloatingToBoolean':
            return self.compare('!=', v, R(0))
        if ck == 'FloatingCast':
            return v
        if ck == 'BooleanToSignedIntegral':
            return z3.If(v, I(-1), I(0))
        raise Unsupported(f'cast {ck}')

    def wrap_from(self, v, S, T):
        if S['c'] in ('int', 'enum') and T['c'] in ('int', 'enum'):
            lo, hi = int_range(S['w'], S['sg'])
            lo2, hi2 = int_range(T['w'], T['sg'])
            if lo2 <= lo and hi <= hi2:
                return v
            return self.wrap(v, T)
        return v

    def e_List(self, e):
        T = self.T(e['t'])
        if T['c'] == 'rec' and T['rec'] in self.prog.recs:
            cls = T['rec']
            fs = self.prog.fields(cls)
            bases = self.prog.bases(cls)
            ch = {}
            args = list(e['args'])
            if bases and len(args) > 0 and len(args) == len(bases) + len(self.prog.recs[cls]['fields']):
                for b in bases:
                    bv = self.val(args.pop(0))
                    ch.update(bv.ch)
                fs = [(cls, f) for f in self.prog.recs[cls]['fields']]
            for i, (o, f) in enumerate(fs):
                key = f'{o}::{f["name"]}'
                if i < len(args):
                    ch[key] = self.init_field(f['t'], args[i], key)
                elif f.get('init'):
                    ch[key] = self.init_field(f['t'], f['init'], key)
                else:
                    ch[key] = self.zero(self.shape(f['t'], key))
            return Node('rec', cls, ch)
        if T['c'] == 'arr':
            n = T['n']
            el = self.shape(T['e'])
            vals = [self.val(a) for a in e['args']]
            while len(vals) < n:
                vals.append(self.val(e['filler']) if e.get('filler') else self.zero(el))
            return Node('arr', ('arr', n, el), dict(enumerate(vals)))
        if T['c'] == 'rec' and T.get('tmpl') == 'std::array':
            n = T['targs'][1]
            el = self.shape(T['targs'][0])
            if len(e['args']) == 1:
                a = self.val(e['args'][0])
                if isinstance(a, Node) and a.kind == 'arr':
                    if n > 64:
                        raise Unsupported('large array initialiser')
                    return Node('arr', ('arr', n, el), dict(a.ch))
                if isinstance(a, Node) and a.kind == 'vec':
                    return a
            if not e['args']:
                return self.zero(('arr', n, el))
            raise Unsupported('std::array initialiser')
        if len(e['args']) == 1:
            return self.ev(e['args'][0])
        if not e['args']:
            return self.zero(self.shape(e['t']))
        raise Unsupported(f'initialiser list for {T["s"]}')

    def e_StdIL(self, e):
        v = self.val(e['e'])
        return v

    def e_Idx(self, e):
        a = self.ev(e['a'])
        i = self.val(e['i'])
        if isinstance(a, Node) and a.kind == 'ptr':
            a = a.meta
        v = self.load(a)
        n = len(v.ch) if v.kind == 'arr' else v.ch['len']
        self.oblige(z3.And(i >= 0, i < n), 'safety', 'array index in range')
        return a.i(i)

    def e_Lambda(self, e):
        fr = self.frames[-1]
        env = dict(fr.env)
        for c in e['caps']:
            if c['ck'] == 'copy' and c.get('id') in env:
                env[c['id']] = self.alloc(self.load(env[c['id']]), c['name'])
            elif c['ck'] in ('copy', 'ref') and c.get('init'):
                v = self.ev(c['init'])
                if c['ck'] == 'copy':
                    env[c['id']] = self.alloc(self.rv(v), c['name'])
                else:
                    env[c['id']] = self.as_loc(v)
        return Node('clo', ('lam', e, env, fr.this, fr), {})

    def e_New(self, e):
        if e.get('isarr'):
            if self.T(e['at'])['c'] == 'int' and self.T(e['at'])['w'] == 8 and e['n']:
                return Node('ptr', self.alloc(Node('rec', 'char[]', {'s': z3.StringVal('') if e['init'] else self.fresh(('str',), 'chars'), 'cap': self.val(e['n'])}), 'buf', CBUF), {})
            raise Unsupported('new[]')
        v = self.val(e['init'] or e['ctor'])
        return Node('ptr', self.alloc(v, 'heap'), {})

    def e_Throw(self, e):
        self.throw('throw')

    def throw(self, what):
        if self.cfg.get('may_throw') or self.top_spec_flag('may_throw'):
            raise PathEnd()
        self.oblige(False, 'safety', f'{what} not reached')
        raise PathEnd()

    def throw_if(self, c, what):
        if self.decide(c):
            self.throw(what)

    def top_spec_flag(self, f):
        s = getattr(self, 'top_spec', None)
        return bool(s and getattr(s, f, False))

    def e_InhCtor(self, e):
        raise Unsupported('inherited constructor')

    # ---- construction ---------------------------------------------------------
    def e_Ctor(self, e):
        T = self.T(e['ty'])
        cls = e['cls']
        if e.get('cm') and len(e['args']) == 1 and cls in self.prog.recs and e['fn'] not in self.prog.funcs:
            src = self.ev(e['args'][0])
            return self.copy_value(src, cls, e.get('mv'))
        if cls not in self.prog.recs or T['c'] == 'rec' and T['rec'] not in self.prog.recs:
            nm = norm_name(e['fn'])
            h = self.handlers.get(nm)
            if h is None:
                raise Unsupported(f'constructor {e["fn"]}')
            args = self.eval_args(e['args'], e['pt'])
            return h(self, e, None, args)
        if T['c'] == 'arr':
            el = e
            n = T['n']
            vals = {i: self.construct_from(e, cls) for i in range(n)}
            return Node('arr', ('arr', n, self.rec_shape(cls)), vals)
        return self.construct_from(e, cls)

    def construct_from(self, e, cls):
        if e.get('dflt') and e['fn'] not in self.prog.funcs:
            return self.default_construct(cls, e.get('zero'))
        args = self.eval_args(e['args'], e['pt'])
        return self.construct(cls, e['fn'], args)

    def copy_value(self, src, cls, mv=False):
        v = self.rv(src)
        if is_leaf(v):
            return v
        if v.kind == 'clo':
            return v
        if v.kind != 'rec':
            raise Unsupported('copy of ' + v.kind)
        if v.meta == cls or cls not in self.prog.recs:
            r = v
        else:
            keep = {f'{o}::{f["name"]}' for o, f in self.prog.fields(cls)}
            r = Node('rec', cls, {k: x for k, x in v.ch.items() if k in keep})
        # deep copy of members with user copy constructors
        ch = None
        for o, f in self.prog.fields(cls):
            k = f'{o}::{f["name"]}'
            if k not in r.ch:
                continue
            ft = self.T(f['t'])
            if ft['c'] == 'rec' and ft['rec'] in self.prog.recs:
                cc = f'{ft["rec"]}::#ctor(const {ft["rec"]} &)'
                if cc in self.prog.funcs and not self.prog.funcs[cc].get('defaulted'):
                    nv = self.construct(ft['rec'], cc, [self.alloc(r.ch[k])])
                    r = r.with_(k, nv)
        if mv and isinstance(src, Loc) and self.has_uptr(cls):
            nul = dict(v.ch)
            for k, x in r.ch.items():
                if isinstance(x, Node) and x.kind == 'uptr':
                    nul[k] = x.with_('null', B(True))
            self.store(src, Node('rec', v.meta, nul))
        return r

    def has_uptr(self, cls):
        return any(self.T(f['t']).get('tmpl') == 'std::unique_ptr' for _, f in self.prog.fields(cls))

    def default_construct(self, cls, zero=False):
        k = f'{cls}::#ctor()'
        if k in self.prog.funcs:
            return self.construct(cls, k, [])
        ch = {}
        root = self.fresh_name('obj')
        s = self.rec_shape(cls)
        self.mem[root] = Node('rec', cls, {})
        self.rshape[root] = s
        for b in self.prog.bases(cls):
            if b in self.prog.recs:
                bv = self.default_construct(b, zero)
                ch.update(bv.ch)
        for f in self.prog.recs[cls]['fields']:
            key = f'{cls}::{f["name"]}'
            self.mem[root] = Node('rec', cls, dict(ch))
            ch[key] = self.default_field(cls, f, Loc(root), zero)
        self.mem.pop(root)
        return Node('rec', cls, ch)

    def default_field(self, cls, f, this, zero=False):
        key = f'{cls}::{f["name"]}'
        if f.get('init'):
            fr = Frame({'key': f'{cls}::init', 'params': []}, this)
            self.frames.append(fr)
            try:
                return self.init_field(f['t'], f['init'], key)
            finally:
                self.frames.pop()
        T = self.T(f['t'])
        if T['c'] == 'rec' and T['rec'] in self.prog.recs:
            sh = self.shape(f['t'], key)
            if sh[0] != 'rec':
                return self.fresh(sh, f['name'])
            return self.default_construct(T['rec'], zero)
        sh = self.shape(f['t'], key)
        if T['c'] == 'rec' or zero:
            return self.zero(sh)
        if sh[0] in ('int', 'bool', 'dbl', 'dblx', 'arr'):
            return self.fresh(sh, 'uninit_' + f['name'])
        return self.zero(sh)

    def init_field(self, t, e, key=None):
        T = self.T(t)
        if T['c'] == 'ref':
            return Node('ptr', self.as_loc(self.ev(e), 'reftmp'), {})
        v = self.val(e)
        if v is None:
            raise Unsupported('void initialiser')
        if is_leaf(v) and T['c'] == 'float':
            v = self.toreal(v)
        return v

    def construct(self, cls, key, args):
        """Runs constructor key for a new object of class cls; returns its value."""
        ab = self.cfg.get('abstract', {}).get(key)
        if ab is not None:
            self.trusted.add(key)
            return ab(self, None, args)
        sp = self.contract_for(key)
        if sp is not None:
            return self.apply_contract(sp, key, None, args, ctor_cls=cls)
        f = self.prog.funcs.get(key)
        if f is None:
            m = self.prog.find_method(key)
            if m and m['implicit'] and len(args) == 1:
                return self.copy_value(args[0], cls)
            if m and m['implicit']:
                return self.default_construct(cls)
            raise Unsupported(f'constructor {key} has no body here')
        if f.get('defaulted'):
            if len(args) == 1:
                return self.copy_value(args[0], cls)
            return self.default_members(cls)
        self.inlined.add(key)

        def run():
            root = self.fresh_name('obj')
            self.rshape[root] = None
            self.mem[root] = Node('rec', cls, {})
            self.run_ctor(cls, f, args, Loc(root), cls)
            v = self.mem.pop(root)
            return v
        if self.simple_ctor(f):
            return run()
        return self.merged(('ctor', key, len(self.frames)), run)

    def simple_ctor(self, f):
        return not f['body'] or not f['body'].get('b')

    def default_members(self, cls):
        return self.default_construct_fields(cls)

    def default_construct_fields(self, cls):
        ch = {}
        root = self.fresh_name('obj')
        for b in self.prog.bases(cls):
            if b in self.prog.recs:
                ch.update(self.default_construct(b).ch)
        for f in self.prog.recs[cls]['fields']:
            self.mem[root] = Node('rec', cls, dict(ch))
            ch[f'{cls}::{f["name"]}'] = self.default_field(cls, f, Loc(root))
        self.mem.pop(root, None)
        return Node('rec', cls, ch)

    def run_ctor(self, cls, f, args, this, dyn):
        """cls: class whose constructor f is; dyn: class of the complete object."""
        fr = self.push_frame(f, this, args, cls)
        try:
            done = set()
            inits = f.get('inits', [])
            for i in inits:
                if i.get('deleg'):
                    v = self.val(i['e'])
                    cur = self.load(this)
                    ch = dict(cur.ch)
                    ch.update(v.ch)
                    self.store(this, Node('rec', cur.meta, ch))
                    done.add('*')
                elif 'base' in i:
                    b = i['base']
                    done.add(('b', b))
                    e = i['e']
                    if b not in self.prog.recs:
                        continue
                    self.construct_base(b, e, this)
                else:
                    # default-initialise members skipped by the list are ordered by clang already
                    fld = i['field']
                    key = f'{cls}::{fld}'
                    done.add(fld)
                    ft = self.field_type(cls, fld)
                    cur = self.load(this)
                    v = self.init_field(ft, i['e'], key)
                    cur = self.load(this)
                    self.store(this, cur.with_(key, v))
            if '*' not in done:
                for b in self.prog.bases(cls):
                    if ('b', b) not in done and b in self.prog.recs:
                        v = self.default_construct(b)
                        cur = self.load(this)
                        ch = dict(v.ch)
                        ch.update(cur.ch)
                        self.store(this, Node('rec', cur.meta, ch))
                for fd in self.prog.recs[cls]['fields']:
                    if fd['name'] not in done:
                        v = self.default_field(cls, fd, this)
                        cur = self.load(this)
                        self.store(this, cur.with_(f'{cls}::{fd["name"]}', v))
            self.run_body(f)
        finally:
            self.frames.pop()

    def construct_base(self, b, e, this):
        if e['k'] == 'Ctor':
            if e.get('cm') and e['fn'] not in self.prog.funcs:
                v = self.copy_value(self.ev(e['args'][0]), b)
            elif e.get('dflt') and e['fn'] not in self.prog.funcs:
                v = self.default_construct(b)
            elif self.contract_for(e['fn']) is None and e['fn'] in self.prog.funcs and not self.prog.funcs[e['fn']].get('defaulted'):
                args = self.eval_args(e['args'], e['pt'])
                self.inlined.add(e['fn'])
                self.run_ctor(b, self.prog.funcs[e['fn']], args, this, None)
                return
            else:
                v = self.construct_from(e, b)
        elif e['k'] == 'InhCtor':
            # forward this constructor's parameters
            fr = self.frames[-1]
            f = self.prog.funcs.get(e['fn'])
            if f is None:
                raise Unsupported('inherited constructor')
            self.run_ctor(b, f, fr.args, this, None)
            return
        else:
            v = self.val(e)
        cur = self.load(this)
        ch = dict(cur.ch)
        ch.update(v.ch)
        self.store(this, Node('rec', cur.meta, ch))

    # ---- calls ---------------------------------------------------------------
    def eval_args(self, args, pts):
        out = []
        for i, a in enumerate(args):
            pt = pts[i] if pts and i < len(pts) else None
            v = self.ev(a)
            if pt and self.T(pt)['c'] == 'ref':
                v = self.as_loc(v, 'arg')
            else:
                v = self.rv(v)
                if pt and is_leaf(v) if v is not None else False:
                    if self.T(pt)['c'] == 'float':
                        v = self.toreal(v)
            out.append(v)
        return out

    def e_Call(self, e):
        qn = e.get('qn', '')
        if 'fn' not in e:
            c = self.rv(self.ev(e['callee']))
            args = self.eval_args(e['args'], None)
            return self.call_closure(c, args)
        if e['fn'] in self.prog.funcs or self.contract_for(e['fn']) is not None:
            args = self.eval_args(e['args'], e['pt'])
            return self.call(e['fn'], None, args)
        h = self.handlers.get(qn) or self.handlers.get(norm_name(e['fn']))
        if h is None:
            raise Unsupported(f'call of {e["fn"]}')
        args = self.eval_args(e['args'], e['pt'])
        return h(self, e, None, args)

    def e_MCall(self, e):
        if 'fn' not in e:
            raise Unsupported('pointer to member call')
        o = self.ev(e['obj'])
        if e.get('arrow'):
            o = self.deref(self.rv(o))
        cls = e.get('cls', '')
        if cls in self.prog.recs or self.contract_for(e['fn']) is not None:
            return self.member_call(e['fn'], o, e['args'], e['pt'], e.get('virt'), e)
        h = self.handlers.get(norm_name(e['fn']))
        if h is None:
            raise Unsupported(f'call of {e["fn"]}')
        args = self.eval_args(e['args'], e['pt'])
        return h(self, e, o, args)

    def e_OpCall(self, e):
        if e.get('member'):
            args = e['args']
            o = self.ev(args[0])
            if e['cls'] in self.prog.recs and e['fn'] not in self.prog.funcs and e['op'] == '=' and e.get('builtin'):
                src = self.ev(args[1])
                v = self.copy_value(src, e['cls'])
                self.store(o, v)
                return o
            if e['cls'] in self.prog.recs or self.contract_for(e['fn']) is not None:
                return self.member_call(e['fn'], o, args[1:], e['pt'], e.get('virt'), e)
            ov = self.rv(o) if e['op'] == '()' else None
            if isinstance(ov, Node) and ov.kind == 'clo':
                a = [self.ev(x) for x in args[1:]]
                return self.call_closure(ov, a)
            h = self.handlers.get(norm_name(e['fn']))
            if h is None:
                raise Unsupported(f'call of {e["fn"]}')
            a = self.eval_args(args[1:], e['pt'])
            return h(self, e, o, a)
        if e['fn'] in self.prog.funcs and 'ostream' not in e['fn'] or self.contract_for(e['fn']) is not None:
            args = self.eval_args(e['args'], e['pt'])
            return self.call(e['fn'], None, args)
        if 'basic_ostream' in e['fn'] and e['op'] == '<<' and 'heap:out' not in self.mem:
            return self.ev(e['args'][0])
        h = self.handlers.get(norm_name(e['fn']))
        if h is None:
            raise Unsupported(f'operator {e["fn"]}')
        args = self.eval_args(e['args'], e['pt'])
        return h(self, e, None, args)

    def dyn_class(self, o):
        v = self.rv(o)
        if isinstance(v, Node) and v.kind == 'rec':
            return v.meta
        return None

    def member_call(self, fn, o, argn, pts, virt, e):
        o = self.as_loc(o, 'obj')
        key = fn
        dyn = self.dyn_class(o)
        lam = self.load(o)
        if isinstance(lam, Node) and lam.kind == 'clo':
            return self.call_closure(lam, [self.ev(x) for x in argn])
        if virt and dyn:
            key = self.prog.resolve_virtual(dyn, fn)
        args = self.eval_args(argn, pts)
        return self.call(key, o, args, fn, e)

    def call_closure(self, c, args):
        if c.kind != 'clo':
            raise Unsupported('call through a function object')
        if c.meta[0] == 'fn':
            return self.call(c.meta[1], None, args)
        if c.meta[0] == 'py':
            return c.meta[1](self, args)
        _, e, env, this, fr0 = c.meta
        f = e.get('f')
        if f is None:
            gen = e.get('gen') or []
            if not gen:
                raise Unsupported('generic lambda')
            f = gen[0]
        if '_numbered' not in f:
            f['_numbered'] = True
        args = [self.as_loc(a) if self.T(p['t'])['c'] == 'ref' else self.rv(a)
                for p, a in zip(f['params'], args)]

        def run():
            fr = self.push_frame(f, this, args, None, env)
            fr.names = dict(fr0.names)
            fr.names.update({p['name']: fr.env[p['id']] for p in f['params']})
            try:
                try:
                    self.run_body(f)
                except RetEx as r:
                    return self.ret_value(f, r.v)
                return None
            finally:
                self.frames.pop()
        return self.merged(('lam', id(e), len(self.frames)), run)

    def ret_value(self, f, v):
        if v is None:
            return None
        if self.T(f['ret'])['c'] == 'ref':
            return v
        return self.rv(v)

    def contract_for(self, key):
        sp = self.specs.get(key)
        if sp is not None and sp.contract and (key != getattr(self, 'verifying', None) or key in self.cfg.get('recursive', ())):
            return sp
        return None

    def call(self, key, this, args, decl=None, e=None):
        sp = self.contract_for(key)
        if sp is None and decl and decl != key:
            sp = self.contract_for(decl) if key not in self.prog.funcs else None
        if sp is not None:
            return self.apply_contract(sp, sp.key, this, args)
        ab = self.cfg.get('abstract', {})
        for k in (key, decl):
            if k in ab:
                self.trusted.add(k)
                return ab[k](self, this, args)
        f = self.prog.funcs.get(key)
        if f is not None and f.get('defaulted') and f.get('body') is None:
            f = None
        if this is not None:
            tv = self.load(this)
            if is_leaf(tv) and (f is None or f.get('virt') or self.cfg.get('opaque_all')) or is_leaf(tv) and f is not None and self.touches_fields(f):
                return self.abstract_call(decl or key, this, args)
        if f is None:
            m = self.prog.find_method(key)
            if m and m['implicit'] and m['name'] == 'operator=':
                self.store(this, self.copy_value(args[0], key.split('::operator=')[0]))
                return this
            if m and m['name'].startswith('~'):
                return None
            raise Unsupported(f'{key}: no body and no contract')
        if self.depth > 40:
            raise Unsupported('call depth')
        if f.get('defaulted') and f['name'] == 'operator=':
            self.store(this, self.copy_value(args[0], f['cls']))
            return this
        self.inlined.add(key)

        def run():
            self.push_frame(f, this, args)
            self.depth += 1
            try:
                try:
                    self.run_body(f)
                except RetEx as r:
                    return self.ret_value(f, r.v)
                return None
            finally:
                self.depth -= 1
                self.frames.pop()
        if self.straight(f):
            return run()
        return self.merged(('call', key, self.site_sig()), run)

    def site_sig(self):
        return tuple(fr.func['key'] for fr in self.frames) + (self.linemark,)

    def touches_fields(self, f):
        return True

    def straight(self, f):
        b = f['body']
        return bool(b) and b['k'] == 'Block' and all(s['k'] in ('Ret', 'Expr', 'Decl') for s in b['b'])

    def abstract_call(self, key, this, args):
        """A method of an object known only by its interface: an uninterpreted
        function of the object's (abstract) state and the arguments."""
        self.trusted.add('interface ' + key)
        m = self.prog.find_method(key)
        rt = None
        f = self.prog.funcs.get(key)
        const = (m or {}).get('const', True)
        tv = self.load(this)
        leaves = [tv]
        for a in args:
            leaves += self.flat(a)
        rt = self.method_ret(key)
        if not const:
            nf = self.uf(key + '#state', leaves, tv.sort())
            self.store(this, nf)
        if rt is None or self.T(rt)['c'] == 'void':
            return None
        T = self.T(rt)
        if T['c'] == 'ref' and self.shape(T['e'])[0] in ('rec', 'opaque') and not const:
            if self.shape(T['e']) == self.shape_of_opaque(tv):
                return this
        s = self.shape(self.strip_ref(rt))
        v = self.uf_tree(key, leaves, s)
        return self.as_loc(v) if T['c'] == 'ref' else v

    def shape_of_opaque(self, tv):
        return ('opaque', tv.sort().name())

    def method_ret(self, key):
        f = self.prog.funcs.get(key)
        if f:
            return f['ret']
        for r in self.prog.recs.values():
            for m in r.get('methods', []):
                if m['key'] == key:
                    return m.get('ret')
        return None

    def flat(self, a):
        v = self.rv(a)
        out = []

        def go(v):
            if is_leaf(v):
                out.append(v)
            elif v.kind == 'dbl' and const_int(v.ch['k']) == 0:
                out.append(v.ch['r'])
            elif v.kind == 'ptr':
                if v.meta is not None:
                    go(self.load(v.meta))
            elif v.kind == 'clo':
                pass
            else:
                for k in v.ch:
                    go(v.ch[k])
        go(v)
        return out

    def uf(self, name, leaves, sort):
        name = name + '/' + '/'.join(str(x.sort()) for x in leaves)
        f = z3.Function(name, *[x.sort() for x in leaves], sort)
        return f(*leaves)

    def uf_tree(self, name, leaves, s):
        facts = []

        def mk(nm, srt, ls, depth):
            t = self.uf(f'{name}{nm}', leaves, srt)
            facts.extend(leaf_facts(t, ls, depth))
            return t
        if s[0] == 'uptr':
            return Node('uptr', s[1], {'null': B(False), 'val': self.uf_tree(name + '*', leaves, s[1])})
        if s[0] == 'str':
            return mk('', z3.StringSort(), s, 0)
        if s[0] == 'ptr' and s[1] is not None:
            sh = self.shape(s[1])
            return Node('ptr', self.alloc(self.uf_tree(name + '*', leaves, sh), 'shared', sh), {})
        v = V.build(s, mk, '', 0)
        for f in facts:
            self.assume(f)
        return v

    # ---- frames and bodies -------------------------------------------------
    def push_frame(self, f, this, args, cls=None, env=None):
        fr = Frame(f, this, dict(env) if env else {}, cls)
        for p, a in zip(f['params'], args):
            if self.T(p['t'])['c'] == 'ref':
                loc = self.as_loc(a, p['name'] or 'arg')
            else:
                v = self.rv(a)
                loc = self.alloc(v, p['name'] or 'arg', self.shape_for_value(p['t'], v))
            fr.env[p['id']] = loc
            fr.names[p['name']] = loc
        fr.args = args
        fr.entry = self.mem.copy()
        self.frames.append(fr)
        return fr

    def shape_for_value(self, t, v):
        try:
            return self.shape(t)
        except Unsupported:
            return None

    def run_body(self, f):
        if f.get('body'):
            self.st(f['body'])

    # ---- statements ---------------------------------------------------------
    def st(self, s):
        if s is None:
            return
        k = s['k']
        if s.get('l'):
            self.linemark = s['l']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported(f'statement {k} {s.get("cls", "")}')
        m(s)

    def s_Expr(self, s):
        self.ev(s['e'])

    def s_Block(self, s):
        fr = self.frames[-1]
        outer, fr.dtors = getattr(fr, 'dtors', None), []
        try:
            for x in s['b']:
                self.st(x)
        except (RetEx, BrkEx, ContEx):
            self.leave_scope(fr)
            fr.dtors = outer
            raise
        self.leave_scope(fr)
        fr.dtors = outer

    def leave_scope(self, fr):
        """Destructors of the block's objects, last first (the repository's own; objects of a block left by an exception are not destroyed here)."""
        ds, fr.dtors = fr.dtors, []
        for loc, key in reversed(ds):
            self.call(key, loc, [])

    def s_Nop(self, s):
        pass

    def s_Decl(self, s):
        for d in s['d']:
            self.declare(d)

    def declare(self, d):
        fr = self.frames[-1]
        T = self.T(d['t'])
        if 'cv' in d:
            v = B(bool(int(d['cv']))) if T['c'] == 'bool' else I(int(d['cv']))
            loc = self.alloc(v, d['name'])
        elif 'cvf' in d:
            loc = self.alloc(self.flt(d['cvf']), d['name'])
        elif d['static']:
            # initialised by whichever call came first: unrelated to this call
            # (unless it is set to a constant and never changed)
            sh = self.shape(d['t'])
            v = self.val(d['init']) if d.get('init') is not None and static_frozen(self.frames, d) else None
            if v is None or not all(const_leaf(x) for _, x in tree_leaves(v)):
                v = self.fresh(sh, 'static_' + d['name'])
            loc = self.alloc(v, d['name'], sh)
        elif T['c'] == 'ref':
            loc = self.as_loc(self.ev(d['init']), d['name'])
        else:
            if d['init'] is None:
                sh = self.shape(d['t'])
                v = self.fresh(sh, 'uninit_' + d['name'])
            else:
                v = self.val(d['init'])
                if v is None:
                    raise Unsupported('void value')
                if is_leaf(v) and T['c'] == 'float':
                    v = self.toreal(v)
            sh = self.shape_for_value(d['t'], v)
            if sh and sh[0] == 'sref' and isinstance(v, Node) and v.kind == 'ptr' and v.meta is None:
                v = Node('sref', sh[1], {'h': I(0)})
            loc = self.alloc(v, d['name'] or 'v', sh)
        fr.env[d['id']] = loc
        fr.names[d['name']] = loc
        if T['c'] == 'rec' and getattr(fr, 'dtors', None) is not None:
            f = self.prog.funcs.get(f"{T.get('rec')}::#dtor()")
            if f is not None and f.get('body') and f['body'].get('b'):
                fr.dtors.append((loc, f['key']))

    def s_If(self, s):
        if s.get('init'):
            self.st(s['init'])
        if s.get('cv'):
            self.declare(s['cv'])
        c = self.val(s['c'])
        if self.decide(c):
            self.st(s['a'])
        elif s['b']:
            self.st(s['b'])

    def s_Ret(self, s):
        if s['e'] is None:
            raise RetEx(None)
        v = self.ev(s['e'])
        f = self.frames[-1].func
        if self.T(f['ret'])['c'] == 'float' and v is not None:
            v = self.rv(v)
            v = self.toreal(v)
        raise RetEx(v)

    def s_Break(self, s):
        raise BrkEx()

    def s_Cont(self, s):
        raise ContEx()

    def s_Switch(self, s):
        if s.get('init'):
            self.st(s['init'])
        v = self.val(s['c'])
        flat = []

        def flatten(x):
            if x['k'] == 'Case':
                flat.append(('case', int(x['cv'])))
                flatten(x['b'])
            elif x['k'] == 'Default':
                flat.append(('default', None))
                flatten(x['b'])
            else:
                flat.append(('st', x))
        for x in s['b']['b']:
            flatten(x)
        start = None
        for i, (k, c) in enumerate(flat):
            if k == 'case' and self.decide(v == c):
                start = i
                break
        if start is None:
            ds = [i for i, (k, _) in enumerate(flat) if k == 'default']
            if not ds:
                return
            start = ds[0]
        try:
            for k, x in flat[start:]:
                if k == 'st':
                    self.st(x)
        except BrkEx:
            pass

    # ---- loops --------------------------------------------------------------
    def loop_spec(self, s):
        if self.bounded is not None:
            return None
        key, li = s.get('_fk'), s.get('_li')
        if key is None:
            return None
        sp = self.specs.get(key)
        if sp and li in sp.loops:
            return sp.loops[li]
        return None

    def s_While(self, s):
        if s.get('cv'):
            raise Unsupported('while with a declaration')
        self.loop(s, lambda: self.val(s['c']), s['b'], None)

    def s_Do(self, s):
        try:
            self.st(s['b'])
        except ContEx:
            pass
        except BrkEx:
            return
        self.loop(s, lambda: self.val(s['c']), s['b'], None)

    def s_For(self, s):
        if s.get('init'):
            self.st(s['init'])
        self.loop(s, (lambda: self.val(s['c'])) if s['c'] else (lambda: B(True)), s['b'],
                  (lambda: self.ev(s['inc'])) if s.get('inc') else None)

    def s_Range(self, s):
        r = self.ev(s['r'])
        loc = self.as_loc(r, 'range')
        v = self.load(loc)
        d = s['v']
        T = self.T(d['t'])
        fr = self.frames[-1]

        def bind(el):
            if T['c'] == 'ref':
                l = el
            else:
                l = self.alloc(self.load(el), d['name'], self.shape_for_value(d['t'], None))
            fr.env[d['id']] = l
            fr.names[d['name']] = l
        if not is_leaf(v) and v.kind == 'arr':
            for i in range(len(v.ch)):
                bind(loc.i(I(i)))
                try:
                    self.st(s['b'])
                except ContEx:
                    pass
                except BrkEx:
                    break
            return
        text = is_leaf(v) and v.sort() == z3.StringSort()
        if text and T['c'] == 'ref' and not self.T(T['e']).get('const'):
            raise Unsupported('range over a string by reference')
        if not text and (is_leaf(v) or v.kind != 'vec'):
            raise Unsupported(f'range over {v.sort() if is_leaf(v) else v.kind}')
        from .stdlib import Strings
        size = lambda: Strings(self).len(self.load(loc)) if text else self.load(loc).ch['len']
        idx = self.alloc(I(0), 'idx', ('int', 64, False))

        def cond():
            return self.load(idx) < size()

        def pre():
            bind(self.as_loc(Strings(self).chr(self.load(loc), self.load(idx)), d['name']) if text else loc.i(self.load(idx)))

        def inc():
            self.store(idx, self.load(idx) + 1)
        self.loop(s, cond, s['b'], inc, pre, idx=idx, auto=[lambda: z3.And(self.load(idx) >= 0, self.load(idx) <= size())])

    def loop(self, s, cond, body, inc, pre=None, auto=(), idx=None):
        spec = self.loop_spec(s)
        if spec is None:
            return self.unroll(s, cond, body, inc, pre)
        fr = self.frames[-1]
        if idx is None and s['k'] == 'For' and s.get('init') and s['init']['k'] == 'Decl':
            for d in s['init']['d']:
                if self.T(d['t'])['c'] == 'int' and d['name'] in fr.names:
                    idx = fr.names[d['name']]
                    break
        fr.counters.append(idx)
        try:
            self.loop_with(s, spec, cond, body, inc, pre, auto)
        finally:
            fr.counters.pop()

    def loop_with(self, s, spec, cond, body, inc, pre, auto):
        from .spec import loop_namespace
        fr = self.frames[-1]
        key = (s['_fk'], s['_li'], self.site_sig()[:-1])
        line = s['l']
        entry_mem = dict(self.mem)

        def check(role):
            for h in spec.get('hints', []):
                loop_namespace(self, fr, s, entry_mem).assume_hint(h)
            for a in auto:
                self.oblige(a(), 'inv', f'{role}: range index', line, False)
            for i in spec['inv']:
                c = loop_namespace(self, fr, s, entry_mem).bool(i)
                self.oblige(c, 'inv', f'{role}: {i}', line, spec.get('main', False))
        check('invariant holds on entry')
        mods = self.loopmods.setdefault(key, {})
        for (root, path), x in mods.items():
            if root in self.mem:
                self.havoc_leaf(root, path, x)
        head = dict(self.mem)
        for a in auto:
            self.assume(a())
        ns = loop_namespace(self, fr, s, entry_mem)
        for i in spec['inv']:
            self.assume(ns.bool(i))
        for h in spec.get('hints', []):
            ns.assume_hint(h)
        dec0 = ns.term(spec['dec']) if spec.get('dec') else None
        if not self.decide(cond()):
            for h in spec.get('exit_hints', []):
                loop_namespace(self, fr, s, entry_mem).assume_hint(h)
            return
        names0 = dict(fr.names)
        try:
            if pre:
                pre()
            self.st(body)
        except ContEx:
            pass
        except BrkEx:
            for h in spec.get('exit_hints', []):
                loop_namespace(self, fr, s, entry_mem).assume_hint(h)
            return
        if inc:
            inc()
        fr.names = names0
        check('invariant is preserved')
        if dec0 is not None:
            d1 = loop_namespace(self, fr, s, entry_mem).term(spec['dec'])
            self.oblige(z3.And(d1 < dec0, dec0 >= 0), 'dec', f'loop terminates: {spec["dec"]} decreases', line, False)
        new = False
        for root, v0 in head.items():
            v1 = self.mem.get(root)
            if v1 is None or v1 is v0:
                continue
            for p, x in self.diff(v0, v1):
                q = (root, p)
                if q not in mods or (x and not mods[q]):
                    mods[q] = x
                    new = True
        if new:
            raise Restart()
        raise PathEnd()

    def diff(self, a, b, pre=(), loop=True):
        """[(leaf path, needs kind)] of leaves that differ."""
        if a is b:
            return
        if isinstance(a, Node) and a.kind == 'dbl' or isinstance(b, Node) and b.kind == 'dbl':
            if isinstance(a, Node) and isinstance(b, Node) and z3.eq(a.ch['r'], b.ch['r']) and z3.eq(a.ch['k'], b.ch['k']):
                return
            if isinstance(a, Node) and isinstance(b, Node) or True:
                yield pre, True
            return
        if is_leaf(a) and is_leaf(b):
            if not z3.eq(a, b):
                yield pre, False
            return
        if is_leaf(a) or is_leaf(b) or a.kind != b.kind:
            raise Unsupported('loop changes the shape of a variable')
        if a.kind == 'ptr':
            if (a.meta is None) != (b.meta is None) or a.meta is not None and not a.meta.same(b.meta):
                if not loop:
                    yield pre, False
                    return
                raise Unsupported('pointer modified in a loop')
            return
        if a.kind == 'clo':
            return
        if a.ch.keys() != b.ch.keys():
            raise Unsupported('loop changes the shape of a variable')
        if a.kind == 'rec' and a.meta != b.meta:
            raise Unsupported('loop changes a dynamic type')
        for k in a.ch:
            yield from self.diff(a.ch[k], b.ch[k], pre + (k,), loop)

    def havoc_leaf(self, root, path, x):
        sh = self.rshape.get(root)
        depth = 0
        v = self.mem[root]

        def sub(sh, k):
            if sh is None:
                return None
            c = V.shape_children(sh)
            if c is not None:
                for n, s2 in c:
                    if n == k:
                        return s2
                return None
            if sh[0] in ('vec', 'arr'):
                return ('len', None if sh[0] == 'vec' else sh[1]) if k == 'len' else sh[-1]
            if sh[0] == 'uptr':
                return ('bool',) if k == 'null' else sh[1]
            return None

        def go(v, path, sh, depth):
            if not path:
                if x:
                    srt = lift_sort(z3.RealSort(), depth)
                    r = z3.Const(self.fresh_name('h.r'), srt)
                    kk = z3.Const(self.fresh_name('h.k'), lift_sort(z3.IntSort(), depth))
                    for f in leaf_facts(kk, ('kind',), depth):
                        self.assume(f)
                    return Node('dbl', None, {'r': r, 'k': kk})
                t = z3.Const(self.fresh_name('h' + str(root).split('!')[0]), v.sort())
                ls = sh
                if ls is None and v.sort() == z3.IntSort():
                    ls = None
                if ls is not None and ls[0] in ('int', 'len', 'kind', 'ref'):
                    for f in leaf_facts(t, ls, depth):
                        self.assume(f)
                return t
            k = path[0]
            d2 = depth + (1 if v.kind == 'vec' and k == 'data' else 0)
            return v.with_(k, go(v.ch[k], path[1:], sub(sh, k), d2))
        self.mem[root] = go(v, list(path), sh, depth)

    def unroll(self, s, cond, body, inc, pre):
        """A loop without invariant: only if its trip count is concrete (or within the bound)."""
        n = 0
        K = self.bounded
        free = 0
        while True:
            c = cond()
            cb = const_bool(c)
            if cb is None:
                if not (self.quick(c) or self.quick(z3.Not(c))):
                    if K is None:
                        raise Unsupported(f'loop without invariant at line {s["l"]}')
                    free += 1
                    if free > K:
                        self.bound_hit = True
                        raise PathEnd()
            if not self.decide(c):
                return
            n += 1
            if n > (self.cfg.get('unroll_max', 80) if K is None else 40 * (K + 1)):
                if K is not None:
                    self.bound_hit = True
                    raise PathEnd()
                raise Unsupported(f'loop without invariant at line {s["l"]}')
            if K is not None and cb is True and n > K and not self.cfg.get('concrete_loops', True):
                raise PathEnd()
            try:
                if pre:
                    pre()
                self.st(body)
            except ContEx:
                pass
            except BrkEx:
                return
            if inc:
                inc()

    # ---- contracts -----------------------------------------------------------
    def apply_contract(self, sp, key, this, args, ctor_cls=None):
        from .spec import call_namespace
        self.used_contracts.add(key)
        f = self.prog.funcs.get(key)
        ns = call_namespace(self, sp, f, this, args, dict(self.mem))
        for r in sp.requires:
            self.oblige(ns.bool(r), 'pre', f'precondition of {key}: {r}', None, True)
        old = dict(self.mem)
        for m in sp.modifies:
            loc = ns.loc(m)
            if loc is None:
                continue
            cur = self.load(loc)
            self.store(loc, self.fresh_like(cur, loc))
        result = None
        if ctor_cls:
            result = self.fresh(self.rec_shape(ctor_cls), 'new')
            this = self.alloc(result, 'new', self.rec_shape(ctor_cls))
        elif (f['ret'] if f is not None else self.method_ret(key)) and self.T(f['ret'] if f is not None else self.method_ret(key))['c'] != 'void' or sp.ret:
            if sp.returns:
                result = ns.loc(sp.returns)
            elif sp.ret_heap:
                result = Loc('heap:' + sp.ret_heap).i(z3.Int(self.fresh_name('handle')))
            else:
                rt = f['ret'] if f else self.method_ret(key)
                s = sp.ret(self) if sp.ret else self.shape(self.strip_ref(rt))
                result = self.fresh(s, 'res')
                if rt and self.T(rt)['c'] == 'ref':
                    result = self.alloc(result, 'resref', s)
        if sp.ghost_ret and 'heap:' + sp.ghost_ret in self.mem:
            g = self.mem['heap:' + sp.ghost_ret]
            r = self.rv(result)
            self.mem['heap:' + sp.ghost_ret] = Node('vec', g.meta, {'len': r.ch['len'], 'data': r.ch['data'] if isinstance(r.ch['data'], Node) else Node('rec', g.meta[1], {g.meta[2][0][0]: r.ch['data']})})
        ns2 = call_namespace(self, sp, f, this, args, old, result)
        for c in sp.ensures + sp.derived:
            self.assume(ns2.bool(c))
        if ctor_cls:
            return self.mem[this.root]
        return result

    def fresh_like(self, v, loc):
        sh = self.rshape.get(loc.root)
        for k, x in loc.path:
            if sh is None:
                break
            if k == 'f':
                c = dict(V.shape_children(sh) or [])
                if x in c:
                    sh = c[x]
                elif sh[0] == 'uptr':
                    sh = sh[1] if x == 'val' else ('bool',)
                else:
                    sh = None
            else:
                sh = sh[-1] if sh[0] in ('vec', 'arr') else None
        if sh is not None:
            try:
                return self.fresh_over(sh, v)
            except Unsupported:
                pass
        return tmap(lambda t: z3.Const(self.fresh_name('hv'), t.sort()), v)

    def fresh_over(self, sh, v):
        """Fresh value of shape sh; pointers keep their targets."""
        if sh[0] == 'ptr':
            return v
        if sh[0] == 'rec' and isinstance(v, Node):
            return Node('rec', v.meta, {k: (self.fresh_over(dict(sh[2])[k], v.ch[k]) if k in dict(sh[2]) else self.fresh_like_raw(v.ch[k])) for k in v.ch})
        return self.fresh(sh, 'hv')

    def fresh_like_raw(self, v):
        return tmap(lambda t: z3.Const(self.fresh_name('hv'), t.sort()), v)
