"""Discharges obligations with z3 (and cvc5 when z3 gives up), in parallel."""
import subprocess, hashlib, time, concurrent.futures as cf, os, re
import z3

Z3 = 'z3-new'
CVC5 = 'cvc5'


def to_smt2(ob):
    s = z3.Solver()
    for p in ob.pc:
        s.add(p)
    s.add(z3.Not(ob.goal))
    t = s.to_smt2()
    return t


def run(cmd, text, timeout):
    t0 = time.time()
    try:
        r = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=timeout + 3)
        out = r.stdout.strip()
    except subprocess.TimeoutExpired:
        out = 'timeout'
    return out, time.time() - t0


def first(out):
    for l in out.splitlines():
        l = l.strip()
        if l in ('sat', 'unsat', 'unknown', 'timeout'):
            return l
    return 'unknown'


def _lit(e):
    return z3.is_int_value(e) or z3.is_rational_value(e) or (z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_TO_REAL, z3.Z3_OP_UMINUS) and _lit(e.arg(0)))


class Abstraction:
    """Replaces products and quotients of non-constants by uninterpreted functions:
    fewer facts, so a refutation of the result refutes the original."""
    def __init__(self):
        self.memo = {}
        self.n = 0
        self.touched = False

    def go(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self._go(e)
        self.memo[k] = (e, r)
        return r

    def _go(self, e):
        if z3.is_quantifier(e):
            vs = []
            for i in range(e.num_vars()):
                self.n += 1
                vs.append(z3.Const(f'{e.var_name(i)}!{self.n}', e.var_sort(i)))
            sub = lambda t: self.go(z3.substitute_vars(t, *reversed(vs)))
            body = sub(e.body())
            pats = []
            for i in range(e.num_patterns()):
                pt = e.pattern(i)
                ts = [sub(pt.arg(j)) for j in range(pt.num_args())]
                pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
            if e.is_lambda():
                return z3.Lambda(vs, body)
            return (z3.ForAll if e.is_forall() else z3.Exists)(vs, body, patterns=pats)
        if not z3.is_app(e) or e.num_args() == 0:
            return e
        a = [self.go(x) for x in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            lits, oth = [x for x in a if _lit(x)], [x for x in a if not _lit(x)]
            if len(oth) > 1:
                self.touched = True
                oth.sort(key=lambda x: x.hash())
                f = z3.Function(f'nlmul!{e.sort()}', e.sort(), e.sort(), e.sort())
                r = oth[0]
                for x in oth[1:]:
                    r = f(r, x)
                for x in lits:
                    r = x * r
                return r
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and not _lit(a[1]):
            self.touched = True
            return z3.Function(f'nl{k}!{e.sort()}', a[0].sort(), a[1].sort(), e.sort())(*a)
        if all(z3.eq(x, y) for x, y in zip(a, e.children())):
            return e
        return e.decl()(*a)


def split(g):
    if z3.is_and(g):
        return [x for c in g.children() for x in split(c)]
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), x) for x in split(g.arg(1))]
    if z3.is_quantifier(g) and g.is_forall():
        # to be refuted: any counterexample names the bound values
        vs = [z3.FreshConst(g.var_sort(i), g.var_name(i)) for i in range(g.num_vars())]
        return split(z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_app_of(g, z3.Z3_OP_ITE):
        return split(z3.Implies(g.arg(0), g.arg(1))) + split(z3.Implies(z3.Not(g.arg(0)), g.arg(2)))
    return [g]


def easier(ob):
    """Texts whose refutation together discharges the obligation."""
    ab = Abstraction()
    parts = split(ob.goal)
    pc = [ab.go(p) for p in ob.pc]
    gs = [ab.go(g) for g in parts]
    if not ab.touched and len(parts) == 1 and not z3.is_quantifier(ob.goal):
        return []
    out = []
    for g in gs:
        s = z3.Solver()
        for p in pc:
            s.add(p)
        s.add(z3.Not(g))
        out.append(s.to_smt2())
    return out


def quick(text, timeout):
    out, dt = run([Z3, '-in', f'-T:{max(2, timeout // 4)}', '-memory:3000'], text, timeout // 4 + 2)
    return first(out), dt


def discharge(text, timeout, r='unknown', total=0.0):
    """(status, backend, seconds, model text)"""
    mem = '-memory:3000'
    if r == 'sat':
        out, dt = run([Z3, '-in', f'-T:{timeout}', mem], text + '\n(get-model)\n', timeout)
        return 'sat', 'z3', total + dt, out
    body = '(set-logic ALL)\n' + '\n'.join(l for l in text.splitlines() if not l.startswith('(set-info') and not l.startswith('; '))
    out, dt = run([CVC5, '--lang=smt2', f'--tlimit={timeout * 1000 // 2}', '-q'], body, timeout // 2 + 2)
    total += dt
    r2 = first(out)
    if r2 == 'unsat':
        return 'unsat', 'cvc5', total, ''
    for extra in (['smt.arith.solver=2'], ['smt.random_seed=7', 'smt.qi.eager_threshold=50'], ['smt.mbqi=false', 'smt.arith.nl.gb=true']):
        out, dt = run([Z3, '-in', f'-T:{timeout}', mem] + extra, text, timeout)
        total += dt
        r = first(out)
        if r == 'unsat':
            return 'unsat', 'z3', total, ''
        if r == 'sat':
            out, dt = run([Z3, '-in', f'-T:{timeout}', mem] + extra, text + '\n(get-model)\n', timeout)
            return 'sat', 'z3', total + dt, out
    if r2 == 'sat':
        return 'sat', 'cvc5', total, out
    return 'unknown', '', total, ''


def discharge_all(obs, timeout=20, workers=8, deadline=None, verbose=False):
    texts = {}
    jobs = []
    for ob in obs:
        if z3.is_true(ob.goal):
            jobs.append(None)
            continue
        t = to_smt2(ob)
        hsh = hashlib.sha256(t.encode()).hexdigest()
        texts.setdefault(hsh, t)
        jobs.append(hsh)
    res = {}
    byh = {j: ob for ob, j in zip(obs, jobs) if j is not None}
    late = lambda: deadline and time.time() > deadline
    OUT = ('unknown', '', 0.0, 'out of time')
    with cf.ThreadPoolExecutor(workers) as ex:
        # 1: one short attempt each
        st = {}
        for hsh, r in zip(texts, ex.map(lambda h: None if late() else quick(texts[h], timeout), list(texts))):
            if r is None:
                res[hsh] = OUT
            elif r[0] == 'unsat':
                res[hsh] = ('unsat', 'z3', r[1], '')
            else:
                st[hsh] = r
        # 2: with nonlinear terms abstracted and conjunctions split
        simp = {h: easier(byh[h]) for h, r in st.items() if r[0] != 'sat' and not late()}
        work = [(h, t) for h, ts in simp.items() for t in ts]
        rs = list(ex.map(lambda w: ('unknown', 0.0) if late() else quick(w[1], timeout), work))
        for h, ts in simp.items():
            mine = [r for w, r in zip(work, rs) if w[0] == h]
            tot = st[h][1] + sum(r[1] for r in mine)
            if mine and all(r[0] == 'unsat' for r in mine):
                res[h] = ('unsat', 'z3', tot, '')
            st[h] = (st[h][0], tot)
        # 3: everything else
        rest = [h for h in st if h not in res]
        for h, r in zip(rest, ex.map(lambda h: OUT if late() else discharge(texts[h], timeout, *st[h]), rest)):
            res[h] = r
    out = []
    for ob, j in zip(obs, jobs):
        if j is None:
            out.append((ob, ('unsat', 'simplifier', 0.0, ''), ''))
        else:
            out.append((ob, res[j], texts[j]))
    return out
