"""Verifies one function against its contract: generates its obligations."""
import z3
from .values import *
from .engine import Engine, Frame, PathEnd, RetEx, Ob, TooMany, has_quant
from .spec import Namespace, View


class Result:
    def __init__(self, key):
        self.key = key
        self.obs, self.undecided, self.paths, self.returns = [], None, 0, 0
        self.contracts, self.inlined, self.trusted = set(), set(), set()
        self.bound_hit = False
        self.line = ''
        self.cover = None


def verify(prog, specs, sp, cfg, bounded=None):
    res = Result(sp.id)
    cfg = dict(cfg)
    specs = dict(specs)
    specs[sp.key] = sp
    if sp.cfg:
        for k, v in sp.cfg.items():
            if isinstance(v, dict):
                cfg[k] = dict(cfg.get(k, {}), **v)
            else:
                cfg[k] = v
    eng = Engine(prog, specs, cfg, bounded)
    key = cfg['snapshot'].current_key(prog, sp.key)
    f = prog.funcs.get(key)
    if f is None:
        res.undecided = f'function {sp.key} not found in the source'
        return res
    res.line = f['loc']
    eng.verifying = sp.key
    eng.top_spec = sp
    cover = {'entry': None}

    def names_of(args):
        n = {}
        for p, a in zip(f['params'], args):
            n[p['name']] = a
        pn = cfg['snapshot'].param_names(sp.key)
        for i, a in enumerate(args):
            n[f'a{i}'] = a
            if pn and i < len(pn):
                n.setdefault(pn[i], a)
        return n

    def thunk():
        this = None
        cls = f.get('cls')
        dyn = sp.cls or cls
        for c in cfg.get('heaps', []):
            eng.new_heap(c)
        for g, gs in cfg.get('ghosts', {}).items():
            gs = gs(eng) if callable(gs) else gs
            eng.mem['heap:' + g] = eng.fresh(gs, 'ghost_' + g)
            eng.rshape['heap:' + g] = gs
        if sp.setup:
            sp.setup(eng)
        if cls and not f.get('static') and not f.get('ctor'):
            s = eng.rec_shape(dyn)
            root = 'this'
            if isinstance(s, tuple) and s[0] == 'opaque':
                raise Unsupported(f'{dyn} is abstract')
            eng.mem[root] = eng.fresh(s, 'this')
            eng.rshape[root] = s
            this = Loc(root)
        args = []
        for p in f['params']:
            T = eng.T(p['t'])
            if T['c'] == 'ref':
                s = eng.shape(T['e'], 'param:' + p['name'])
                root = eng.fresh_name(p['name'] or 'arg')
                eng.mem[root] = eng.fresh(s, p['name'])
                eng.rshape[root] = s
                args.append(Loc(root))
            else:
                s = eng.shape(p['t'], 'param:' + p['name'])
                args.append(eng.fresh(s, p['name']))
        names = names_of(args)
        if this is not None:
            names['this'] = this
        entry = dict(eng.mem)
        lets = dict(cfg.get('lets', {}), **sp.lets)
        ns = Namespace(eng, names, names, entry, entry, lets=lets)
        # a placeholder frame so that obligations name the function
        eng.frames.append(Frame(f, this))
        for r in sp.requires:
            eng.assume(ns.bool(r))
        for r in sp.defs:
            eng.assume(ns.bool(r))
        for hh in sp.entry_hints:
            ns.assume_hint(hh)
        eng.frames.pop()
        if cover['entry'] is None:
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add([c for _, c in eng.pc])
            cover['entry'] = str(s.check())
        entry = dict(eng.mem)
        result = None
        if f.get('ctor'):
            root = 'new'
            eng.mem[root] = Node('rec', dyn, {})
            eng.rshape[root] = None
            this = Loc(root)
            try:
                eng.run_ctor(cls, f, args, this, dyn)
            except RetEx:
                pass
        else:
            fr = eng.push_frame(f, this, args, cls)
            fr.entry = entry
            try:
                eng.run_body(f)
            except RetEx as r:
                result = eng.ret_value(f, r.v)
            eng.frames.pop()
        eng.frames.append(Frame(f, this))
        eng.reached_returns += 1
        if cover.get('exit') in (None, 'unsat') and cover.get('tries', 0) < 20:
            s = z3.Solver()
            s.set('timeout', 500)
            s.add([c for _, c in eng.pc])
            cover['exit'] = str(s.check())
            cover['tries'] = cover.get('tries', 0) + 1
        fnames = dict(names)
        if f.get('ctor'):
            fnames['this'] = this
        ns = Namespace(eng, fnames, names, dict(eng.mem), entry, lets=lets)
        if result is not None:
            ns.extra['result'] = ns.wrap(result, ns.mem)
            ns.extra['result_loc'] = result
            if isinstance(result, Loc) and result.root.startswith('heap:') and result.path:
                ns.extra['result_h'] = result.path[0][1]
        eng.ghost_result = result
        line = eng.linemark
        for hh in sp.post_hints:
            ns.assume_hint(hh)
        for c in sp.ensures:
            lab = c if isinstance(c, str) else getattr(c, '__name__', 'clause')
            g = ns.bool(c)
            eng.oblige(g, 'post', lab, line)
        if result is not None and isinstance(result, Loc) and sp.returns:
            want = Namespace(eng, fnames, names, dict(eng.mem), entry, lets=lets).loc(sp.returns)
            eng.oblige(result.alike(want), 'post', f'returns a reference to {sp.returns}', line)
        # frame
        if not f.get('ctor'):
            allowed = []
            for m in sp.modifies:
                l = Namespace(eng, names, names, dict(eng.mem), entry, lets=lets).loc(m)
                if l is not None:
                    allowed.append((l.root, tuple(x for k, x in l.path if k == 'f')))
            for root, v0 in entry.items():
                v1 = eng.mem.get(root)
                if v1 is None or v1 is v0:
                    continue
                for p, _ in eng.diff(v0, v1, loop=False):
                    ok = any(r == root and p[:len(q)] == q for r, q in allowed)
                    if ok:
                        continue
                    a, b = v0, v1
                    for k in p:
                        a = a.ch[k] if isinstance(a, Node) and k in a.ch else a
                        b = b.ch[k] if isinstance(b, Node) and k in b.ch else b
                    if isinstance(a, Node) and a.kind == 'ptr':
                        g = z3.BoolVal(False)
                    elif isinstance(a, Node) or isinstance(b, Node):
                        from .spec import deq
                        g = deq(a, b)
                    else:
                        g = a == b
                    eng.oblige(g, 'frame', f'{root.split("!")[0]}.{".".join(str(x).split("::")[-1] for x in p)} is not modified', line)
        eng.frames.pop()

    try:
        eng.explore(thunk)
    except Unsupported as ex:
        res.undecided = f'{ex} (near {f["loc"].rsplit(":", 1)[0].replace("/repo/", "")}:{getattr(eng, "linemark", 0)})'
    except TooMany as ex:
        res.undecided = str(ex)
    except RecursionError:
        res.undecided = 'recursion limit'
    except (AttributeError, KeyError, TypeError, IndexError, AssertionError, ValueError, z3.Z3Exception) as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        res.undecided = f'internal: {type(ex).__name__} {ex} at {tb.filename.split("/")[-1]}:{tb.lineno} (line {getattr(eng, "linemark", 0)})'
        res.trace = traceback.format_exc()
    res.obs = eng.obs
    res.paths = getattr(eng, 'npaths', 0)
    res.returns = eng.reached_returns
    res.contracts, res.inlined, res.trusted = eng.used_contracts, eng.inlined, eng.trusted
    res.bound_hit = eng.bound_hit
    res.cover = 'unsat' if cover.get('exit') == 'unsat' else cover['entry']
    return res
