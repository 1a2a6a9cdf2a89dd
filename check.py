#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property id>: decides one property for /repo's current tree.
Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken."""
import sys, os, json, time, subprocess, hashlib, importlib.util, multiprocessing as mp, traceback, re, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vc.ast as ast
from vc.ast import REPO, BUILD
from vc.snapshot import Snapshot

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
DEADLINE = float(os.environ.get('VERIF_DEADLINE', '600' if TIER == 'quick' else '3000'))
T0 = time.time()


def load_spec(pid):
    path = os.path.join(HERE, 'specs', pid + '.py')
    sp = importlib.util.spec_from_file_location('spec_' + pid, path)
    m = importlib.util.module_from_spec(sp)
    sys.path.insert(0, os.path.join(HERE, 'specs'))
    sp.loader.exec_module(m)
    return m


def literals(prog):
    """{function: sorted literal values}"""
    out = {}

    def walk(x, acc):
        if isinstance(x, dict):
            k = x.get('k')
            if k == 'Int':
                acc.add(float(int(x['v'])))
            elif k == 'Float':
                try:
                    acc.add(float(x['v']))
                except ValueError:
                    pass
            for v in x.values():
                walk(v, acc)
        elif isinstance(x, list):
            for v in x:
                walk(v, acc)
    for k, f in prog.funcs.items():
        acc = set()
        walk(f.get('body'), acc)
        walk(f.get('inits'), acc)
        out[k] = sorted(acc)
    return out


# ---- proof ---------------------------------------------------------------------
_G = {}


def _work(job):
    """Generates the obligations of one function (in a child process)."""
    from vc.verify import verify
    from vc.solve import to_smt2
    import z3
    key, bounded = job[:2]
    prog, specs, cfg = _G['prog'], _G['specs'], _G['cfg']
    sp = specs[key]
    # callers of the same instance may rely on each other's contracts
    specs = {s.key: s for s in sorted(specs.values(), key=lambda s: bool(s.inst)) if not s.inst or s.inst == sp.inst}
    use = specs
    if bounded is not None:
        # everything inlined, loops unrolled
        import copy
        use = {k: s for k, s in specs.items() if k == sp.key or s.trusted or s.noverify}
        sp = copy.copy(sp)
        sp.entry_hints = sp.post_hints = ()
        use[sp.key] = sp
    if len(job) > 2:
        # the private helpers named are inlined instead of trusted by contract
        import copy
        use = dict(use)
        for k in job[2]:
            use[k] = copy.copy(use[k])
            use[k].contract = False
    t = time.time()
    r = verify(prog, use, sp, cfg, bounded)
    obs = []
    for o in r.obs:
        trivial = z3.is_true(o.goal)
        obs.append({'role': o.role, 'label': o.label, 'line': o.line, 'func': o.func, 'main': o.main,
                    'smt': None if trivial else to_smt2(o)})
    return {'key': key, 'loc': r.line, 'obs': obs, 'undecided': r.undecided, 'trace': getattr(r, 'trace', ''),
            'paths': r.paths, 'returns': r.returns, 'contracts': sorted(r.contracts), 'inlined': sorted(r.inlined),
            'trusted': sorted(r.trusted), 'bound_hit': r.bound_hit, 'cover': r.cover, 'gen_s': time.time() - t,
            'bounded': bounded}


def generate(jobs, workers=8, limit=240):
    if not jobs:
        return []
    ctx = mp.get_context('fork')
    out = []
    tg = time.time()
    with ctx.Pool(min(workers, len(jobs)), maxtasksperchild=4) as pool:
        rs = [(j, pool.apply_async(_work, (j,))) for j in jobs]
        for j, r in rs:
            try:
                out.append(r.get(timeout=max(3, min(limit - (time.time() - tg), DEADLINE - (time.time() - T0)))))
            except mp.TimeoutError:
                out.append({'key': j[0], 'loc': '', 'obs': [], 'undecided': 'obligation generation timed out', 'paths': 0,
                            'returns': 0, 'contracts': [], 'inlined': [], 'trusted': [], 'bound_hit': False,
                            'cover': None, 'gen_s': 0, 'bounded': j[1]})
            except Exception as ex:
                out.append({'key': j[0], 'loc': '', 'obs': [], 'undecided': f'generator: {type(ex).__name__} {ex}', 'paths': 0,
                            'returns': 0, 'contracts': [], 'inlined': [], 'trusted': [], 'bound_hit': False,
                            'cover': None, 'gen_s': 0, 'bounded': j[1]})
        pool.terminate()
    return out


def discharge(results, timeout, limit=10**9):
    import concurrent.futures as cf
    from vc.solve import discharge as one
    texts = {}
    for r in results:
        for o in r['obs']:
            if o['smt'] is None:
                o['res'] = ('unsat', 'simplifier', 0.0, '')
            else:
                o['h'] = hashlib.sha256(o['smt'].encode()).hexdigest()
                texts[o['h']] = o['smt']
    res = {}
    ts = time.time()

    def go(h):
        if time.time() - T0 > DEADLINE or time.time() - ts > limit:
            return h, ('unknown', '', 0.0, 'out of time')
        return h, one(texts[h], timeout)
    with cf.ThreadPoolExecutor(8) as ex:
        for h, r in ex.map(go, list(texts)):
            res[h] = r
    for r in results:
        for o in r['obs']:
            if o['smt'] is not None:
                o['res'] = res[o['h']]
    return results


def prove_lemmas(mod):
    """Stand-alone lemmas over the contracts."""
    import z3
    from vc.solve import discharge as one
    out = []
    for name, fml in getattr(mod, 'LEMMAS', []):
        f = fml() if callable(fml) else fml
        s = z3.Solver()
        s.add(z3.Not(f))
        st = one(s.to_smt2(), 20)
        out.append({'name': name, 'status': st[0], 'backend': st[1], 's': st[2]})
    return out


# ---- refuter --------------------------------------------------------------------
class Refuter:
    def __init__(self, pid, mod):
        self.pid = pid
        self.src = os.path.join(HERE, 'refute', getattr(mod, 'REFUTER', pid) + '.cpp')
        self.proc = None
        self.dir = tempfile.mkdtemp(prefix=f'refute_{pid}_')
        self.exe = os.path.join(self.dir, 'refuter')
        self.flags = getattr(mod, 'REFUTER_FLAGS', [])
        self.ok = None
        self.err = ''

    def cmd(self):
        return ['g++', '-std=c++14', '-O1', '-g', '-w', '-fsanitize=undefined,address', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined',
                '-D_GLIBCXX_ASSERTIONS', '-pthread', '-I', os.path.join(REPO, 'src'), '-I', os.path.join(HERE, 'refute'), self.src, '-o', self.exe] + self.flags

    def start(self):
        if os.path.exists(self.src):
            self.proc = subprocess.Popen(self.cmd(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def ready(self):
        if self.proc is None:
            return False
        if self.ok is None:
            out, _ = self.proc.communicate()
            self.ok = self.proc.returncode == 0
            self.err = out[-3000:] if not self.ok else ''
        return self.ok

    def run(self, budget, hints=(), seed=SEED):
        if not self.ready():
            return None
        cmd = [self.exe, '--seed', str(seed), '--budget', str(budget)]
        if hints:
            cmd += ['--hints', ' '.join(repr(float(x)) for x in list(hints)[:200])]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_abort=0:handle_segv=0:handle_sigfpe=0:abort_on_error=1:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1')
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=budget * 8 + 240, env=env, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return {'fails': [], 'runs': 0, 'out': 'refuter timed out', 'cmd': cmd}
        fails = [l for l in r.stdout.splitlines() if l.startswith('FAIL ')]
        if r.returncode and not fails:
            fails = [f'FAIL refuter exited with {r.returncode}: ' + r.stdout[-300:]]
        m = re.findall(r'^CASE (\S+) runs (\d+)', r.stdout, re.M)
        return {'fails': fails, 'runs': sum(int(x) for _, x in m), 'cases': {n: int(x) for n, x in m},
                'out': r.stdout[-4000:], 'cmd': cmd}

    def close(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def known_findings():
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'KNOWN-FINDING: property=(\S+) case=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def model_values(text):
    vals = set()
    for m in re.findall(r'\(define-fun [^()\s]+ \(\) (?:Real|Int)\s+([^\n]*?)\)\s*$', text, re.M):
        m = m.strip()
        neg = m.startswith('(-') or m.startswith('(- ')
        nums = re.findall(r'\d+(?:\.\d+)?', m)
        try:
            if '/' in m and len(nums) >= 2:
                v = float(nums[0]) / float(nums[1])
            elif nums:
                v = float(nums[0])
            else:
                continue
        except (ValueError, ZeroDivisionError):
            continue
        if abs(v) < 1e15:
            vals.add(-v if neg else v)
    return vals


def main(pid):
    mod = load_spec(pid)
    ref = Refuter(pid, mod)
    try:
        return check(pid, mod, ref)
    finally:
        ref.close()


def check(pid, mod, ref):
    ref.start()
    snap = Snapshot(os.path.join(HERE, 'specs', 'snapshot.json'))
    notes, und = [], []
    results, lem = [], []
    prog = None
    try:
        prog, phash = ast.extract()
    except ast.ExtractError as ex:
        und.append(f'extraction: {ex}')
        phash = ''
    hints = []
    specs = {s.id: s for s in mod.SPECS}
    if prog is not None:
        snap.prog = prog
        base_l = snap.d.get('lits', {})
        for k, ls in literals(prog).items():
            b = set(base_l.get(k, []))
            for v in ls:
                if v not in b:
                    hints += [v, v + 1, v - 1]
        cfg = dict(getattr(mod, 'CFG', {}))
        cfg['snapshot'] = snap
        _G.update(prog=prog, specs=specs, cfg=cfg)
        jobs = [(s.id, None) for s in mod.SPECS if not s.trusted and not s.noverify]
        results = generate(jobs)
        discharge(results, 20 if TIER == 'quick' else 60, 150 if TIER == 'quick' else 1500)
        lem = prove_lemmas(mod)
    # which obligations stand
    fails, aux = [], []
    for r in results:
        if r['undecided']:
            und.append(f'{r["key"]}: {r["undecided"]}')
        elif r['cover'] == 'unsat':
            und.append(f'{r["key"]}: precondition or an assumed contract is contradictory')
        elif not r['returns'] and not getattr(specs[r['key']], 'may_throw', False):
            und.append(f'{r["key"]}: no path reaches the end of the function')
        for o in r['obs']:
            st = o['res'][0]
            if st == 'unsat':
                continue
            (fails if o['main'] and st == 'sat' and o['role'] in ('post', 'assert', 'pre', 'frame', 'safety') else aux).append((r, o))
    for l in lem:
        if l['status'] != 'unsat':
            und.append(f'lemma {l["name"]}: {l["status"]}')
    bounded = []
    redo = []
    for r, o in fails + aux:
        if r['key'] not in redo:
            redo.append(r['key'])
    for r in results:
        if r['undecided'] and r['key'] not in redo and r['key'] in specs and 'not found' not in r['undecided']:
            redo.append(r['key'])
    if redo and prog is not None:
        K = 2 if TIER == 'quick' else 4
        lim = 60 if TIER == 'quick' else 400
        bounded = generate([(k, specs[k].bound or K) for k in redo], limit=lim)
        discharge(bounded, 8, lim)
    viol = []         # (text, key, obligation, smt, model)
    for k in redo:
        b = [x for x in bounded if x['key'] == k]
        b = b[0] if b else None
        f1 = [(r, o) for r, o in fails if r['key'] == k]
        bf = [o for o in (b['obs'] if b else []) if o['res'][0] == 'sat' and o['main'] and o['role'] in ('post', 'assert', 'frame', 'safety')] if b else []
        if bf:
            viol.append((k, bf[0], 'bounded'))
        elif f1:
            clean = b is not None and not b['undecided'] and b['returns'] and all(o['res'][0] == 'unsat' for o in b['obs'])
            if clean:
                und.append(f'{k}: {f1[0][1]["label"]} not proved modularly; holds with calls inlined and loops unrolled to {b["bounded"]} (bounded)')
            else:
                viol.append((k, f1[0][1], 'modular'))
        else:
            a1 = [(r, o) for r, o in aux if r['key'] == k]
            if a1:
                und.append(f'{k}: {len(a1)} obligation(s) undecided, first: {a1[0][1]["role"]} "{a1[0][1]["label"]}" line {a1[0][1]["line"]} ({a1[0][1]["res"][0]})')
    # a private helper that no longer meets its contract was perhaps rewritten together with its
    # callers: they are verified once more with its body in place of the contract
    for k in sorted({k for k, _, _ in viol}):
        callers = [r['key'] for r in results if specs[k].key in r['contracts'] and r['key'] != k]
        if not prog.funcs.get(specs[k].key, {}).get('priv') or not callers:
            continue
        again = generate([(c, None, [specs[k].key]) for c in callers], limit=90 if TIER == 'quick' else 600)
        discharge(again, 20, 120 if TIER == 'quick' else 900)
        if all(not r['undecided'] and r['returns'] and all(o['res'][0] == 'unsat' for o in r['obs']) for r in again):
            viol = [v for v in viol if v[0] != k]
            und.append(f'{k}: does not meet its contract, its callers do with its body in place')
    for k, o, _ in viol:
        hints += list(model_values(o['res'][3]))
    budget = (8 if TIER == 'quick' else 120) * getattr(mod, 'REFUTE_SCALE', 1)
    if viol or und:
        budget *= 2
    rr = ref.run(budget, hints)
    if rr is None:
        notes.append('runtime contract validation not available: ' + (ref.err[-400:] or 'no driver'))
    known = [(c, t) for p, c, t in known_findings() if p == pid]
    rfails, kn = [], []
    for l in (rr['fails'] if rr else []):
        case = l.split()[1]
        hit = [t for c, t in known if c == case]
        (kn if hit else rfails).append(l)
    for c, t in known:
        print(f'KNOWN-FINDING: property={pid} case={c} {t}')
    code = 0
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    rp = os.path.join(HERE, 'evidence', 'replay', f'{pid}.json')
    nviol = 0
    if rfails or viol:
        code = 1
        nviol = max(1, len(rfails) + len(viol))
        rec = {'property': pid, 'seed': SEED, 'tier': TIER,
               'failing_inputs': rfails,
               'replay_cmd': ' '.join(ref.cmd()) + ' && ' + (' '.join(rr['cmd']) if rr else ''),
               'failed_obligations': [{'function': k, 'role': o['role'], 'clause': o['label'], 'line': o['line'], 'stage': st,
                                       'solver': o['res'][1], 'answer': o['res'][0], 'counterexample': o['res'][3][:6000]} for k, o, st in viol],
               'undecided': und}
        json.dump(rec, open(rp, 'w'), indent=1)
        for k, o, st in viol:
            print(f'  failed obligation: {k}: {o["role"]} "{o["label"]}" at line {o["line"]} ({st})')
        for l in rfails:
            print('  ' + l[:600])
        print(f'VIOLATION property={pid} replay={rp}' + ('' if rfails else ' no-failing-input-found'))
    total = sum(len(r['obs']) for r in results) + len(lem)
    okk = sum(1 for r in results for o in r['obs'] if o['res'][0] == 'unsat') + sum(1 for l in lem if l['status'] == 'unsat')
    if prog is None and rr is None:
        print('neither the proof nor the runtime validation could run: ' + '; '.join(und + notes))
        code = 2
    evidence(pid, mod, results, lem, bounded, und, notes, rr, total, okk, nviol, specs, phash)
    print(f'{pid}: {okk}/{total} obligations discharged over {len(results)} functions, '
          f'{rr["runs"] if rr else 0} runtime validations, {len(und)} undecided, {time.time() - T0:.0f} s')
    for u in und:
        print('  undecided: ' + u[:400])
    for u in notes:
        print('  note: ' + u[:600])
    return code


def evidence(pid, mod, results, lem, bounded, und, notes, rr, total, okk, nviol, specs, phash):
    be = {}
    for r in results:
        for o in r['obs']:
            if o['res'][0] == 'unsat':
                be[o['res'][1]] = be.get(o['res'][1], 0) + 1
    for l in lem:
        be[l['backend']] = be.get(l['backend'], 0) + 1
    solver_s = sum(o['res'][2] for r in results for o in r['obs']) + sum(l['s'] for l in lem)
    fn = []
    for r in results:
        done = not r['undecided'] and r['obs'] is not None and all(o['res'][0] == 'unsat' for o in r['obs']) and r['returns']
        fn.append({'function': r['key'], 'at': r['loc'].replace(REPO + '/', ''), 'obligations': len(r['obs']),
                   'discharged': sum(1 for o in r['obs'] if o['res'][0] == 'unsat'), 'paths': r['paths'],
                   'proved': bool(done), 'undecided': r['undecided'], 'precondition_satisfiable': r['cover'],
                   'calls_by_contract': r['contracts'], 'inlined': r['inlined']})
    trusted = sorted({t for r in results for t in r['trusted']} | {k for k, s in specs.items() if s.trusted})
    tb = ['clang 18 front end and /verif/tool/extract.cpp (AST extraction)', '/verif/vc (obligation generator)', 'z3 5.3.2, cvc5 1.1.2',
          'models of the C++ standard library in /verif/vc/stdlib.py'] + [f'assumed interface/contract: {t}' for t in trusted]
    ass = ['double arithmetic is treated as exact real arithmetic with explicit NaN/infinity kinds; sin, cos, exp, sqrt, atan2 are uninterpreted with instance axioms',
           'distinct reference parameters do not alias', 'allocation does not fail'] + list(getattr(mod, 'ASSUMPTIONS', []))
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': getattr(mod, 'LEVEL', 'proof'),
          'coverage': {'obligations': total, 'discharged': okk, 'checker_cmd': f'python3-vt /verif/check.py {pid}',
                       'trusted_base': tb, 'functions_under_contract': fn, 'back_ends': be, 'solver_s': round(solver_s, 2),
                       'lemmas': lem, 'undecided': und, 'source_sha256': phash,
                       'bounded_fallback': [{'function': b['key'], 'bound': b['bounded'], 'obligations': len(b['obs']), 'undecided': b['undecided']} for b in bounded],
                       'runtime_validation (bounded, not proof)': {'runs': rr['runs'], 'cases': rr.get('cases', {})} if rr else None,
                       'samples': [f'{r["key"]}: {o["role"]} "{o["label"]}" line {o["line"]} -> {o["res"][0]} by {o["res"][1]}'
                                   for r in results for o in [x for x in r['obs'] if x['role'] == 'post'][:1]][:20],
                       'notes': notes},
          'assumptions': ass, 'wall_s': round(time.time() - T0, 2), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    if sys.argv[1] == '--snapshot':
        prog, _ = ast.extract()
        from vc.engine import Engine
        from vc.snapshot import Snapshot as S
        Engine(prog, {}, {})
        p = os.path.join(HERE, 'specs', 'snapshot.json')
        S.take(prog, p)
        d = json.load(open(p))
        d['lits'] = literals(prog)
        json.dump(d, open(p, 'w'), indent=0, sort_keys=True)
        sys.exit(0)
    sys.exit(main(sys.argv[1]))
