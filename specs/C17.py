"""Particle filter: weights, resampling, the reported particle."""
from lib import *
G = 'GmappingWorld'
PF, UR = f'ParticleFilter<{G}>::', f'UniformResamling<std::shared_ptr<{G}>>::'
PART = ('rec', G, (('Particle::_weight', D_), (f'{G}::_is_master', B_), (f'{G}::content', ('opaque', 'WorldState'))))
SREF = ('sref', G)
H, OH = f'heap("{G}")', f'oldheap("{G}")'


def create(eng, this, args):
    """A fresh particle: separate from every existing one."""
    from vc.stdlib import heap_new
    return heap_new(eng, G, eng.fresh(PART, 'particle'))


CFG = {'dyn': {G: PART, f'ParticleFactory<{G}>': 'opaque'},
       'shapes': {f'std::vector<std::shared_ptr<{G}>>': ('vec', SREF), f'std::shared_ptr<{G}>': SREF, f'const {G} *': SREF, f'{G} *': SREF,
                  f'ParticleFilter<{G}>::_particles': ('vec', SREF),
                  'WorldObservable<GridMap>::_world_pose_observers': ('vec', ('sref', 'WorldPoseObserver')), 'WorldObservable<GridMap>::_world_map_observers': ('vec', ('sref', 'WorldMapObserver<GridMap>'))},
       'heaps': [G], 'ghosts': {'draws': ('vec', rec('DR', u=D_)), 'picks': ('vec', rec('PK', i=I_))}, 'draws': 'draws',
       'abstract': {f'ParticleFactory<{G}>::create_particle()': create}}
W = lambda j, l, h=H: f'real({h}[{l}[{j}].h]._weight)'
LIVE = lambda l: f'And({l}.len >= 1, {l}.len <= 1048576, forall(lambda j: Implies(And(0 <= j, j < {l}.len), And(1 <= {l}[j].h, {l}[j].h < {H}.len))))'
NONNEG = lambda l: f'forall(lambda j: Implies(And(0 <= j, j < {l}.len), {W("j", l)} >= 0))'
SUMD = lambda f, l, w: [f'{f("0")} == 0', f'forall(lambda j: Implies(And(0 <= j, j < {l}.len), {f("j + 1")} == {f("j")} + {w}))']
SQ = lambda j: f'uf("SQ", "real", {j})'
def wsum(ns, h, l, j):
    """Total weight of the first j particles of list l in heap h."""
    arr, hs = h._v.ch['data'].ch['Particle::_weight'], l._v.ch['data'].ch['h']
    return ns.eng.uf('wsum', [arr, hs, ns.unv(j) if not isinstance(j, int) else I(j)], z3.RealSort())


def heaviest_of(ns, h, l):
    return ns.eng.uf('heaviest_of', [h._v.ch['data'].ch['Particle::_weight'], l._v.ch['data'].ch['h'], l._v.ch['len']], z3.IntSort())


CFG['spec_funcs'] = {'wsum': wsum, 'heaviest_of': heaviest_of}
CWS = lambda l, h=H: (lambda j: f'wsum({h}, {l}, {j})')
CW = CWS('particles')
A0 = 'particles'
need = S(UR + f'resampling_is_required(std::vector<std::shared_ptr<{G}>>)', modifies=[], requires=[LIVE(A0), f'exists(lambda j: And(0 <= j, j < {A0}.len, {W("j", A0)} > 0))'], defs=SUMD(SQ, A0, f'{W("j", A0)}*{W("j", A0)}'),
         ensures=[f'result == (2/{SQ("old.particles.len")} < z3.ToReal(old.particles.len))'],
         loops={0: dict(inv=[f'sq_sum == {SQ("_i")}', f'{SQ("_i")} >= 0', f'forall(lambda j: Implies(And(0 <= j, j < _i), {W("j", A0)}*{W("j", A0)} <= {SQ("_i")}))'], dec=f'{A0}.len - _i')})
D = 'heap("draws")'
HIT = lambda k, v: f'And(0 <= {v}[{k}], {v}[{k}] < {A0}.len, {CW(f"{v}[{k}]")} <= {D}[{k}].u, {D}[{k}].u < {CW(f"{v}[{k}] + 1")})'
NP = 'new_particle_inds'
res = S(UR + f'resample(std::vector<std::shared_ptr<{G}>>)', modifies=['heap:draws'], requires=[LIVE(A0), NONNEG(A0), f'{D}.len == 0', f'{CW(A0 + ".len")} == 1'], defs=SUMD(CW, A0, W("j", A0)), ghost_ret='picks',
        ensures=[f'result.len == {A0}.len', f'{D}.len == {A0}.len', f'forall(lambda k: Implies(And(0 <= k, k < {A0}.len), And(0 <= {D}[k].u, {D}[k].u < 1, {HIT("k", "result")})))',
                 f'forall(lambda k: Implies(And(0 <= k, k < {A0}.len), {W("result[k]", A0)} > 0))'],
        loops={0: dict(inv=[f'{D}.len == _i', f'And(0 <= _i, _i <= {A0}.len)', f'{NP}.len == {A0}.len', f'forall(lambda k: Implies(And(0 <= k, k < _i), And(0 <= {D}[k].u, {D}[k].u < 1, {HIT("k", NP)})))'], dec=f'{A0}.len - _i'),
               1: dict(inv=[f'total_w == {CW("_i")}', f'{CW("_i")} <= {D}[_o].u', 'And(0 <= _i, _i <= %s.len)' % A0], dec=f'{A0}.len - _i')})
P = 'this._particles'
OP = 'old.this._particles'
CW = CWS(P, OH)
TW = CW(P + '.len')
APART = lambda l: f'forall(lambda i, j: Implies(And(0 <= i, i < j, j < {l}.len), {l}[i].h != {l}[j].h))'
OTHERS = lambda n: f'forall(lambda h: Implies(And(1 <= h, h < {H}.len, forall(lambda j: Implies(And(0 <= j, j < {n}), {P}[j].h != h))), same({H}[h], {OH}[h])))'
SAMEP = f'And({P}.len == {OP}.len, {H}.len == {OH}.len, forall(lambda j: Implies(And(0 <= j, j < {P}.len), {P}[j].h == {OP}[j].h)))'
KEPT = lambda n: f'forall(lambda j: Implies(And(0 <= j, j < {n}), And({H}[{P}[j].h].content == {OH}[{P}[j].h].content, {H}[{P}[j].h]._is_master == {OH}[{P}[j].h]._is_master)))'
norm_pre = [LIVE(P), NONNEG(P), APART(P)]
POS = lambda l, h=H: f'exists(lambda j: And(0 <= j, j < {l}.len, {W("j", l, h)} > 0))'
WAS = POS(P, OH)
LENP = f'z3.ToReal({P}.len)'
NORM = [KEPT(P + '.len'), OTHERS(P + '.len'), f'{H}.len == {OH}.len', NONNEG(P), f'Implies({WAS}, And({TW} > 0, forall(lambda j: Implies(And(0 <= j, j < {P}.len), {W("j", P)}*{TW} == {W("j", P, OH)}))))',
        f'Implies(Not({WAS}), forall(lambda j: Implies(And(0 <= j, j < {P}.len), {W("j", P)}*{LENP} == 1)))', f'exists(lambda j: And(0 <= j, j < {P}.len, {W("j", P)} > 0))']
DONE = lambda w: [f'{H}.len == {OH}.len', f'forall(lambda j: Implies(And(0 <= j, j < _i), {w}))',
                  f'forall(lambda j: Implies(And(_i <= j, j < {P}.len), same({H}[{P}[j].h], {OH}[{P}[j].h])))', KEPT('_i'), OTHERS('_i')]
norm = S(PF + 'normalize_weights()', modifies=['heap:' + G], requires=norm_pre, defs=SUMD(CWS(P), P, W('j', P)),
         ensures=NORM, derived=[f'{CWS(P)(P + ".len")} == 1'],
         loops={0: dict(inv=[f'total_weight == {CW("_i")}', f'forall(lambda j: Implies(And(0 <= j, j < _i), {W("j", P)} <= {CW("_i")}))', f'{CW("_i")} >= 0',
                             f'Or({CW("_i")} == 0, exists(lambda j: And(0 <= j, j < _i, {W("j", P)} > 0)))'], dec=f'{P}.len - _i'),
                1: dict(inv=DONE(f'{W("j", P)}*{LENP} == 1'), dec=f'{P}.len - _i'),
                2: dict(inv=DONE(f'{W("j", P)}*{TW} == {W("j", P, OH)}'), dec=f'{P}.len - _i')})
SPECS = [need, res, norm]
best = S(PF + 'heaviest_particle() const', modifies=[], requires=[LIVE(P)],
         derived=[f'result_h == heaviest_of({H}, {P})'],  # a const function of the weights and the list: it draws and writes nothing
         ret_heap=G, ensures=[f'exists(lambda j: And(0 <= j, j < {P}.len, result_h == {P}[j].h))', f'forall(lambda j: Implies(And(0 <= j, j < {P}.len), {W("j", P)} <= real(result._weight)))'],
         loops={0: dict(inv=['Implies(_i == 0, heaviest.h == 0)', f'Implies(_i > 0, exists(lambda j: And(0 <= j, j < _i, heaviest.h == {P}[j].h)))',
                             f'Implies(_i > 0, forall(lambda j: Implies(And(0 <= j, j < _i), {W("j", P)} <= real({H}[heaviest.h]._weight))))'], dec=f'{P}.len - _i')})
bestm = S(PF + 'heaviest_particle()', modifies=[], requires=[LIVE(P)], ret_heap=G, ensures=best.ensures)
FRESH = lambda n: f'forall(lambda j: Implies(And(0 <= j, j < {n}), And({OH}.len <= {P}[j].h, {P}[j].h < {H}.len, {W("j", P)}*z3.ToReal(n) == 1)))'
OLDH = f'forall(lambda h: Implies(And(1 <= h, h < {OH}.len), same({H}[h], {OH}[h])))'
ctor = S(PF + f'#ctor(std::shared_ptr<ParticleFactory<{G}>>, unsigned int)', requires=['And(1 <= n, n <= 1048576)'], modifies=['heap:' + G],
         ensures=[f'{P}.len == n', f'{H}.len == {OH}.len + n', FRESH('n'), APART(P), OLDH], loops={0: dict(inv=[f'{P}.len == _i', 'And(0 <= _i, _i <= n)', FRESH('_i'), APART(P), f'{H}.len == {OH}.len + _i', OLDH], dec='n - _i')})
# ---- resampling a filter
PK = 'heap("picks")'
SAMPLED = lambda x: f'uf("sampled", "WorldState", {x})'
SMP = S(G + '::sample()', trusted=True, modifies=['this'], ensures=['real(this._weight) == real(old.this._weight)', 'Not(this._is_master)', 'this.content == sampled(old.this.content)'])
CFG['spec_funcs']['sampled'] = lambda ns, c: ns.eng.uf('sampled', [c], c.sort())
SPECS += [best, bestm, ctor]
DESC = lambda k, nn: (f'If(forall(lambda m: Implies(And(0 <= m, m < {k}), {PK}[m].i != {PK}[{k}].i)), {nn}[{k}].h == {OP}[{PK}[{k}].i].h, '
                      f'And({OH}.len <= {nn}[{k}].h, {H}[{nn}[{k}].h].content == sampled({OH}[{OP}[{PK}[{k}].i].h].content), Not({H}[{nn}[{k}].h]._is_master)))')
KEEPC = f'forall(lambda h: Implies(And(1 <= h, h < {OH}.len), And({H}[h].content == {OH}[h].content, {H}[h]._is_master == {OH}[h]._is_master)))'
NN = 'new_particles'
pre_rs = [LIVE(P), NONNEG(P), APART(P), POS(P), f'{CWS(P)(P + ".len")} == 1', f'{D}.len == 0']
BELOW = lambda n, nn: f'forall(lambda j: Implies(And(0 <= j, j < {n}), And(1 <= {nn}[j].h, {nn}[j].h < {H}.len)))'
DIST = lambda n, nn: f'forall(lambda i, j: Implies(And(0 <= i, i < j, j < {n}), {nn}[i].h != {nn}[j].h))'
PKOK = f'And({PK}.len == {OP}.len, forall(lambda k: Implies(And(0 <= k, k < {PK}.len), And(0 <= {PK}[k].i, {PK}[k].i < {OP}.len, {W(PK + "[k].i", OP, OH)} > 0))))'.replace(f'[{PK}[k].i.h]', f'[{PK}[k].i].h')
SEEN = lambda n: f'forall(lambda v: new_part_inds[v] == exists(lambda m: And(0 <= m, m < {n}, {PK}[m].i == v)))'
RW = lambda k, nn: f'{W(k, nn)} == real({OH}[{OP}[{PK}[{k}].i].h]._weight)'
rs = S(PF + 'try_resample()', requires=pre_rs, modifies=['this._particles', 'heap:' + G, 'heap:picks', 'heap:draws'],
       ensures=[f'Implies(Not(result), And({SAMEP}, forall(lambda h: Implies(And(1 <= h, h < {H}.len), same({H}[h], {OH}[h])))))',
                f'{P}.len == {OP}.len', f'Implies(result, {BELOW(P + ".len", P)})', f'Implies(result, {DIST(P + ".len", P)})',
                f'Implies(result, forall(lambda k: Implies(And(0 <= k, k < {P}.len), {DESC("k", P)})))', KEEPC, NONNEG(P), f'{CWS(P)(P + ".len")} == 1', POS(P), LIVE(P), APART(P)],
       loops={0: dict(inv=[PKOK, f'{NN}.len == _i', 'And(0 <= _i, _i <= %s.len)' % PK, BELOW('_i', NN), DIST('_i', NN), f'forall(lambda k: Implies(And(0 <= k, k < _i), And({DESC("k", NN)}, {RW("k", NN)})))',
                           f'forall(lambda v: new_part_inds[v] == exists(lambda m: And(0 <= m, m < _i, {PK}[m].i == v)))',
                           f'forall(lambda h: Implies(And(1 <= h, h < {OH}.len), same({H}[h], {OH}[h])))', f'{H}.len >= {OH}.len',
                           f'forall(lambda k: Implies(And(0 <= k, k < _i, {NN}[k].h < {OH}.len), And({NN}[k].h == {OP}[{PK}[k].i].h, forall(lambda m: Implies(And(0 <= m, m < k), {PK}[m].i != {PK}[k].i)))))'],
                      dec=f'{PK}.len - _i')})
SPECS += [SMP, rs]
# ---- the gmapping filter: every particle is driven alike
GF = 'GmappingParticleFilter::'
TR = 'this._traversed_since_last_resample'
def mk(name, *srt):
    CFG['spec_funcs'][name] = lambda ns, c, *a: ns.eng.uf(name, [c] + [l for x in a for l in ns.leaves(x)], c.sort())
mk('moved'); mk('observed'); mk('marked')
CFG['spec_funcs']['likelihood'] = lambda ns, c, *a: ns.eng.uf('likelihood', [c] + [l for x in a for l in ns.leaves(x)], z3.RealSort())
KEEPW = 'real(this._weight) == real(old.this._weight)'
SPECS += [S(G + '::update_robot_pose(const RobotPoseDelta &)', trusted=True, modifies=['this'], ensures=[KEEPW, 'this._is_master == old.this._is_master', 'this.content == moved(old.this.content, a0)']),
          S(G + '::handle_observation(TransformedLaserScan &)', trusted=True, modifies=['this'], ensures=['this._is_master == old.this._is_master', 'this.content == observed(old.this.content, a0)',
            'real(this._weight) == real(old.this._weight)*likelihood(old.this.content, a0)', 'likelihood(old.this.content, a0) >= 0']),
          S(G + '::mark_master()', trusted=True, modifies=['this'], ensures=['this._is_master', KEEPW, 'this.content == marked(old.this.content)'])]
Q = 'this._pf._particles'
OQ = 'old.' + Q
EACH = lambda n, w: f'forall(lambda j: Implies(And(0 <= j, j < {n}), {w}))'
NEW, OLD = f'{H}[{Q}[j].h]', f'{OH}[{Q}[j].h]'
OTHER = lambda n: f'forall(lambda h: Implies(And(1 <= h, h < {H}.len, forall(lambda j: Implies(And(0 <= j, j < {n}), {Q}[j].h != h))), same({H}[h], {OH}[h])))'
FIT = f'And(finite({TR}.x), finite({TR}.y), finite({TR}.theta))'
MV = f'And({NEW}.content == moved({OLD}.content, a0), real({NEW}._weight) == real({OLD}._weight), {NEW}._is_master == {OLD}._is_master)'
REST = f'forall(lambda j: Implies(And(_i <= j, j < {Q}.len), same({NEW}, {OLD})))'
up = S(GF + 'update_robot_pose(const RobotPoseDelta &)', requires=[LIVE(Q), APART(Q), FIT], modifies=['heap:' + G, TR],
       ensures=[EACH(Q + '.len', MV), f'{H}.len == {OH}.len', OTHER(Q + '.len'), f'And(real({TR}.x) == real(old.{TR}.x) + absr(real(a0.x)), real({TR}.y) == real(old.{TR}.y) + absr(real(a0.y)), real({TR}.theta) == real(old.{TR}.theta) + absr(real(a0.theta)))'],
       loops={0: dict(inv=[EACH('_i', MV), REST, f'{H}.len == {OH}.len', OTHER('_i')], dec=f'{Q}.len - _i')})
MASTER = f'exists(lambda j: And(0 <= j, j < {Q}.len, {NEW}._is_master))'
em = S(GF + 'ensure_master_exists()', requires=[LIVE(Q), APART(Q)], modifies=['heap:' + G],
       ensures=[MASTER, f'{H}.len == {OH}.len', f'wsum({H}, {Q}, {Q}.len) == wsum({OH}, {Q}, {Q}.len)', EACH(Q + '.len', f'real({NEW}._weight) == real({OLD}._weight)'), OTHER(Q + '.len'),
                f'Implies(exists(lambda j: And(0 <= j, j < {Q}.len, {OLD}._is_master)), {EACH(Q + ".len", f"same({NEW}, {OLD})")})',
                EACH(Q + '.len', f'Or(same({NEW}, {OLD}), And({NEW}._is_master, {EACH(Q + ".len", f"real({OH}[{Q}[k].h]._weight) <= real({OLD}._weight)").replace("lambda j:", "lambda k:").replace("0 <= j, j <", "0 <= k, k <")}))')])
pre_f = [x.replace(P, Q) for x in pre_rs] + [FIT]
DUE = f'Or(real(old.{TR}.x)*real(old.{TR}.x) + real(old.{TR}.y)*real(old.{TR}.y) > R("1/2"), real(old.{TR}.theta) > R("1/5"))'
rsf = S(GF + 'try_resample()', requires=pre_f, modifies=['heap:' + G, TR, Q, 'heap:picks', 'heap:draws'],
        ensures=[x.replace(P, Q) for x in (NONNEG(P), f'{CWS(P)(P + ".len")} == 1', POS(P), LIVE(P), APART(P))] + [f'Implies(result, And({DUE}, real({TR}.x) == 0, real({TR}.y) == 0, real({TR}.theta) == 0))', f'Implies(result, {MASTER})', f'{Q}.len == {OQ}.len',
                 f'Implies(Not(result), And(same({TR}, old.{TR}), {EACH(Q + ".len", f"{Q}[j].h == {OQ}[j].h")}, forall(lambda h: Implies(And(1 <= h, h < {H}.len), same({H}[h], {OH}[h])))))'])
OB = f'And({NEW}.content == observed({OLD}.content, a0), real({NEW}._weight) == real({OLD}._weight)*likelihood({OLD}.content, a0), {NEW}._is_master == {OLD}._is_master, real({NEW}._weight) >= 0)'
hof = S(GF + 'handle_observation(TransformedLaserScan &)', requires=[LIVE(Q), NONNEG(Q), APART(Q), FIT, f'{D}.len == 0'], modifies=['heap:' + G, TR, Q, 'heap:picks', 'heap:draws'],
        ensures=[NONNEG(Q), f'wsum({H}, {Q}, {Q}.len) == 1', LIVE(Q), APART(Q), f'{Q}.len == {OQ}.len',
                 f'Or(real({TR}.x) == 0, And(same({TR}, old.{TR}), {EACH(Q + ".len", f"And({Q}[j].h == {OQ}[j].h, {NEW}.content == observed({OLD}.content, a0))")}))'],
        loops={0: dict(inv=[EACH('_i', OB), REST, f'{H}.len == {OH}.len', OTHER('_i')], dec=f'{Q}.len - _i')})
SPECS += [up, em, rsf, hof]
# a whole step: odometry, observation, then the observers are told the pose and the map of the reported particle
WT = 'World<TransformedLaserScan, GridMap>::'
MAPT = ('opaque', 'GridMap')


def pose_of(eng, this, args):
    c = eng.rv(this).ch[f'{G}::content']
    return eng.alloc(Node('rec', 'RobotPose', {f'RobotPose::{x}': eng.uf(f'pose_{x}_of', [c], z3.RealSort()) for x in XYZ}), 'pose_of')


def map_of(eng, this, args):
    return eng.alloc(eng.uf('map_of', [eng.rv(this).ch[f'{G}::content']], z3.DeclareSort('GridMap')), 'map_of')


def tell_pose(eng, this, args):
    log(eng, 'told_pose', **pose_parts(eng, args[0]))


def tell_map(eng, this, args):
    log(eng, 'told_map', m=eng.rv(args[0]))


XYZ = ('x', 'y', 'theta')
SCFG = dict(CFG, dyn=dict(CFG['dyn'], GridMap='opaque'), abstract=dict(CFG['abstract'], **{WT + 'pose() const': pose_of, 'SingleStateHypothesisLaserScanGridWorld::map() const': map_of,
       'WorldObservable<GridMap>::notify_with_pose(const RobotPose &)': tell_pose, 'WorldObservable<GridMap>::notify_with_map(const GridMap &)': tell_map}),
       ghosts=dict(CFG['ghosts'], told_pose=('vec', rec('TP', x=D_, y=D_, theta=D_)), told_map=('vec', rec('TM', m=MAPT))))
SCFG['spec_funcs'] = CFG['spec_funcs']
CFG['spec_funcs']['pose_of'] = lambda ns, c, x: ns.eng.uf(f'pose_{x}_of', [c], z3.RealSort())
CFG['spec_funcs']['map_of'] = lambda ns, c: ns.eng.uf('map_of', [c], z3.DeclareSort('GridMap'))
TP, TM = 'heap("told_pose")', 'heap("told_map")'
TOLD = ('And(' + f'{TP}.len == 1, {TM}.len == 1, exists(lambda j: And(0 <= j, j < {Q}.len, ' + ', '.join(f'real({TP}[0].{x}) == pose_of({NEW}.content, "{x}")' for x in XYZ) +
        f', {TM}[0].m == map_of({NEW}.content), forall(lambda i: Implies(And(0 <= i, i < {Q}.len), real({H}[{Q}[i].h]._weight) <= real({NEW}._weight))))))')
hsd = S(GF + 'handle_sensor_data(TransformedLaserScan &)', inst='step', cfg=SCFG, requires=[LIVE(Q), NONNEG(Q), APART(Q), FIT, f'{D}.len == 0', f'{TP}.len == 0', f'{TM}.len == 0'],
        modifies=['heap:' + G, TR, Q, 'heap:picks', 'heap:draws', 'heap:told_pose', 'heap:told_map'],
        ensures=[TOLD, f'Or(real({TR}.x) == 0, And({EACH(Q + ".len", f"And({Q}[j].h == {OQ}[j].h, {NEW}.content == observed(moved({OLD}.content, old.a0.pose_delta), old.a0))")}))',
                 f'wsum({H}, {Q}, {Q}.len) == 1', f'{Q}.len == {OQ}.len'])
SPECS += [hsd]
gctor = S(GF + '#ctor(const SingleStateHypothesisLSGWProperties &, const GMappingParams &, unsigned int)', requires=['And(1 <= n, n <= 1048576)'], modifies=['heap:' + G],
          ensures=[MASTER, f'{Q}.len == n', EACH('n', f'{W("j", Q)}*z3.ToReal(n) == 1'), APART(Q), OLDH],
          loops={0: dict(inv=[f'{H}.len == {OH}.len + n', f'{Q}.len == n', FRESH('n').replace(P, Q), APART(Q), OLDH.replace('same', 'same')], dec='n - _i')})
SPECS += [gctor]
# ---- the particles themselves
import C16
M = 'UnboundedLazyTiledGridMap'
RV = [f'RobotPoseDeltaRV<{x}>' for x in ('std::mersenne_twister_engine<unsigned long, 32, 624, 397, 31, 2567483615, 11, 4294967295, 7, 2636928640, 15, 4022730752, 18, 1812433253>',)]
MREF = ('sref', 'GridMap')
RCFG = {'dyn': dict(C16.CFG['dyn'], **{G: None}, **{r: 'opaque' for r in RV}), 'abstract': dict(MAPCFG['abstract']),
        'shapes': {'std::shared_ptr<GridMap>': MREF, f'std::shared_ptr<{M}>': MREF}, 'heaps': ['GridMap'], 'ghosts': {}, 'draws': None,
        'spec_funcs': dict(C16.SF), 'make_shared': {M: lambda eng, a: eng.rv(a[0])}}
CFG['spec_funcs'].update(C16.SF)
SPECS += [s for s in C16.SPECS if s.key.startswith('RobotPose') and s.contract]
for s in SPECS[-40:]:
    if s.key.startswith('RobotPose'):
        s.noverify = True
MAPH, OMAPH = 'heap("GridMap")', 'oldheap("GridMap")'
XYT = ('x', 'y', 'theta')
SPECS += [S(RV[0] + '::sample(std::mersenne_twister_engine<' + RV[0].split('<', 2)[2][:-1] + ' &)', trusted=True, modifies=['a0'], ensures=[f'eq(result.{c}, uf("noise_{c}", "real", old.this, old.a0))' for c in XYT]),
          S('GridScanMatcher::' + C16.PS, trusted=True, modifies=['this', 'a3'], ret=lambda eng: ('dblx',),
            ensures=[f'eq(a3.{c}, uf("corr_{c}", "real", old.this, old.a0, old.a1, content(old.a2)))' for c in XYT] +
                    ['isnan(result) == uf("lost", "bool", old.this, old.a0, old.a1, content(old.a2))', 'Implies(Not(isnan(result)), And(finite(result), real(result) >= 0, real(result) == uf("fit", "real", old.this, old.a0, old.a1, content(old.a2))))']),
          C16.ADD]
TH = 'real(old.this._pose.theta) - real(old.this._raw_odom_pose.theta)'
CORR = [f'cos({TH})*real(a0.x) - sin({TH})*real(a0.y)', f'sin({TH})*real(a0.x) + cos({TH})*real(a0.y)', 'real(a0.theta)']
FP = [fin('this._pose') for fin in [lambda o: f'And(finite({o}.x), finite({o}.y), finite({o}.theta))']] + [f'And(finite(this.{o}.x), finite(this.{o}.y), finite(this.{o}.theta))' for o in ('_raw_odom_pose', '_delta_since_last_sm', '_next_sm_delta')] + ['finite(this._weight)', f'And(1 <= this._map.h, this._map.h < {MAPH}.len)']
gup = S(G + '::update_robot_pose(const RobotPoseDelta &)', inst='real', cfg=RCFG, requires=FP, modifies=['this._pose', 'this._raw_odom_pose', 'this._delta_since_last_sm'],
        ensures=['And(' + ', '.join(f'real(this._pose.{c}) == real(old.this._pose.{c}) + {v}' for c, v in zip(XYT, CORR)) + ')',
                 'And(' + ', '.join(f'real(this._raw_odom_pose.{c}) == real(old.this._raw_odom_pose.{c}) + real(a0.{c})' for c in XYT) + ')',
                 'And(' + ', '.join(f'real(this._delta_since_last_sm.{c}) == real(old.this._delta_since_last_sm.{c}) + absr({v})' for c, v in zip(XYT, CORR)) + ')'])
gmm = S(G + '::mark_master()', inst='real', cfg=RCFG, requires=FP, modifies=['this._is_master', 'this._pose_guess_rv', 'this._next_sm_delta_rv'], ensures=['this._is_master'])
ISA = f'uf("is_a_{M}", "bool", old.this._map.h)'
gsm = S(G + '::sample()', inst='real', cfg=RCFG, requires=FP, modifies=['this._is_master', 'this._map', 'this._rnd_engine', 'heap:GridMap'],
        ensures=['Not(this._is_master)', f'forall(lambda h: Implies(And(1 <= h, h < {OMAPH}.len), same({MAPH}[h], {OMAPH}[h])))', f'same({MAPH}[this._map.h], {OMAPH}[old.this._map.h])',
                 f'If({ISA}, this._map.h >= {OMAPH}.len, this._map.h == old.this._map.h)'])
SKIP = 'And(real(old.this._delta_since_last_sm.x)*real(old.this._delta_since_last_sm.x) + real(old.this._delta_since_last_sm.y)*real(old.this._delta_since_last_sm.y) < real(old.this._next_sm_delta.x)*real(old.this._next_sm_delta.x) + real(old.this._next_sm_delta.y)*real(old.this._next_sm_delta.y), absr(real(old.this._delta_since_last_sm.theta)) < real(old.this._next_sm_delta.theta))'
FIRST = 'old.this._scan_is_first'
OMAP, NMAP = f'{OMAPH}[old.this._map.h]', f'{MAPH}[this._map.h]'
START = [f'If({FIRST}, real(old.this._pose.{c}), real(old.this._pose.{c}) + uf("noise_{c}", "real", old.this._pose_guess_rv, old.this._rnd_engine))' for c in XYT]
ARGS = f'old.this._props.gsm, old.a0, {", ".join(START)}, content({OMAP})'
LOST, FITS = f'uf("lost", "bool", {ARGS})', f'uf("fit", "real", {ARGS})'
MAPS = f'Or({FIRST}, And(Not({LOST}), {FITS} > 0))'
gho = S(G + '::handle_observation(TransformedLaserScan &)', inst='real', cfg=RCFG, requires=FP,
        modifies=['this._pose', 'this._weight', 'this._scan_is_first', 'this._rnd_engine', 'this._delta_since_last_sm', 'this._next_sm_delta', 'this._props.gsm.*', 'heap:GridMap', 'this._pose_guess_rv', 'this._next_sm_delta_rv'],
        ensures=[f'Implies({SKIP}, And(same(this._pose, old.this._pose), real(this._weight) == real(old.this._weight), this._scan_is_first == {FIRST}, same({NMAP}, {OMAP}), same(this._delta_since_last_sm, old.this._delta_since_last_sm)))',
                 f'Implies(Not({SKIP}), And(' + ', '.join(f'real(this._pose.{c}) == {p} + uf("corr_{c}", "real", {ARGS})' for c, p in zip(XYT, START)) + '))',
                 f'Implies(Not({SKIP}), real(this._weight) == If(Or({FIRST}, {LOST}), real(old.this._weight), real(old.this._weight)*{FITS}))',
                 f'Implies(And(Not({SKIP}), {MAPS}), content({NMAP}) == added({OMAP}, old.this._props.gmsa, this._pose, old.a0.scan, old.a0.quality, R("0")))',
                 f'Implies(And(Not({SKIP}), Not({MAPS})), same({NMAP}, {OMAP}))', f'{MAPH}.len == {OMAPH}.len', f'forall(lambda h: Implies(And(1 <= h, h < {MAPH}.len, h != this._map.h), same({MAPH}[h], {OMAPH}[h])))',
                 f'this._scan_is_first == And({FIRST}, {SKIP})', f'Implies(Not({SKIP}), And(real(this._delta_since_last_sm.x) == 0, real(this._delta_since_last_sm.y) == 0, real(this._delta_since_last_sm.theta) == 0))',
                 'Implies(real(old.this._weight) >= 0, real(this._weight) >= 0)'])
ZERO = lambda o: f'And(real({o}.x) == 0, real({o}.y) == 0, real({o}.theta) == 0)'
SPECS += [S(RV[0] + '::#ctor(const RobotPoseDeltaRV<std::mt19937> &)', trusted=True, ensures=['same(this, a0)'])]  # proved in C13
gwc = S(G + '::#ctor(const SingleStateHypothesisLSGWProperties &, const GMappingParams &)', inst='real', cfg=RCFG, requires=[f'And(1 <= a0.grid_map.h, a0.grid_map.h < {MAPH}.len)'],
        ensures=[ZERO('this._pose'), ZERO('this._raw_odom_pose'), ZERO('this._delta_since_last_sm'), 'Not(this._is_master)', 'this._scan_is_first', 'real(this._weight) == 1',
                 'same(this._props, a0)', 'this._map.h == a0.grid_map.h', 'same(this._pose_guess_rv, a1.pose_guess_rv)', 'same(this._next_sm_delta_rv, a1.next_sm_delta_rv)'])
gcp = S('GmappingParticleFactory::create_particle()', inst='real', cfg=dict(RCFG, shapes=dict(RCFG['shapes'], **{f'std::shared_ptr<{G}>': None})), requires=[f'And(1 <= this._shw_p.grid_map.h, this._shw_p.grid_map.h < {MAPH}.len)'],
        ensures=['same(result._props, this._shw_p)', 'same(result._pose_guess_rv, this._gprms.pose_guess_rv)', 'same(result._next_sm_delta_rv, this._gprms.next_sm_delta_rv)', 'result._scan_is_first', 'Not(result._is_master)', 'real(result._weight) == 1', ZERO('result._pose')])
SPECS += [gup, gmm, gsm, gho, gwc, gcp]


# ---- the derived total of normalize_weights, by induction over the prefix sums
def _lem(f):
    return lambda: f(*z3.Reals('s s1 w w1 t n j'))


LEMMAS = [
    ('normalized prefix sums: base', _lem(lambda s, s1, w, w1, t, n, j: z3.Implies(z3.And(s == 0, s1 == 0), s1 * t == s))),
    ('normalized prefix sums: step', _lem(lambda s, s1, w, w1, t, n, j: z3.Implies(z3.And(s1 * t == s, w1 * t == w), (s1 + w1) * t == s + w))),
    ('normalized prefix sums: total', _lem(lambda s, s1, w, w1, t, n, j: z3.Implies(z3.And(s1 * t == s, s == t, t > 0), s1 == 1))),
    ('uniform prefix sums: step', _lem(lambda s, s1, w, w1, t, n, j: z3.Implies(z3.And(s1 * n == j, w1 * n == 1), (s1 + w1) * n == j + 1))),
    ('uniform prefix sums: total', _lem(lambda s, s1, w, w1, t, n, j: z3.Implies(z3.And(s1 * n == j, j == n, n > 0), s1 == 1))),
]
ASSUMPTIONS = [
    'a particle in the filter is known by the contracts of GmappingWorld; [real] instances verify GmappingWorld itself against the same behaviour',
    "copying a particle factory's master gives particles as create_particle describes",
    'heaviest_particle, which writes and draws nothing, answers twice alike on the same particles',
    'the random draws are a ghost sequence of numbers in [0,1]; weights are finite and non-negative',
]
