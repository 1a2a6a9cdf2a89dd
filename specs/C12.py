"""The candidate loop of the scan matchers."""
from lib import *
import C16
SF = dict(C16.SF)
EST = 'ScanProbabilityEstimator::estimate_scan_probability(const LaserScan2D &, const RobotPose &, const GridMap &, const ScanProbabilityEstimator::SPEParams &) const'


def score(eng, this, args):
    leaves = []
    for a in [this] + list(args):
        leaves += eng.flat(a)
    k = eng.uf('score_kind', leaves, z3.IntSort())
    eng.assume(k == 0 if eng.cfg.get('finite_scores') else z3.Or(k == 0, k == 1))
    v = Node('dbl', None, {'r': eng.uf('score', leaves, z3.RealSort()), 'k': k})
    log(eng, 'scored', score=v, **pose_parts(eng, args[1]))
    return v


def each(eng, this, args):
    """do_for_each_observer: proved separately to call the operation for every live observer."""
    eng.call_closure(eng.rv(args[0]), [Node('ptr', Loc('heap:obs'), {})])


def told(name):
    def f(eng, this, args):
        log(eng, name, score=eng.rv(args[2]), **pose_parts(eng, args[0]))
    return f


def started(eng, this, args):
    log(eng, 'started', **pose_parts(eng, args[0]))


OB = 'GridScanMatcherObserver::'
GHOST = {'scored': ('vec', rec('G', score=DX, **POSE)), 'tested': ('vec', rec('G', score=DX, **POSE)), 'updated': ('vec', rec('G', score=DX, **POSE)),
         'ended': ('vec', rec('G', score=DX, **POSE)), 'started': ('vec', rec('G1', **POSE)), 'fed': ('vec', rec('G2', ok=B_)), 'obs': ('opaque', 'GridScanMatcherObserver')}
ABS = dict(MAPCFG['abstract'])
ABS.update({EST: score, EST.replace(', const ScanProbabilityEstimator::SPEParams &)', ')'): score, 'GridScanMatcher::do_for_each_observer(std::function<void (std::shared_ptr<GridScanMatcherObserver>)>)': each,
            OB + 'on_scan_test(const RobotPose &, const LaserScan2D &, double)': told('tested'),
            OB + 'on_pose_update(const RobotPose &, const LaserScan2D &, double)': told('updated'),
            OB + 'on_matching_end(const RobotPose &, const LaserScan2D &, double)': told('ended'),
            OB + 'on_matching_start(const RobotPose &, const TransformedLaserScan &, const GridMap &)': started})


def feedback(eng, this, args):
    log(eng, 'fed', ok=eng.rv(args[0]))
    v = eng.load(this)
    eng.store(this, eng.uf('fed', [v, eng.rv(args[0])], v.sort()))


PE = 'PoseEnumerator::'
ABS[PE + 'feedback(bool)'] = feedback
CFG = {'dyn': dict(MAPCFG['dyn'], **{c: 'opaque' for c in ('ScanProbabilityEstimator', 'GridScanMatcherObserver', 'PoseEnumerator', 'TrigonometryProvider')}),
       'shapes': {'GridScanMatcher::_observers': ('vec', ('sref', 'GridScanMatcherObserver'))},
       'abstract': ABS, 'spec_funcs': SF, 'ghosts': GHOST}
SPECS = [s for s in C16.SPECS if s.key.startswith('RobotPose') and not s.trusted]
HASN = S(PE + 'has_next() const', trusted=True, ensures=['result == uf("more", "bool", this)'])
NEXT = S(PE + 'next(const RobotPose &)', trusted=True, requires=['uf("more", "bool", this)'], modifies=['this'], ensures=['st(this, after("next", old.this))'])
REST = S(PE + 'reset()', trusted=True, modifies=['this'], ensures=['st(this, after("reset", old.this))'])
FILT = S('ScanProbabilityEstimator::filter_scan(const LaserScan2D &, const RobotPose &, const GridMap &)', trusted=True, modifies=['this'])
SPECS += [HASN, NEXT, REST, FILT]
K, T_, U, F = 'heap("scored")', 'heap("tested")', 'heap("updated")', 'heap("fed")'
eqp = lambda a, b: 'And(' + ', '.join(f'real({a}.{c}) == real({b}.{c})' for c in ('x', 'y', 'theta')) + ')'
LOGS = ['heap:' + g for g in ('scored', 'tested', 'updated', 'ended', 'started', 'fed')]
EMPTY = ['heap("%s").len == 0' % g for g in ('scored', 'tested', 'updated', 'ended', 'started', 'fed')]
le = lambda a, b: f'Implies(And(finite({a}), finite({b})), real({a}) <= real({b}))'
bad = lambda a, b: f'And(finite({a}), finite({b}), real({a}) < real({b}))'
BEST = lambda pose, sc: [
    f'Or(finite({sc}), isnan({sc}))',
    f'And({K}.len >= 1, {eqp(K + "[0]", "init_pose")})',
    f'exists(lambda j: And(0 <= j, j < {K}.len, {eqp(K + "[j]", pose)}, eq({K}[j].score, {sc})))',
    f'Implies(finite({K}[0].score), And(finite({sc}), forall(lambda j: Implies(And(0 <= j, j < {K}.len), {le(K + "[j].score", sc)}))))',
    f'And({T_}.len == {K}.len, forall(lambda j: Implies(And(0 <= j, j < {K}.len), And({eqp(K + "[j]", T_ + "[j]")}, eq({K}[j].score, {T_}[j].score)))))',
    f'And({U}.len >= 1, {eqp(U + "[0]", "init_pose")}, eq({U}[0].score, {K}[0].score))',
    f'And({eqp(U + f"[{U}.len - 1]", pose)}, eq({U}[{U}.len - 1].score, {sc}))',
    f'forall(lambda j: Implies(And(0 <= j, j + 1 < {U}.len), {bad(U + "[j].score", U + f"[{U}.len - 1].score")}))',
]
lt = lambda a, b: f'Implies(finite({a}), real({a}) < real({b}))'
FEDS = f'And({F}.len + 1 == {K}.len, forall(lambda k: Implies(And(0 <= k, k < {F}.len), {F}[k].ok == And(finite({K}[0].score), finite({K}[k+1].score), forall(lambda j: Implies(And(0 <= j, j <= k), {lt(K + "[j].score", K + "[k+1].score")}))))))'
PSP = 'process_scan(const TransformedLaserScan &, const RobotPose &, const GridMap &, RobotPoseDelta &)'
psm = S('PoseEnumerationScanMatcher::' + PSP, requires=EMPTY, modifies=['this._pose_enumerator.*', 'this._scan_prob_estimator.*', 'a3'] + LOGS,
        ensures=[x.replace('init_pose', 'old.a1') for x in BEST('(old.a1 + a3)', 'result')] + ['And(heap("started").len == 1, heap("ended").len == 1)', eqp('heap("started")[0]', 'old.a1'), eqp('heap("ended")[0]', 'a3'), 'eq(heap("ended")[0].score, result)'],
        loops={0: dict(inv=BEST('best_pose', 'best_pose_prob') + ['And(heap("started").len == 1, heap("ended").len == 0)', eqp('heap("started")[0]', 'init_pose')])})
psm.ensures = [x.replace('real((old.a1 + a3).', 'PP(real(old.a1.').replace('PP(real(old.a1.x)', '(real(old.a1.x) + real(a3.x))').replace('PP(real(old.a1.y)', '(real(old.a1.y) + real(a3.y))').replace('PP(real(old.a1.theta)', '(real(old.a1.theta) + real(a3.theta))') for x in psm.ensures]
psm.loops[0]['inv'].append(FEDS)
psm.ensures.append(FEDS)
SPECS += [psm]
# every live observer is called once, in subscription order
OBS = 'this._observers'


def opcall(eng, args):
    v = eng.rv(args[0])
    log(eng, 'calls', h=v.ch['h'])


def live(eng):
    """number of live observers among the first n: an uninterpreted prefix count"""


LIVE = ['uf("live", "int", 0) == 0', f'forall(lambda j: Implies(And(0 <= j, j < {OBS}.len), uf("live", "int", j + 1) == uf("live", "int", j) + If({OBS}[j].h == 0, 0, 1)))']
CA = 'heap("calls")'
ORD = lambda n: [f'{CA}.len == uf("live", "int", {n})', f'forall(lambda j: Implies(And(0 <= j, j < {n}, {OBS}[j].h != 0), And(0 <= uf("live", "int", j), uf("live", "int", j) < {CA}.len, {CA}[uf("live", "int", j)].h == {OBS}[j].h)))', f'And({CA}.len >= 0, {CA}.len <= {n})']
dfe = S('GridScanMatcher::do_for_each_observer(std::function<void (std::shared_ptr<GridScanMatcherObserver>)>)', cls='PoseEnumerationScanMatcher',
        cfg={'shapes': {'GridScanMatcher::_observers': ('vec', ('sref', 'GridScanMatcherObserver')), 'param:op': ('fn', Node('clo', ('py', opcall), {})), 'param:a0': ('fn', Node('clo', ('py', opcall), {}))},
             'ghosts': {'calls': ('vec', rec('GC', h=I_))}, 'heaps': ['GridScanMatcherObserver']},
        requires=[f'{CA}.len == 0'] + LIVE, ensures=ORD(f'{OBS}.len'), modifies=['heap:calls'], loops={0: dict(inv=ORD('_i'), dec=f'{OBS}.len - _i')})
SUBC = {'shapes': {'std::vector<std::weak_ptr<GridScanMatcherObserver>>': ('vec', ('sref', 'GridScanMatcherObserver')), 'GridScanMatcher::_observers': ('vec', ('sref', 'GridScanMatcherObserver')), 'param:obs': ('sref', 'GridScanMatcherObserver')}, 'ghosts': {}, 'heaps': ['GridScanMatcherObserver']}
sub = S('GridScanMatcher::subscribe(std::shared_ptr<GridScanMatcherObserver>)', cls='PoseEnumerationScanMatcher', cfg=SUBC, modifies=[OBS],
        ensures=[f'And({OBS}.len == old.{OBS}.len + 1, {OBS}[old.{OBS}.len].h == a0.h)', f'forall(lambda j: Implies(And(0 <= j, j < old.{OBS}.len), {OBS}[j].h == old.{OBS}[j].h))'])
NO = 'new_observers'
unsub = S('GridScanMatcher::unsubscribe(std::shared_ptr<GridScanMatcherObserver>)', cls='PoseEnumerationScanMatcher', cfg=SUBC, modifies=[OBS], requires=['a0.h != 0'],
          ensures=[f'forall(lambda j: Implies(And(0 <= j, j < {OBS}.len), And({OBS}[j].h != 0, {OBS}[j].h != a0.h)))',
                   f'forall(lambda j: Implies(And(0 <= j, j < old.{OBS}.len, old.{OBS}[j].h != 0, old.{OBS}[j].h != a0.h), exists(lambda k: And(0 <= k, k < {OBS}.len, {OBS}[k].h == old.{OBS}[j].h))))'],
          loops={0: dict(inv=[f'And({NO}.len >= 0, {NO}.len <= _i)', f'forall(lambda j: Implies(And(0 <= j, j < {NO}.len), And({NO}[j].h != 0, {NO}[j].h != a0.h)))',
                              f'forall(lambda j: Implies(And(0 <= j, j < _i, {OBS}[j].h != 0, {OBS}[j].h != a0.h), exists(lambda k: And(0 <= k, k < {NO}.len, {NO}[k].h == {OBS}[j].h))))'], dec=f'{OBS}.len - _i')})
SPECS += [dfe, sub, unsub]
# no action
NA = S('NoActionScanMatcher::' + PSP, modifies=['a3'], ensures=['And(real(a3.x) == 0, real(a3.y) == 0, real(a3.theta) == 0, real(result) == 1)'])
# the self-made hill climbing
SH = lambda P, st: f'And(real({P}.x) == real(current_pose.x) + If(mod(next_action, 3) == 0, If(mod(next_action, 2) == 0, {st}, -{st}), R("0")), real({P}.y) == real(current_pose.y) + If(mod(next_action, 3) == 1, If(mod(next_action, 2) == 0, {st}, -{st}), R("0")), real({P}.theta) == real(current_pose.theta) + If(mod(next_action, 3) == 2, If(mod(next_action, 2) == 0, {st}, -{st}), R("0")))'
ATT = f'exists(lambda j: And(0 <= j, j < {K}.len, {eqp(K + "[j]", "best_pose")}, eq({K}[j].score, best_pose_prob)))'
OUT = [f'And({K}.len >= 1, {eqp(K + "[0]", "init_pose")}, finite({K}[0].score), finite(best_pose_prob), real(best_pose_prob) >= real({K}[0].score))', ATT]
DIR = f'And(finite(best_diff), finite(d_d), 0 <= next_action, next_action < 6, Or(And(real(best_diff) == 1, real(d_d) == 0), And(real(d_d) == If(mod(next_action, 3) == 2, real(d_o), real(d_t)), real(best_diff) < 1, exists(lambda j: And(0 <= j, j < {K}.len, {SH(K + "[j]", "real(d_d)")}, finite({K}[j].score), real(best_diff) == real(best_pose_prob) - real({K}[j].score))))))'
hc = S('HillClimbingSMFixed::' + PSP, cfg={'finite_scores': True}, requires=EMPTY, modifies=['this._max_step_shrinks', 'this._scan_prob_estimator.*', 'a3', 'heap:scored'],
       ensures=['finite(result)', f'And({K}.len >= 1, {eqp(K + "[0]", "old.a1")}, real(result) >= real({K}[0].score))',
                f'exists(lambda j: And(0 <= j, j < {K}.len, ' + ', '.join(f'real({K}[j].{c}) == real(old.a1.{c}) + real(a3.{c})' for c in ('x', 'y', 'theta')) + f', eq({K}[j].score, result)))'],
       loops={0: dict(inv=OUT), 1: dict(inv=OUT + ['And(0 <= action, action <= 6)', DIR, eqp('current_pose', 'best_pose')], dec='6 - action'),
              2: dict(inv=OUT + [DIR, eqp('current_pose', 'best_pose'), 'finite(r)', 'Or(' + ', '.join(f'real(r) == {f}*real(d_d)' for f in (16, 8, 4, 2, 1)) + ')'])})
PREP = S('HillClimbingScanMatcher::prepare_lookup(const LaserScan2D &)', trusted=True, modifies=['this._pose_enumerator.*'])
hcs = S('HillClimbingScanMatcher::' + PSP, requires=EMPTY, modifies=psm.modifies, ensures=psm.ensures)
SPECS += [PREP, hcs]
SPECS += [NA, hc]
REFUTER_FLAGS = ['-U_GLIBCXX_ASSERTIONS']   # GaussianPoseEnumerator creates normal distributions of deviation zero
ASSUMPTIONS = [
    'the candidate generator is known by the PoseEnumerator interface (has_next, next, reset; the implementations are under contract in C13)',
    'the score of a pose is an uninterpreted function of scan, pose and map (C08)',
    'observers are a ghost log: what they are told is recorded in order',
    'filter_scan returns a scan (its contents are C08)',
]
