"""Pose enumerations: coverage, termination, restart."""
import re
from lib import *
import C16
SPECS = [s for s in C16.SPECS if s.key.startswith('RobotPose') and not s.trusted]
MT = 'std::mersenne_twister_engine<unsigned long, 32, 624, 397, 31, 2567483615, 11, 4294967295, 7, 2636928640, 15, 4022730752, 18, 1812433253>'
CFG = {'spec_funcs': {}, 'dyn': {f'RandomVariable1D<{MT}>': f'GaussianRV1D<{MT}>'}}
eqp = lambda a, b: 'And(' + ', '.join(f'real({a}.{c}) == real({b}.{c})' for c in ('x', 'y', 'theta')) + ')'

# ---- exhaustive enumeration over x, y, theta ---------------------------------------
B = 'BruteForcePoseEnumerator::'
r = lambda f: f'real(this._{f})'
RNG = 'And(' + ', '.join(f'{r("from_" + c)} <= {r("to_" + c)}, {r("step_" + c)} > 0' for c in 'xyt') + ')'
START = 'And(' + ', '.join(f'same(this._{c}, this._from_{c})' for c in 'xyt') + ', Not(this._base_pose_is_set))'
# gi, gj, gk: the grid indices of the current candidate, NX, NY: the last index along x and y
g = lambda n, i=0: f'uf("{n}", "int", {i})'
LAST = lambda c, N: f'And({g(N)} >= 0, {r("from_" + c)} + ({g(N)} - 1)*{r("step_" + c)} < {r("to_" + c)}, {r("to_" + c)} <= {r("from_" + c)} + {g(N)}*{r("step_" + c)})'
AT = lambda o, i, j, k: 'And(' + ', '.join(f'real({o}._{c}) == real({o}._from_{c}) + ({n})*real({o}._step_{c})' for c, n in (('x', i), ('y', j), ('t', k))) + ')'
GRID = [RNG, LAST('x', 'NX'), LAST('y', 'NY'), f'And(0 <= {g("gi")}, {g("gi")} <= {g("NX")}, 0 <= {g("gj")}, {g("gj")} <= {g("NY")}, 0 <= {g("gk")})', AT('this', g('gi'), g('gj'), g('gk'))]
NUM = lambda i, j, k: f'({i}) + ({g("NX")} + 1)*(({j}) + ({g("NY")} + 1)*({k}))'
bctor = S(B + '#ctor(double, double, double, double, double, double, double, double, double)', requires=['And(real(a0) <= real(a1), real(a3) <= real(a4), real(a6) <= real(a7))'],
          ensures=[START] + [f'And(same(this._from_{c}, a{3*i}), same(this._to_{c}, a{3*i+1}), same(this._step_{c}, a{3*i+2}))' for i, c in enumerate('xyt')])
breset = S(B + 'reset()', modifies=['this._base_pose_is_set', 'this._x', 'this._y', 'this._t'], ensures=[START])
bhas = S(B + 'has_next() const', ensures=['result == (real(this._t) <= real(this._to_t))'])
bnext = S(B + 'next(const RobotPose &)', modifies=['this._base_pose', 'this._base_pose_is_set'],
          ensures=['this._base_pose_is_set', f'If(old.this._base_pose_is_set, {eqp("this._base_pose", "old.this._base_pose")}, {eqp("this._base_pose", "old.a0")})',
                   'And(real(result.x) == real(this._base_pose.x) + real(this._x), real(result.y) == real(this._base_pose.y) + real(this._y), real(result.theta) == real(this._base_pose.theta) + real(this._t))'])
STEP = [(f'{g("gi")} < {g("NX")}', (g('gi') + ' + 1', g('gj'), g('gk'))), (f'{g("gj")} < {g("NY")}', ('0', g('gj') + ' + 1', g('gk'))), (None, ('0', '0', g('gk') + ' + 1'))]
CASES = [('Not(And(%s))' % ', '.join(c for c, _ in STEP[:n]) if False else 'And(' + ', '.join([f'Not({c})' for c, _ in STEP[:n]] + ([STEP[n][0]] if STEP[n][0] else [])) + ')', STEP[n][1]) for n in range(3)]
mono = [f'Implies({g(G)} < {g(N)}, ({g(G)} - {g(N)} + 1)*{r("step_" + c)} <= 0)' for G, N, c in (('gi', 'NX', 'x'), ('gj', 'NY', 'y'))]
bfeed = S(B + 'feedback(bool)', requires=GRID, modifies=['this._x', 'this._y', 'this._t'], entry_hints=mono,
          ensures=[f'Implies({c}, {AT("this", *s)})' for c, s in CASES] + [f'Implies({c}, {NUM(*s)} == {NUM(g("gi"), g("gj"), g("gk"))} + 1)' for c, s in CASES] +
          [f'Implies({c}, And(0 <= {s[0]}, {s[0]} <= {g("NX")}, 0 <= {s[1]}, {s[1]} <= {g("NY")}, 0 <= {s[2]}))' for c, s in CASES])
SPECS += [bctor, breset, bhas, bnext, bfeed]

# ---- exhaustive enumeration in polar coordinates -------------------------------------
Q = 'PolarCoordBruteForcePoseEnumerator::'
PD = ('dir', 'dst')
PRNG = 'And(' + ', '.join(f'{r("from_" + c)} <= {r("to_" + c)}, {r("step_" + c)} > 0' for c in PD) + ')'
PSTART = 'And(' + ', '.join(f'same(this._{c}, this._from_{c})' for c in PD) + ', Not(this._base_pose_is_set))'
PAT = lambda i, j: 'And(' + ', '.join(f'real(this._{c}) == real(this._from_{c}) + ({n})*real(this._step_{c})' for c, n in (('dir', i), ('dst', j))) + ')'
PGRID = [PRNG, LAST('dir', 'NX'), f'And(0 <= {g("gi")}, {g("gi")} <= {g("NX")}, 0 <= {g("gj")})', PAT(g('gi'), g('gj'))]
PNUM = lambda i, j: f'({i}) + ({g("NX")} + 1)*({j})'
PC = [(f'{g("gi")} < {g("NX")}', (g('gi') + ' + 1', g('gj'))), (f'Not({g("gi")} < {g("NX")})', ('0', g('gj') + ' + 1'))]
SPECS += [
    S(Q + '#ctor(double, double, double, double, double, double)', requires=['And(real(a0) <= real(a1), real(a3) <= real(a4), 0 < real(a2), 0 < real(a5))'],
      ensures=[PSTART] + [f'And(same(this._from_{c}, a{3*i}), same(this._to_{c}, a{3*i+1}), same(this._step_{c}, a{3*i+2}))' for i, c in enumerate(PD)]),
    S(Q + 'reset()', modifies=['this._base_pose_is_set', 'this._dir', 'this._dst'], ensures=[PSTART]),
    S(Q + 'has_next() const', ensures=['result == (real(this._dst) <= real(this._to_dst))']),
    S(Q + 'next(const RobotPose &)', modifies=['this._base_pose', 'this._base_pose_is_set'],
      ensures=['this._base_pose_is_set', f'If(old.this._base_pose_is_set, {eqp("this._base_pose", "old.this._base_pose")}, {eqp("this._base_pose", "old.a0")})',
               'And(real(result.x) == real(this._base_pose.x) + cos(real(this._dir))*real(this._dst), real(result.y) == real(this._base_pose.y) + sin(real(this._dir))*real(this._dst), real(result.theta) == real(this._base_pose.theta))']),
    S(Q + 'feedback(bool)', requires=PGRID, modifies=['this._dir', 'this._dst'], entry_hints=[f'Implies({g("gi")} < {g("NX")}, ({g("gi")} - {g("NX")} + 1)*{r("step_dir")} <= 0)'],
      ensures=[f'Implies({c}, And({PAT(*s)}, {PNUM(*s)} == {PNUM(g("gi"), g("gj"))} + 1, 0 <= {s[0]}, {s[0]} <= {g("NX")}))' for c, s in PC]),
]

# ---- one round of shifts along the axes ---------------------------------------------
D = 'Distorsion1DPoseEnumerator::'
DSTART = 'And(this._action_id == 0, Not(this._base_pose_is_set))'
dctor = S(D + '#ctor(double, double, double)', ensures=[DSTART, 'And(same(this._translation_delta, a0), same(this._rotation_delta, a1), real(this._frame_rot_sin) == sin(real(a2)), real(this._frame_rot_cos) == cos(real(a2)))'])
dreset = S(D + 'reset()', modifies=['this._action_id', 'this._base_pose_is_set'], ensures=[DSTART])
dhas = S(D + 'has_next() const', ensures=['result == (this._action_id < 6)'])
A = 'old.this._action_id'
sg = f'If(mod({A}, 2) == 0, R("1"), R("-1"))'
tr, ro, fc, fs = 'real(this._translation_delta)', 'real(this._rotation_delta)', 'real(this._frame_rot_cos)', 'real(this._frame_rot_sin)'
dnext = S(D + 'next(const RobotPose &)', requires=['this._action_id < 6'], modifies=['this._base_pose', 'this._base_pose_is_set', 'this._action_id'],
          ensures=['this._base_pose_is_set', f'this._action_id == {A} + 1', f'If(old.this._base_pose_is_set, {eqp("this._base_pose", "old.this._base_pose")}, {eqp("this._base_pose", "old.a0")})',
                   f'real(result.x) == real(this._base_pose.x) + If(mod({A}, 3) == 0, {fc}*{sg}*{tr}, If(mod({A}, 3) == 1, -{fs}*{sg}*{tr}, R("0")))',
                   f'real(result.y) == real(this._base_pose.y) + If(mod({A}, 3) == 0, {fs}*{sg}*{tr}, If(mod({A}, 3) == 1, {fc}*{sg}*{tr}, R("0")))',
                   f'real(result.theta) == real(this._base_pose.theta) + If(mod({A}, 3) == 2, {sg}*{ro}, R("0"))'])
dfeed = S(D + 'feedback(bool)', ensures=['True'])
SPECS += [dctor, dreset, dhas, dnext, dfeed]

# ---- rounds with halving ------------------------------------------------------------
FR = 'FailedRoundsLimitedPoseEnumerator<Distorsion1DPoseEnumerator>::'
NEWR = 'And(this._round_pe._action_id == 0, Not(this._round_pe._base_pose_is_set), this._round_failed, same(this._round_pe._translation_delta, this._translation_delta), same(this._round_pe._rotation_delta, this._rotation_delta), real(this._round_pe._frame_rot_sin) == sin(real(this._frame_rotation)), real(this._round_pe._frame_rot_cos) == cos(real(this._frame_rotation)))'
FSTART = f'And(this._failed_rounds == 0, same(this._translation_delta, this._base_translation_delta), same(this._rotation_delta, this._base_rotation_delta), {NEWR})'
over = 'old.this._round_pe._action_id >= 6'
failed = f'And({over}, old.this._round_failed)'
fctor = S(FR + '#ctor(unsigned int, double, double, double)', ensures=[FSTART, 'And(this._max_failed_rounds == a0, same(this._base_translation_delta, a1), same(this._base_rotation_delta, a2), same(this._frame_rotation, a3))'])
RST = ['this._failed_rounds', 'this._translation_delta', 'this._rotation_delta', 'this._round_pe', 'this._round_failed']
freset = S(FR + 'reset()', modifies=RST, ensures=[FSTART])
frr = S(FR + 'reset_round(double, double)', modifies=['this._round_pe', 'this._round_failed'], ensures=[NEWR])
fhas = S(FR + 'has_next() const', ensures=['result == (this._failed_rounds < this._max_failed_rounds)'])
fnext = S(FR + 'next(const RobotPose &)', requires=['this._failed_rounds < this._max_failed_rounds', 'this._round_pe._action_id <= 6'], modifies=RST,
          ensures=[f'this._failed_rounds == old.this._failed_rounds + If({failed}, 1, 0)',
                   f'And(real(this._translation_delta) == real(old.this._translation_delta)*If({failed}, R("1/2"), R("1")), real(this._rotation_delta) == real(old.this._rotation_delta)*If({failed}, R("1/2"), R("1")))',
                   f'this._round_pe._action_id == If({over}, 0, old.this._round_pe._action_id) + 1', 'And(1 <= this._round_pe._action_id, this._round_pe._action_id <= 6)',
                   f'Implies({over}, And(this._round_failed, same(this._round_pe._translation_delta, this._translation_delta), same(this._round_pe._rotation_delta, this._rotation_delta), {eqp("this._round_pe._base_pose", "old.a0")}))',
                   f'Implies(Not({over}), this._round_failed == old.this._round_failed)',
                   # a candidate shifts one coordinate of the base pose of the round by the step of the round (frame not rotated)
                   ])
RP = 'this._round_pe.'
A2, t2, o2, c2, s2 = f'({RP}_action_id - 1)', f'real({RP}_translation_delta)', f'real({RP}_rotation_delta)', f'real({RP}_frame_rot_cos)', f'real({RP}_frame_rot_sin)'
g2 = f'If(mod({A2}, 2) == 0, R("1"), R("-1"))'
fnext.ensures += [f'real(result.x) == real({RP}_base_pose.x) + If(mod({A2}, 3) == 0, {c2}*{g2}*{t2}, If(mod({A2}, 3) == 1, -{s2}*{g2}*{t2}, R("0")))',
                  f'real(result.y) == real({RP}_base_pose.y) + If(mod({A2}, 3) == 0, {s2}*{g2}*{t2}, If(mod({A2}, 3) == 1, {c2}*{g2}*{t2}, R("0")))',
                  f'real(result.theta) == real({RP}_base_pose.theta) + If(mod({A2}, 3) == 2, {g2}*{o2}, R("0"))']
ffeed = S(FR + 'feedback(bool)', modifies=['this._round_failed'], ensures=['this._round_failed == And(old.this._round_failed, Not(a0))'])
SPECS += [fctor, freset, frr, fhas, fnext, ffeed]

# ---- the hill climbing matcher enumerates from scratch in the frame of the scan at hand ------
HC = FR[:-2]
HREF = ('sref', HC)
AH = 'AngleHistogram::'


def hist_of(ns, h, scan):
    l = ns.leaves(scan)
    return ns.eng.uf('hist_of', l, ns.leaves(h)[0].sort())


def major_of(ns, scan):
    return ns.eng.uf('major_of', [ns.eng.uf('hist_of', ns.leaves(scan), z3.DeclareSort('AngleHistogram'))], z3.RealSort())


def stv(ns, a, b):
    return ns.leaves(a)[0] == b


LCFG = {'dyn': dict({c: 'opaque' for c in ('AngleHistogram', 'ScanProbabilityEstimator', 'GridScanMatcherObserver', 'TrigonometryProvider')}, **{HC: None, 'PoseEnumerator': HC}), 'heaps': [HC], 'make_shared': {HC: True}, 'spec_funcs': {'hist_of': hist_of, 'major_of': major_of, 'stv': stv},
        'abstract': {AH + '#ctor(unsigned long)': lambda eng, this, args: eng.fresh(('opaque', 'AngleHistogram'), 'hist')},
        'shapes': {'GridScanMatcher::_observers': ('vec', ('sref', 'GridScanMatcherObserver')), f'std::shared_ptr<{HC}>': HREF, 'std::shared_ptr<PoseEnumerator>': HREF}}
HP, OHP = f'heap("{HC}")', f'oldheap("{HC}")'
HNEW = f'{HP}[this._pose_enumerator.h]'
HSTART = (FSTART + '').replace('this.', HNEW + '.')
SPECS += [S(AH + 'reset(const LaserScan2D &)', inst='lookup', trusted=True, modifies=['this'], ensures=['stv(this, hist_of(this, a0))']),
          S(AH + 'major_direction() const', inst='lookup', trusted=True, ensures=['finite(result)', 'real(result) == uf("major_of", "real", this)']),
          S('HillClimbingScanMatcher::prepare_lookup(const LaserScan2D &)', inst='lookup', cfg=LCFG, requires=[f'And(1 <= this._pose_enumerator.h, this._pose_enumerator.h < {HP}.len)'],
            modifies=['this._pose_enumerator', 'heap:' + HC],
            ensures=[f'forall(lambda h: Implies(And(1 <= h, h < {OHP}.len), same({HP}[h], {OHP}[h])))',
                     f'Implies(Not(this._use_frame_alignement), this._pose_enumerator.h == old.this._pose_enumerator.h)',
                     f'Implies(this._use_frame_alignement, And({OHP}.len <= this._pose_enumerator.h, {HSTART}, {HNEW}._max_failed_rounds == this._max_lookup_failed_attempts, same({HNEW}._base_translation_delta, this._translation_delta), '
                     f'same({HNEW}._base_rotation_delta, this._rotation_delta), real({HNEW}._frame_rotation) == major_of(a0)))'])]

# ---- random shifts ---------------------------------------------------------------------
G = 'GaussianPoseEnumerator::'
GD = ['this._translation_dispersion', 'this._rotation_dispersion', 'this._failed_attempts_per_shift', 'this._pose_shift_rv']
GSTART = 'And(this._poses_nm == 0, this._failed_attempts_per_shift == 0, same(this._translation_dispersion, this._base_translation_dispersion), same(this._rotation_dispersion, this._base_rotation_dispersion))'
RV = lambda o: f'And({o}._pose_shift_rv._x_rv._stddev == real({o}._translation_dispersion), {o}._pose_shift_rv._y_rv._stddev == real({o}._translation_dispersion), {o}._pose_shift_rv._th_rv._stddev == real({o}._rotation_dispersion), {o}._pose_shift_rv._x_rv._mean == 0, {o}._pose_shift_rv._y_rv._mean == 0, {o}._pose_shift_rv._th_rv._mean == 0)'
SAMP = S(f'RobotPoseDeltaRV<{MT}>::sample({MT} &)', trusted=True, modifies=['this', 'a0'], ensures=[f'And(finite(result.{c}), real(result.{c}) == uf("draw_{c}", "real", old.this, old.a0))' for c in ('x', 'y', 'theta')])
SPECS += [SAMP, S(G + 'next(const RobotPose &)', modifies=['this._pose_shift_rv', 'this._pr_generator'],
    ensures=[f'real(result.{c}) == real(old.a0.{c}) + uf("draw_{c}", "real", old.this._pose_shift_rv, old.this._pr_generator)' for c in ('x', 'y', 'theta')])]
# a pose shift draws each coordinate from its own variable and copies are made coordinate by coordinate
RP1 = f'RandomVariable1D<{MT}>'
RD = f'RobotPoseDeltaRV<{MT}>'


def rv_sample(eng, this, args):
    v = eng.load(this)
    x = Node('dbl', None, {'r': eng.fresh(('dblx',), 'draw').ch['r'], 'k': I(0)})
    log(eng, 'rv_draws', rv=v, v=x)
    eng.store(this, eng.uf('rv_next', [v], v.sort()))
    return x


def rv_clone(eng, this, args):
    return Node('uptr', None, {'null': z3.BoolVal(False), 'val': eng.load(this)})


VCFG = {'dyn': {RP1: 'opaque'}, 'ghosts': {'rv_draws': ('vec', rec('RVD', rv=('opaque', re.sub(r'\W+', '_', RP1)), v=DX))}, 'abstract': {RP1 + f'::sample({MT} &)': rv_sample, RP1 + '::clone() const': rv_clone}, 'spec_funcs': {'stv': lambda ns, a, b: ns.leaves(a)[-1] == ns.leaves(b)[-1]}}
FULL = lambda o: [f'Not({o}._{f}_rv.null)' for f in ('x', 'y', 'th')]
RL = 'heap("rv_draws")'
SPECS += [S(RD + f'::sample({MT} &)', inst='rv', cfg=VCFG, modifies=['this._x_rv.*', 'this._y_rv.*', 'this._th_rv.*', 'heap:rv_draws'], requires=[f'{RL}.len == 0'] + FULL('this'),
            ensures=[f'{RL}.len == 3'] + [f'exists(lambda i: And(0 <= i, i < 3, real(result.{c}) == real({RL}[i].v), stv(old.this._{f}_rv, {RL}[i].rv)))' for c, f in (('x', 'x'), ('y', 'y'), ('theta', 'th'))]),
          S(RD + f'::#ctor(const {RP1} &, const {RP1} &, const {RP1} &)', inst='rv', cfg=VCFG, ensures=[f'stv(this._{f}_rv, old.a{i})' for i, f in enumerate(('x', 'y', 'th'))]),
          S(RD + '::#ctor(const RobotPoseDeltaRV<std::mt19937> &)', inst='rv', cfg=VCFG, requires=FULL('a0'), ensures=[f'same(this._{f}_rv, a0._{f}_rv)' for f in ('x', 'y', 'th')]),
          S(RD + '::operator=(const RobotPoseDeltaRV<std::mt19937> &)', inst='rv', cfg=VCFG, requires=FULL('a0'), modifies=['this._x_rv', 'this._y_rv', 'this._th_rv'], returns='this', ensures=[f'same(this._{f}_rv, old.a0._{f}_rv)' for f in ('x', 'y', 'th')])]
SPECS += [
    S(G + 'has_next() const', ensures=['result == And(this._failed_attempts_per_shift < this._max_failed_attempts_per_shift, this._poses_nm < this._max_poses_nm)']),
    S(G + 'reset()', modifies=GD + ['this._poses_nm'], ensures=[GSTART, RV('this')]),
    S(G + 'feedback(bool)', modifies=GD + ['this._poses_nm'], requires=[RV('this'), 'this._poses_nm < 4294967295', 'this._failed_attempts_per_shift < 4294967295'],
      ensures=[RV('this'), 'this._poses_nm == old.this._poses_nm + 1', 'Implies(Not(a0), And(this._failed_attempts_per_shift == old.this._failed_attempts_per_shift + 1, same(this._translation_dispersion, old.this._translation_dispersion), same(this._rotation_dispersion, old.this._rotation_dispersion)))',
               'Implies(And(a0, 3*old.this._failed_attempts_per_shift >= this._max_failed_attempts_per_shift + 3), And(this._failed_attempts_per_shift == 0, real(this._translation_dispersion) == real(old.this._translation_dispersion)/2, real(this._rotation_dispersion) == real(old.this._rotation_dispersion)/2))',
               'Implies(And(a0, 3*old.this._failed_attempts_per_shift <= this._max_failed_attempts_per_shift - 3), And(this._failed_attempts_per_shift == old.this._failed_attempts_per_shift, same(this._translation_dispersion, old.this._translation_dispersion), same(this._rotation_dispersion, old.this._rotation_dispersion)))']),
]
REFUTER_FLAGS = ['-U_GLIBCXX_ASSERTIONS']
ASSUMPTIONS = [
    'random offsets are an unconstrained sequence',
    'ranges are finite, steps positive, counts fit an int',
]
