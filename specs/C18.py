"""Configuration: each setting under its own name reaches its parameter."""
from lib import *
PP = 'const PropertiesProvider &'
SPE, OOPE = 'std::shared_ptr<ScanProbabilityEstimator>', 'std::shared_ptr<OccupancyObservationProbabilityEstimator>'


def named(kind):
    """The value the provider gives for setting `key`, with default `dflt`."""
    full = {'dbl': 'PropertiesProvider::get_dbl(const std::basic_string<char> &, double) const',
            'int': 'PropertiesProvider::get_int(const std::basic_string<char> &, int) const',
            'uint': 'PropertiesProvider::get_uint(const std::basic_string<char> &, unsigned int) const',
            'bool': 'PropertiesProvider::get_bool(const std::basic_string<char> &, bool) const',
            'str': 'PropertiesProvider::get_str(const std::basic_string<char> &, const std::basic_string<char> &) const'}[kind]

    def f(ns, key, dflt):
        s = {'dbl': ('dbl',), 'int': ('int', 32, True), 'uint': ('int', 32, False), 'bool': ('bool',), 'str': ('str',)}[kind]
        if kind == 'str':
            dflt = z3.StringVal(dflt)
        elif kind == 'bool':
            dflt = z3.BoolVal(dflt)
        elif kind == 'dbl' and isinstance(dflt, str) and dflt == 'inf':
            dflt = ns.wrap(mkdbl(R(0), I(PINF)), ns.mem)
        elif kind == 'dbl' and isinstance(dflt, (int, str)):
            dflt = R(str(dflt))
        return ns.wrap(ns.eng.uf_tree(full, ns.leaves(ns.lookup('props')) + [z3.StringVal(key)] + ns.leaves(dflt), s), ns.mem)
    return f


def isa(ns, v, name):
    """The object is a freshly made one of exactly this class."""
    return z3.BoolVal(hasattr(v, '_v') and v._v.kind == 'rec' and v._v.meta == name)


def idle(ns, v):
    return v


def spe_tree(eng, props):
    return eng.uf_tree('the spe', props, eng.shape(eng.prog.funcs[f'init_spe({PP})']['ret']))


def the_spe(eng, this, args):
    """The estimator init_spe makes (its contract is checked on its own)."""
    return spe_tree(eng, eng.flat(eng.load(args[0])))


def made_spe(ns):
    return ns.wrap(spe_tree(ns.eng, ns.leaves(ns.lookup('props'))), ns.eng.mem)


def inner(ns, v):
    """The matcher behind the drift detector, if there is one."""
    w = v._v
    return getattr(v, '_sm') if w.meta == 'ConnectTheDotsAmbiguousDriftDetector' else v


def when(cls, clauses):
    """The clauses hold of the matcher if it is one of this class."""
    def f(ns):
        v = inner(ns, ns.lookup('result'))
        if v._v.meta != cls:
            return z3.BoolVal(True)
        return z3.And(*[ns.bool(c.replace('result._scan_prob_estimator == a1', 'same(result._scan_prob_estimator, made_spe())').replace('result.', 'inner(result).').replace('isa(result,', 'isa(inner(result),').replace('isa(result.', 'isa(inner(result).')) for c in clauses])
    f.__name__ = f'the settings of {cls}'
    return f


MT = 'std::mersenne_twister_engine<unsigned long, 32, 624, 397, 31, 2567483615, 11, 4294967295, 7, 2636928640, 15, 4022730752, 18, 1812433253>'
CFG = {'spec_funcs': {'seeded': lambda ns, g, x: ns.eng.uf('seeded', [x], g.sort()), **{'get_' + k: named(k) for k in ('dbl', 'int', 'uint', 'bool', 'str')}, 'isa': isa, 'inner': inner, 'made_spe': made_spe},
       'shapes': {'WorldObservable<GridMap>::_world_pose_observers': ('vec', ('sref', 'WorldPoseObserver')), 'WorldObservable<GridMap>::_world_map_observers': ('vec', ('sref', 'WorldMapObserver<GridMap>')), 'LazyTiledGridMap::_tiles': ('opaque', 'Tiles'), 'LazyTiledGridMap::_unknown_tile': ('opaque', 'TileRef'), 'std::priority_queue<Match>': ('opaque', 'MatchQueue'), 'std::vector<std::weak_ptr<GridScanMatcherObserver>>': ('vec', ('sref', 'GridScanMatcherObserver')), 'GridScanMatcher::_observers': ('vec', ('sref', 'GridScanMatcherObserver'))}}
SPECS = [S(f'init_pose_quality_estimators({PP})', modifies=[], ensures=['result._v.ch[0] == get_dbl("slam/mapping/corrected_pose_quality", 1)', 'result._v.ch[1] == get_dbl("slam/mapping/raw_pose_quality", "1/2")'])]
dbl = lambda k, d: f'get_dbl("{k}", {d})' if not isinstance(d, str) or d[0] not in '-0123456789i' else f'get_dbl("{k}", "{d}")'
uint = lambda k, d: f'get_uint("{k}", {d})'
st = lambda k, d: f'get_str("{k}", "{d}")'
EQ = lambda f, v: f'same({f}, {v})'


def choice(key, dflt, table, also=()):
    """The class made for each name; every other name ends the program with an error."""
    s = st(key, dflt)
    return [f'Implies({s} == "{n}", isa(result, "{c}"))' for n, c in table.items()] + [f'Or({", ".join(f"""{s} == "{n}" """ for n in table)})'] + list(also)


M = 'slam/map/'
W, H, SC = dbl(M + 'width_in_meters', 10), dbl(M + 'height_in_meters', 10), dbl(M + 'meters_per_cell', '1/10')
ceil = lambda x: f'-floor(-({x}))'
MPRE = [f'And(real({SC}) > 0, real({W}) >= 0, real({H}) >= 0, real({W}) <= 1000000*real({SC}), real({H}) <= 1000000*real({SC}))']
GMP = [f'result.width_cells == {ceil(f"real({W})/real({SC})")}', f'result.height_cells == {ceil(f"real({H})/real({SC})")}', f'real(result.meters_per_cell) == real({SC})']
SPECS += [S(f'init_grid_map_params({PP})', requires=MPRE, modifies=[], ensures=GMP)]
E_ = 'slam/occupancy_estimator/'
occ = lambda f, n, p: [f'real(result.{f}.prob_occ) == real({dbl(E_ + n + "/prob", p)})', f'real(result.{f}.estimation_quality) == real({dbl(E_ + n + "/qual", 1)})']
SPECS += [S(f'init_occ_estimator({PP})', modifies=[], contract=False, ensures=choice(E_ + 'type', 'const', {'const': 'ConstOccupancyEstimator', 'area': 'AreaOccupancyEstimator'}, occ('_base_occ', 'base_occupied', '19/20') + occ('_base_empty', 'base_empty', '1/100'))),
          S(f'init_omqe({PP})', modifies=[], contract=False, ensures=choice('slam/mapping/observation_quality_estimator/type', 'idle', {'idle': 'IdleOMQE', 'ahr': 'AngleHistogramResiprocalOMQE'})),
          S(f'init_oie({PP}, bool)', modifies=[], contract=False, ensures=choice('slam/scmtch/oie/type', 'discrepancy', {'discrepancy': 'DiscrepancyOIE', 'occupancy': 'OccupancyOIE'})),
          S(f'init_oope({PP})', modifies=[], contract=False, ensures=choice('slam/scmtch/oope/type', 'obstacle', {'obstacle': 'ObstacleBasedOccupancyObservationPE', 'max': 'MaxOccupancyObservationPE', 'mean': 'MeanOccupancyObservationPE', 'overlap': 'OverlapWeightedOccupancyObservationPE'})),
          S(f'init_swp({PP})', modifies=[], contract=False, ensures=choice('slam/scmtch/spe/wmpp/weighting/type', '<undefined>', {'even': 'EvenSPW', 'viny': 'VinySlamSPW', 'ahr': 'AngleHistogramReciprocalSPW'})),
          S(f'init_occupied_area_model({PP})', modifies=[], contract=False, ensures=choice('slam/mapping/grid/area/type', '<undefined>', AREAS := {'tbm_consistent': 'TbmOccConsistentCell', 'tbm_unknown_even_occ': 'TbmUnknownEvenOccCell', 'affine_quality_merge': 'AffineQualityMergeCell', 'mean_probability': 'MeanProbabilityCell'}))]
F = lambda path, v: f'real(result.{path}) == real({v})'
N = lambda path, v: f'result.{path} == {v}'
WM = 'slam/scmtch/spe/wmpp/'
SPEF = ['isa(result, "WeightedMeanPointProbabilitySPE")', N('_pts_skip_rate', uint(WM + 'sp_skip_rate', 0)), F('_pt_max_usable_range', dbl(WM + 'sp_max_usable_range', '-1')), 'result._oope == a1', f'If({st(WM + "weighting/type", "<undefined>")} == "even", isa(result._spw, "EvenSPW"), If({st(WM + "weighting/type", "<undefined>")} == "viny", isa(result._spw, "VinySlamSPW"), isa(result._spw, "AngleHistogramReciprocalSPW")))']
SPECS += [S(f'init_spe({PP}, {OOPE})', modifies=[], contract=False, ensures=choice('slam/scmtch/spe/type', '<undefined>', {'wmpp': 'WeightedMeanPointProbabilitySPE'}, SPEF))]
MC, HC, BF, M3 = ('slam/scmtch/' + x + '/' for x in ('MC', 'HC', 'BF', 'BF_M3RSM'))
RAD = lambda d: f'{d}*R("3.14159265358979323846")/180'
mcs = ['isa(result, "MonteCarloScanMatcher")', 'result._scan_prob_estimator == a1', 'isa(result._pose_enumerator, "GaussianPoseEnumerator")',
       F('_pose_enumerator._base_translation_dispersion', dbl(MC + 'dispersion/translation', '1/5')), F('_pose_enumerator._base_rotation_dispersion', dbl(MC + 'dispersion/rotation', '1/10')),
       N('_pose_enumerator._max_failed_attempts_per_shift', uint(MC + 'dispersion/failed_attempts_limit', 20)), N('_pose_enumerator._max_poses_nm', uint(MC + 'attempts_limit', 100)), f'exists(lambda r: result._pose_enumerator._pr_generator == seeded(result._pose_enumerator._pr_generator, z3.If(get_int("{MC}seed", r) < 0, get_int("{MC}seed", r) + 4294967296, get_int("{MC}seed", r))))']
hcs = ['isa(result, "HillClimbingScanMatcher")', 'result._scan_prob_estimator == a1', N('_max_lookup_failed_attempts', uint(HC + 'distortion/failed_attempts_limit', 6)), F('_translation_delta', dbl(HC + 'distortion/translation', '1/10')),
       F('_rotation_delta', dbl(HC + 'distortion/rotation', '1/10')), N('_use_frame_alignement', f'get_bool("{HC}use_frame_alignement", False)'),
       N('_pose_enumerator._max_failed_rounds', uint(HC + 'distortion/failed_attempts_limit', 6)), F('_pose_enumerator._base_translation_delta', dbl(HC + 'distortion/translation', '1/10')), F('_pose_enumerator._base_rotation_delta', dbl(HC + 'distortion/rotation', '1/10'))]
LIM = {'x': (R_ := '1/2', '1/10'), 'y': ('1/2', '1/10'), 't': None}
def bfv(d):
    if d != 't':
        return dbl(f'{BF}{d}/from', '-1/2'), dbl(f'{BF}{d}/to', '1/2'), dbl(f'{BF}{d}/step', '1/10')
    return dbl(f'{BF}t/from', 0).replace(', 0)', f', -({RAD(5)}))'), dbl(f'{BF}t/to', 0).replace(', 0)', f', {RAD(5)})'), dbl(f'{BF}t/step', 0).replace(', 0)', f', {RAD(1)})')
bfs = ['isa(result, "BruteForceScanMatcher")', 'result._scan_prob_estimator == a1'] + [F(f'_pose_enumerator._{w}_{d}', v) for d in 'xyt' for w, v in zip(('from', 'to', 'step'), bfv(d))]
BFPRE = [f'real({bfv(d)[0]}) <= real({bfv(d)[1]})' for d in 'xyt']
deg = lambda k, d: f'get_dbl("{k}", ({d})*R("3.14159265358979323846")/180)'
m3s = ['isa(result, "BruteForceMultiResolutionScanMatcher")', 'result._scan_prob_estimator == a1', F('_transl_step', dbl(M3 + 'accuracy/translation', '1/20')), F('_ang_step', deg(M3 + 'accuracy/rotation', 'R("1/10")')),
       F('_max_x_error', dbl(M3 + 'limit/x_translation', 1)), F('_max_y_error', dbl(M3 + 'limit/y_translation', 1)), F('_max_th_error', deg(M3 + 'limit/rotation', 5))]
SPECS += [S(f'init_monte_carlo_sm({PP}, {SPE})', modifies=[], contract=False, ensures=mcs),
          S(f'init_hill_climbing_sm({PP}, {SPE})', modifies=[], contract=False, ensures=hcs),
          S(f'init_brute_force_sm({PP}, {SPE})', modifies=[], contract=False, requires=BFPRE, ensures=bfs),
          S(f'init_bf_m3rsm({PP}, {SPE})', modifies=[], contract=False, ensures=m3s),
          ]
RG = lambda p: f'_v.ch["{p}"]'
GW = 'slam/particles/'
rv = lambda f, n, a, ta, b, tb: [f'And(real(result.{f}.{n}._{ta}) == real({a}), real(result.{f}.{n}._{tb}) == real({b}))']
gp = []
for v, ax in (('_x_rv', 'xy'), ('_y_rv', 'xy'), ('_th_rv', 'theta')):
    gp += rv('pose_guess_rv', v, dbl(GW + f'sample/{ax}/mean', 0), 'mean', dbl(GW + f'sample/{ax}/sigma', '1/10' if ax == 'xy' else '3/100'), 'stddev')
    gp += rv('next_sm_delta_rv', v, dbl(GW + f'sm_delta_lim/{ax}/min', '3/5' if ax == 'xy' else '3/10'), 'from', dbl(GW + f'sm_delta_lim/{ax}/max', '4/5' if ax == 'xy' else '2/5'), 'to')
OP = 'slam/scmtch/oope/'
OT, QT = st(E_ + 'type', 'const'), st('slam/mapping/observation_quality_estimator/type', 'idle')
MR = dbl('slam/mapping/max_range', 'inf')


def ADDER(r):
    """The scan adder the mapping settings describe."""
    return [f'isa({r}, "WallDistanceBlurringScanAdder")', f'real({r}._props._blur_distance) == real({dbl("slam/mapping/blur", 0)})', f'real({r}._props._max_usable_range) == real({MR})', f'real({r}._max_usable_range_sq) == real({MR})*real({MR})',
            f'If({OT} == "const", isa({r}._occ_est, "ConstOccupancyEstimator"), And({OT} == "area", isa({r}._occ_est, "AreaOccupancyEstimator")))', f'If({QT} == "idle", isa({r}._omqe, "IdleOMQE"), And({QT} == "ahr", isa({r}._omqe, "AngleHistogramResiprocalOMQE")))'] \
        + [x.replace('result.', f'{r}._occ_est.') for x in occ('_base_occ', 'base_occupied', '19/20') + occ('_base_empty', 'base_empty', '1/100')]
SPECS += [S(f'init_scan_adder({PP})', modifies=[], contract=False,
            ensures=ADDER('result')),
          S(f'init_particles_nm({PP})', modifies=[], contract=False, ensures=[f'result == {uint(GW + "number", 30)}']),
          S(f'init_gmapping_params({PP})', modifies=[], contract=False, ensures=gp),
          S(f'init_gmapping_prob_estimator({PP})', modifies=[], contract=False, requires=[f'{st(OP + "type", "custom")} == "custom"', f'{uint(OP + "custom/window_size", 1)} < 2147483648'],
            ensures=['isa(result._oope, "GmappingOccupancyObservationPE")', F('_oope.Fullness_Th', dbl(OP + 'custom/fullness_threshold', '1/10')), N('_oope.Window_Sz', uint(OP + 'custom/window_size', 1)), f'{st("slam/scmtch/spe/type", "<undefined>")} == "wmpp"'] + [x for x in SPEF if 'a1' not in x]),
          ]
AM, MK = st('slam/mapping/grid/area/type', '<undefined>'), st('slam/mapping/grid/type', '<undefined>')
M3T = st('slam/scmtch/type', '<undefined>') + ' == "BF_M3RSM"'
SPECS += [S(f'scan_matcher_type({PP})', modifies=[], contract=False, ensures=[f'result == {st("slam/scmtch/type", "<undefined>")}']),
          S('is_m3rsm(const std::basic_string<char> &)', modifies=[], contract=False, ensures=['result == (sm_type == "BF_M3RSM")']),
          ]
TY = st('slam/scmtch/type', '<undefined>')
KIND = {'MC': ('MonteCarloScanMatcher', mcs), 'HC': ('HillClimbingScanMatcher', hcs), 'BF': ('BruteForceScanMatcher', bfs), 'BF_M3RSM': ('BruteForceMultiResolutionScanMatcher', m3s),
        'idle': ('NoActionScanMatcher', m3s[1:2]), 'HC_FIXED': ('HillClimbingSMFixed', m3s[1:2])}
SMX = [f'Implies({TY} == "{n}", isa(inner(result), "{c}"))' for n, (c, _) in KIND.items()] + [f'Or({", ".join(f"""{TY} == "{n}" """ for n in KIND)})', 'isa(result, "ConnectTheDotsAmbiguousDriftDetector") == get_bool("slam/scmtch/use_amb_drift_detector", False)'] \
    + [when(c, cl) for c, cl in KIND.values()]
SPECS += [S(f'init_scan_matcher({PP})', modifies=[], contract=False, ensures=SMX, cfg={'abstract': {f'init_spe({PP})': the_spe}}, requires=BFPRE)]
# ---- maps: the class, size and cell model the settings name
SPM = 'std::shared_ptr<GridCell>'
MAPS = {'plain': 'PlainGridMap', 'unbounded_plain': 'UnboundedPlainGridMap', 'lazy_tiled': 'LazyTiledGridMap', 'unbounded_lazy_tiled': 'UnboundedLazyTiledGridMap'}
DIM = ['this._width == params.width_cells', 'this._height == params.height_cells', 'real(this._m_per_cell) == real(params.meters_per_cell)', 'same(this._cell_prototype, a0)']
for _m in MAPS.values():
    CFG['shapes'][f'RescalableCachingGridMap<{_m}>::_map_cache'] = ('opaque', 'Levels')
    CFG['shapes'][f'RescalableCachingGridMap<{_m}>::_active_map'] = ('opaque', 'LevelRef')
    SPECS += [S(f'{_m}::#ctor({SPM}, const GridMapParams &)', trusted=True, ensures=DIM),
              S(f'M3RSMRescalableGridMap<{_m}>::#ctor(std::shared_ptr<ObservationImpactEstimator>, {SPM}, const GridMapParams &)', trusted=True, ensures=[x.replace('a0', 'a1') for x in DIM])]
RES = [x.replace('this.', 'result.').replace('params.', 'z3.').replace('a0', 'a1') for x in DIM]
GMF = [f'result._width == {ceil(f"real({W})/real({SC})")}', f'result._height == {ceil(f"real({H})/real({SC})")}', f'real(result._m_per_cell) == real({SC})', 'same(result._cell_prototype, a1)']
pick = lambda m: f'If({M3T}, isa(result, "M3RSMRescalableGridMap<{m}>"), isa(result, "{m}"))'
SPECS += [S(f'create_grid_map<{m}>({PP}, {SPM})', requires=MPRE, modifies=[], contract=False, ensures=[pick(m)] + GMF) for m in MAPS.values()]
SPECS += [S(f'init_grid_map({PP}, {SPM})', requires=MPRE, modifies=[], contract=False, ensures=[f'Implies({MK} == "{n}", {pick(m)})' for n, m in MAPS.items()] + [f'Or({", ".join(f"""{MK} == "{n}" """ for n in MAPS)})'] + GMF)]

# ---- the systems put together
def built(name, key):
    """What the component function `key` makes of these settings (checked on its own)."""
    def tree(eng, leaves):
        return eng.uf_tree(name, leaves, eng.shape(eng.prog.funcs[key]['ret']))

    def call(eng, this, args):
        return tree(eng, [l for a in args for l in eng.flat(eng.load(a) if isinstance(a, Loc) else eng.load(a.meta) if isinstance(a, Node) and a.kind == 'ptr' else a)])

    def spec(ns, *extra):
        return ns.wrap(tree(ns.eng, ns.leaves(ns.lookup('props')) + [l for a in extra for l in ns.leaves(a)]), ns.eng.mem)
    CFG['spec_funcs'][name] = spec
    return {key: call}


def of_model(eng, this, args):
    """The map init_grid_map makes of these settings and this cell model (checked on its own)."""
    v = eng.rv(args[1])
    return Node('ptr', eng.alloc(Node('rec', 'MadeMap', {'settings': eng.load(args[0]), 'model': eng.load(v.meta)}), 'map'), {})


PARTS = {**built('the_map', f'init_grid_map({PP})'), **built('the_map_of', f'init_grid_map({PP}, {SPM})'), **built('the_matcher', f'init_scan_matcher({PP})'), **built('the_adder', f'init_scan_adder({PP})')}
WORLD = lambda loc, raw: [f'real(result._props.localized_scan_quality) == real({loc})', f'real(result._props.raw_scan_quality) == real({raw})', 'result._props.scan_margin == 0', 'same(result._props.gsm, the_matcher())', 'same(result._props.gmsa, the_adder())', 'same(result._map, result._props.grid_map)']
SPECS += [S(f'init_1h_slam({PP})', modifies=[], contract=False, cfg={'abstract': PARTS}, ensures=['isa(result, "SingleStateHypothesisLaserScanGridWorld")', 'same(result._props.grid_map, the_map())']
            + WORLD(dbl('slam/mapping/corrected_pose_quality', 1), dbl('slam/mapping/raw_pose_quality', '1/2'))),
          S(f'init_credibilist_slam({PP})', modifies=[], contract=False, cfg={'abstract': PARTS}, ensures=['isa(result, "SingleStateHypothesisLaserScanGridWorld")'] + WORLD('R("9/10")', 'R("3/5")')),
          S(f'init_grid_map({PP})', modifies=[], contract=False, cfg={'abstract': {f'init_grid_map({PP}, {SPM})': of_model}},
            ensures=[f'same(result.settings, props)'] + [f'Implies({AM} == "{n}", isa(result.model, "{c}"))' for n, c in AREAS.items()])]



def made_filter(eng, this, args):
    """The filter built of these parts (GmappingParticleFilter's constructor is C17)."""
    return Node('rec', 'MadeFilter', {'shw': eng.load(args[0]), 'params': eng.load(args[1]), 'number': eng.rv(args[2])})


def made_map(eng, this, args):
    return Node('rec', 'UnboundedLazyTiledGridMap', {'cells': eng.load(eng.rv(args[0]).meta), 'params': eng.load(args[1])})


GPARTS = {**built('the_gspe', f'init_gmapping_prob_estimator({PP})'), **built('the_gparams', f'init_gmapping_params({PP})'), **built('the_number', f'init_particles_nm({PP})'), **built('the_adder', f'init_scan_adder({PP})')}
GPARTS['GmappingParticleFilter::#ctor(const SingleStateHypothesisLSGWProperties &, const GMappingParams &, unsigned int)'] = made_filter
GPARTS[f'UnboundedLazyTiledGridMap::#ctor({SPM}, const GridMapParams &)'] = made_map
SPECS += [S(f'init_gmapping({PP})', modifies=[], contract=False, requires=MPRE, cfg={'abstract': GPARTS},
            ensures=['same(result.params, the_gparams())', 'result.number == the_number()', 'same(result.shw.gmsa, the_adder())', 'same(result.shw.gsm._scan_prob_estimator, the_gspe())', 'isa(result.shw.gsm, "HillClimbingScanMatcher")',
                     'isa(result.shw.grid_map, "UnboundedLazyTiledGridMap")', 'isa(result.shw.grid_map.cells, "GmappingBaseCell")']
            + [x.replace('result.', 'result.shw.grid_map.params.') for x in GMP])]
SPECS += [S(f'init_spe({PP})', modifies=[], contract=False, cfg={'abstract': {**built('the_oope', f'init_oope({PP})'), **built('the_spe_of', f'init_spe({PP}, {OOPE})')}}, ensures=['same(result, the_spe_of(the_oope()))'])]

# ---- the settings themselves: a map, and files of lines
MPP, FPP, STR = 'MapPropertiesProvider::', 'FilePropertiesProvider::', 'const std::basic_string<char> &'
HAS = lambda m, k: f'z3.Select({m}.has, {k})'
AT = lambda m, k: f'z3.Select({m}.data, {k})'
GET = lambda m, num, srt: f'result == If({HAS(m, "id")}, uf("{num}", "{srt}", {AT(m, "id")}), dflt)'


def getters(cls, m):
    sc = {'int': ('int', 'stoi', 'int'), 'dbl': ('double', 'stod', 'real'), 'uint': ('unsigned int', 'stoul', 'int')}
    out = []
    for k, (ty, num, srt) in sc.items():
        post = f'Implies({HAS(m, "id")}, result == uf("{num}", "{srt}", {AT(m, "id")})%s)' % (' % 4294967296' if k == 'uint' else '')
        out.append(S(f'{cls}get_{k}({STR}, {ty}) const', modifies=[], may_throw=True, ensures=[post, f'Implies(Not({HAS(m, "id")}), real(result) == real(dflt))']))
    out.append(S(f'{cls}get_str({STR}, {STR}) const', modifies=[], ensures=[f'result == If({HAS(m, "id")}, {AT(m, "id")}, dflt)']))
    out.append(S(f'{cls}get_bool({STR}, bool) const', modifies=[], ensures=[f'result == If({HAS(m, "id")}, Not(Or({AT(m, "id")} == "false", {AT(m, "id")} == "0")), dflt)']))
    out.append(S(f'{cls}set_property({STR}, {STR})', modifies=['this'], ensures=[f'forall(lambda k: {HAS(m, "k")} == Or(k == id, {HAS(m.replace("this", "old.this"), "k")}), "str")', f'forall(lambda k: Implies({HAS(m, "k")}, {AT(m, "k")} == If(k == id, value, {AT(m.replace("this", "old.this"), "k")})), "str")']))
    return out


SPECS += getters(MPP, 'this._props') + getters(FPP, 'this._props._props')
SPECS += [S(f'{MPP}has_property({STR}) const', modifies=[], ensures=[f'result == {HAS("this._props", "id")}']),
          S(f'{MPP}operator+=(const MapPropertiesProvider &)', modifies=['this'], ensures=[f'forall(lambda k: {HAS("this._props", "k")} == Or({HAS("old.this._props", "k")}, {HAS("that._props", "k")}), "str")',
                                                                      f'forall(lambda k: Implies({HAS("this._props", "k")}, {AT("this._props", "k")} == If({HAS("old.this._props", "k")}, {AT("old.this._props", "k")}, {AT("that._props", "k")})), "str")'])]

STRS = lambda ns: __import__('vc.stdlib', fromlist=['Strings']).Strings(ns.eng)
UFS = {'strings': 'uf'}
# reading a file of lines: `key=value`, `#comment`, `<path of a file to include>`; what comes first stays
NL = lambda p: f'If(uf("file_exists", "bool", {p}), imax(uf("file_lines", "int", {p}), 0), 0)'
LINE = lambda p, i: f'uf("file_line", "str", {p}, {i})'
CFG['spec_funcs'].update(
    is_entry=lambda ns, l: z3.And(STRS(ns).len(l) > 0, STRS(ns).chr(l, I(0)) != ord('#'), STRS(ns).chr(l, I(0)) != ord('<'), STRS(ns).find(l, z3.StringVal('='), I(0)) >= 0),
    is_include=lambda ns, l: z3.And(STRS(ns).len(l) > 0, STRS(ns).chr(l, I(0)) == ord('<'), STRS(ns).chr(l, STRS(ns).len(l) - 1) == ord('>')),
    key_of=lambda ns, l: STRS(ns).sub(l, I(0), STRS(ns).find(l, z3.StringVal('='), I(0))),
    value_of=lambda ns, l: STRS(ns).sub(l, STRS(ns).find(l, z3.StringVal('='), I(0)) + 1, STRS(ns).len(l) - STRS(ns).find(l, z3.StringVal('='), I(0)) - 1),
    included=lambda ns, p, l: STRS(ns).cat(STRS(ns).cat(ns.eng.uf('dirname', [p], z3.StringSort()), z3.StringVal('/')), STRS(ns).sub(l, I(1), STRS(ns).len(l) - 2)),
    defined=lambda ns, p, i, k: ns.eng.uf('defined', [p, i, k], z3.BoolSort()),  # the first i lines of file p give k a value
    defval=lambda ns, p, i, k: ns.eng.uf('defval', [p, i, k], z3.StringSort()),  # the last one they give
    inc=lambda ns, p, i, k: ns.eng.uf('inc', [p, i, k], z3.BoolSort()),  # the files the first i lines include do
    incval=lambda ns, p, i, k: ns.eng.uf('incval', [p, i, k], z3.StringSort()),  # the first value they give
    gives=lambda ns, p, k: ns.eng.uf('gives', [p, k], z3.BoolSort()),  # file p or one it includes gives k a value
    given=lambda ns, p, k: ns.eng.uf('given', [p, k], z3.StringSort()),
    at=lambda ns, i: ns.eng.uf('at', [i], z3.BoolSort()))
DEF_LINES = ['forall(lambda k: Not(defined(path, z3.IntVal(0), k)), "str")', 'forall(lambda k: Not(inc(path, z3.IntVal(0), k)), "str")', 'forall(lambda i: (at(i), at(i)))']
_l = LINE('path', 'i')
for head, rhs in (('defined(path, i+1, k)', f'Or(And(is_entry({_l}), key_of({_l}) == k), defined(path, i, k))'),
                  ('defval(path, i+1, k)', f'If(And(is_entry({_l}), key_of({_l}) == k), value_of({_l}), defval(path, i, k))'),
                  ('inc(path, i+1, k)', f'Or(inc(path, i, k), And(is_include({_l}), gives(included(path, {_l}), k)))'),
                  ('incval(path, i+1, k)', f'If(inc(path, i, k), incval(path, i, k), given(included(path, {_l}), k))')):
    pat = head.replace('i+1', 'i')
    DEF_LINES.append(f'forall(lambda i, k: ({head} == {rhs}, [z3.MultiPattern({pat}, at(i))]), "int", "str")')
OWN, TH, OTH = 'props._props', 'this._props._props', 'old.this._props._props'
KEEP = lambda g, v: [f'forall(lambda k: {HAS(TH, "k")} == Or({HAS(OTH, "k")}, {g}), "str")', f'forall(lambda k: Implies({HAS(TH, "k")}, {AT(TH, "k")} == If({HAS(OTH, "k")}, {AT(OTH, "k")}, {v})), "str")']
OWNC = lambda m, n: [f'forall(lambda k: {HAS(m, "k")} == defined(path, {n}, k), "str")', f'forall(lambda k: Implies({HAS(m, "k")}, {AT(m, "k")} == defval(path, {n}, k)), "str")']
N_ = NL('path')
SPECS += [S(FPP + f'parse_file({STR})', modifies=['this'], cfg=UFS, defs=DEF_LINES, ensures=OWNC('result._props', N_) + KEEP(f'inc(path, {N_}, k)', f'incval(path, {N_}, k)'),
            loops={0: dict(inv=['same(file.path, path)', 'Not(file.fail)', f'And(file.pos >= 0, file.pos <= {N_}, at(file.pos))'] + OWNC(OWN, 'file.pos') + KEEP('inc(path, file.pos, k)', 'incval(path, file.pos, k)'))}),
          S(FPP + f'append_file_content({STR})', cfg=UFS, modifies=['this'], ensures=KEEP('gives(path, k)', 'given(path, k)'),
            defs=[f'forall(lambda k: gives(path, k) == Or(inc(path, {N_}, k), defined(path, {N_}, k)), "str")', f'forall(lambda k: given(path, k) == If(inc(path, {N_}, k), incval(path, {N_}, k), defval(path, {N_}, k)), "str")'])]
REFUTER_FLAGS = ['-fno-access-control']
ASSUMPTIONS = ['the getters of an abstract PropertiesProvider are functions of (settings, name, default); those of the map- and file-backed providers are under contract',
               'constructors of the map classes are trusted to keep width, height, scale and cell model (their contents are C02-C04); number parsing (std::stoi, stoul, stod), dirname and the lines of a file are functions of their argument',
               'strings in parse_file: length, character, search, part and concatenation are uninterpreted functions shared by code and contract; files include each other without a cycle (the code would not return)',
               'the particle filter of gmapping is built from the settings checked here; its constructor is C17']
