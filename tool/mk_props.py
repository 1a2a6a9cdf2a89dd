#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the specs present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [
 ('C01', 'A discretised segment is an unbroken chain of cells from its start to its end',
  'The discretisation of a segment starts in the first given cell, ends in the last one, and every step moves to one of the eight neighbouring cells. It has exactly max(|dx|,|dy|)+1 cells and stays inside the bounding box of the endpoints, within one cell of the exact line. A beam given in world coordinates is discretised, from the cell that contains its start to the one that contains its end, into the cells whose interior it crosses, with a diagonal step only through a corner.',
  'every pair of endpoints (within 2^29 cells), every cell size', 'Tests compare a few hand-drawn lines; rounding choices and long or steep lines are unbounded in number.',
  ['src/core/geometry_discrete_primitives.h', 'src/core/maps/regular_squares_grid.h'], [('line rasterisation', 'geometry_discrete_primitives.h:DiscreteSegment2D'), ('beam to cells', 'regular_squares_grid.h:world_to_cells')]),
 ('C02', 'World and cell coordinates agree, cells tile the plane without gaps',
  'Every world point belongs to exactly one cell, the one whose bounds contain it (lower bounds inclusive), negative coordinates included. The centre of a cell maps back to that cell, and the mapping between a cell and its storage position is a bijection that is inside the storage exactly for the cells the map has. Rescaling keeps world bounds consistent with the new cell size.',
  'every world point, cell, map size and positive cell size', 'Tests use a handful of points and one or two scales; floor/offset mistakes show up only for particular signs, parities or sizes.',
  ['src/core/maps/regular_squares_grid.h'], [('coordinate mapping', 'regular_squares_grid.h:RegularSquaresGrid')]),
 ('C03', 'Reads from a growing map return the last write, wherever it grew since',
  'A cell of a bounded or unbounded plain map reads back what was last written to it and writing one cell changes no other. An unbounded map that grows keeps every earlier cell at its world position, and cells never written read as the prototype. Growing covers the requested cell and never shrinks the map.',
  'every sequence of reads, writes and expansions in any direction', 'Tests grow a map in a few fixed directions; the defect space is in sequences of expansions of odd/even sizes and offsets.',
  ['src/core/maps/plain_grid_map.h', 'src/core/maps/grid_map.h', 'src/core/maps/regular_squares_grid.h'], [('storage and expansion', 'plain_grid_map.h')]),
 ('C04', 'Tiled maps behave like plain maps and copies never affect each other',
  'A lazily tiled map returns for each cell what was last written to it, or an unknown cell, for any order of writes. Copies share storage but a write through one copy is never visible through another. Growing an unbounded tiled map keeps the content of every cell.',
  'every interleaving of writes, copies and expansions', 'Tests make one or two copies; sharing mistakes need particular copy/write orders and tile boundaries.',
  ['src/core/maps/lazy_tiled_grid_map.h'], [('copy on write', 'lazy_tiled_grid_map.h:LazyTiledGridMap'), ('tile addressing', 'lazy_tiled_grid_map.h')]),
 ('C05', 'Saving and loading a map or cell restores the same observable state',
  'Loading a saved state into a cell gives a cell with the same occupancy and knowledge status, and reading consumes exactly the bytes written. A saved map loads with the same size, scale, origin and cells. Values of every size written to the byte stream are read back unchanged in the same order.',
  'every value, cell history, map size and content', 'Tests round-trip a few values; aliasing, sizes and order mistakes depend on the content.',
  ['src/core/serialization.h', 'src/core/maps/grid_cell.h', 'src/core/maps/tbm_grid_cells.h', 'src/core/maps/plain_grid_map.h'], [('byte stream', 'serialization.h'), ('map state', 'plain_grid_map.h:save_state')]),
 ('C06', 'Cell occupancy follows its update model and stays a probability',
  'Every kind of cell combines valid observations by its documented rule (quality-weighted blend, running mean, hit ratio, or belief combination) and its occupancy stays in [0,1]. An invalid observation changes nothing and a cell is known exactly when it has been observed. A cloned cell equals its original and is independent of it.',
  'every sequence of observations with probabilities and qualities in [0,1]', 'Tests apply short fixed sequences; numerical range and bookkeeping hold over arbitrary histories.',
  ['src/core/maps/naive_grid_cells.h', 'src/core/maps/tbm_grid_cells.h', 'src/slams/gmapping/gmapping_grid_cell.h', 'src/slams/credibilist/grid_cell.h', 'src/core/maps/grid_cell.h'], [('cell updates', 'naive_grid_cells.h'), ('belief cells', 'tbm_grid_cells.h')]),
 ('C07', 'Belief masses stay a distribution and combine by the belief model rules',
  'Belief masses are non-negative and sum to one after every update and normalisation. Conjunctive and disjunctive combination give the products the transferable belief model prescribes, are commutative and have the vacuous belief as neutral element. Normalising a total conflict yields the vacuous belief.',
  'every pair of belief assignments', 'Tests combine a few beliefs; the algebra must hold for all masses.',
  ['src/core/maps/transferable_belief_model.h', 'src/core/maps/tbm_grid_cells.h'], [('belief algebra', 'transferable_belief_model.h')]),
 ('C08', 'Likelihoods are probabilities; a scan scores the weighted mean of its points',
  'The discrepancy between a cell and an observation, the impact of an observation and its likelihood over an area lie in [0,1] and follow the documented formula of each estimator. The likelihood of a scan is the weighted mean of its points\' likelihoods, depends only on the scan, pose and current map, and is reported as unknown when no point has weight. Scan filtering keeps exactly the usable points, in order and unchanged.',
  'every map content, pose, scan, weighting and estimator', 'Tests score a few scans on tiny maps; bounds, staleness and weighting mistakes depend on content and call history.',
  ['src/core/scan_matchers/weighted_mean_point_probability_spe.h', 'src/core/scan_matchers/occupancy_observation_probability.h', 'src/core/scan_matchers/observation_impact_estimators.h', 'src/slams/gmapping/gmapping_occupancy_observation_pe.h', 'src/core/scan_matchers/grid_scan_matcher.h'], [('scan likelihood', 'weighted_mean_point_probability_spe.h'), ('area likelihood', 'occupancy_observation_probability.h')]),
 ('C09', 'Beam-to-cell occupancy estimates are valid or explicitly invalid, and geometric',
  'A constant estimator returns exactly the configured occupied or empty occupancy. An area estimator returns either an invalid estimate or a probability in [0,1] with a quality in [0,1] that equals the area cut off by the beam relative to the cell. The estimate depends only on the beam, the cell and the hit flag, never on earlier calls.',
  'every beam, cell, hit flag and call history', 'Tests use one cell with chosen beams; ratios and history independence range over all geometries and sequences.',
  ['src/core/maps/area_occupancy_estimator.h', 'src/core/maps/const_occupancy_estimator.h'], [('area estimate', 'area_occupancy_estimator.h')]),
 ('C10', 'Enumerating the cells of a rectangle visits each covered cell exactly once',
  'Enumeration yields every grid cell the rectangle covers, each exactly once, and nothing else, in column order. An empty rectangle yields the cell that contains it, an unbounded one all cells of the map. Borders are included or excluded as requested.',
  'every rectangle, cell size and map size', 'Tests enumerate a few rectangles; off-by-one mistakes depend on alignment with the grid.',
  ['src/core/maps/grid_rasterization.h'], [('rasterised rectangle', 'grid_rasterization.h:GridRasterizedRectangle')]),
 ('C11', 'Rectangle geometry is exact: intersection, overlap, splitting and beam crossings',
  'The intersection of two rectangles is the set of their common points and the overlap is its relative area in [0,1], for any relative placement. Splitting, moving, shrinking and centring keep areas, sides and centres as documented. A beam crosses a rectangle only at points that lie on both the beam and the border, at most two.',
  'every pair of rectangles and every beam', 'Tests cover a few placements and skip some they know to fail; placements are continuous.',
  ['src/core/geometry_primitives.h'], [('rectangles', 'geometry_primitives.h:LightWeightRectangle'), ('crossings', 'geometry_primitives.h:Rectangle')]),
 ('C12', 'A scan matcher returns the best pose it examined, never worse than the start',
  'The returned correction added to the initial pose is a pose the matcher scored, its score is the returned probability, and for enumerating matchers no scored pose had a higher one. The initial pose itself is always scored, so the result is never worse than staying. Observers see every scored pose, and pose updates exactly when the best pose improves.',
  'every scan, map, scoring function and candidate sequence', 'Tests run matchers on a few smooth maps; the argmax and bookkeeping must hold for any score landscape.',
  ['src/core/scan_matchers/pose_enumeration_scan_matcher.h', 'src/core/scan_matchers/hcsm_fixed.h', 'src/core/scan_matchers/brute_force_scan_matcher.h', 'src/core/scan_matchers/hill_climbing_scan_matcher.h', 'src/core/scan_matchers/monte_carlo_scan_matcher.h', 'src/core/scan_matchers/no_action_scan_matcher.h'], [('candidate loop', 'pose_enumeration_scan_matcher.h:process_scan')]),
 ('C13', 'Pose enumeration terminates, covers its grid and restarts from scratch',
  'Exhaustive enumeration visits every grid pose of the configured ranges around the base pose and then ends. Adaptive enumerations shrink their step after a round without improvement and end after the configured number of failed rounds or tries. After a reset an enumeration behaves as a new one.',
  'every range, step, acceptance history and reuse', 'Tests enumerate once; reuse after reset and feedback sequences are unbounded histories.',
  ['src/core/scan_matchers/pose_enumerators.h', 'src/core/scan_matchers/brute_force_scan_matcher.h', 'src/core/scan_matchers/hill_climbing_scan_matcher.h', 'src/core/scan_matchers/monte_carlo_scan_matcher.h'], [('enumerators', 'pose_enumerators.h')]),
 ('C14', 'Coarse map levels bound the fine map from above, so pruned search loses nothing',
  'Each coarse cell of a multi-level map is at least as occupied (by the configured impact) as every observed fine cell beneath it, after any updates and growth. Branch-and-bound matching returns matches best bound first, splits ranges without losing part of them and discards only what a found exact match beats. The level chosen for a scale is the finest whose cells are at least that large, and the matcher leaves the map at the scale it found.',
  'every sequence of updates and expansions, every search window', 'Tests check a few updates; the bound must hold in every cell after every history or matches are silently lost.',
  ['src/core/maps/rescalable_caching_grid_map.h', 'src/core/scan_matchers/m3rsm_engine.h', 'src/core/scan_matchers/bf_multi_res_scan_matcher.h'], [('level maintenance', 'rescalable_caching_grid_map.h'), ('search', 'm3rsm_engine.h')]),
 ('C15', 'Integrating a scan touches exactly the cells its beams cross',
  'Integrating a scan marks as occupied evidence the cells at the usable end points (widened by the hole radius when configured) and as empty evidence the cells a beam crosses before its end, and changes no other cell. Every point goes through the configured quality, once. Beams longer than the usable range leave the map unchanged.',
  'every scan, pose, map and configuration', 'Tests integrate single beams; which cells are touched depends on geometry and blur settings.',
  ['src/core/maps/grid_map_scan_adders.h'], [('scan integration', 'grid_map_scan_adders.h')]),
 ('C16', 'A step applies odometry, then the matched correction, then maps the scan there',
  'Processing a scan moves the pose by the odometry increment, adds the matcher\'s correction for that pose, and only then integrates the scan at the corrected pose; observers are told the final pose and map. Pose arithmetic is component-wise and a difference added back restores the pose. No other part of the state changes.',
  'every odometry, correction, scan and observer set', 'Tests drive a few steps on fixed maps; order and arithmetic must hold for all values and histories.',
  ['src/core/states/single_state_hypothesis_laser_scan_grid_world.h', 'src/core/states/laser_scan_grid_world.h', 'src/core/states/robot_pose.h', 'src/core/states/world.h', 'src/core/states/state_data.h'], [('step', 'single_state_hypothesis_laser_scan_grid_world.h:handle_observation')]),
 ('C17', 'Resampling draws by weight, keeps the population and never mixes particles',
  'Weights are normalised to sum to one and never negative; the filter resamples exactly when the effective sample size is below half the population, gmapping only after enough travel. Each draw picks the particle whose cumulative weight interval contains the drawn number; the population size stays and a particle drawn again survives as a separate copy with its own map. Every particle gets every odometry and scan, weighs itself by the likelihood of the scan, and the reported one has the maximum weight.',
  'every weight vector, random draw and history', 'Tests use chosen weights with few particles; index arithmetic and copies depend on the draws.',
  ['src/core/particle_filter.h', 'src/slams/gmapping/gmapping_particle_filter.h', 'src/slams/gmapping/gmapping_world.h'], [('resampling', 'particle_filter.h')]),
 ('C18', 'Configuration values reach the component they name, with documented defaults',
  'Each setting the system reads is read under its documented name and sets exactly the parameter, component or model it names, in every system that is assembled from settings; a missing setting takes its documented default, and an unknown choice of a component stops the program. A settings file gives each `key=value` line its value: comments and lines without `=` give nothing, the last line of a key counts, a `<file>` line includes that file (relative to the including one), and a value that is set already (by a file read or included before) stays. Typed reads convert the stored text; a missing key gives the caller\'s default.',
  'every set of settings and every settings file', 'No test varies configuration text; swapped or misspelt keys are invisible without it.',
  ['src/utils/properties_providers.h', 'src/utils/init_slam.h', 'src/utils/init_scan_matching.h', 'src/utils/init_occupancy_mapping.h', 'src/slams/gmapping/init_gmapping.h', 'src/slams/credibilist/init_slam.h'], [('configuration', 'properties_providers.h'), ('wiring', 'init_scan_matching.h')]),
 ('C19', 'A dumped map image shows every cell once, at its place and brightness',
  'A map image has the width and height of the map, one pixel per cell, top row first, and brightness decreasing with occupancy. Patches and generated test worlds put each character at the cell it describes.',
  'every map size and content', 'Tests dump no maps; layout and range mistakes depend on content and size.',
  ['src/utils/map_dumpers.h', 'src/utils/data_generation/grid_map_patcher.h', 'src/utils/data_generation/map_primitives.h'], [('image dump', 'map_dumpers.h')]),
 ('C20', 'Scan geometry and direction statistics are consistent for all angles',
  'Cached trigonometry answers like the exact functions at its grid angles for any base rotation. Scan points keep range, angle, position and occupancy flag consistent under conversion and moving. A direction histogram counts every consecutive pair of points in exactly one bin, for every direction.',
  'every angle, rotation, scan', 'Tests check a few angles; boundary angles and rounding are not sampled.',
  ['src/core/trigonometry_utils.h', 'src/core/states/sensor_data.h', 'src/core/features/angle_histogram.h'], [('trigonometry', 'trigonometry_utils.h'), ('histogram', 'angle_histogram.h')]),
]
OVER = {'C03': ['inputs', 'histories'], 'C04': ['inputs', 'histories'], 'C06': ['inputs', 'histories'], 'C08': ['inputs', 'histories', 'configurations'], 'C09': ['inputs', 'histories'], 'C12': ['inputs', 'histories'],
        'C13': ['inputs', 'histories', 'configurations'], 'C14': ['inputs', 'histories'], 'C15': ['inputs', 'configurations'], 'C16': ['inputs', 'histories'], 'C17': ['inputs', 'histories'], 'C18': ['configurations']}
NA = {}
NOTE = {}
exec(open(os.path.join(HERE, 'tool', 'notes.py')).read()) if os.path.exists(os.path.join(HERE, 'tool', 'notes.py')) else None
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for i, t, s, q, w, files, mech in P:
        f.write(json.dumps({'id': i, 'title': t, 'statement': s, 'quantifier': {'over': OVER.get(i, ['inputs']), 'text': q}, 'why_tests_cant': w,
                            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': x} for n, x in mech]}}) + '\n')
checks, na = [], []
for i, *_ in P:
    if os.path.exists(os.path.join(HERE, 'refute', i + '.cpp')) and os.path.exists(os.path.join(HERE, 'specs', i + '.py')) and i not in NA:
        checks.append({'property': i, 'quick_cmd': f'python3-vt check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3-vt check.py {i}',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': 'contract-based deductive verification of the extracted C++ functions (SMT); counterexample replay on the real code',
                       'level': 'proof', 'level_note': NOTE.get(i, 'Every obligation generated from the current source is discharged for all inputs of the stated preconditions; double arithmetic is treated as exact reals with NaN/infinity kinds; the standard library is modelled. Runtime contract validation of the compiled code accompanies the proof and is bounded.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'contracts for this part are not written yet')})
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh .build/extract', 'hooks': {'guard': 'none', 'enable': 'no hooks: contracts live in /verif/specs and are attached to the functions extracted from /repo', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
for i, t, s, *_ in P:
    assert len(t) <= 80 and len(s.split('. ')) <= 3, (i, len(t))
