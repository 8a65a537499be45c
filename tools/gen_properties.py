#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
C = 'src/core/'
M = C + 'maps/'
S = C + 'scan_matchers/'

p('C01', 'Grid maps remember exactly what was written to every cell',
  'For every grid map kind (plain, unbounded plain, lazy tiled, unbounded lazy tiled, and the finest level of the rescalable map) and every history of cell updates, resets and reads, reading a cell returns the result of exactly the writes made at those coordinates since the map was made, and every never-written cell reads as an unknown cell. '
  'When an unbounded map grows to take in a coordinate, all previously written content stays at the same external coordinates, the new coordinate is inside the map, and reads never change anything.',
  ['histories', 'inputs'],
  'all sequences of update/reset/read operations over coordinates inside, on the border of and outside the current map (negative and positive, growing on each side), up to a depth, for all map kinds and several initial sizes',
  'map tests write a few fixed cells and grow each map once; which earlier write is lost depends on the order and direction of the growths',
  [M+'plain_grid_map.h', M+'lazy_tiled_grid_map.h', M+'rescalable_caching_grid_map.h', M+'grid_map.h', M+'regular_squares_grid.h'],
  [('expand-on-write', M+'plain_grid_map.h UnboundedPlainGridMap::ensure_inside'), ('tile table growth', M+'lazy_tiled_grid_map.h UnboundedLazyTiledGridMap::ensure_inside'), ('internal/external coordinate translation', M+'regular_squares_grid.h')],
  [('_cells / _tiles', 'cell storage', M), ('_origin', 'offset of external (0,0)', M+'plain_grid_map.h')], ['operator[]', 'update', 'reset', 'has_cell', 'width/height/origin'])

p('C02', 'Copies of a map are independent of each other',
  'After a copyable (tiled) map is copied, by construction or by assignment, the copy and the original each read as what they held at that moment plus their own later writes: an update, reset or growth on any of them is never visible through another, over any number of copies of copies. '
  'The order in which the copies are written, grown or destroyed does not matter.',
  ['histories'],
  'all interleavings of copy-construct, assign, update, reset and destroy over up to three map instances sharing storage, over cells in the same tile, different tiles and grown areas',
  'tests copy a map once; sharing of lazily allocated tiles between three instances only shows after particular copy/write/destroy orders',
  [M+'lazy_tiled_grid_map.h', M+'plain_grid_map.h', M+'grid_cell.h'],
  [('copy-on-write of shared tiles', M+'lazy_tiled_grid_map.h LazyTiledGridMap::update'), ('deep copy of rows', M+'plain_grid_map.h')],
  [('Tile shared_ptr use_count', 'whether a tile must be cloned before a write', M+'lazy_tiled_grid_map.h')], ['operator[] on each instance'])

p('C03', 'Saving and loading a map or cell loses nothing',
  'Loading a saved state into a freshly made map of the same kind (or a saved cell into a new cell of the same kind) gives an object that reads the same everywhere: same size, origin, cell occupancies and unknown flags. '
  'It also reacts the same way to every later write, so a saved-and-restored object and the original never diverge.',
  ['histories'],
  'all write histories up to a depth, then save/load, then all continuations up to a depth, for every cell kind and every map kind that supports saving',
  'tests save one fixed map with stateless cells; state that only influences later updates is invisible right after loading',
  [C+'serialization.h', M+'plain_grid_map.h', M+'grid_cell.h', M+'tbm_grid_cells.h', M+'naive_grid_cells.h', 'src/slams/gmapping/gmapping_grid_cell.h', 'src/slams/credibilist/grid_cell.h'],
  [('Serializer/Deserializer', C+'serialization.h'), ('serialize/deserialize of cells', M+'grid_cell.h')], (), ['save_state', 'load_state', 'serialize', 'deserialize'])

p('C04', 'Cell evidence fusion keeps a valid, order-correct occupancy estimate',
  'For every cell kind and every sequence of observations (occupied, empty, unknown, invalid, any quality in [0,1]), the occupancy read from the cell is always a probability in [0,1] (or the unknown value before any evidence), equals the documented fusion rule applied to the accepted observations, and an observation that carries no occupancy information leaves the estimate unchanged. '
  'A cell counts as unknown exactly until its first accepted observation, its discrepancy with another observation lies in [0,1], and copies or clones of a cell evolve independently.',
  ['histories', 'inputs'],
  'all observation sequences up to a depth over an alphabet of occupancies x qualities x obstacle points that includes 0, 1, NaN and repeated values, for every cell kind',
  'tests drive each cell through one or two observations; a wrong fusion state needs a particular mix of observations to show',
  [M+'grid_cell.h', M+'naive_grid_cells.h', M+'tbm_grid_cells.h', 'src/slams/gmapping/gmapping_grid_cell.h', 'src/slams/credibilist/grid_cell.h'],
  [('operator+=', M+'naive_grid_cells.h'), ('TBM combination per cell', M+'tbm_grid_cells.h'), ('hit/try counting', 'src/slams/gmapping/gmapping_grid_cell.h')], (), ['occupancy()', 'is_unknown()', 'discrepancy()'])

p('C05', 'Belief-mass algebra of the credibilist model is sound',
  'Belief masses stay non-negative and sum to one under every combination of beliefs; conjunctive and disjunctive combination are commutative and associative, the vacuous belief is the neutral element of the conjunctive one, the conflict is exactly the mass of contradicting evidence, and normalisation redistributes it proportionally (total conflict becomes the vacuous belief). '
  'Converting an occupancy with a quality to a belief and back is monotone in the occupancy and never leaves [0,1].',
  ['inputs', 'histories'],
  'all ordered triples of beliefs on a lattice of the mass simplex, and all combination sequences up to a depth',
  'tests check single hand-computed combinations; algebraic laws quantify over all operands',
  [M+'transferable_belief_model.h', M+'tbm_grid_cells.h', 'src/slams/credibilist/TBM_prob_conversion.h'],
  [('conjunctive/Dempster combination', M+'transferable_belief_model.h')], (), ['conjunctive', 'dempster', 'normalize'])

p('C06', 'A beam visits exactly the chain of cells it crosses',
  'The cells reported for a world segment start at the cell holding its beginning and end at the cell holding its end, each next cell is a neighbour of the previous one, no cell repeats, and every reported cell lies on the segment to within one cell; moving a segment by whole cells moves the result accordingly. '
  'This holds for all slopes, lengths (including a single cell) and quadrants, at every map scale, and cell/world conversions are mutually inverse.',
  ['inputs'],
  'all pairs of integer end cells in a window, and all pairs of points of a sub-cell lattice, for several scales and origins',
  'tests list a handful of segments; rasterization errors depend on particular slopes and sub-cell offsets',
  [C+'geometry_discrete_primitives.h', M+'regular_squares_grid.h', M+'grid_rasterization.h'],
  [('discrete segment', C+'geometry_discrete_primitives.h DiscreteSegment2D'), ('grid walk', M+'regular_squares_grid.h world_to_cells')], (), ['world_to_cells', 'world_to_cell', 'cell_to_world', 'world_cell_bounds'])

p('C07', 'A rectangle is rasterized to exactly the cells it overlaps',
  'Iterating over the cells of a world rectangle yields each cell that the rectangle covers exactly once and no cell it does not touch; the option that excludes borders yields only the cells whose interior it overlaps, and an infinite rectangle means the whole map. '
  'Degenerate rectangles (points and lines) yield every cell they pass through.',
  ['inputs'],
  'all axis-aligned rectangles with corners on a sub-cell lattice around a map, including degenerate ones, several scales, bounded and unbounded maps, with and without borders',
  'tests use fewer than ten rectangles',
  [M+'grid_rasterization.h', M+'regular_squares_grid.h', M+'rescalable_caching_grid_map.h'],
  [('GridRasterizedRectangle', M+'grid_rasterization.h')], (), ['next', 'has_next', 'is_empty'])

p('C08', 'Rectangle intersection, overlap and splitting are geometrically exact',
  'The intersection of two axis-aligned rectangles is their common area, is commutative, is contained in both and is empty exactly when they share no area; the overlap ratio equals shared area over own area and lies in [0,1]. '
  'Splitting a rectangle in four yields disjoint-interior parts that together cover it exactly, with sides, corners, centre and containment tests agreeing with the bounds. A line or a segment that does not run along an edge is reported to cross the border of a rectangle exactly at the points they share (a corner counts once), each on the side it lies on.',
  ['inputs'],
  'all pairs of rectangles with corners on a lattice, all split points and sides, and all lines and segments between lattice points around a rectangle',
  'tests enumerate a few mutual placements and mark the cross-shaped and degenerate ones as not supported',
  [C+'geometry_primitives.h', C+'geometry_utils.h', C+'math_utils.h'],
  [('LightWeightRectangle::intersect/overlap/shrink', C+'geometry_primitives.h')], (), ['intersect', 'overlap', 'split4_evenly', 'contains', 'corners'])

p('C09', 'Beam-in-cell occupancy estimate matches the exact geometry',
  'For a beam and a cell, the occupancy estimated for the cell is the documented function of how the beam splits the cell\'s area, with its quality: the area behind the obstacle counts as occupied, a beam that only passes through or only touches the cell gives the empty estimate, and a beam missing the cell gives no estimate. '
  'The result depends only on the relative position of beam and cell: not on where in the world they are, on the cells estimated before, or on whether the same picture is mirrored or turned by quarter turns.',
  ['inputs', 'histories'],
  'all beams between points of a sub-cell lattice around a cell, at several cell positions and sizes, and all orders of two consecutive estimates',
  'tests place the cell in one position only, and every estimate is made by a fresh estimator',
  [M+'area_occupancy_estimator.h', M+'const_occupancy_estimator.h', M+'cell_occupancy_estimator.h', C+'geometry_primitives.h'],
  [('AreaOccupancyEstimator::estimate_occupancy', M+'area_occupancy_estimator.h')], (), ['estimate_occupancy'])

p('C10', 'Adding a scan writes exactly the evidence of its beams',
  'Adding a scan to a map updates exactly the cells its usable beams cross: the end cell of a beam that hit an obstacle gets occupied evidence and every other crossed cell gets empty evidence with the scan quality, while beams shorter than the configured blur and range rules allow are treated as those rules say. '
  'Points excluded by the margin, beyond the usable range or carrying no hit contribute no occupied evidence, cells not crossed by any beam are untouched, and the result equals that of adding the same beams one by one.',
  ['inputs', 'configurations'],
  'all scans of up to three points over a lattice of ranges, bearings, occupancy flags, poses, margins, max ranges and blur distances',
  'tests add single axis-aligned beams with fixed settings',
  [M+'grid_map_scan_adders.h'],
  [('WallDistanceBlurringScanAdder::handle_scan_point', M+'grid_map_scan_adders.h'), ('GridMapScanAdder::append_scan', M+'grid_map_scan_adders.h')], (), ['append_scan', 'append_point'])

p('C11', 'Coarse map levels always bound the fine cells they cover',
  'In a multi-resolution map, after every history of updates and growth, at every scale level the value of a coarse cell is at least as optimistic for matching as every known finest-level cell inside it. '
  'Changing the viewed scale never changes content, a requested scale selects the finest level that is not finer than it, and every finest cell is covered by a cell of each level.',
  ['histories'],
  'all sequences of update, reset, growth and rescale operations up to a depth, checking every coarse/fine cell pair in every state',
  'tests write a few cells in a fixed-size map; the bound is broken by particular orders of growth and writes',
  [M+'rescalable_caching_grid_map.h', S+'m3rsm_engine.h', S+'observation_impact_estimators.h'],
  [('propagation to coarser levels', M+'rescalable_caching_grid_map.h RescalableCachingGridMap::update/on_area_update')], (), ['rescale', 'update', 'reset', 'scale_id', 'operator[]'])

p('C12', 'Branch-and-bound matching finds the best pose of its search lattice',
  'The multi-resolution matcher returns a correction whose score equals the maximum over every translation and rotation it could have produced at its finest accuracy inside the search window, that is, pruning never discards the optimum. '
  'The correction lies inside the configured window, matching leaves the map content and its selected scale unchanged, and repeated matching of the same input gives the same answer; a scan without usable obstacle points leaves the pose as it is and has an unknown score, and a pose that scores best already is not turned.',
  ['inputs', 'configurations'],
  'all small occupancy patterns x small scans x window sizes on a small map, compared with exhaustive search over the lattice',
  'tests match a few crafted scenes and assert a known displacement',
  [S+'m3rsm_engine.h', S+'bf_multi_res_scan_matcher.h', M+'rescalable_caching_grid_map.h'],
  [('best-first branching over upper bounds', S+'m3rsm_engine.h')], (), ['process_scan'])

p('C13', 'Search matchers return the best pose they tried, never worse than the start',
  'A pose-enumerating matcher (brute force, hill climbing, Monte Carlo) returns the score of a pose it really evaluated, none of the evaluated poses scores higher, the reported correction applied to the start pose gives that pose, and without improvement the correction is zero; the fixed-step hill climber is never worse than its start and, like the drift detector, reports the score of the pose it returns. '
  'Subscribed observers of a pose-enumerating matcher see the start pose first, then every tested pose with its score and every improvement in order, then exactly one final result equal to the returned one; brute force evaluates exactly the poses of its configured window around the pose given in that very call, whatever was matched before.',
  ['inputs', 'histories', 'configurations'],
  'all score landscapes assigned by an adversarial scoring function to evaluated poses (all answer sequences over a small alphabet up to a depth), two consecutive calls, and a set of windows and steps',
  'tests use smooth real landscapes and a fresh matcher, so ties, plateaus, zero or worsening scores and second calls are not reached',
  [S+'pose_enumeration_scan_matcher.h', S+'brute_force_scan_matcher.h', S+'pose_enumerators.h', S+'grid_scan_matcher.h', S+'hill_climbing_scan_matcher.h', S+'hcsm_fixed.h', S+'monte_carlo_scan_matcher.h', S+'connect_the_dots_ambiguous_drift_detector.h'],
  [('PoseEnumerationScanMatcher::process_scan', S+'pose_enumeration_scan_matcher.h')], (), ['process_scan', 'GridScanMatcherObserver callbacks'])

p('C14', 'Hill climbing and Monte Carlo searches terminate within their budgets',
  'Whatever scores the poses get, hill climbing stops once the configured number of its rounds failed (at most one more pose is tested), tries both directions of each coordinate once per round, around the best pose known when the round began, with the current steps, and halves its steps exactly after a round without improvement. '
  'Monte Carlo never tests more poses than its attempt budget, stops after the configured number of failures since its spread was last set, halves its spread and restarts that count on an improvement that came after more than a third of the allowed failures, and with one seed gives the same sequence in every run; re-using a matcher for another scan starts from fresh counters and spreads.',
  ['inputs', 'histories', 'configurations'],
  'all sequences of improve/no-improve answers up to a depth, for all small budgets, over two consecutive scans',
  'tests let real scores drive the search; the budget corner cases need chosen answer sequences',
  [S+'hill_climbing_scan_matcher.h', S+'monte_carlo_scan_matcher.h', C+'random_utils.h'],
  [('FailedRoundsLimitedPoseEnumerator', S+'hill_climbing_scan_matcher.h'), ('GaussianPoseEnumerator', S+'monte_carlo_scan_matcher.h')], (), ['has_next', 'next', 'feedback', 'process_scan'])

p('C15', 'Scan score is the weighted mean of its points\' matches, in [0,1]',
  'The probability given to a scan at a pose is the weighted mean over its filtered points of how well each point, moved to the world by that pose, agrees with the map; it lies in [0,1], and it is the unknown value, recognised as such, exactly when no point is usable. Weights are those of the configured scheme (even, viny, angle-histogram reciprocal) and scaling all of them equally changes nothing. '
  'Point filtering keeps, unaltered and in order, exactly the obstacle points inside the map and the usable range whose index is selected by the skip rate; the score does not depend on scans scored before nor, with the even and viny schemes, on the order of the points.',
  ['inputs', 'configurations', 'histories'],
  'all scans of up to three points over an alphabet x all match values x poses x weighting and filter settings x previously scored scans x map changes in between',
  'tests check one scan per setting',
  [S+'weighted_mean_point_probability_spe.h', S+'grid_scan_matcher.h'],
  [('WeightedMeanPointProbabilitySPE::estimate_scan_probability', S+'weighted_mean_point_probability_spe.h')], (), ['estimate_scan_probability', 'filter_scan'])

p('C16', 'Point observation probabilities follow their documented rule',
  'For each observation estimator the value given to an observed area is its documented function of the map: the match of the hit cell (obstacle), the maximum, the mean, or the overlap-weighted mean of the matches of the cells the area covers; for GMapping the best match of the observed obstacle position with those of the sufficiently full cells in the window around the hit cell. It lies in [0,1] whenever the cells do. '
  'The value depends only on the current map content and the given observation, never on earlier queries.',
  ['inputs', 'histories'],
  'all small map contents x observed areas on a sub-cell lattice x histories of queries with map changes, other maps and other obstacle positions in between',
  'tests query a fresh estimator once per map',
  [S+'occupancy_observation_probability.h', S+'observation_impact_estimators.h', 'src/slams/gmapping/gmapping_occupancy_observation_pe.h', 'src/slams/gmapping/gmapping_grid_cell.h'],
  [('ObstacleBased/MaxOccupancy/MeanOccupancy/OverlapWeighted OOPE', S+'occupancy_observation_probability.h')], (), ['probability'])

p('C17', 'Cached trigonometry equals direct trigonometry over the scan\'s angles',
  'A trigonometry cache set up for an angle range that ends behind the last beam and a positive increment gives, for every beam angle of a scan in that range and any base rotation, the same sine and cosine as computing them directly, up to rounding. '
  'This still holds after the cache is updated again with another range or increment, in any order with turning it, and the cache never reads outside its table.',
  ['inputs', 'histories'],
  'all sequences of up to three range updates from a set of ranges and increments (including single-precision laser messages), all beam indices, a set of base angles including negative and more than one turn',
  'tests check one range per provider',
  [C+'trigonometry_utils.h', C+'states/sensor_data.h'],
  [('CachedTrigonometryProvider', C+'trigonometry_utils.h')], (), ['sin', 'cos', 'set_base_angle', 'update'])

p('C18', 'Scan points and poses keep their geometry through all conversions',
  'Converting scan points between polar and Cartesian form, moving them to the world and back, and composing, inverting or accumulating pose changes preserve their geometry: range, bearing, occupancy and factor are kept, a round trip is the identity, and two ways of composing the same motions agree. '
  'Converting a whole scan keeps the number, order and payload of its points whatever was converted before, and the points of a scan written to text read back the same up to the printed precision.',
  ['inputs'],
  'all points of a polar lattice in all quadrants with all payload combinations x all poses of a lattice, and all scans of up to two of them for text and whole-scan conversions',
  'tests use a few right-angle examples',
  [C+'states/sensor_data.h', C+'states/robot_pose.h', C+'math_utils.h'],
  [('ScanPoint2D conversions', C+'states/sensor_data.h'), ('RobotPose/RobotPoseDelta algebra', C+'states/robot_pose.h')], (), ['to_cartesian', 'to_polar', 'move_origin', 'operator<<', 'operator>>'])

p('C19', 'The angle histogram counts every consecutive direction exactly once',
  'For any scan the histogram has one count for each consecutive pair of scan points that form a direction, in the bin of that direction (directions that differ by half a turn are the same), and a point\'s own value is that of its bin (for the first point, which has no direction, the number of points); the main and minor bins and their mean directions are those of the counts. '
  'It is defined for every scan, including horizontal and vertical walls, duplicate points and empty scans, and resetting for a new scan leaves nothing of the old one.',
  ['inputs', 'histories'],
  'all scans of up to four points over a coordinate lattice, straight walls in all directions of a fine fan, bin resolutions, and all pairs of consecutive scans from a subset',
  'tests use scans with a few ideal wall angles',
  [C+'features/angle_histogram.h', C+'states/sensor_data.h'],
  [('AngleHistogram::reset', C+'features/angle_histogram.h')], (), ['operator[]', 'value', 'max_i', 'min_i', 'mean_bin_angle'])

p('C20', 'Configuration files are read exactly as written',
  'A property takes the value written for it in the configuration file (name=value, one per line, taken literally), converted to the asked-for type, or the caller\'s default when it is not given; comment lines (starting with #), blank and malformed lines never change a value, and (acyclically) included files, named relative to the including file, contribute their properties. '
  'Within a file the last assignment of a property wins; a value already known when a file is appended (an earlier appended file, an earlier set_property) is kept, and the assignments of an included file win over those of the file that includes it wherever the include stands.',
  ['inputs', 'configurations'],
  'all small configuration files composed of up to four lines over an alphabet of assignments, comments, blanks and includes, each value kind and each conversion',
  'tests parse a couple of fixed texts',
  ['src/utils/properties_providers.h'],
  [('FilePropertiesProvider::append_file_content', 'src/utils/properties_providers.h')], (), ['get_str', 'get_int', 'get_uint', 'get_dbl', 'get_bool'])

p('C21', 'A configuration builds exactly the components it names',
  'Building maps, cells, occupancy and score estimators, matchers and scan adders from a configuration yields objects with exactly the configured kind and parameters (the documented keys, each reaching its own parameter, with its documented default when absent). '
  'A value the documentation does not list is rejected, never silently replaced, no key influences a component it does not name, a randomized component reports the seed that reproduces it when none is configured, and the configuration files shipped with the project name complete SLAMs that can be built.',
  ['configurations'],
  'all combinations of documented kinds per component with each parameter set to distinguishable values and each key present or absent, judged by the behaviour of the built object',
  'factories are not unit-tested at all',
  ['src/utils/init_occupancy_mapping.h', 'src/utils/init_scan_matching.h', 'src/utils/init_slam.h', 'src/slams/gmapping/init_gmapping.h', 'src/slams/credibilist/init_slam.h'],
  [('init_* factories', 'src/utils/')], (), ['properties of the built objects'])

p('C22', 'A SLAM step moves the pose by odometry plus the matcher\'s correction',
  'For every history of scans, a single-hypothesis SLAM world ends each step at the previous pose moved by the scan\'s odometry and then by the correction its matcher returned, and adds the scan to its map at that pose with the quality for the case (correction found or not). '
  'Every subscribed live observer is notified exactly once per step with the final pose and map, in order, and unsubscribed or destroyed observers never are.',
  ['histories'],
  'all histories of up to four steps with all matcher answers (no correction, corrections) and odometry from a small set, and all subscribe/unsubscribe/destroy/scan interleavings up to a depth',
  'tests exercise no full SLAM step with chosen matcher answers',
  [C+'states/single_state_hypothesis_laser_scan_grid_world.h', C+'states/laser_scan_grid_world.h', C+'states/world.h', C+'states/state_data.h'],
  [('handle_observation', C+'states/single_state_hypothesis_laser_scan_grid_world.h'), ('observer notification', C+'states/world.h')], (), ['pose', 'handle_sensor_data', 'observers'])

p('C23', 'Particle filter keeps a valid weighted population',
  'After every step the number of particles is unchanged, all weights are finite and non-negative and, once normalised, sum to one; resampling happens exactly when the effective number of particles is below half of them (the particle-filter SLAM additionally waits until the robot has moved far enough since the last resampling), picks only particles with positive weight and in proportion to their weights, and the survivors keep their state and, up to normalisation, weight. '
  'Particles selected more than once become distinct objects, exactly one particle is the master, and the reported best particle has the greatest weight.',
  ['histories', 'inputs'],
  'all weight vectors over a small alphabet (including zeros, equal and tiny weights) for up to four particles, all random draws on a grid, and histories of several steps',
  'tests resample fixed vectors with one seed',
  [C+'particle_filter.h', 'src/slams/gmapping/gmapping_particle_filter.h', C+'random_utils.h'],
  [('UniformResamling', C+'particle_filter.h'), ('ParticleFilter::normalize_weights/try_resample', C+'particle_filter.h')], (), ['particles', 'heaviest_particle', 'weights'])

p('C24', 'Each GMapping particle carries its own pose, weight and map',
  'Every hypothesis of the particle-filter SLAM maps only the scans it processed, at its own poses: what one particle writes to its map is never visible in another particle\'s map, and a particle copied by resampling starts from its source\'s pose, weight and map and then evolves alone. '
  'All particles receive every odometry and scan, and the published pose and map are those of the best particle.',
  ['histories'],
  'all histories of up to four odometry/scan steps with two or three particles and forced resampling outcomes, comparing each particle with a stand-alone reference',
  'the particle-filter SLAM world has no test',
  ['src/slams/gmapping/gmapping_world.h', 'src/slams/gmapping/gmapping_particle_filter.h', 'src/slams/gmapping/init_gmapping.h', C+'particle_filter.h'],
  [('GmappingWorld copy/clone', 'src/slams/gmapping/gmapping_world.h')], (), ['world()', 'map()', 'pose()'])

p('C25', 'Map dumps show every cell of the map at its place',
  'The image written for a map has the map\'s dimensions and one pixel per cell, the top row showing the cells of greatest y and the left column those of least x, whose shade goes linearly from white for free to black for occupied cells, with unknown cells (occupancy -1) shown mid-grey. '
  'This holds for every map kind, size and origin, and successive dumps never overwrite one another.',
  ['inputs', 'histories'],
  'all small map contents over an alphabet of occupancies for all small sizes and map kinds, and sequences of dumps',
  'dumpers are not unit-tested',
  ['src/utils/map_dumpers.h'], [('GridMapToPgmDumper', 'src/utils/map_dumpers.h')], (), ['written PGM file'])

p('C26', 'Generated scans report the first obstacle along each ray',
  'A generated scan has one ray per configured direction, and a ray reports an obstacle exactly when some occupied cell lies on it within range, at the middle of its passage through the first such cell (at the robot itself when it stands inside of an obstacle); rays that meet none report nothing. '
  'The scan does not alter the map and is the same whenever it is generated again from the same pose.',
  ['inputs', 'configurations'],
  'all small maps with up to three occupied cells x poses x ray counts x fields of view and ranges',
  'tests use a few maps with one obstacle',
  ['src/utils/data_generation/laser_scan_generator.h', M+'regular_squares_grid.h'],
  [('LaserScanGenerator::laser_scan_2D', 'src/utils/data_generation/laser_scan_generator.h')], (), ['laser_scan_2D'])

p('C27', 'Map primitives are stamped onto a map exactly where asked',
  'Text rasters and generated primitives applied to a map set exactly the cells their shape covers at the given offset, scaled by whole factors, with the given occupancy, leave all others untouched, and consecutive applications combine as the sequence of their writes. '
  'Every generated shape has the requested size.',
  ['inputs', 'histories'],
  'all small rasters over the alphabet x offsets x scale factors x consecutive applications; all primitive sizes in a range',
  'tests apply a few rasters',
  ['src/utils/data_generation/grid_map_patcher.h', 'src/utils/data_generation/map_primitives.h'],
  [('GridMapPatcher::apply_text_raster', 'src/utils/data_generation/grid_map_patcher.h')], (), ['map content after apply'])

R = 'src/ros/'
p('C28', 'A laser message becomes a scan of exactly its usable readings',
  'A laser message reaches the SLAM as one scan that holds, in order, one point per usable reading, at the bearing of its beam and at the reading\'s range: readings below the minimal range and invalid ones are left out, and readings at or beyond the maximal range become free points at the maximal range or, when so configured, are left out as well. '
  'The points land at the same world positions whether trigonometry is cached or not and whatever the shapes of earlier messages, and every scan carries the motion of the odometry since the previous message.',
  ['inputs', 'histories', 'configurations'],
  'all messages of up to four readings over an alphabet of borders, infinities, NaN and ordinary values, laser geometries of real devices, both policies for exceeding readings, with and without cached trigonometry, and all histories of up to five messages and odometry poses',
  'the ROS layer has no tests and is not even compiled by them',
  [R+'laser_scan_observer.h', 'src/core/trigonometry_utils.h', 'src/core/states/sensor_data.h'],
  [('LaserScanObserver::msg2scan / handle_transformed_msg', R+'laser_scan_observer.h')], [('_prev_pose', 'odometry pose of the previous message', R+'laser_scan_observer.h')], ['scan handed to the SLAM'])

p('C29', 'A recorded log yields every localizable scan once, in order, at its moment',
  'Replaying a log hands out each recorded scan whose moment lies within the recorded transforms exactly once, in the order of recording, with its own stamp and the transform between odometry and laser at that very moment; scans that the log cannot localize are skipped, and the replay always ends. '
  'This holds for every order in which scans and transforms were recorded, and neither other topics nor transforms on the configured ignore list make a difference.',
  ['histories', 'inputs', 'configurations'],
  'all interleavings of streams of up to six scans and eight transforms (or two chained streams of transforms) with every subset of them missing, with foreign topics, and with ignored transforms; all ignore lists of up to four entries',
  'the log reader has no tests; whether a scan is delivered depends on where in the log its transforms happen to be',
  [R+'bag_topic_with_transform.h', R+'init_utils.h'],
  [('BagTopicWithTransform::extract_next_msg', R+'bag_topic_with_transform.h'), ('tf_ignored_transforms', R+'init_utils.h')], (), ['extract_next_msg', 'msg', 'transform', 'timestamp'])

p('C30', 'Published maps, poses and transforms describe the world of the SLAM',
  'A published occupancy grid has the size, resolution and origin of the map and one value per cell, the occupancy in percent or -1 for an unknown cell, and is published at most once per configured period; a published robot pose is the pose of the SLAM; and the correction published between map and odometry, composed with the odometry of the handled scan, leads to exactly that pose, whichever thread publishes it and however the threads interleave. '
  'A trajectory file holds one line per logged pose with its time to the microsecond and the pose, in the order of logging.',
  ['schedules', 'histories', 'inputs'],
  'all maps of up to 5x4 cells with every written cell, growing and non-growing, all publishing times; all histories of poses and odometry; every interleaving (up to four preemptions, thorough up to seven) of the publishing thread with the SLAM thread; all short trajectories',
  'the ROS layer has no tests, and a data race shows in particular interleavings only',
  [R+'occupancy_grid_publisher.h', R+'pose_correction_tf_publisher.h', R+'robot_pose_observers.h'],
  [('OccupancyGridPublisher::on_map_update', R+'occupancy_grid_publisher.h'), ('PoseCorrectionTfPublisher', R+'pose_correction_tf_publisher.h'), ('RobotPoseTumTrajectoryDumper', R+'robot_pose_observers.h')], [('_map2odom', 'correction shared with the publishing thread', R+'pose_correction_tf_publisher.h')], ['published messages and transforms', 'trajectory file'])

p('C31', 'Launched programs feed every scan to the SLAM and publish its answers',
  'A node, configured by launch parameters in any of their forms or by a file (whose values win), gives every scan whose transform is known, in order and once it is known, to the configured SLAM, and publishes after each of them the pose and the correction of that SLAM in the configured frames, and the map at the configured rate; the log runner writes exactly the poses and the map that the configured SLAM computes from the log, for every order of its options, and refuses a wrong number of arguments. '
  'Every live subscriber of a scan topic gets each such scan once, and the correction goes on being published while no scan comes when so configured. The path publisher publishes, at every tick, the path extended by the current place of the robot.',
  ['histories', 'configurations'],
  'all arrival orders of up to four scans and five transforms, each under every single deviation from the default configuration, for the three SLAM nodes; all logs of three scans and up to four transforms under all combinations of options; all parameter kinds, forms and values; all paths of up to four ticks',
  'the programs themselves are never run by the tests, which do not even compile them without ROS',
  [R+'single_hypoth_slam_node.cpp', 'src/slams/gmapping/gmapping.cpp', 'src/slams/credibilist/slam.cpp', R+'lslam2D_bag_runner.cpp', R+'path_publisher.cpp', R+'launch_properties_provider.h', R+'init_utils.h', R+'topic_with_transform.h'],
  [('main', R+'single_hypoth_slam_node.cpp'), ('main / ProgramArgs', R+'lslam2D_bag_runner.cpp'), ('LaunchPropertiesProvider', R+'launch_properties_provider.h')], (), ['published messages and transforms', 'written files'])

p('C32', 'The command-line tools do what the library does',
  'The scan matching tool prints the pose correction and the probability that the configured scan matcher finds for the pose, the map dump and the scan of the given files, and ends with an error code, without a result, when the number of arguments is wrong or a file cannot be read. '
  'The bag adapter forwards every transform unchanged and in order, except that each recorded map-to-odometry correction is replaced by the first one received, renamed to lead from /provided_map to /map; it republishes the last grid received in the frame provided_map. '
  'The search space evaluator dumps, for every pose tested, its score in the cell of that pose; the console view shows the cells around a point, the upper row first, by their occupancy.',
  ['inputs', 'histories', 'configurations'],
  'all combinations of matcher, map kind, option, scan, pose and map content of small alphabets; all wrong argument counts and missing files; all sequences of three (thorough four) messages of the adapter over eight kinds; all small obstacle patterns and views',
  'no test runs the programs; most of their behaviour depends on the combination of several files or on the history of messages',
  ['src/utils/sm_runner.cpp', R+'wg_pr2_bag_adapter.cpp', 'src/utils/pose2D_search_space_evaluator.cpp', 'src/utils/console_view.h'],
  [('main', 'src/utils/sm_runner.cpp'), ('on_tf_msg / on_gt_grid', R+'wg_pr2_bag_adapter.cpp'), ('run_evaluation', 'src/utils/pose2D_search_space_evaluator.cpp'), ('show_grid_map', 'src/utils/console_view.h')], (), ['standard output and exit code', 'published messages and transforms', 'dumped files'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
