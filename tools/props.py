M = "src/core/maps/"
S = "src/core/scan_matchers/"
T = "src/core/states/"
PBT = "property-based testing: "

prop("M01", "A grid map never loses, moves, invents or mixes up cell contents",
  "After any sequence of cell updates, cell replacements and reads, every cell of a map holds exactly what its own writes produced and every other cell (also one outside of the allocated area of an unbounded map) is still unknown; this holds for every map kind (plain, unbounded plain, tiled, unbounded tiled and the rescalable wrapper at its finest level). Growing an unbounded map keeps the world position of every cell, never shrinks the extent and makes the written cell part of it, while reading or switching the zoom level changes nothing. A bounded map reports exactly the cells of its extent as available and an unbounded one reports all of them.",
  ["histories", "inputs", "configurations"],
  "all sequences of update/replace/read/zoom operations at any coordinates, all initial sizes and scales, all five map kinds",
  "Unit tests write a few chosen cells per map kind (one growth direction at a time); they cannot cover combinations of repeated growth in different directions, tile borders and initial sizes.",
  [M+"plain_grid_map.h", M+"lazy_tiled_grid_map.h", M+"rescalable_caching_grid_map.h", M+"grid_map.h", M+"regular_squares_grid.h"],
  [("growth of the plain map with relocation of rows", M+"plain_grid_map.h: UnboundedPlainGridMap::ensure_inside"),
   ("growth of the tiled map by whole tiles", M+"lazy_tiled_grid_map.h: UnboundedLazyTiledGridMap::ensure_inside"),
   ("origin offset between external and internal coordinates", M+"regular_squares_grid.h"),
   ("zoom levels", M+"rescalable_caching_grid_map.h")],
  "Random histories against a dictionary model with cells that remember every write; bounded by history length (40) and by the area of plain maps.",
  PBT + "model-based histories against a dictionary of cells")

prop("M02", "A copy of a tiled map is an independent snapshot",
  "Copying a tiled map yields a map with the same contents, and afterwards any updates, replacements or growth of either one are never visible in the other, also through chains and trees of copies and after some of the maps were destroyed or assigned over.",
  ["histories", "inputs"],
  "all sequences of copy/assign/destroy/update/replace operations over a family of maps that descend from one map",
  "Two existing tests write one cell of an original and of its copy; sharing of tiles and cells between copies goes wrong only after particular orders of copying, growing, destroying and writing.",
  [M+"lazy_tiled_grid_map.h"],
  [("copy-on-write of tiles and cells by use count", M+"lazy_tiled_grid_map.h: ensure_sole_owning")],
  "Random copy/write histories over up to 6 maps, each compared with its own dictionary model.",
  PBT + "model-based histories over families of copies")

prop("M03", "Saved map state restores the same map",
  "Loading a saved state into a fresh or already used map of the same kind gives a map with the same size, origin, scale and the same observable state of every cell, for every map kind that supports saving and every cell model. Subsequent updates and growth behave the same on the original and on the restored map, and restoring a multi-resolution map also restores every zoom level.",
  ["histories", "inputs", "configurations"],
  "all update histories before and after saving, all cell models, all map sizes, repeated save/load",
  "The two existing serialization tests save one fixed map with one mock cell and compare only occupancies, never what later updates do.",
  [M+"plain_grid_map.h", M+"rescalable_caching_grid_map.h", M+"grid_cell.h", M+"tbm_grid_cells.h", M+"naive_grid_cells.h", "src/core/serialization.h", "src/slams/credibilist/grid_cell.h", "src/slams/gmapping/gmapping_grid_cell.h"],
  [("map state layout", M+"plain_grid_map.h: save_state/load_state"),
   ("cell state layout", M+"grid_cell.h, tbm_grid_cells.h: serialize/deserialize"),
   ("per level chunks", M+"rescalable_caching_grid_map.h: save_state/load_state")],
  "Random histories, save, load, compare all cells, then apply the same random tail to both.",
  PBT + "round trip plus differential continuation")

prop("M04", "Coarse levels of the multi-resolution map bound the fine levels",
  "At any moment of any update history of the multi-resolution matching map, the obstacle impact stored in every coarse cell is at least the impact of every finest-level cell of the map it covers (unknown ones included, within the extent of the map), including after the map grew and got extra levels, and the map's own consistency check agrees. A coarse cell none of whose fine cells was observed is unknown.",
  ["histories", "inputs", "configurations"],
  "all sequences of updates/replacements at the finest level, values rising and falling, growth in any direction, both impact measures, all cell models, all map kinds below",
  "Existing tests fill a fixed-size map once with increasing values; growth with populated content and values that fall are never checked.",
  [S+"m3rsm_engine.h", M+"rescalable_caching_grid_map.h"],
  [("propagation of the maximum to coarser levels", S+"m3rsm_engine.h: update_coarser_maps"),
   ("insertion of levels on growth", M+"rescalable_caching_grid_map.h: ensure_map_cache_is_continuous")],
  "Random histories; after each step all coarse cells over touched areas (all cells at the end) are compared with a brute-force maximum over the finest level.",
  PBT + "invariant over model-based histories")

prop("G01", "Cell grid geometry partitions the plane",
  "Every world point belongs to exactly one cell, that cell's bounds contain the point, the centre of a cell maps back to that cell, and cells tile the plane without gaps or overlaps, for positive and negative coordinates, any scale and any map size. Internal storage coordinates and external cell coordinates are inverse translations of each other.",
  ["inputs", "configurations"],
  "all points (including negative, on and next to cell borders), all scales and map sizes",
  "Unit tests check a handful of points with scale 1 and do not look at negative coordinates close to borders.",
  [M+"regular_squares_grid.h", M+"grid_map.h"],
  [("floor based conversion", M+"regular_squares_grid.h: world_to_cell, cell_to_world, world_cell_bounds")],
  "Random points, scales and sizes against exact rational/long-double reference.",
  PBT + "algebraic laws and exact reference")

prop("G02", "Beams and areas are rasterised to exactly the cells they cross",
  "The cells of a segment start at the cell of its beginning, end at the cell of its end, form a chain of neighbouring cells without repetitions, contain every cell the segment properly crosses and contain no cell the segment stays clear of. An area is rasterised to exactly the cells that intersect it (with or without those it only touches by border, as requested), and a discrete line contains both ends and stays within half a cell of the ideal line.",
  ["inputs"],
  "all segments and rectangles in any direction and at any position relative to the grid, grid-aligned and degenerate ones included",
  "Unit tests enumerate fixed directions and lattice positions at scale 1; arbitrary slopes, corners and scales are unreachable for them.",
  [M+"regular_squares_grid.h", M+"grid_rasterization.h", "src/core/geometry_discrete_primitives.h"],
  [("modified 4-connected line", M+"regular_squares_grid.h: world_to_cells"),
   ("area iterator", M+"grid_rasterization.h"), ("Bresenham", "src/core/geometry_discrete_primitives.h")],
  "Random segments/rectangles against exact clipping in long double with a tolerance band at borders.",
  PBT + "exact geometric reference with tolerance band")

prop("G03", "Rectangle, segment and ray geometry is exact",
  "Intersection and overlap of two rectangles equal the exact set intersection and its share of the first one's area, splitting a rectangle partitions it, and moving or shrinking keeps sizes and centres as asked. Intersections of a segment or a line with a rectangle are exactly the points where it meets the border, each reported once and attributed to an edge it lies on.",
  ["inputs"],
  "all pairs of rectangles (crossing, nested, touching, disjoint, degenerate) and all segments/lines in general and special position",
  "Unit tests cover enumerated layouts; crossing rectangles are commented out in them as a known gap.",
  ["src/core/geometry_primitives.h", "src/core/math_utils.h"],
  [("rectangle intersection", "src/core/geometry_primitives.h: intersect/overlap"),
   ("edge by edge ray intersection", "src/core/geometry_primitives.h: find_intersections")],
  "Random and lattice rectangles and segments against exact min/max and clipping references.",
  PBT + "exact geometric reference, metamorphic symmetry")

prop("C01", "Cell occupancy models follow their rule and stay valid",
  "For every cell model and every sequence of valid observations the reported occupancy stays a number in [0, 1] after the first observation, the cell is known exactly after the first valid observation, and observations without a valid estimate change nothing. The affine model blends by quality, the averaging model yields the mean of the quality-weighted observations in any order, the hit-ratio model yields the mean over hits and misses with the mean hit position; the disagreement of a cell with an observation is always a number in [0, 1], and a copy behaves like the original but independently.",
  ["histories", "inputs", "configurations"],
  "all sequences of observations with occupancy, estimation quality and observation quality in [0, 1], all cell models",
  "There are no unit tests for the concrete cell models at all.",
  [M+"grid_cell.h", M+"naive_grid_cells.h", M+"tbm_grid_cells.h", "src/slams/gmapping/gmapping_grid_cell.h", "src/slams/credibilist/grid_cell.h", T+"state_data.h"],
  [("merge rules", M+"naive_grid_cells.h, tbm_grid_cells.h"), ("hit/miss counters", "src/slams/gmapping/gmapping_grid_cell.h")],
  "Random observation histories against independent reference formulas.",
  PBT + "reference model over observation histories")

prop("C02", "Belief-function algebra is sound",
  "Combining two belief assignments (conjunctively or disjunctively) gives an assignment of non-negative masses that sum to one and equals the combination rule over subsets; the operations are commutative, associative where no renormalisation intervenes, and the vacuous belief is neutral for the conjunctive one. Conflict normalisation removes exactly the conflict mass and keeps the other ratios, and normalisation of a zero assignment yields total ignorance; cells based on beliefs combine observations conjunctively and report an occupancy consistent with their masses.",
  ["inputs", "histories"],
  "all belief assignments (also degenerate and conflicting ones) and sequences of combinations",
  "No existing test touches the belief model.",
  [M+"transferable_belief_model.h", M+"tbm_grid_cells.h", "src/slams/credibilist/grid_cell.h", "src/slams/credibilist/TBM_prob_conversion.h"],
  [("combination by bitwise union/intersection of focal sets", M+"transferable_belief_model.h")],
  "Random assignments against an independently written combination table; algebraic laws.",
  PBT + "algebraic laws and reference combination table")

prop("C03", "Beam occupancy estimates are valid and geometrically right",
  "For any beam and any square cell the estimator never crashes and returns either the explicit 'no estimate' value or a probability and quality in [0, 1]; beams that do not reach the cell give no estimate, as does an obstacle that lies outside of the cell. For an obstacle inside the cell the area-based estimate equals the share of the cell behind the line through the obstacle perpendicular to the beam, for a free beam crossing the cell the quality equals the smaller share of the cell cut off by the beam, and the result depends only on the arguments: it is unchanged by moving, mirroring, turning or scaling beam and cell together and by earlier calls. The constant estimator returns the configured occupied/empty values.",
  ["inputs", "histories", "configurations"],
  "all beams (axis-aligned, along edges, through corners, degenerate) and cells anywhere in the plane, all base values",
  "Unit tests use one cell next to the origin with listed beams; position, scale and call history are never varied.",
  [M+"area_occupancy_estimator.h", M+"const_occupancy_estimator.h", M+"cell_occupancy_estimator.h"],
  [("beam classification and area split", M+"area_occupancy_estimator.h")],
  "Random beams/cells against polygon clipping in long double, and metamorphic relations, with a tolerance band around degenerate positions.",
  PBT + "polygon-clipping reference and metamorphic relations")

prop("I01", "Integrating a scan updates exactly the cells its beams cross",
  "Integrating a scan marks the cell of every in-range hit as occupied and every cell the beam passes before it as free with the beam's position and quality, and a miss marks all cells of the beam as free; cells not crossed by a used beam stay untouched. Beams longer than the usable range and the first and last points of the margin are ignored, wall blurring raises occupancy only in beam cells closer to the hit than the blur distance and falls off with distance, and the per-point quality is the scan quality times the point's own quality estimate. An empty scan changes nothing.",
  ["inputs", "histories", "configurations"],
  "all scans (hits, misses, any ranges/angles, with raw or cached trigonometry), poses, map scales and kinds, blur distances (fixed and range dependent), ranges, margins and quality estimators",
  "Unit tests integrate a single beam on a lattice in a few directions.",
  [M+"grid_map_scan_adders.h", M+"regular_squares_grid.h", T+"sensor_data.h"],
  [("per beam rendering", M+"grid_map_scan_adders.h: handle_scan_point"), ("margin, quality", M+"grid_map_scan_adders.h: append_scan")],
  "Random scans are integrated into a recording map; the exact list of updates is compared with an independently computed one.",
  PBT + "reference model of the update list")

prop("S01", "Scan points, scans and poses transform consistently",
  "A scan point describes the same place whatever representation it is held in: converting between polar and Cartesian form, moving the origin, rotating through any trigonometry source (direct or table based) and pre-rotating a whole scan agree with each other and with the rotation formula, and preserve order, hit flags and range. Writing a scan as text and reading it back restores every point up to the printed precision. Pose and pose-change arithmetic obeys add/subtract/negate laws.",
  ["inputs", "histories", "configurations"],
  "all points, angles and base rotations, all sensor angle tables (any min, max, increment), scans of any size, repeated table updates",
  "Unit tests check listed angles and one table.",
  [T+"sensor_data.h", "src/core/trigonometry_utils.h", T+"robot_pose.h"],
  [("point representations", T+"sensor_data.h"), ("angle addition with a table", "src/core/trigonometry_utils.h")],
  "Random points/scans/tables against the rotation formula; text round trip.",
  PBT + "differential and round trip")

prop("S02", "The direction histogram of a scan accounts for every point pair",
  "For any scan the histogram of directions between consecutive points counts every pair exactly once in the bin of its direction modulo a half turn, each point's value is the count of its own bin, and the reported major direction is the mean direction of a fullest bin. It never fails on any scan (walls parallel to an axis, repeated points, one or no points), does not depend on earlier scans, and reversing or mirroring a scan permutes the bins accordingly.",
  ["inputs", "histories", "configurations"],
  "all scans (including exactly or almost axis-parallel walls and repeated points), all resolutions, repeated use",
  "Unit tests compute the angle of a few lattice directions.",
  ["src/core/features/angle_histogram.h", S+"weighted_mean_point_probability_spe.h", M+"grid_map_scan_adders.h"],
  [("direction folding and binning", "src/core/features/angle_histogram.h")],
  "Random scans against a direct recount with a tolerance band at bin borders.",
  PBT + "reference recount and metamorphic relations")

prop("P01", "The score of a scan at a pose is a bounded weighted mean over its hits",
  "The score of a scan lies in [0, 1] and equals the weighted mean, over the scan points, of the agreement between an expected obstacle and the map at the point's world position, for each configured way to look at the map (the hit cell, the maximum, the mean, or the overlap-weighted mean over an area) and each weighting (even, viewing direction, rarity of direction). Filtering keeps exactly the hits that are in range, inside of the map and selected by the skip rate, in order; evaluating changes neither map nor scan, gives the same value when repeated, and does not change when scan, pose and map are moved by whole cells together. A score without any usable point is reported as unknown and recognised as such.",
  ["inputs", "histories", "configurations"],
  "all maps, scans, poses, analysis areas, weightings, skip rates, ranges and impact measures",
  "Unit tests check each way of looking at the map on one hand-made 100-cell map; weighting, filtering and unknown scores are not tested.",
  [S+"weighted_mean_point_probability_spe.h", S+"occupancy_observation_probability.h", S+"observation_impact_estimators.h", S+"grid_scan_matcher.h"],
  [("weighted mean and filtering", S+"weighted_mean_point_probability_spe.h"), ("area based estimators", S+"occupancy_observation_probability.h")],
  "Random maps/scans/poses against an independently written score; metamorphic translation.",
  PBT + "reference model and metamorphic relations")

prop("A01", "A scan matcher never returns a worse pose than it was given and reports honestly",
  "Every search-based matcher returns a score that is at least the score of the initial pose and equals the score of the pose it proposes, and the correction it returns is exactly that pose relative to the initial one; a matcher that performs no search proposes no correction. Matching leaves the map and the given scan unchanged. Subscribers of the matchers that enumerate poses (exhaustive, random and hill-climbing search) see every tested pose, each accepted pose with strictly rising scores, and a final report that matches the returned result, those of the multi-resolution matcher see the start and the final report; unsubscribed or vanished subscribers are not notified. The detector of ambiguous drift leaves the result alone unless one direction dominates the scan, corrects only along that direction to the place where the rest of the scan fits best, does not turn the robot and reports the score of the pose it proposes.",
  ["inputs", "histories", "configurations"],
  "all maps, scans, initial poses, matcher parameters and repeated use of one matcher",
  "Smoke tests start from the true pose or shifts in one synthetic scene and only look at the final correction.",
  [S+"pose_enumeration_scan_matcher.h", S+"hill_climbing_scan_matcher.h", S+"monte_carlo_scan_matcher.h", S+"brute_force_scan_matcher.h", S+"hcsm_fixed.h", S+"connect_the_dots_ambiguous_drift_detector.h", S+"no_action_scan_matcher.h", S+"grid_scan_matcher.h"],
  [("accept only better candidates", S+"pose_enumeration_scan_matcher.h: process_scan"), ("observer notifications", S+"grid_scan_matcher.h")],
  "Random worlds/scans/parameters; recorded notifications are checked against recomputed scores.",
  PBT + "invariant over recorded search histories")

prop("A02", "Each search strategy examines the candidates its settings promise",
  "The exhaustive matcher tests every pose of the configured lattice around the initial pose exactly once, including both ends of each range, tests nothing outside of the ranges, and returns a best one, also when it is used repeatedly from different poses. The random matcher stops at the configured numbers of attempts, and two equally seeded ones behave the same; the hill-climbing matcher probes all six axis directions around a fixed base in each round, halves its steps after each unsuccessful round and stops after the configured number of them; the fixed hill climbing stops where none of its six smallest steps scores better. Resetting or reusing a matcher makes the next search start from the newly given pose with the configured initial steps.",
  ["inputs", "histories", "configurations"],
  "all lattice ranges and steps (also steps that do not divide the range), attempt limits, seeds, step sizes and sequences of matches",
  "Smoke tests run one match per matcher object, so nothing that depends on reuse or on lattice limits is reached.",
  [S+"brute_force_scan_matcher.h", S+"pose_enumerators.h", S+"monte_carlo_scan_matcher.h", S+"hill_climbing_scan_matcher.h", S+"pose_enumeration_scan_matcher.h"],
  [("lattice enumeration", S+"brute_force_scan_matcher.h"), ("shrinking random search", S+"monte_carlo_scan_matcher.h"), ("failed round counter", S+"hill_climbing_scan_matcher.h")],
  "Generated settings and acceptance histories; the enumerated poses are compared with a reference enumeration.",
  PBT + "reference enumeration over acceptance histories")

prop("A03", "The multi-resolution matcher finds the best correction of its window",
  "For every map built by any update history, scan and initial pose, the multi-resolution matcher terminates, returns a correction inside the configured translation and rotation window whose score is what it reports, and no candidate of the search (every rotation of its lattice without a shift, the initial pose included, and the shifts it ends its subdivisions with) scores better than the result beyond the tolerance, as long as the scan stays inside of the extent of the map. The zoom level of the map is restored afterwards and the map is unchanged, and the result does not depend on matches done before. The search engine itself hands out ranges of poses in the order of falling upper bounds, for one or for several initial poses and maps at once, whether or not scans are turned beforehand; no pose of a range scores better than its bound, and whatever is kept back scores worse than the best single pose by more than the allowed difference.",
  ["inputs", "histories", "configurations"],
  "all multi-resolution maps, scans, poses, windows and accuracies",
  "Smoke tests use one cecum-like scene with fixed windows.",
  [S+"bf_multi_res_scan_matcher.h", S+"m3rsm_engine.h", M+"rescalable_caching_grid_map.h", S+"occupancy_observation_probability.h"],
  [("best-first search by upper bounds", S+"m3rsm_engine.h"), ("scale guard", M+"rescalable_caching_grid_map.h: SafeRescalableMap")],
  "Random worlds; the result is compared with an exhaustive lattice evaluation at the finest level.",
  PBT + "differential against exhaustive search")

prop("W01", "A single-hypothesis robot keeps pose, map and notifications consistent",
  "The pose always equals the sum of all odometry increments and all corrections found by matching, each scan is matched against the map built from the earlier scans and then integrated at the corrected pose, with the quality configured for corrected or for uncorrected scans depending on whether the matcher moved the pose. After every scan each live subscriber is told the current pose and map exactly once and in order of subscription, and vanished subscribers are skipped. Feeding the same inputs to two equally configured robots gives identical poses and maps.",
  ["histories", "inputs", "configurations"],
  "all sequences of odometry/scan inputs, (un)subscriptions, matcher behaviours, qualities and margins",
  "The world classes have no tests.",
  [T+"world.h", T+"laser_scan_grid_world.h", T+"single_state_hypothesis_laser_scan_grid_world.h"],
  [("predict, match, correct, integrate", T+"single_state_hypothesis_laser_scan_grid_world.h: handle_observation"), ("weak observers", T+"world.h")],
  "Random histories with a scripted matcher and recording map/adder against a reference trace; whole configured robots compared with twins.",
  PBT + "model-based histories with scripted collaborators")

prop("F01", "Particle weights and resampling follow the particle filter contract",
  "Particle weights are non-negative finite numbers that sum to one after every normalisation, whatever weights were assigned before (also all zero), and the number of particles never changes. Resampling happens exactly when the effective number of particles is below half of their number, keeps only particles that had weight, draws each particle in proportion to its weight, and gives duplicates that are independent copies; the heaviest particle reported is one of maximal weight.",
  ["histories", "inputs"],
  "all weight vectors and sequences of weight changes, normalisations and resamplings, all random streams",
  "The particle filter has no tests.",
  ["src/core/particle_filter.h"],
  [("effective sample size rule", "src/core/particle_filter.h: resampling_is_required"), ("inverse-CDF draws", "src/core/particle_filter.h: resample"), ("normalisation", "src/core/particle_filter.h: normalize_weights")],
  "Random histories with a controlled random source; drawn indices are compared with the CDF, and frequencies with a binomial bound.",
  PBT + "model-based histories with a controlled random source")

prop("F02", "Grid-mapping particles are consistent and independent hypotheses",
  "In the particle-filter mapper each particle's pose is the odometry path rotated into its own frame plus its own corrections, each particle matches and extends only its own map, and scans are skipped by a particle only while it has travelled less than its sampled limits. Resampling waits until the robot has travelled far enough since the last time. Weights stay finite and normalised over any history (also when no particle sees any match), exactly one undisturbed master particle exists, and pose and map reported to the user are those of a heaviest particle. The agreement of a hit with a map cell neighbourhood depends only on the current map and hit position.",
  ["histories", "inputs", "configurations"],
  "all sequences of odometry and scans (also empty scans), all particle numbers, noise and limit settings, all random streams",
  "The mapper has no tests.",
  ["src/slams/gmapping/gmapping_world.h", "src/slams/gmapping/gmapping_particle_filter.h", "src/slams/gmapping/gmapping_occupancy_observation_pe.h", "src/slams/gmapping/init_gmapping.h"],
  [("per particle update", "src/slams/gmapping/gmapping_world.h"), ("filter step", "src/slams/gmapping/gmapping_particle_filter.h")],
  "Random histories with a scripted matcher, and end-to-end runs with the real one.",
  PBT + "model-based histories with scripted collaborators")

prop("K01", "Configuration files mean what they say",
  "A configuration file is read as 'key=value' lines (both taken as they are) with comments and blank lines ignored and with included files resolved relative to the including file, at any nesting; a value that is present is returned converted to the asked type and an absent one gives the default. Every component selector chooses exactly the named component or refuses an unknown name, and every documented parameter reaches the component it configures.",
  ["inputs", "configurations"],
  "all property sets and file layouts (nesting, spacing, comments) and all documented parameters with arbitrary values",
  "There are no tests of configuration reading; the shipped configurations use one value per parameter.",
  ["src/utils/properties_providers.h", "src/utils/init_scan_matching.h", "src/utils/init_occupancy_mapping.h", "src/utils/init_slam.h", "src/slams/gmapping/init_gmapping.h", "README.md"],
  [("file parsing", "src/utils/properties_providers.h"), ("factories", "src/utils/init_scan_matching.h, init_occupancy_mapping.h")],
  "Generated file trees against a reference parser; each parameter is observed through the behaviour of the built component.",
  PBT + "reference parser and behavioural probing of built components")

prop("D01", "Generated test scenes and scans agree with each other",
  "A text picture is drawn into a map so that each marked character occupies exactly its scaled block of cells at the given offset and nothing else changes; the built-in scenes have the advertised size, walls and openings. A synthetic scan of a map has one point per angle of the sensor that hits something within range, each hit lies in (or on the border of) an occupied cell, no occupied cell blocks the beam before it, the order follows the sensor's angles, and the scan at a pose depends only on map and pose.",
  ["inputs", "configurations"],
  "all text pictures, scales and offsets, scene sizes, sensors (range, field of view, number of points), poses and maps",
  "Unit tests use fixed pictures and sensors with 90/180/270/360 degree fields of view at lattice poses.",
  ["src/utils/data_generation/grid_map_patcher.h", "src/utils/data_generation/map_primitives.h", "src/utils/data_generation/laser_scan_generator.h"],
  [("rasterisation of text", "src/utils/data_generation/grid_map_patcher.h"), ("ray casting", "src/utils/data_generation/laser_scan_generator.h")],
  "Random pictures/maps/sensors against direct references.",
  PBT + "reference model")

prop("D02", "Dumped pictures and stored states decode to what was dumped",
  "The picture file written for a map has the map's dimensions and one grey level per cell such that occupied is dark, free is bright and unknown lies between, with rows from top to bottom of the map, for every map kind, zoom level and content; the numbered pictures of one dumper never overwrite each other. The text of a scan reads back as the same scan. The offline matching tool reports, for a stored configuration, pose, map and scan, the correction and probability that the configured matcher finds for them, and refuses to run without one of the files; the search space tool runs to its end and leaves decodable pictures.",
  ["inputs", "configurations", "histories"],
  "all maps and contents, all sequences of dumps, all scans, all configurations of the matcher with stored poses, maps and scans",
  "The dumpers and the tools have no tests.",
  ["src/utils/map_dumpers.h", "src/utils/sm_runner.cpp", "src/utils/pose2D_search_space_evaluator.cpp", "src/core/states/sensor_data.h"],
  [("PGM writer", "src/utils/map_dumpers.h"), ("text of a scan", "src/core/states/sensor_data.h"), ("offline matching", "src/utils/sm_runner.cpp")],
  "Random maps are dumped into a scratch folder and decoded by an independent reader; the tools' main functions are run on generated files and compared with the matcher built from the same configuration.",
  PBT + "round trips through an independent decoder, differential run of the offline tool")

prop("E01", "Configured robots run end to end on any scan stream",
  "A robot built from any combination of the documented map, cell, estimator, scorer and matcher settings processes any stream of odometry and scans without crashing or hanging, and always reports a finite pose and occupancies that are numbers in [0, 1] (or the unknown value of the cell model). With exact odometry a robot that does not match scans is exactly where it believes to be, one that matches stays within a few cells of the truth on most walks through a room that does not move; cells that beams passed well before any wall are mapped as more free than occupied, and (with the constant estimator) cells where a beam ended and no other came close as more occupied than free. Runs with the same inputs and seeds are identical.",
  ["histories", "inputs", "configurations"],
  "all documented configurations, random rooms and paths, degenerate scans (empty, all misses, repeated points, zero ranges)",
  "No existing test builds a configured robot.",
  ["src/utils/init_slam.h", "src/utils/init_scan_matching.h", "src/utils/init_occupancy_mapping.h", "src/slams/credibilist/init_slam.h", "src/slams/gmapping/init_gmapping.h", T+"single_state_hypothesis_laser_scan_grid_world.h"],
  [("component factories", "src/utils/init_slam.h"), ("SLAM step", T+"single_state_hypothesis_laser_scan_grid_world.h")],
  "Random configurations and worlds, end to end under sanitizers.",
  PBT + "end-to-end generated configurations and worlds")

prop("R01", "Sensor messages and published maps are converted faithfully",
  "A laser message is converted to a scan with one point per usable reading at its own angle, readings below the sensor's minimum are dropped and those at or above its maximum become free-space points at the maximum range, with the odometry change between consecutive messages attached. A published occupancy grid has the map's geometry and, in row order, each cell's occupancy in percent or the unknown value, and the published pose is the world pose. Pose corrections published at any moment, also from the background thread, compose with the odometry to the last pose, dumped trajectories read back, and the mapping nodes publish exactly the poses and maps of the robot their parameters describe.",
  ["inputs", "histories", "configurations"],
  "all laser messages (any angles, ranges including infinities and NaN), sequences of odometry poses, all maps",
  "The message adapters are not even compiled by the test build.",
  ["src/ros/laser_scan_observer.h", "src/ros/occupancy_grid_publisher.h"],
  [("message to scan", "src/ros/laser_scan_observer.h"), ("map to message", "src/ros/occupancy_grid_publisher.h")],
  "The adapters are compiled against stub message headers kept in /verif and driven with random messages.",
  PBT + "reference conversion over generated messages")

prop("R02", "Recordings are replayed completely, launch settings mean the same as in files",
  "Replaying a bag hands over every scan whose place is covered by the recorded transforms exactly once, in order and with the transform interpolated at its own time, whatever the order transforms and scans were recorded in; scans older than all transforms are dropped without losing others, ignored transforms and other topics have no effect. The replay program honours its arguments, its trajectory and map are those of the robot it configured, and a dumped state reads back. Parameters given to a node as text, number or flag have the value a properties file would give them, unset ones their documented defaults. The dataset adapter relays every transform except map corrections, which it replaces by the first one, and the path node publishes every place it has seen.",
  ["inputs", "histories", "configurations"],
  "all recordings (interleavings of scans and transforms with any lag), argument lists, parameter sets, transform streams",
  "None of the ROS programs is compiled by the test build.",
  ["src/ros/bag_topic_with_transform.h", "src/ros/lslam2D_bag_runner.cpp", "src/ros/launch_properties_provider.h", "src/ros/init_utils.h", "src/ros/wg_pr2_bag_adapter.cpp", "src/ros/path_publisher.cpp"],
  [("bag replay", "src/ros/bag_topic_with_transform.h"), ("replay program", "src/ros/lslam2D_bag_runner.cpp"), ("launch parameters", "src/ros/launch_properties_provider.h")],
  "The programs themselves are compiled against stand-ins of ROS kept in /verif (message types, tf with interpolation and its exceptions, bags, parameters) and driven with random recordings and settings.",
  PBT + "reference replay over generated recordings; differential test of parameter providers")
