"""Every property: its text (properties.jsonl), and how it is decided (MANIFEST, run.py)."""

TECH = "bounded exhaustive model checking of the real code: "
NOTE = ("Every execution inside the stated bounds is run on the library compiled from the working tree (asserts on, "
        "AddressSanitizer and UBSan unless noted) and compared with an independent reference model; nothing is claimed outside the bounds. "
        "Trusts the compiler, the reference model and the harness. ")


def P(title, statement, over, qtext, why, files, mech, src, bounds, tech, note="", **kw):
    if kw.get("tsan"):
        note = "Instead of the sanitizers, accesses to shared memory are instrumented and reported to the scheduler. " + note
    return dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, src=src, bounds=bounds, tech=TECH + tech, note=NOTE + note, **kw)


S = "planner/src/"
PROPS = {
    "C01": P(
        "The search frontier always behaves as a priority-ordered set",
        "After any sequence of insertions, removals, extractions and clears, the frontier contains exactly the elements inserted and not yet removed, each at most once, in priority order. "
        "The top (and the element extracted) is always one of highest priority, lookups by identity find exactly the stored elements, and inserting an element equal to a stored one is refused and changes nothing.",
        ["histories", "inputs"],
        "every history of operations, every priority assignment (ties and infinite priorities included), every ordering and hash function",
        "The test pushes and pops a handful of integers once; the binary searches and the set/vector agreement must hold for every history, with ties, collisions and re-insertions.",
        [S + "utils/frontier.h"],
        [dict(name="sorted vector kept in step with a hash set", where=S + "utils/frontier.h")],
        ["h_frontier.cpp"],
        "all Push/Remove/Pop/Clear sequences up to length 6 (thorough 8) over 3-4 identities x 2-3 priorities, two comparators, colliding and non-colliding hashes; all insertion orders of 5-7 elements with removal, re-insertion and drain; all sequences of 4 (5) operations over 7 priorities that differ by as little or as much as possible; structured frontiers of 21-41 and of 530 (2100) elements, refilled; all sequences of 4 (6) operations with comparison, hash and equality objects that have a state; frontiers of 1 to 130 elements with such objects, emptied in 4 ways and refilled twice",
        "explicit-state search over all operation sequences, each step compared with a reference ordered set",
        lib=False, libs=[]),
    "C02": P(
        "A* returns a minimum-cost path exactly when one exists",
        "For every weighted graph with non-negative costs, A* with a consistent heuristic succeeds exactly when the goal can be reached, and then returns a chain of transitions (with their actions) from the initial state to the goal whose cost is minimal and equals the reported cost; in tree search an admissible heuristic is enough. "
        "A search that fails reports an empty path and an infinite cost, and the result never depends on earlier searches made with the same planner. "
        "In graph search no state is expanded more than once.",
        ["inputs", "histories", "configurations"],
        "every graph, initial and goal state, consistent heuristic (plain, combined or adapted), order of successors, equality and hash of states, and every history of searches on one planner",
        "The test runs one search on one obstacle-free grid and only looks at the two ends of the path; optimality and completeness quantify over all graphs, heuristics and histories.",
        [S + "algo/a_star.h", S + "utils/frontier.h", S + "utils/node.h"],
        [dict(name="frontier/explored bookkeeping and shortcut replacement", where=S + "algo/a_star.h")],
        ["h_astar.cpp"],
        "all digraphs with 3 states and weights {none,0,1,3} (self loops included), all digraphs with 4 states and weights {none,1,3} (thorough also {none,1,2,5}), 5-state edge subsets, parallel edges; two searches per planner; all 6-step histories of initialise/search calls; 864 (thorough 16128) graphs of 8 to 90 states of a parametrised family with four magnitudes of weights, 12 searches with one planner; 120 (444) graphs of 300, 700 and 6000 states with paths and frontiers of hundreds of states and costs beyond single precision; histories that initialise one planner with two problems in turn; tree searches to all sequences of goals with one planner and combined, nested or adapted heuristics",
        "enumeration of all small weighted graphs and all call histories, compared with Bellman-Ford"),
    "C03": P(
        "Grid A* finds a shortest legal path on every occupancy grid",
        "On every occupancy grid, the planar A* search from a free cell succeeds exactly when the goal can be reached by legal moves, and returns a path of minimum cost made only of legal moves: to one of the eight neighbouring cells inside the grid, never into an occupied cell, and never diagonally between two occupied cells. "
        "Neighbourhood queries return exactly the cells of the grid that touch a cell.",
        ["inputs", "configurations"],
        "every grid size, occupancy, initial and goal cell, movement cost and admissible heuristic",
        "No unit test runs the grid planner; the python test uses one map. Moves at borders, corners and between diagonal obstacles only show on particular grids.",
        [S + "algo/a_star_n2.cpp", S + "algo/a_star_n2.h", S + "utils/grid.cpp", S + "algo/a_star.h"],
        [dict(name="successor generation of grid cells", where=S + "algo/a_star_n2.cpp"), dict(name="neighbour enumeration", where=S + "utils/grid.cpp")],
        ["h_gridastar.cpp"],
        "all occupancies of 3x3, 2x5, 5x2, 1x6, 3x4 (thorough 4x4) grids with all start/goal pairs, three cost/heuristic pairs; 9x7 mazes with all combinations of three walls and gaps; 192 (720) maps of up to 1400 cells of a parametrised family; maps of several obstacles that change twice between searches of one planner (73728 combinations)",
        "enumeration of all small occupancy grids, compared with Dijkstra over the legal moves"),
    "C04": P(
        "Bidirectional A* is as optimal and complete as A*",
        "For every graph with non-negative costs, bidirectional A* with a consistent pair of heuristics (or the average pair it builds) succeeds exactly when the goal is reachable, and returns a chain of transitions from the initial state to the goal, visiting the meeting state once, whose cost is minimal and equals the reported cost. "
        "A search that fails reports an empty path and infinite cost, whatever was searched before with the same planner.",
        ["inputs", "histories", "configurations"],
        "every graph, initial and goal state, consistent heuristic pair, and history of searches on one planner",
        "No test exercises the bidirectional search at all.",
        [S + "algo/bidirectional_a_star.h", S + "algo/a_star.h"],
        [dict(name="meeting-point bookkeeping and stopping criterion", where=S + "algo/bidirectional_a_star.h"), dict(name="average heuristic pair", where=S + "algo/bidirectional_a_star.h")],
        ["h_biastar.cpp"],
        "all undirected graphs with 5 states and weights {none,1,4}, all digraphs with 4 states and weights {none,1,3}, 6 heuristic pairs, two searches per planner; all acyclic, undirected and mixed graphs with 4 states, weights {none,1,3}, with every consistent pair of forward and reverse heuristics over {0,1,3,4} (thorough 0..5); all acyclic graphs with 5 states with consistent heuristics over {0,2,4}; all 3x3, 2x5, 3x4 (thorough 4x4) occupancy grids; all 5-step call histories; 1728 (32256) graphs of 8 to 60 states of a parametrised family with four magnitudes of weights, 12 searches with one planner; 120 (444) graphs of 300, 700 and 6000 states with costs beyond single precision; histories with two problems and averaged pairs in turn",
        "enumeration of all small weighted graphs and grids, compared with Bellman-Ford/Dijkstra"),
}

PROPS["C08"] = P(
    "Reeds-Shepp connections reach the goal, as short and cheap as possible",
    "For every pair of poses and turning radius, the Reeds-Shepp solver returns finite, non-negative motions that lead exactly from the start to the goal, whose length is minimal over the Reeds-Shepp words and equals both the reported length and the reported shortest distance. "
    "For every set of cost multipliers and gear-switch cost, the optimal path reaches the goal too, its cost is that of its motions, and no Reeds-Shepp word is cheaper.",
    ["inputs", "configurations"],
    "every start and goal pose (aligned, coincident and tiny displacements included), turning radius and cost parameters",
    "The test evaluates fixed pairs of poses; the minimum is over 48 words whose validity regions partition the whole configuration space.",
    [S + "geometry/reeds_shepp.cpp", S + "geometry/reeds_shepp.h", S + "paths/path_reeds_shepp.cpp"],
    [dict(name="families of words and their transforms", where=S + "geometry/reeds_shepp.cpp"), dict(name="cost of a segment", where=S + "geometry/reeds_shepp.h")],
    ["h_reedsshepp.cpp"],
    "lattice of 45x45 positions x 40 headings (thorough 81x81x96), all aligned goals of a 9x9x8 lattice from 6 start poses and 3 radii, 9^3 tiny displacements, 36 x 20 (96 x 48) directions and headings at 8 ranges from 0.3 to 1000 radii with 4 radii from 0.03 to 75, 7056 goals a little off the aligned ones, 44064 (thorough 489600) goals around the distances where words appear and vanish; 9 cost parameter sets each",
    "enumeration of a lattice of start/goal pairs, each compared with an independent implementation of the 48 words followed by simulation",
    "Costs are not compared with words that contain a zero-length or half-circle motion (their membership depends on rounding). ")
PROPS["C09"] = P(
    "Paths interpolate, truncate and join consistently, cusps included",
    "Every path (straight, arc, Reeds-Shepp, composite) starts at its initial state at ratio 0, ends at its final state at ratio 1, and in between moves continuously, proportionally to its length and never turning more sharply than its turning radius. "
    "Truncating it (even repeatedly) gives exactly the part of the original path up to the ratio, with the matching length and final state; appending pieces keeps what precedes. "
    "The direction reported at a ratio is the direction of the motion there, and the cusp points are exactly the ratios where it changes.",
    ["inputs", "histories"],
    "every path of every kind, ratio, sequence of pieces, and history of truncations and additions",
    "The tests check a few ratios of a few paths; direction and cusp bookkeeping only breaks for particular words, ratios and sequences of pieces.",
    [S + "paths/path.h", S + "paths/path_se2.cpp", S + "paths/path_constant_steer.cpp", S + "paths/path_reeds_shepp.cpp", S + "paths/path_composite.h", S + "paths/path_r2.h"],
    [dict(name="cumulated lengths of the pieces", where=S + "paths/path_composite.h"), dict(name="interpolation and cusp points of a Reeds-Shepp path", where=S + "paths/path_reeds_shepp.cpp")],
    ["h_paths.cpp"],
    "all straight paths between 16x16 positions, arcs over headings/steerings/lengths/directions, Reeds-Shepp paths to a 9x9x8 lattice (thorough 15x15x16) with two radii, all composite paths of up to 3 of 8 pieces, all Reeds-Shepp paths of up to 3 (4) given motions, those of no length included; 9 truncation ratios, each path sampled at 97 ratios",
    "enumeration of all paths of a lattice and all sequences of pieces, truncations and additions, checked against laws evaluated on the motion itself")
PROPS["C10"] = P(
    "Pose algebra and the bicycle model are exact and reversible",
    "Composition and difference of poses form a group (associative, the default pose is neutral, difference inverts composition) and always yield headings in [-pi, pi]; equal poses have equal hashes. "
    "Driving with constant steering is exactly the rigid motion of a bicycle: it composes over distances, driving back returns to the start, and steering angle and turning radius correspond.",
    ["inputs"],
    "every pose and pair of poses, every heading, steering angle, distance, direction and geometry of the vehicle",
    "No test covers the pose operators; the model is tested on a few motions only.",
    [S + "geometry/2dplane.h", S + "utils/maths.h", S + "models/kinematic_bicycle_model.cpp"],
    [dict(name="pose operators and wrapping", where=S + "geometry/2dplane.h"), dict(name="constant steering", where=S + "models/kinematic_bicycle_model.cpp")],
    ["h_pose.cpp"],
    "all pairs of 336 poses (x 6 third poses), all pairs of 126 headings within four turns, 4001 angles (thorough 20001), 256 memory fills for default poses, 2 x 3 vehicles x 14 headings x 13 steerings x 5 distances x 2 directions",
    "enumeration of a lattice of poses and motions, compared with closed forms")
PROPS["C11"] = P(
    "The occupancy map is the union of the obstacles present, whatever the history",
    "After any history of adding, moving and removing obstacles and of moving or resizing the map, a cell is occupied exactly when an obstacle present covers it (with its pose when it was added, or when the map last changed), each cell carries the identifier of one of these obstacles, different obstacles have different identifiers, adding twice or removing an absent obstacle is refused, and the number of obstacles is right. "
    "After an update the distances are those to these cells.",
    ["histories", "inputs"],
    "every history of additions, removals and moves of overlapping obstacles and of the map itself",
    "The test adds one obstacle; sharing of cells between obstacles and the reuse of identifiers need histories.",
    [S + "state_validator/obstacle_list_occupancy_map.cpp", S + "state_validator/obstacle_list_occupancy_map.h", S + "state_validator/occupancy_map.cpp", S + "state_validator/obstacle.cpp"],
    [dict(name="identifiers and cells of the obstacles", where=S + "state_validator/obstacle_list_occupancy_map.cpp")],
    ["h_obstacles.cpp"],
    "all sequences of 5-6 (thorough 6-7) operations over 3-4 overlapping obstacles with 2 poses, 4 map positions and 2 map sizes, on maps of 5x5 to 8x7 cells; histories of a map that moves and changes size by less than a cell; 24 long histories of 24 and 300 obstacles on a 36x42 map; 18 histories of up to 600 obstacles apart from each other",
    "enumeration of all operation histories, compared with a set-of-cells model after every step")
PROPS["C12"] = P(
    "Distance to the nearest obstacle is right after any history of updates",
    "After any history of setting and unsetting obstacle cells followed by an update, every cell reports a present obstacle as its nearest one, at exactly the distance of that obstacle, and no present obstacle is closer (within the small error of 8-neighbour propagation on larger maps); with no obstacle the distance is unbounded and no cell is reported.",
    ["histories", "inputs"],
    "every grid size and history of set/unset/update calls",
    "The incremental raise/lower propagation depends on the whole history; the test checks one map.",
    [S + "state_validator/gvd.cpp", S + "state_validator/gvd.h"],
    [dict(name="raise and lower waves of the brushfire queue", where=S + "state_validator/gvd.cpp")],
    ["h_distmap.cpp"],
    "all 5-step (thorough 6) histories on 3x3, all initial maps of 4x4, 3x5, 2x4, 1x8 followed by 1-3 (4) toggles, all pairs of cells of 9x11 and 13x16 maps (thorough 16x19, all triples of 9x11) added and removed; 48 (192) histories of crowded maps of 840 cells; 288 histories of long maps of up to 1000 (3000) cells; obstacles moved within one update on 3x4 (3x5), 9x11 and 13x16 maps",
    "enumeration of all set/unset/update histories of small maps, compared with brute-force distances")
PROPS["C14"] = P(
    "World, local and grid frames of a map always agree",
    "After any history of positioning and sizing the map, the grid covers the requested size, the cell of a position is the one whose square contains it (positions outside of the map are never given a cell of the map, on any side), the origin of each cell and the local/world translations match, the conversions are inverse of one another, and inside-the-map queries agree with them.",
    ["inputs", "histories"],
    "every map position, size, resolution, order of calls and point (inside, outside, on every side)",
    "The test converts a few points of one map.",
    [S + "state_validator/occupancy_map.cpp", S + "state_validator/occupancy_map.h"],
    [dict(name="frame conversions", where=S + "state_validator/occupancy_map.cpp")],
    ["h_convert.cpp"],
    "all sequences of 3 (thorough 4) position/size calls over 5 resolutions, sizes of the same number of cells included; all sizes from 1 to 5 (8) cells, half cells and just above or below a cell; positions exactly on the borders of cells of 192 maps; 128 maps of up to 17000 cells of 0.02 to 12.5 up to 1e5 away from the origin; 9 points of each cell of the map and of a 3-cell margin",
    "enumeration of all call histories and of a lattice of points, compared with the closed form")
PROPS["C15"] = P(
    "The cells of an obstacle outline it without gap or excess",
    "For every shape and pose, the cells marked by an obstacle are inside the map and next to its true outline, every point of the outline inside the map is covered, and the outline is closed: no legal grid move leads from outside to inside of the obstacle. "
    "The vertices are those of the shape placed at its pose, a circle contains the disc of its radius, a composite shape is the union of its parts.",
    ["inputs"],
    "every shape, pose (partly or entirely outside of the map included), map resolution and position",
    "The tests draw one shape; gaps in a rasterised line only show for particular slopes and offsets.",
    [S + "state_validator/obstacle.cpp", S + "state_validator/obstacle.h"],
    [dict(name="line drawing between grid cells", where=S + "state_validator/obstacle.cpp")],
    ["h_raster.cpp"],
    "10 shapes x 2 resolutions x 64 offsets x 48 headings (thorough 256 x 120), 10 shapes x 169 positions x 24 (72) headings across the border, all segments between cells of a 9x9 map, all rectangles aligned with the grid across the border of a 5x4 map (exact cells), shapes of 0.004 to 90000 cells on a 150x137 map, 4320 (17280) composites of up to 40 parts, nested or not, regular polygons and circles of 3-16, 31, 64, 100 and 200 vertices",
    "enumeration of a lattice of shapes and poses, compared with exact geometry and a flood fill")
PROPS["C16"] = P(
    "Validated states and paths keep their clearance and stay in bounds",
    "A state is valid exactly when it is inside the bounds around the map and its cell is at least the safe radius away from every occupied cell. "
    "A path declared valid has valid ends and nowhere leaves the bounds or comes closer to an obstacle than the safe radius, up to the interpolation step and the size of a cell; a path declared invalid has an invalid state; and the last valid ratio (or state) reported delimits a part of the path that is valid in the same sense. The verdict does not depend on which of these is asked for.",
    ["inputs", "configurations"],
    "every map, obstacle, safe radius, interpolation step, state and path",
    "The tests validate a few states and paths of one map.",
    [S + "state_validator/state_validator_occupancy_map.cpp", S + "state_validator/state_validator_occupancy_map.h", S + "state_validator/state_validator.h", S + "state_validator/state_validator_free.h", S + "state_space/state_space.h"],
    [dict(name="steps along the path bounded by the clearance", where=S + "state_validator/state_validator_occupancy_map.cpp")],
    ["h_validator.cpp"],
    "states of a lattice for all single (thorough all pairs of) occupied cells, 6 radii, 3 map positions; 288 straight paths x 13 obstacle sets x 6 parameters x 2 map positions; 768 arcs and Reeds-Shepp paths x 17 obstacle sets x 4 parameters x 2 map positions; straight paths passing an obstacle at every lateral offset, with a safe radius of up to 30 cells; 1120 (17920) paths that graze a safe radius of 100 cells; 34560 paths much shorter than a step, across each border of cells; 86016 arcs that leave the bounds and return, 6 map positions",
    "enumeration of a lattice of states and paths over all placements of obstacles, compared with dense sampling against the occupied cells")
PROPS["C05"] = P(
    "Trees keep their structure and know their nearest nodes",
    "After any sequence of adding, removing, replacing and re-parenting nodes, parents, ordered children, siblings, depths, ancestor/descendant queries and traversals describe one and the same forest, without lost, duplicated or leaked nodes. "
    "A search tree contains each state at most once, extending it to a known state returns the node of that state and to a new one adds it under the given node (or its nearest), and the nearest node(s) of a state are always those of smallest Euclidean distance, for any tree and after clearing or rebuilding it; an empty tree has none.",
    ["histories", "inputs"],
    "every sequence of operations on nodes and trees, every set of states (close, collinear, repeated) and query",
    "The tests build one small tree by hand; pointer bookkeeping and the k-d tree must agree after every history.",
    [S + "utils/node.h", S + "utils/tree.h"],
    [dict(name="sibling links and ownership", where=S + "utils/node.h"), dict(name="k-d tree kept in step with the nodes", where=S + "utils/tree.h")],
    ["h_tree.cpp"],
    "all sequences of 4 (thorough 6) node operations over 4 nodes; all sequences of 4 (5) tree operations over 4 (6) states with 8 queries; trees of 12-150 nodes on 12 (60) lattices with 25 queries; families of up to 40 (70) siblings, one removed or replaced at every place; chains of up to 66000 (200000) nodes; 27 trees that are chains of up to 320 nodes",
    "enumeration of all operation sequences, compared with a parent-array model and brute-force nearest neighbours after every step")
PROPS["C06"] = P(
    "RRT only ever grows a valid tree and returns a valid path of it",
    "Whatever the random samples (the goal, in the proportion given by the goal bias, or any state of the space): each sample adds at most one node, reached from the nearest node towards the sample by at most the maximum connection distance, and it is added whenever that motion is valid and its state new; every motion of the tree is valid, joins a node to its parent and matches the path stored with the node, no state appears twice and existing nodes are left alone. "
    "The search succeeds as soon as a node lies in the goal region and then returns the chain of valid motions from the initial state to it; otherwise it fails, only after using up its iterations or nodes, with an empty path. Earlier searches have no influence.",
    ["inputs", "histories"],
    "every sequence of random samples (goal bias included), obstacle layout, parameters and history of searches",
    "The test runs one random search in free space.",
    [S + "algo/rrt.h", S + "utils/tree.h", S + "paths/path_r2.cpp"],
    [dict(name="extension loop", where=S + "algo/rrt.h")],
    ["h_rrt.cpp"],
    "all sample sequences of length 4 (thorough 5) over a 3x3 lattice plus goal, of length 7 (10) over 3 points plus goal, all iteration limits 0-4 and node limits 0-3, two consecutive searches; 6 obstacle layouts, 2-3 connection distances; trees of 120 (300) samples of a parametrised family; nodes with up to 12 (17) children followed by all sequences of 3 (4) samples, some of them next to the goal",
    "the random engine and sampler are replaced by the explorer, all sample sequences are enumerated and every step of the tree is compared with a reference step")
PROPS["C07"] = P(
    "RRT* keeps exact costs and picks the cheapest valid parent",
    "Whatever the random samples (the goal, in the proportion given by the goal bias, or any state of the space): each sample adds at most one node, the one its nearest node reaches towards the sample within the maximum connection distance when that motion is valid; the new node is connected by a valid motion to the cheapest parent amongst its k nearest nodes (k = floor of the logarithm of the number of nodes, at least one) and so never costs more than through its nearest one. "
    "The cost stored with every node is always the length of its path from the root, costs never increase, the stored path joins its parent to it, and all motions are valid. "
    "The search succeeds exactly when the goal state enters the tree and then returns the chain of motions to it; otherwise it fails, only after using up its iterations or nodes, with an empty path. Earlier searches have no influence.",
    ["inputs", "histories"],
    "every sequence of random samples (goal bias included), obstacle layout, parameters and history of searches",
    "The test runs one random search in free space.",
    [S + "algo/rrt_star.h", S + "utils/tree.h", S + "paths/path_r2.cpp"],
    [dict(name="choice of the parent amongst the neighbours", where=S + "algo/rrt_star.h")],
    ["h_rrtstar.cpp"],
    "all sample sequences of length 4 (thorough 5) over a 3x3 lattice plus goal, of length 7 (10) over 3 points plus goal, all iteration limits 0-4 and node limits 0-3, two consecutive searches, 6 obstacle layouts; all pairs (triples) of 36 (49) samples added to 3 trees of 10 nodes with 5 obstacle layouts; trees of 120 (300) samples of a parametrised family; nodes with up to 12 (17) children followed by all sequences of 3 (4) samples, some of them next to the goal",
    "the random engine and sampler are replaced by the explorer, all sample sequences are enumerated and every step of the tree is compared with a reference step")
PROPS["C21"] = P(
    "Sampled states are always within the bounds of the state space",
    "Whatever the random engine draws, uniform and Gaussian samples (one or many) are within the bounds; uniform sampling spans the bounds from end to end in proportion to the draw, Gaussian sampling without deviation gives the mean brought within the bounds. "
    "A state is within the bounds exactly when each coordinate (heading included) is, and enforcing the bounds gives the nearest state within them.",
    ["inputs", "configurations"],
    "every random draw, bounds, mean, deviation and state",
    "The test draws a few samples; the extreme draws that leave the bounds never come up.",
    [S + "state_space/state_space.h", S + "state_space/state_space_r2.h", S + "state_space/state_space_se2.h", S + "utils/random.h"],
    [dict(name="sampling and clamping", where=S + "state_space/state_space_r2.h")],
    ["h_space.cpp"],
    "8 bounds per coordinate (degenerate included), all pairs (thorough triples) of 10 draws including both extremes, 4 means x 4 deviations, all combinations of 7 values per coordinate (next to the bounds, outside)",
    "the random engine is replaced by the explorer, all combinations of bounds and draws are enumerated")
PROPS["C13"] = P(
    "Voronoi edges and potential field always describe the present obstacles",
    "After any history of obstacle changes and updates (whether the diagram was created before or after the map was filled or updated), the Voronoi edges are exactly the free cells that, of two neighbouring cells whose nearest obstacles are different and not adjacent (and not both touched by them), are the closest to being equidistant from both; in particular there is none without two obstacles. "
    "The nearest edge and its distance are right for every cell, the path cost is in [0,1], is the Voronoi potential of these distances and vanishes beyond its range, queries by position agree with those by cell and fail outside of the map or when there is nothing to report, and the exported image shows that field.",
    ["histories", "inputs"],
    "every grid size and history of obstacle changes, updates and creation of the diagram",
    "No test looks at the Voronoi diagram; edges depend on the order in which cells were updated.",
    [S + "state_validator/gvd.cpp", S + "state_validator/gvd.h"],
    [dict(name="detection of the edges", where=S + "state_validator/gvd.cpp"), dict(name="potential field", where=S + "state_validator/gvd.cpp")],
    ["h_voronoi.cpp"],
    "all maps of 3x4 cells (1 obstacle identifier, thorough 2), 3x3 and 2x5 (2), 1x7 (2, thorough 3) in 3 creation orders followed by every change of one cell; all histories of 6 (8) toggles and updates of 5 cells of 5x5 and 6x7 maps; 6 (7) operations on 4 overlapping obstacles of a real map; all pairs of cells of 7x9 (11x13); 144 (576) histories of crowded maps of about 380 cells with up to 400 identifiers; 840 pairs of obstacles on maps wider than the range of the field",
    "enumeration of all maps and update histories, compared with the definition of the edges, brute-force distances and the closed-form field")
PROPS["C17"] = P(
    "The obstacle heuristic is the shortest legal grid distance to the goal",
    "For every map and goal, the value at any position is the larger of the straight-line distance and of the shortest distance over legal grid moves (to the eight neighbours, not through occupied cells, not diagonally between two of them) less one cell diagonal, both at the price of the cheapest direction of motion; only the straight line counts where the goal cannot be reached, outside of the map, or when the goal is outside. "
    "It depends only on the last goal and the obstacles present at its update; the exported image shows these distances.",
    ["inputs", "histories"],
    "every occupancy, goal, position, cost multipliers and history of updates",
    "No test looks at the heuristic: a wrong value still lets the search find some path.",
    [S + "algo/heuristics.cpp", S + "algo/heuristics.h", S + "utils/frontier.h"],
    [dict(name="uniform-cost expansion from the goal", where=S + "algo/heuristics.cpp")],
    ["h_obstheur.cpp"],
    "all occupancies of 3x4 grids with every goal, of 4x4 (3 goals, thorough all 16), 2x7 and (thorough) 4x5 grids; 13824 mazes of 9x7; all pairs of blocked cells of 8x9; 144 (540) maps of up to 1400 cells of a parametrised family; images of all 3x4 maps and of winding corridors; all sequences of 5 (6) goal changes and occupancy changes",
    "enumeration of all small maps, goals and update histories, compared with Dijkstra")
PROPS["C18"] = P(
    "The non-holonomic heuristic is the Reeds-Shepp cost to the goal",
    "For every state and goal (any position and headings), the value is the cost of the optimal Reeds-Shepp path to the goal from a pose within half a cell (in position and heading) of the state, in the frame of the goal, with the turning radius, direction multipliers and switching cost given; beyond the table it is the straight-line distance at the price of the cheapest direction.",
    ["inputs", "configurations"],
    "every state, goal, table size and resolution, turning radius and cost parameters",
    "No test looks at the heuristic: a wrong value still lets the search find some path.",
    [S + "algo/heuristics.cpp", S + "algo/heuristics.h", S + "geometry/reeds_shepp.cpp"],
    [dict(name="table lookup by relative pose", where=S + "algo/heuristics.cpp")],
    ["h_nonholo.cpp"],
    "8 configurations, goals of 8 (thorough 16) headings, states on a lattice 4 (8) times finer than the table extending beyond it, 27 headings each; every pose of each table seen from 5 goals",
    "enumeration of a lattice of state/goal pairs, compared with the Reeds-Shepp cost of the neighbouring poses")
PROPS["C19"] = P(
    "Smoothing keeps the ends and cusps and descends the documented objective",
    "For every path, set of cusps, map and parameters, the smoothed path has as many poses as the given one, keeps the headings and does not move the ends nor the cusps; every pose is finite; the smoothing reports success exactly when every pose of its result is valid. "
    "Each iteration moves every point by the learning rate down the gradient of the objective (distance to the original path, smoothness, closeness to obstacles, Voronoi field, curvature beyond the maximum), to which the points within two of an end or cusp contribute nothing; it stops at the step tolerance or the iteration limit. The result depends on the arguments only, not on earlier smoothings; paths of fewer than five poses are left alone, and a smoother that is not initialised fails.",
    ["inputs", "configurations", "histories"],
    "every path, cusp set, obstacle layout and parameters",
    "The existing tests never smooth a path; a wrong gradient still returns a plausible path.",
    [S + "algo/smoother.cpp", S + "algo/smoother.h", S + "state_validator/gvd.cpp"],
    [dict(name="gradient of each term", where=S + "algo/smoother.cpp"), dict(name="choice of the points to optimise", where=S + "algo/smoother.cpp")],
    ["h_smoother.cpp"],
    "5 obstacle layouts; paths of 7 points with every combination of 3 lateral shifts and cusp positions, 4 parameter sets; every sequence of 4 turns over 7 (thorough 8) points, near or far apart; 540 (2160) paths of 9 to 500 points on a map wider than the Voronoi field; all 1024 cusp sets of a 10-point path; every sequence of 5 points (repeated, reversed, on or beyond the border) of length 6 (7), 1 and 5 iterations; 4800 paths of 20 to 150 points with regular cusps, the gradient checked after up to 101 iterations; 14112 (28224) paths with a point next to an occupied cell; 420 complete optimisations; 1080 (2160 longer) optimisations up to their step tolerance",
    "enumeration of paths and cusp sets, each iteration compared with the numerical gradient of the objective")
PROPS["C20"] = P(
    "The hybrid A* returns a valid drivable path from the start to the goal",
    "Whatever the obstacles, start, goal, search parameters and random draws, when the hybrid A* succeeds its path starts at the start and ends at the goal (headings modulo a turn), its poses are valid and closely spaced and include every pose where its direction changes, and the path of the graph search is made of connected, valid segments that move along their heading and never turn tighter than the minimum turning radius, whose cost (length by direction, each change of direction, Voronoi field) is the cost reported. "
    "It fails when the start or the goal is not valid or separated by a wall, and then returns no path; it succeeds from a pose to itself and, when it tries it from the start, whenever the direct Reeds-Shepp path is valid, at no higher cost; nor does any pose expanded close to the goal lead to it at a lower cost by its direct path. Everything explored is valid. The path returned is that of the graph search, sampled and smoothed with the curvature of the minimum turning radius, or left as it is if that fails. The result depends on the current map, start and goal only, not on earlier searches or initialisations; a planner that is not initialised (any more) fails.",
    ["inputs", "configurations", "histories"],
    "every obstacle layout, start, goal, configuration, outcome of the random draws and history of searches",
    "The test runs one search in an empty map, with a tolerance of 10 cm and 5 degrees.",
    [S + "algo/hybrid_a_star.cpp", S + "algo/hybrid_a_star.h", S + "algo/a_star.h", S + "algo/smoother.cpp", S + "paths/path_composite.h"],
    [dict(name="expansion by constant steering and Reeds-Shepp paths", where=S + "algo/hybrid_a_star.cpp"), dict(name="sampling of the path at its cusps", where=S + "algo/hybrid_a_star.cpp")],
    ["h_hybrid.cpp"],
    "4 configurations; 756 (thorough 5304) start/goal pairs in free space, with and without smoothing; 7200 goals at or next to the start among 5 obstacle layouts; 48 (thorough 648) start/goal pairs per layout and configuration with every outcome of the first 2 (4) random draws; all histories of 3 searches over 12 (20) obstacle/goal/map position situations compared with a new planner; 1152 (2304) smoothed paths compared with the smoothing of the unsmoothed one; 200 (400) changes of map or failed initialisations between two searches",
    "enumeration of planning problems, random draws and histories; every path checked against kinematics, validator, cost and a fresh planner")
PROPS["C22"] = P("Profiling traces under every interleaving",
    "With profiling enabled and initialised (PP_INIT_PROFILER), in every interleaving of the profiled threads and after every step of a session, the trace file is a document that chrome://tracing can read: each scope that ended is in it exactly once, whole, with the name given to it, its start, its duration and its thread, in the order in which the scopes of a thread end; a timer stopped early is recorded once, with the time of the stop. There is no data race and no deadlock on the profiler. The document is complete as soon as the session ends, a new session starts a new document, and scopes that end while there is no session start one. A name that needs it is cleaned up (quotes, removed text) without losing anything else.",
    ["schedules", "crash_points", "inputs", "histories"],
    "every interleaving, nesting, sequence of sessions and name",
    "The tests are built without profiling, and run one thread.",
    [S + "debug/profiler.cpp", S + "debug/profiler.h", S + "utils/singleton.h"],
    [dict(name="serialised writes to the trace", where=S + "debug/profiler.cpp"), dict(name="names of the scopes", where=S + "debug/profiler.h")],
    ["sched.cpp", "h_profiler.cpp"],
    "2 threads running each pair of 3 programs (scope, nested scopes, long records) with all schedules of at most 2 (thorough 3) preemptions at every shared memory access, lock and stream operation, and 3 threads with 1 preemption (thorough); all nestings of up to 4 timers stopped in every order, whether or not the clock advances, the file examined after every step; all sequences of 7 session operations; sessions of up to 1100 records with 5 magnitudes of times; all names of up to 7 characters over 4 letters against 3 removed texts",
    "stateless model checking of the real profiler under a controlled scheduler (preemption bound) with vector-clock race detection, plus enumeration of sequences and names", san=False, tsan=True, profiler=True, flags=["-DPP_ENABLE_PROFILING"])
PROPS["C23"] = P("Singletons under every interleaving",
    "A thread safe singleton has one instance at a time: whatever the interleaving of the threads that get it, whether it exists, was released or failed to be constructed before, all are given the same completely constructed instance, it is constructed once, and there is no data race or deadlock. In every sequence of operations on a singleton of any kind, the instance is created (with the arguments given) when there is none, stays the same and keeps its content until it is released, and is destroyed exactly once by the release.",
    ["schedules", "histories"],
    "every interleaving of the threads and every sequence of operations",
    "The tests never use a singleton from two threads, nor release one.",
    [S + "utils/singleton.h"],
    [dict(name="publication of the instance", where=S + "utils/singleton.h")],
    ["sched.cpp", "h_singleton.cpp"],
    "2 threads with 1 or 2 calls each, all schedules with at most 3 (thorough 5) preemptions, and 3 threads with 2, at every shared memory access, lock and atomic operation, from 4 initial situations; threads releasing concurrently; all sequences of 7 (9) operations on the 3 kinds of singletons",
    "stateless model checking of the real singletons under a controlled scheduler (preemption bound) with vector-clock race detection, plus enumeration of all operation sequences", san=False, tsan=True, lib=False, libs=[])
PROPS["C24"] = P("The Python module does what the library does, whatever Python keeps alive",
    "Every operation offered to Python (positions, poses, state spaces, paths, maps, shapes, diagrams, heuristics, propagators, validators and planners) exists under its name, takes the documented arguments and returns what the C++ operation returns: the planners find from Python a path of optimal cost if and only if there is one, through heuristics, cost functions and propagators that may be written in Python. "
    "Objects given to other objects live as long as they are needed, in whatever order Python drops its own references, including objects implemented in Python, whose methods keep being called; an exception raised by a Python callback is propagated to the caller, and the planner can be used again afterwards.",
    ["inputs", "histories", "fault_sequences"],
    "every value of the bounded domains, every order of dropping the references, and an exception at every call back to Python",
    "No test uses the binding; lifetime errors depend on the order in which references are dropped, and show as memory corruption at most.",
    ["interfaces/python/src/pyplanning.cpp"],
    [dict(name="binding", where="interfaces/python/src/pyplanning.cpp")],
    ["h_python.cpp"],
    "lattices of positions, poses, spaces and paths; 30 situations of maps; 12 diagrams of two obstacles and their images; all orders of dropping the references to the objects of 1800 situations; all 512 occupancies of 3x3 cells x 2 planners x 2 heuristics (and a pair in Python) x propagator of the library or in Python x references kept or dropped; an exception at each of the first 60 calls back to Python; all kinds of classes implemented in Python; 108 searches of the hybrid planner, each followed by one that fails",
    "the interpreter is embedded in the explorer and runs programs whose every choice is enumerated, against the C++ library and independent Python oracles, under AddressSanitizer",
    "Not claimed: the values of the out-parameters that the binding drops, shapes implemented in Python.",
    extra=["interfaces/python/src/pyplanning.cpp"],
    flags=["-I/usr/include/python3.12", "-DVERIF_SRC=\"%s/src\"" % __import__("os").path.dirname(__import__("os").path.abspath(__file__))],
    libs=["-lflann", "-llz4", "-lpython3.12"])
NOT_APPLICABLE = {}
