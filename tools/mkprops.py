#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where properties are worded)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
PC = "planner_cspace/include/planner_cspace/"
PS = "planner_cspace/src/"
CC = "costmap_cspace/include/costmap_cspace/"
TT = "trajectory_tracker/include/trajectory_tracker/"

# ---------------------------------------------------------------- planner core
prop("P01", "Grid search returns only valid paths and finds one whenever one exists",
  "For every grid size, cost model, start set, goal and number of parallel search tasks or threads, a successful search returns a path whose first cell is one of the given starts, whose last cell is the goal (or, with a non-zero leave cost, a cell whose estimated remaining cost is below it), and whose every consecutive pair is a move offered and accepted by the model inside the map, with cyclic axes wrapped. The search fails exactly when no such path exists, when no start is given, or when a start already is the goal.",
  ["inputs","configurations"], "all models (2-D/3-D, cyclic or not), maps, starts, goals, task numbers, thread counts",
  "test_grid_astar drives one hand-made map with one model; validity and completeness quantify over all maps and over the thread interleavings.",
  [PC+"grid_astar.h", PC+"reservable_priority_queue.h", PC+"blockmem_gridmap.h", PC+"cyclic_vec.h"],
  [("open list expansion and update merge", PC+"grid_astar.h searchImpl"), ("path reconstruction", PC+"grid_astar.h findPath")],
  ["GridAstar::search return value and path"])
prop("P02", "Grid search is optimal for consistent cost estimates",
  "With a single search task and a cost estimate that never overestimates and is consistent, the sum of move costs along the returned path (plus the start's own cost) equals the true minimum over all starts and all paths, up to float rounding. With more tasks the path is never cheaper than that minimum and its cost is still finite and reported consistently.",
  ["inputs","configurations"], "all maps, edge weights, starts with initial costs, goals, consistent heuristics",
  "No existing test compares a path cost with an independently computed optimum; the one searched map has an obvious answer.",
  [PC+"grid_astar.h", PC+"reservable_priority_queue.h"],
  [("best-first ordering of the open list", PC+"grid_astar.h PriorityVec / open_"), ("cost relaxation", PC+"grid_astar.h searchImpl")],
  ["GridAstar::search path cost"])
prop("P03", "Grid search is a function of its arguments; abort and best-effort behave",
  "Repeating any search on an instance that has already run other searches, aborted searches or been resized gives the same outcome as on a fresh instance. When the progress callback asks to stop, the search ends at once, unsuccessfully or with a valid path; when no path exists and the best path is requested, the returned path is a valid partial path from a start to a reachable cell; the progress callback only ever sees valid partial paths. A queue size limit may lose a path but never yields an invalid one.",
  ["histories","inputs"], "all sequences of searches, resizes, aborts and limits on one instance",
  "Tests use each instance once or twice with the same map, so stale costs, parents or queue entries cannot show.",
  [PC+"grid_astar.h", PC+"reservable_priority_queue.h"],
  [("per-search reset of costs, parents and queue", PC+"grid_astar.h searchImpl prologue"), ("progress callback", PC+"grid_astar.h searchImpl")],
  ["GridAstar::search results over a history of calls"])
prop("P04", "The block-structured grid map behaves like a plain multi-dimensional array",
  "For every size, block width and dimension, each in-range position owns its own storage cell: reads return the value last written to that position by an element write, a whole, positive-only or partial clear, a partial copy (also from a map of another block width or with an offset) or an assignment, and nothing else changes. The map reports the size it was last reset to and declares exactly the positions inside it (minus the requested margin on non-cyclic axes) valid; with validation enabled, accesses whose address lies outside the storage are harmless.",
  ["inputs","histories"], "all sizes, element types, operation sequences, block widths 1..64",
  "test_blockmem_gridmap writes a few fixed sizes once; injectivity and frame conditions quantify over all sizes and operation orders, including shrinking and growing resets.",
  [PC+"blockmem_gridmap.h", PC+"cyclic_vec.h"],
  [("block address computation", PC+"blockmem_gridmap.h block_addr"), ("capacity reuse on reset", PC+"blockmem_gridmap.h reset"), ("partial clear/copy", PC+"blockmem_gridmap.h clear_partially copy_partially")],
  ["operator[], size, validate"])
prop("P05", "Cyclic grid vectors wrap, compare and measure correctly",
  "Wrapping a coordinate yields the unique congruent value in the signed range [-floor(n/2) (or one less for odd n), n/2) or in the unsigned range [0, n), leaves the non-cyclic coordinates alone, and is idempotent. Element-wise arithmetic, equality, hash consistency with equality, planar length, dot and cross products, distance to a line and to a segment, rotation and the in-range test agree with their mathematical definitions for all values.",
  ["inputs"], "all vectors of both element types, all dimension/cyclic splits, all moduli including odd and 1",
  "test_cyclic_vec checks a handful of literal vectors; off-by-one and sign errors live at moduli, boundaries and degenerate segments it never visits.",
  [PC+"cyclic_vec.h"], [("signed and unsigned cycle", PC+"cyclic_vec.h cycleElement cycleUnsignedElement"), ("distances", PC+"cyclic_vec.h distLine2d distLinestrip2d"), ("hash", PC+"cyclic_vec.h operator()")],
  ["CyclicVecInt / CyclicVecFloat public operations"])
prop("P06", "Remembered obstacles are a clamped Bayesian update of the observed cells",
  "After any sequence of observations, each cell's remembered odds equal the initial odds multiplied by the hit or miss odds once per observation (a cell counts as observed when it is inside the remembered circle around the robot and the map and its cost at the first heading is not negative; as hit when that cost is lethal, with hits nearer than the minimum range ignored), clamped to the documented bounds; all other cells keep their odds. The derived cost of a cell is the rounded normalised probability in percent, always within 0..100, and zero for never-hit cells; clearing restores the initial state.",
  ["histories","inputs"], "all observation sequences, odds, ranges, robot positions including map borders, map resizes",
  "test_costmap_bbf covers three short scripted sequences on one tiny map.",
  [PC+"planner_3d/costmap_bbf.h", PC+"bbf.h", PS+"costmap_bbf.cpp"],
  [("binary Bayes filter", PC+"bbf.h update"), ("window iteration", PS+"costmap_bbf.cpp forEach"), ("cost derivation", PS+"costmap_bbf.cpp updateCostmap")],
  ["CostmapBBFImpl::getCost, forEach"])
prop("P07", "The planner's motion model rejects every move that touches an occupied cell",
  "For every map, cost weights and move offered by the model, the move is rejected exactly when a cell swept by the discretised motion (straight, arc or in-place turn) is occupied or outside the map, or when it would be kinematically impossible (a curve that starts within the search range of the map border may be rejected as well); otherwise its cost is the documented sum of length, turning, reversing and weighted cell costs, finite and not negative. The estimate is the heuristic field plus the least turn that remains, never exceeds the cost of the cheapest path of offered moves when the field is the straight-line cost, and is infinite where the field is. Updating the cost parameters equals building a new model with them.",
  ["inputs","configurations"], "all occupancy maps, orientations, moves, weights",
  "Existing cost tests compare three turns on an empty map; nothing sweeps maps with obstacles under every primitive.",
  [PS+"grid_astar_model_3dof.cpp", PC+"planner_3d/grid_astar_model.h", PS+"motion_cache.cpp", PC+"planner_3d/motion_cache.h", PS+"rotation_cache.cpp"],
  [("cost of swept cells", PS+"grid_astar_model_3dof.cpp GridAstarModel3D::cost"), ("swept cell lists", PS+"motion_cache.cpp MotionCache::reset")],
  ["GridAstarModel3D::cost, costEstim, searchGrids"])
prop("P08", "Generated motion primitives are drivable and complete",
  "For every resolution, search range and minimum turning radius, every primitive is either a single-step in-place turn or a move within the search range that a car-like robot can drive: forward or backward by at least half a cell along the heading, turning by less than 90 degrees, without sideways displacement for straight moves, curved with both radii alike and not below the minimum. Straight forward/backward moves along the heading and single-step turns are always offered, and each start heading has its own set with no duplicates.",
  ["inputs","configurations"], "all grid/angle resolutions, ranges, minimum radii",
  "test_motion_primitive_builder compares against one hard-coded list for one configuration.",
  [PS+"motion_primitive_builder.cpp", PC+"planner_3d/motion_primitive_builder.h"],
  [("primitive filter", PS+"motion_primitive_builder.cpp MotionPrimitiveBuilder::build")], ["MotionPrimitiveBuilder::build"])
prop("P09", "Rotation and swept-motion tables describe the geometry they stand for",
  "Every entry of the rotation table is the given grid displacement rotated by minus the heading, its turning radii are equal and consistent with the circle through both poses, and it is invariant to table size. Every swept-motion entry starts at the start cell, ends at the end pose, visits only cells the motion passes through at half-cell sampling without gaps larger than one cell, and its distance is at least the straight-line distance; interpolated paths keep all waypoints, start and end points and bound the spacing.",
  ["inputs","configurations"], "all resolutions, angular resolutions, ranges, displacements",
  "test_motion_cache checks one resolution and a few entries.",
  [PS+"rotation_cache.cpp", PC+"planner_3d/rotation_cache.h", PS+"motion_cache.cpp", PC+"planner_3d/motion_cache.h"],
  [("rotation table", PS+"rotation_cache.cpp"), ("swept motion table", PS+"motion_cache.cpp"), ("path interpolation", PS+"motion_cache.cpp interpolatePath")],
  ["RotationCache, MotionCache, interpolatePath"])
prop("P10", "The goal distance field is an exact shortest distance, also incrementally",
  "After building the field for a goal, every cell reached has the value of the shortest path to the goal under the stated cell and move costs, and cells that cannot be reached stay unreached. After any sequence of map changes and incremental updates (the reported rectangle covering the changes), no cell has a value that is too small or a stale finite value for an unreachable cell, and cells up to the robot's position plus margin have a value between the shortest path and the one made of single-cell steps. A robot or goal that was outside the map gets a rebuilt field when it is back.",
  ["histories","inputs","configurations"], "all maps, update rectangles, sequences, robot and goal positions, parameters",
  "test_distance_map and its fast-update variant use random noise on one map shape and one parameter set.",
  [PS+"distance_map.cpp", PC+"planner_3d/distance_map.h"],
  [("wavefront propagation", PS+"distance_map.cpp fillCostmap"), ("region erase on change", PS+"distance_map.cpp update")], ["DistanceMap operator[] after create/update"])
prop("P11", "Keeping part of the previous path never keeps a dangerous or stale part",
  "When part of a previous path is preserved, the robot is within the configured distance of it, the preserved part starts at the robot's nearest point, ends at a path pose that becomes the new start, contains no pose in an occupied cell (nor is the new start in one), and is long enough for the configured distance; otherwise nothing is preserved and the start is the robot's own cell. The answer depends only on the inputs.",
  ["inputs","histories"], "all previous paths (curved, with switchbacks and in-place turns), maps, robot poses, parameters",
  "test_start_pose_predictor checks four scripted poses on one map.",
  [PS+"start_pose_predictor.cpp", PC+"planner_3d/start_pose_predictor.h"],
  [("preserved path selection", PS+"start_pose_predictor.cpp process")], ["StartPosePredictor::process and preserved path"])
prop("P12", "Two-joint arm planning never passes through colliding joint angles",
  "For every joint collision map, the joint-space model accepts a move exactly when no cell sampled at unit spacing along the joint-space line, from the start cell up to but not including the end cell, is in collision; it charges a non-negative cost of distance plus weighted proximity, treats the joint axes as cyclic, and offers each move within its range once.",
  ["inputs","configurations"], "all joint-space maps, weights, ranges, start and goal cells",
  "The only test runs two scripted requests through the whole node and needs ROS.",
  [PS+"grid_astar_model_2dof_joints.cpp", PC+"planner_2dof_serial_joints/grid_astar_model.h"],
  [("line sampling", PS+"grid_astar_model_2dof_joints.cpp cost"), ("search list", PS+"grid_astar_model_2dof_joints.cpp constructor")], ["GridAstarModel2DoFSerialJoint::cost, costEstim, searchGrids"])
prop("P13", "Grid and metric coordinates convert without loss",
  "Converting any grid cell and heading to metric coordinates and back returns the same cell and heading (modulo full turns), metric positions map to the cell that contains them, and converting a planned grid path yields one pose per waypoint in order, with unit orientation, joining consecutive poses continuously.",
  ["inputs"], "all map origins, resolutions, angular resolutions, cells, paths",
  "test_grid_metric_converter converts two literal paths.",
  [PC+"planner_3d/grid_metric_converter.h"], [("conversion formulas", PC+"planner_3d/grid_metric_converter.h")], ["grid2Metric, metric2Grid, grid2MetricPath"])
prop("P14", "Localisation jumps are detected exactly when they exceed the threshold",
  "A jump is reported exactly when the robot pose in the map frame, compensated by odometry, moved by more than the linear or angular threshold since the previous accepted observation; it is reported once, and missing transforms are reported as no jump.",
  ["histories","inputs"], "all pose histories and thresholds",
  "No unit test drives the detector at all outside full-system runs.",
  [PC+"jump_detector.h"], [("relative motion comparison", PC+"jump_detector.h detectJump")], ["JumpDetector::detectJump"])

prop("P15", "The two-joint planner node only sends collision-free motions to the target",
  "Every joint trajectory sent starts from the latest joint angles, ends at the requested ones (up to full turns) at rest, passes no joint angles at which the links collide (within the cell size), and has its points in order of time, within the velocity limits and at the speed that the requested time asks for. If the current or requested angles collide or no path exists, the joints are told to stay and the status says so; a target that can be reached is not refused. Each new request is answered once, and again at the replanning interval; incomplete or malformed requests and messages of other joints change nothing and never end the node.",
  ["histories","inputs","configurations"], "all link geometries, joint angles, request histories, several link groups",
  "The only test runs two scripted requests and needs ROS.",
  [PS+"planner_2dof_serial_joints.cpp"], [("planning", PS+"planner_2dof_serial_joints.cpp makePlan"), ("requests", PS+"planner_2dof_serial_joints.cpp cbTrajectory, cbJoint, replan")], ["topics joint_trajectory, status"])

# ---------------------------------------------------------------- planner node
prop("P20", "Every path published by the planner is collision-free and leads to the goal",
  "For every costmap, robot pose and goal, a non-empty published path starts at the robot's cell (or the nearest free cell within tolerance when that is occupied), ends at the goal within the configured tolerance or follows the way to it for at least the local planning range, and no pose of it lies in an occupied cell of the costmap and updates the planner was given. If the goal cannot be reached an error status is published and no path to it is (a path towards it only when configured); if it can be reached a path is. A costmap update that does not fit the current map changes nothing, and is applied when it fits the next map and is not older than that. A plan requested by service is free on the map, connects the requested cells (or the nearest free ones) and is refused when there is none.",
  ["inputs","configurations","histories"], "all maps, goals, robot poses, parameter sets, overlay updates",
  "Navigation tests follow a few scripted goals on one map.",
  [PS+"planner_3d.cpp", PS+"grid_astar_model_3dof.cpp", PS+"distance_map.cpp"],
  [("plan creation", PS+"planner_3d.cpp makePlan"), ("start/goal relocation", PS+"planner_3d.cpp buildStartPoses searchAvailablePos")], ["topics path, status"])
prop("P21", "The 3-DOF planner never keeps an old path alive when its inputs are gone",
  "When the last applied costmap or update is older than the watchdog time (updates that do not fit the map are not applied), the map is replaced, or the goal is cleared, cancelled, refused, aborted or completed, the planner stops the motion within its planning period: the next published path is empty and its status tells the reason; while the robot pose is unavailable nothing new is planned, and after the map is replaced only paths free on the new map are published. It resumes by itself once the input is back.",
  ["histories","fault_sequences"], "all orders and timings of map, costmap, goal and transform loss",
  "The watchdog test covers a single loss at one time.",
  [PS+"planner_3d.cpp"], [("watchdog and main loop", PS+"planner_3d.cpp spin / planPath")], ["topics path, status"])
prop("P22", "Each navigation action goal gets exactly one truthful outcome",
  "Every accepted action goal terminates with exactly one of succeeded, aborted or preempted, or stays active while the planner works on it; success is only reported with the robot within the goal tolerance (or for a goal explicitly cleared), preemption only on request or replacement, and abort only when the goal is refused or planning failed for the retry limit.",
  ["histories"], "all sequences of goals, cancels, replacements and robot motions",
  "Tests script one preemption and one abort.",
  [PS+"planner_3d.cpp"], [("action handling", PS+"planner_3d.cpp cbAction cbPreempt")], ["move_base and tolerant_move action results"])

prop("P23", "Temporary escape goals are reachable, bounded and given up in time",
  "With temporary escape enabled, a goal that cannot be reached is replaced by a temporary one that is free, away from the map border, and no farther from the robot than the escape range nor nearer than its configured fraction; without crowd mode it is the one with the least travel cost, in crowd mode it is connected to the robot and of acceptable cost. The planner reports an error while the goal is unreachable, never finishes at the temporary goal, and returns to the original goal once the temporary one is reached. A request to escape does the same for a goal that can be reached; in crowd mode it gives the free place within the escape range with the least travel to the goal, heading along that way, or the goal itself when that is within the range with nothing between, and it does nothing without a goal or next to the map border.",
  ["histories","inputs","configurations"], "all maps, blocked goals and robots, escape ranges, with and without crowd mode",
  "Tests script one escape on one map per mode.",
  [PS+"planner_3d.cpp", PS+"distance_map.cpp"], [("temporary goal choice", PS+"planner_3d.cpp updateTemporaryEscapeGoal"), ("return to the goal", PS+"planner_3d.cpp makePlan")], ["topics current_goal, path, status"])

prop("P24", "Plans are refreshed in time and kept meanwhile",
  "While the planner works on a goal it plans once per period; after a plan with a change between driving forward and backward it keeps that plan for the switch-back wait time, unless the robot reaches the switch back. In either case it plans at once, and never before, when the updated costmap occupies a cell of the plan or the pose jumps. When planning is triggered by costmap updates, each update gives exactly one plan and nothing else does.",
  ["histories","configurations"], "all maps, goals, update and motion histories, rates and wait times",
  "Tests look at plans, not at the times at which they are made.",
  [PS+"planner_3d.cpp"], [("waiting", PS+"planner_3d.cpp waitUntil / spin"), ("switch back search", PS+"planner_3d.cpp getSwitchIndex"), ("update trigger", PS+"planner_3d.cpp cbMapUpdate")], ["topics path, status"])

# ---------------------------------------------------------------- costmap
prop("C01", "Every robot pose that would hit an obstacle is lethal in the configuration space",
  "For every occupancy map, footprint, expansion and heading resolution, a configuration cell has the lethal cost whenever the robot footprint placed there, expanded by the configured margin, covers the centre of an occupied cell of the input map, and its cost is never below the linear decay for its distance to the nearest obstacle. Cells whose footprint plus expansion plus spread stays clear of any non-zero cell have zero cost, or stay unknown where the map is unknown.",
  ["inputs","configurations"], "all occupancy maps (thin, diagonal, clustered, border obstacles), polygons, margins, angular resolutions",
  "test_costmap_3d checks single-cell obstacles with one triangular footprint.",
  [CC+"costmap_3d_layer/footprint.h", CC+"polygon.h", CC+"cspace3_cache.h", CC+"costmap_3d_layer/plain.h"],
  [("template generation", CC+"costmap_3d_layer/footprint.h generateCSTemplate"), ("template application", CC+"costmap_3d_layer/footprint.h generateCSpace")], ["layer output CSpace3D"])
prop("C02", "Incremental overlays give the same costmap as recomputing from scratch",
  "After any history of base maps and overlay maps at any offsets, the current costmap equals the one obtained by applying only the current base map and the current overlay of each layer to a fresh layer chain; cells outside all affected regions keep the base value.",
  ["histories","inputs","configurations"], "all overlay sequences, offsets (partially outside), layer chains and modes",
  "Tests apply at most two overlays in one layer.",
  [CC+"costmap_3d_layer/base.h", CC+"costmap_3d_layer/footprint.h", CC+"costmap_3d_layer/unknown_handle.h", CC+"costmap_3d_layer/stop_propagation.h", CC+"costmap_3d.h"],
  [("region tracking", CC+"costmap_3d_layer/base.h UpdatedRegion / updateChain"), ("overlay application", CC+"costmap_3d_layer/base.h processMapOverlay")], ["CSpace3DUpdate and CSpace3D from the chain"])
prop("C03", "Applying published updates reproduces the costmap exactly",
  "A consumer that starts from the published full costmap and applies every published non-empty update in order always holds exactly the costmap of the layer that published it; updates stay inside the map and carry the full angular range. An overlay wholly outside the map gives an empty update and loses nothing that is still to be notified.",
  ["histories"], "all sequences of base and overlay maps in a chain with output layers",
  "No test replays updates against the full map.",
  [CC+"costmap_3d_layer/output.h", CC+"costmap_3d_layer/base.h"],
  [("update region generation", CC+"costmap_3d_layer/output.h generateUpdateMsg")], ["handler callbacks of the output layers"])
prop("C04", "Overlay modes treat unknown, free and occupied cells as configured",
  "With the 'max' mode the overlaid cost is the larger of the two costs; with 'overwrite' the overlay's known cells replace the lower layers in the overlay's own area as far as the overlay shows everything the footprint could touch; unknown cells never erase known obstacles in 'max' mode and are kept or replaced by the configured unknown cost. The unknown handling and stop-propagation layers change nothing else.",
  ["inputs","configurations"], "all maps with unknown/free/occupied cells, modes, keep-unknown settings",
  "Tests check one overlay per mode with single cells.",
  [CC+"costmap_3d_layer/footprint.h", CC+"costmap_3d_layer/base.h", CC+"costmap_3d_layer/unknown_handle.h", CC+"costmap_3d_layer/stop_propagation.h"],
  [("overlay mode handling", CC+"costmap_3d_layer/base.h"), ("unknown handling", CC+"costmap_3d_layer/unknown_handle.h")], ["layer output CSpace3D"])
prop("C05", "Footprint polygons answer containment and distance correctly",
  "For every simple polygon and point, the inside test agrees with exact winding/crossing arithmetic away from the boundary, the distance equals the exact distance to the nearest edge, and the farthest radius equals the largest vertex distance from the origin; moving a polygon moves all vertices rigidly.",
  ["inputs"], "all simple polygons (convex or not), points, poses",
  "No direct test of the polygon class exists.",
  [CC+"polygon.h"], [("crossing test", CC+"polygon.h inside"), ("edge distance", CC+"polygon.h dist")], ["Polygon::inside, dist, radius"])
prop("C06", "The accumulated point cloud holds exactly the unexpired clouds",
  "After any sequence of arrivals in time order, the accumulator holds, in arrival order, exactly the clouds not older than the hold time relative to the newest arrival, always including the newest; clearing or resetting empties it.",
  ["histories"], "all arrival histories and hold times",
  "The test pushes a few evenly spaced clouds.",
  [CC+"pointcloud_accumulator.h"], [("expiry on push", CC+"pointcloud_accumulator.h push")], ["iteration over the accumulator"])
prop("C07", "Local obstacle maps show exactly the sensed obstacles in range",
  "Each local map published from laser or point-cloud input marks a cell occupied exactly when an unexpired accumulated point within the height range falls into it, is centred on the robot snapped to the grid, and all other cells are free; the node survives missing transforms. The local map cut from a large map equals the large map at each cell, unknown outside, apart from the configured occlusion/round-off effects.",
  ["histories","inputs","configurations"], "all point sets, robot poses, parameters, arrival orders, transform gaps",
  "There is no unit test for these nodes.",
  ["costmap_cspace/src/laserscan_to_map.cpp", "costmap_cspace/src/pointcloud2_to_map.cpp", "costmap_cspace/src/largemap_to_map.cpp", CC+"pointcloud_accumulator.h"],
  [("cell marking", "costmap_cspace/src/pointcloud2_to_map.cpp cbCloud"), ("map cutting", "costmap_cspace/src/largemap_to_map.cpp publishMap")], ["topic map_local"])

# ---------------------------------------------------------------- tracker
prop("T01", "Velocity limiter respects speed and acceleration limits",
  "For every sequence of targets, the limited velocity never exceeds the speed limit, never changes by more than acceleration times the elapsed time, reaches an attainable target without overshoot, and in time-optimal mode approaches the target position, stopping there without demanding more than the limits; clearing returns to rest.",
  ["histories","inputs"], "all target sequences, limits, time steps",
  "No unit test of the limiter exists; node tests look at one trajectory.",
  [TT+"basic_control.h"], [("increment", TT+"basic_control.h VelAccLimitter")], ["VelAccLimitter::increment, set, clear"])
prop("T02", "Path geometry queries agree with the path's actual geometry",
  "For every path, the nearest segment found is a nearest one within the asked range, local goals split the path exactly at in-place turns and direction changes (after pieces of at least two segments), remaining distance equals the remaining arc length, interpolated distances and curvature match the geometry, and conversion to and from messages keeps poses and velocities.",
  ["inputs"], "all paths (switchbacks, turns in place, duplicate points), query positions and ranges",
  "test_path2d covers two parametric curves.",
  [TT+"path2d.h"], [("nearest search", TT+"path2d.h findNearest"), ("remaining distance", TT+"path2d.h remainedDistance"), ("local goals", TT+"path2d.h findLocalGoal")], ["Path2D public methods"])
prop("T03", "First-order filters have unit or zero steady-state gain and bounded output",
  "For every time constant and input history the low-pass output stays within the range of initial value and inputs (for time constants of at least half a step), converges to a constant input with the first-order rate, the high-pass output is the input minus that of the low-pass, and angle mode treats inputs modulo full turns, always producing outputs congruent to filtering the unwrapped signal. Changing the time constant or setting the state behaves as documented.",
  ["inputs","histories"], "all time constants, initial values, input histories, filter types",
  "test_filter checks one time constant and steps.",
  [TT+"filter.h"], [("filter recursion", TT+"filter.h in"), ("angle unwrapping", TT+"filter.h in with angle")], ["Filter::in, set"])
prop("T04", "Velocity commands always respect the configured speed and acceleration limits",
  "Over any history of paths, robot poses, speed settings, parameter changes, and disordered or lost odometry, each published command is finite, stays within the linear speed in force (the speed of the path poses, or the speed setting) and the angular speed limit, or decelerates towards them by the acceleration limit, and differs from the previous command by no more than the acceleration limits times the control period (zero when odometry stamps do not advance), except when stopping altogether.",
  ["histories","configurations"], "all histories of path, pose, speed and parameter messages",
  "Node tests follow a few scripted paths and look at the final pose.",
  ["trajectory_tracker/src/trajectory_tracker.cpp", TT+"basic_control.h", TT+"path2d.h"],
  [("control step", "trajectory_tracker/src/trajectory_tracker.cpp control")], ["topic cmd_vel"])
prop("T05", "The tracker stops the robot whenever it must not move",
  "The commanded velocity is zero with status NO_PATH when no path is given, the path is empty, has no frame or a negative velocity, the pose or path transform is unavailable, or odometry stops for the timeout. Farther from the path than the stop distance the robot is not driven on (it may finish turning in place) and FAR_FROM_PATH means a zero command; near the path FAR_FROM_PATH is not reported. The status carries the header of the latest path and the remaining distance and angle; GOAL is reported only within the goal tolerance of the end of the path and the robot stops within the stop tolerance. A robot obeying the commands reaches the goal of any path of straight, curved, reversed and turning-in-place pieces, stops there, and moves again for a fresh path or after an interruption.",
  ["histories","fault_sequences"], "all histories of path replacement, loss, pose error and timeouts",
  "Node tests script one timeout and one replacement.",
  ["trajectory_tracker/src/trajectory_tracker.cpp"], [("stop conditions", "trajectory_tracker/src/trajectory_tracker.cpp cbPath control cbOdomTimeout")], ["topics cmd_vel, status"])
prop("T06", "Recorded paths follow the robot and survive saving and loading",
  "The recorded path contains the robot's poses in order, consecutive recorded poses are farther apart than the interval and no travelled gap exceeds the interval by more than one sampling step; clearing restarts it. A saved path file loaded by the server is published with identical poses (or their low-pass filtered version), and a failed load publishes nothing and reports failure. Editing a pose by its marker changes exactly what was edited, whatever marker is named. The saver ends successfully only when the file holds the whole path.",
  ["histories","inputs"], "all robot motions, intervals, clear requests, saved paths",
  "Tests record one straight motion.",
  ["trajectory_tracker/src/trajectory_recorder.cpp", "trajectory_tracker/src/trajectory_saver.cpp", "trajectory_tracker/src/trajectory_server.cpp"],
  [("recording condition", "trajectory_tracker/src/trajectory_recorder.cpp spin"), ("serialisation", "trajectory_tracker/src/trajectory_saver.cpp cbPath")], ["topics path, recpath; path files"])
prop("T07", "Line and averaging helpers match their definitions",
  "The signed and unsigned distances from a point to a line or line strip, the projection onto a line, the signed angle and curvature helpers, angle clipping and sign helpers, and running averages agree with their mathematical definitions for all finite inputs, including points beyond the segment ends and degenerate segments.",
  ["inputs","histories"], "all point/line configurations and sample sequences",
  "No unit test of these helpers exists.",
  [TT+"eigen_line.h", TT+"basic_control.h", TT+"average.h"], [("line distance", TT+"eigen_line.h"), ("angle helpers", TT+"basic_control.h"), ("average", TT+"average.h")], ["free functions and Average"])

prop("T08", "The tracker converges onto the path in every place and direction",
  "On a straight piece away from its ends the angular velocity changes per period by -k_dist times the lateral error at the look-forward point (limited to dist_lim) - k_ang times the heading error (scaled with the target velocity by gain_at_vel) - k_avel times the angular velocity, within the limits, and the linear velocity approaches the target velocity or the one that can still stop at the end; beyond rotate_ang of heading error the robot stops and turns towards the path. On a circular path the turning rate wanted by the k_avel term is the speed times the curvature, and with limit_vel_by_avel the speed is lowered until that rate does not exceed max_angvel. With stable gains a robot obeying the commands converges onto straight and circular paths and stays on them at the target velocity. Moving or rotating the scene leaves the commands the same, mirroring it mirrors them, and turning robot and path around reverses the linear velocity only.",
  ["histories","configurations"], "all paths, places, directions, gains, speeds, disturbances",
  "Node tests follow a few scripted paths with one set of gains and need ROS.",
  ["trajectory_tracker/src/trajectory_tracker.cpp"], [("feedback", "trajectory_tracker/src/trajectory_tracker.cpp control"), ("errors", "trajectory_tracker/src/trajectory_tracker.cpp getTrackingResult")], ["topics cmd_vel, status"])

# ---------------------------------------------------------------- safety limiter
prop("S01", "The safety limiter never commands more than was asked for or than allowed",
  "For every command and environment, each output component has the sign of the input (or is zero), its magnitude never exceeds the input's and the configured maximum speed, and both components are scaled by one common factor before the maximum speeds are applied; with no obstacle and fresh data the input passes unchanged (up to the maximum-speed clamp).",
  ["inputs","histories","configurations"], "all commands, clouds, parameters, timings",
  "Tests check a few scripted approaches to a wall.",
  ["safety_limiter/src/safety_limiter.cpp"], [("limit", "safety_limiter/src/safety_limiter.cpp limit / limitMaxVelocities")], ["topics cmd_vel, status"])
prop("S02", "The safety limiter fails safe when its inputs are lost",
  "If no cloud has arrived yet, the latest cloud is older than the timeout, the transform is unavailable, or the watchdog reset is missing for its period, the output velocity is zero (noticed at the next prediction) until fresh data arrives and the status and diagnostics say so. While disabled, which lasts for the configured hold time after each disable request, commands pass up to the maximum speeds.",
  ["fault_sequences","histories"], "all timings of cloud, watchdog, disable and transform loss",
  "Tests script one loss each.",
  ["safety_limiter/src/safety_limiter.cpp"], [("cloud timeout and watchdog", "safety_limiter/src/safety_limiter.cpp cbPredictTimer cbWatchdogTimer"), ("disable", "safety_limiter/src/safety_limiter.cpp cbDisable")], ["topics cmd_vel, status, diagnostics"])
prop("S03", "The safety limiter slows down before every predicted collision",
  "If the robot, moving with the commanded velocity along its arc, would bring its footprint over an observed obstacle within the prediction time or braking distance, the output is reduced so that it can stop before it; obstacles off the swept area do not slow it; when already colliding, only velocities that move away pass. The limit belongs to the latest prediction, whose obstacles are all points received since the one before, placed relative to the robot's pose then, independent of how often the prediction runs; it stays in effect until the next prediction, also when parameters are changed. The status tells since when the robot has been in a collision.",
  ["inputs","configurations","histories"], "all obstacle positions, footprints, velocities, limits",
  "Tests check a single wall ahead and one rotation.",
  ["safety_limiter/src/safety_limiter.cpp"], [("collision prediction", "safety_limiter/src/safety_limiter.cpp predict")], ["topics cmd_vel, status"])

# ---------------------------------------------------------------- joystick
prop("J01", "The joystick override takes and returns control exactly as the button says",
  "While the override button is held and joystick messages arrive, only joystick commands, scaled by the configured speeds and axes, are output; commands from the other source pass unchanged otherwise, and control returns on release (with the latest command of the other source) or after the timeout. Out-of-range axes or buttons never enable motion, and the status topic reports who is in control.",
  ["histories","configurations"], "all interleavings of joystick and command messages, timings, axis maps",
  "Tests script three short sequences.",
  ["joystick_interrupt/src/joystick_interrupt.cpp"], [("joy and twist handling", "joystick_interrupt/src/joystick_interrupt.cpp cbJoy cbTwist")], ["topics cmd_vel, interrupt_status"])
prop("J02", "The joystick multiplexer forwards exactly the selected input",
  "Each message on the selected input is forwarded unchanged and none from the other input; the selection follows the button of the latest joystick message and falls back to the first input after the timeout, which is looked at ten times per second.",
  ["histories"], "all interleavings and timings",
  "There is no test of the multiplexer.",
  ["joystick_interrupt/src/joystick_mux.cpp"], [("selection", "joystick_interrupt/src/joystick_mux.cpp cbJoy cbTimer cbTopic")], ["topic mux_output"])

# ---------------------------------------------------------------- odometry
prop("O01", "The scalar Kalman filter is the exact Bayesian estimator it claims to be",
  "For every sequence of predictions and measurements the estimate equals the prior moved towards the measurement by the gain (prior variance over the sum of variances), lies between them, never gains uncertainty from a measurement, ignores infinitely uncertain measurements, adopts the first measurement when the prior is unknown, and adds prediction shift and uncertainty exactly.",
  ["histories","inputs"], "all operation sequences with finite and infinite sigmas",
  "No unit test of the filter exists.",
  ["track_odometry/include/track_odometry/kalman_filter1.h"], [("measure/predict", "track_odometry/include/track_odometry/kalman_filter1.h")], ["KalmanFilter1 x_ and sigma_"])
prop("O02", "Projected transforms keep the pose over the ground plane",
  "The projected frame lies on the projection surface directly below or above the source frame along the surface's vertical, keeps the source's rotation (or only its yaw when configured), and is published with the configured time offset.",
  ["inputs","configurations"], "all transforms and posture settings",
  "Tests check two scripted transforms.",
  ["track_odometry/src/tf_projection.cpp", "track_odometry/src/tf_projection_node.cpp"], [("projection", "track_odometry/src/tf_projection.cpp projectTranslation")], ["projectTranslation, /tf output"])
prop("O03", "Corrected odometry follows wheel displacement, IMU attitude and slip estimate",
  "Each output keeps the IMU attitude and angular rate in the base frame, moves by the wheel-odometry displacement rotated into that attitude and scaled by the estimated slip, never produces non-finite values for finite inputs, and drops nothing or duplicates nothing; without an IMU nothing is published. Gaps of the input never make the slip or the height filter overshoot. In the mode without odometry the attitude and the rate of the IMU are published at a fixed position.",
  ["histories","inputs"], "all synchronous odometry/IMU histories and IMU mountings",
  "Tests script two constant motions.",
  ["track_odometry/src/track_odometry.cpp", "track_odometry/include/track_odometry/kalman_filter1.h"], [("odometry callback", "track_odometry/src/track_odometry.cpp cbOdom cbImu")], ["topic odom, /tf"])

# ---------------------------------------------------------------- maps and clouds
prop("M01", "Floor maps survive saving, tying, selecting and pose transformation",
  "Saving any set of floor maps and tying the saved files reproduces the maps (free, occupied and unknown cells, geometry and height); the selected floor of the latest map set is the one published, with its height in the transform and at height zero itself, out-of-range floors never change it; a pose received is republished transformed into the target frame with its covariance.",
  ["inputs","histories"], "all map sets, floor requests, poses",
  "Tests use two fixed maps; save and tie are never composed.",
  ["map_organizer/src/save_maps.cpp", "map_organizer/src/tie_maps.cpp", "map_organizer/src/select_map.cpp", "map_organizer/src/pose_transform.cpp"],
  [("map file writer", "map_organizer/src/save_maps.cpp mapCallback"), ("floor selection", "map_organizer/src/select_map.cpp main"), ("pose transform", "map_organizer/src/pose_transform.cpp cbPose")], ["map files, topics maps, map, pose_out, /tf"])
prop("M02", "Floor extraction marks walls and floors where the points are",
  "In each extracted floor map, a cell with a point in the robot-height band above that floor and not merged as slope is occupied, a floor cell without such a point is free, an unseen cell is free only near a floor cell of that map and nearer to it than any wall, of floors one cell apart the lower takes over the floor cells of the upper (a slope) and the areas count after that, map geometry covers all points, and floors come in ascending height with at least the minimum area.",
  ["inputs","configurations"], "all point sets with floors and walls, parameters",
  "One scripted cloud is tested.",
  ["map_organizer/src/pointcloud_to_maps.cpp"], [("floor detection", "map_organizer/src/pointcloud_to_maps.cpp cbPoints")], ["topics maps, map0.."])
prop("M03", "Meshes become point clouds on their surface at the requested density",
  "Every generated point lies on a triangle of the scaled and offset input mesh (within the down-sampling cell), every triangle receives points in proportion to its area, and the cloud carries the configured frame.",
  ["inputs","configurations"], "all triangle meshes, scales, offsets, densities",
  "One mesh is tested.",
  ["obj_to_pointcloud/src/obj_to_pointcloud.cpp"], [("sampling", "obj_to_pointcloud/src/obj_to_pointcloud.cpp convertObj")], ["topic mapcloud"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
