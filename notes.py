"""Per property: (oracle, bounds, what it reaches beyond the tests).  Used for the
level notes in MANIFEST.json and by tools/mkdesign.py for DESIGN.md."""
NOTES = {
"P01": ("returned paths are re-walked edge by edge with the model's own costs; success is compared with a flood fill over the same edges; return_best paths must begin at a start",
        "maps up to 14x14x8 cells, up to 4 starts, 1-20 tasks, 1-4 threads, queue limits, arbitrary (also asymmetric, forbidden, inadmissible) costs",
        "multi-start, cyclic axes, walled-in goals, leave costs and best-effort results on thousands of graphs instead of a few literal ones"),
"P02": ("Dijkstra on the same implicit graph, relative tolerance for float sums; with several tasks only validity and a lower bound",
        "consistent estimates (zero, exact, scaled exact); maps as P01", "optimality against an independent algorithm; the tests compare one literal path"),
"P03": ("each search on a used instance equals the one of a fresh instance with the same settings (path, result, progress callbacks)",
        "2-5 searches per instance with resizes, aborts at any progress call, queue limits", "stale state between calls, which no test reuses an instance for"),
"P04": ("a plain array model: every cell after every operation, copies, moves and size changes",
        "sizes up to 40 per axis, 2-D and 3-D, several block widths and element types", "sizes that are no multiple of the block, storage reuse after growing and shrinking, self assignment"),
"P05": ("integer and double definitions of wrapping, distance to lines, rotation", "all moduli 1-2000 and the boundaries of int", "odd moduli, boundaries and degenerate segments"),
"P06": ("a reference grid of clamped odds, each operation recomputed in double precision", "maps up to 20x20x4, centers outside of the map, all odds and ranges", "histories of remember/clear/reset with windows cut at the borders"),
"P07": ("the motion between two poses sampled densely in double precision decides which cells must and may be swept; cells within 1e-3 of a border are left open. The cost is recomputed from the parameters",
        "maps up to 24x24, 4-16 headings, all weights, radii and limits", "every offered move from every cell instead of a handful; consistency of the estimate against every accepted move"),
"P08": ("each displacement and heading is classified by double-precision geometry; near-threshold cases are left open", "ranges up to 8, 4-36 headings", "completeness (nothing missing) and soundness of the primitive table"),
"P09": ("double-precision arcs; every table entry; interpolated paths against the exact geometry", "resolutions 0.02-0.5 m, 1-36 headings", "all parities and radii; the tests look at 2 tables"),
"P10": ("Dijkstra with the field's own move and cell costs on the current map: equality after building, bounds after incremental updates", "maps up to 40x40, 1-8 changes, 1-20 tasks, 1-4 threads",
        "histories of appearing and vanishing walls, robots and goals leaving the map and coming back"),
"P11": ("a reference of the stated choice in double precision, independent of earlier questions", "maps 30x30, paths up to 60 poses", "curved paths with switchbacks and turns; reuse of a predictor"),
"P12": ("an exact sweep of the wrapped segment; whole plans are re-swept", "resolutions 4-24, ranges 1-8", "cyclic moves over the seam, long-axis moves"),
"P13": ("round trips and the definition in double precision", "origins up to 1 km, all headings over several turns", "cells outside the map and headings out of range"),
"P14": ("planar arithmetic on the generated poses; movements within 1e-3 of a threshold are left open", "up to 30 observations per history", "the order of observations, lost transforms and frame changes"),
"P15": ("double-precision forward kinematics of the links at dense samples of every sent motion, a flood fill over the joint cells for reachability, and a model of which inputs must be answered",
        "12-24 cells per turn, ranges 1-5, 1-2 groups, up to 9 messages; reachability is judged only where the node has no real-time limit", "requests over the seam, of other groups, malformed ones, repeated ones, periodic replanning"),
"P20": ("each published pose is re-checked against the latest map: cells, footprint clearance, curvature and in-place turns, continuity, start at the robot, end within tolerance; reachability by flood fill on the same motion primitives",
        "maps up to 30x30 cells, 4-16 headings, all parameters within the restrictions below", "plans on arbitrary maps with unknown cells, overlays, remembered obstacles, also by the make_plan service"),
"P21": ("a model of the goal's life: when it must be planned, refused, cleared, finished, and what the status must say; a path once published must stay valid against newer maps or be withdrawn",
        "up to 3000 events per case, simulated time", "histories of goals, maps, updates, lost poses and reconfigurations in any order; memory errors (second harness with AddressSanitizer)"),
"P22": ("a model of the action protocol: each accepted goal gets exactly one outcome, preemption, tolerance actions, feedback", "as P21", "interleavings of two action interfaces and topic goals"),
"P23": ("temporary goals are re-derived: reachable, farther from obstacles, within range, given up and resumed in order", "as P21", "the escape mode has no unit test"),
"P24": ("the time of every plan against a model of the waiting rules: period, wait at switch backs found by an independent search, blocked plan, arrival, jump; anything within 30 ms or float error of a limit is left open", "up to 14 events, maps up to 26x26", "no test looks at the times of plans"),
"C01": ("every cell against the maximum over all obstacles of the exact double-precision distance to the footprint polygon; distances within 1e-3 of a border are left open", "maps up to 24x24, 1-16 headings, any footprint",
        "long, offset, concave and radius-zero footprints, spread, graded costs and map borders"),
"C02": ("a fresh chain (or node) given only the current maps must publish the same costmap", "up to 10 overlays, chains of up to 5 layers, any configuration of the node", "order and history independence of what is published"),
"C03": ("a subscriber applying every update to its copy must hold the publisher's map", "as C02", "overlapping, moving and empty update regions"),
"C04": ("a cell-by-cell model of max/overwrite, unknown cells, keep-unknown, stop-propagation and unknown handling", "overlays of any offset and partial overlap", "combinations of layer modes at map borders"),
"C05": ("exact arithmetic for simple polygons, points within 1e-6 of an edge left open", "4-8 vertices", "orientation, degenerate coordinates, malformed parameters"),
"C06": ("a list model", "up to 30 arrivals", "bursts, equal stamps, clears, several expiries at once"),
"C07": ("each map is re-derived from the inputs received so far and the transforms at their stamps; points near cell borders are left open", "maps up to 5 m, 30 events", "tilted sensors, invalid points, lost transforms, windows over the border"),
"T01": ("the limits themselves; monotone arrival of the closed loop", "up to 100 steps", "varying limits, non-finite targets"),
"T02": ("exhaustive scans over segments in double precision", "paths of up to 30 poses", "in-place turns, switchbacks, repeated points, sub-ranges"),
"T03": ("a double-precision first-order section; low-pass plus high-pass is the input; shift by full turns", "up to 60 samples", "angle wrapping and any time constant"),
"T04": ("limits in force at each command given the whole history", "60 operations of up to 25 control steps", "reconfiguration, disordered odometry and path replacement in any order"),
"T05": ("a model of when the robot must stand, exact remaining distances on straight paths, and a closed loop with an ideal robot", "as T04; closed loops of up to three paths", "losses at any moment; arrival for any composed path"),
"T06": ("files and published paths against a model of the recording and editing", "paths up to 30 poses, files also cut and corrupt", "round trips through files, edits during service, lost transforms"),
"T07": ("mathematical definitions in double precision", "all finite inputs", "points beyond segment ends, degenerate segments"),
"T08": ("the documented feedback law on straight and circular paths, convergence of a closed loop, and metamorphic relations (moved, mirrored, turned around); differences that tiny disturbances cause as well are left open", "150 steps; 16 m paths",
        "any direction, gain and driving direction; the tests use one set of gains"),
"S01": ("output against input and maximum speeds", "40 operations", "any interleaving of losses, disabling and reconfiguration"),
"S02": ("a timing model of all stop conditions, with the instants of noticing left open", "40 operations", "interleavings of several losses and their ends"),
"S03": ("the documented prediction in double precision (bounds around footprint-border decisions) and a closed loop with limited acceleration that must not run over visible obstacles", "up to 60 points, any convex or concave footprint", "arcs, escape, accumulated clouds, robot motion between predictions"),
"J01": ("a model of who is in command at each time", "60 messages", "all interleavings of joystick and commands around timeouts"),
"J02": ("a model of the selected input; messages forwarded byte by byte", "60 messages", "topics of any type, late advertisement"),
"O01": ("extended-precision formulas", "30 operations", "zero, tiny and infinite deviations"),
"O02": ("double-precision projection of the attitude", "any attitude up to steepness 0.97", "tilted frames, late and missing transforms"),
"O03": ("a double-precision model of odometry, slip and height filters", "30 pairs", "dropped messages, lost transforms, resets"),
"M01": ("models of floor selection and pose transform; file round trips cell by cell", "maps up to 20x20, 4 floors", "requests out of range, new map sets, names, scale-mode files"),
"M02": ("a reference extraction of floors and obstacles, with the merging of floors one cell apart (slopes) and the spreading over unseen cells", "1-3 floors, 500 points", "holes, noise, walls, all parameters"),
"M03": ("points must lie on a triangle, one per cell, with 7-sigma statistics for density and uniformity", "12 triangles; fine meshes of up to 600", "scales, offsets, slivers, fractions of a point per triangle"),
}
