"""What each property's check runs."""
COMMON_ASSUMPTIONS = [
    "compiled with g++ 13 from /repo's working tree; OpenMP with passive waiting",
    "cases are pseudo-random from VERIF_SEED; absence of a violation is evidence on the explored cases only",
]
PCI = "{REPO}/planner_cspace/include"
PCS = "{REPO}/planner_cspace/src"
TTI = "{REPO}/trajectory_tracker/include"
TOI = "{REPO}/track_odometry/include"
SHIM = ["shim/src/world.cpp", "shim/src/tf.cpp"]
SHI = ["{VERIF}/shim/include", "{GEN}"]
TTS = "{REPO}/trajectory_tracker/src"
def ros(src, inc, san="asan", **kw):
    return dict(src=src + SHIM, inc=SHI + inc, san=san, gen="shim/gen.py", **kw)
def node(src, nodes, inc=(), san="asan", **kw):
    """Harness of real nodes: each node's main() becomes <file>_main()."""
    ns = [("{REPO}/" + n, ["-Dmain=%s_main" % n.split("/")[-1].rsplit(".", 1)[0]]) for n in nodes]
    pk = sorted({"{REPO}/%s/include" % n.split("/")[0] for n in nodes} | {"{REPO}/neonavigation_common/include", "/usr/include/eigen3"})
    kw.setdefault("flags", []).append("-Wl,--allow-multiple-definition")
    return ros(src + ns, pk + list(inc), san, **kw)
P3SRC = [PCS + "/" + f + ".cpp" for f in ("grid_astar_model_3dof", "motion_cache", "motion_primitive_builder", "rotation_cache")]
RD = ["-Drandom_device=sim_random_device"]  # seeded by the harness
HARNESS = {
    "model3d": ros(["props/model3d.cpp"] + P3SRC, [PCI], opt="-O2", san="none"),
    "startpred": ros(["props/startpred.cpp", PCS + "/start_pose_predictor.cpp"] + P3SRC, [PCI, TTI, "{REPO}/trajectory_tracker_msgs/include", "/usr/include/eigen3"], san="none", opt="-O2"),
    "path2d": ros(["props/path2d.cpp"], [TTI, "/usr/include/eigen3"]),
    "costmap": ros(["props/costmap.cpp"], ["{REPO}/costmap_cspace/include"]),
    "joystick": node(["props/joystick.cpp"], ["joystick_interrupt/src/joystick_interrupt.cpp", "joystick_interrupt/src/joystick_mux.cpp"]),
    "safety": node(["props/safety.cpp"], ["safety_limiter/src/safety_limiter.cpp"], san="none", opt="-O2"),
    "tracker": node(["props/tracker.cpp"], ["trajectory_tracker/src/trajectory_tracker.cpp"], san="none", opt="-O2"),
    "tracker_asan": node(["props/tracker.cpp"], ["trajectory_tracker/src/trajectory_tracker.cpp"]),
    "safety_asan": node(["props/safety.cpp"], ["safety_limiter/src/safety_limiter.cpp"]),
    "planner": node(["props/planner.cpp", PCS + "/distance_map.cpp", PCS + "/costmap_bbf.cpp", PCS + "/start_pose_predictor.cpp"] + P3SRC, ["planner_cspace/src/planner_3d.cpp"],
                    ["{REPO}/trajectory_tracker/include", "{REPO}/trajectory_tracker_msgs/include"], san="none", opt="-O2"),
    "planner_asan": node(["props/planner.cpp", PCS + "/distance_map.cpp", PCS + "/costmap_bbf.cpp", PCS + "/start_pose_predictor.cpp"] + P3SRC, ["planner_cspace/src/planner_3d.cpp"],
                         ["{REPO}/trajectory_tracker/include", "{REPO}/trajectory_tracker_msgs/include"]),
    "arm": node(["props/arm.cpp", PCS + "/grid_astar_model_2dof_joints.cpp"], ["planner_cspace/src/planner_2dof_serial_joints.cpp"]),
    "costmap_node": node(["props/costmap_node.cpp", "{REPO}/costmap_cspace/src/costmap_3d_layers.cpp"], ["costmap_cspace/src/costmap_3d.cpp"]),
    "localmap": node(["props/localmap.cpp"], ["costmap_cspace/src/%s_to_map.cpp" % n for n in ("laserscan", "pointcloud2", "largemap")]),
    "odometry": node(["props/odometry.cpp", "{REPO}/track_odometry/src/tf_projection.cpp"], ["track_odometry/src/track_odometry.cpp", "track_odometry/src/tf_projection_node.cpp"]),
    "recorder": node(["props/recorder.cpp"], ["trajectory_tracker/src/trajectory_%s.cpp" % n for n in ("recorder", "saver", "server")]),
    "maps": node(["props/maps.cpp", ("shim/src/random_device.cpp", RD), ("{REPO}/obj_to_pointcloud/src/obj_to_pointcloud.cpp", RD + ["-Dmain=obj_to_pointcloud_main"])],
                 ["map_organizer/src/%s.cpp" % n for n in ("select_map", "pose_transform", "save_maps", "tie_maps", "pointcloud_to_maps")], flags=["-DHAVE_NEW_YAMLCPP"]),
    "jump": ros(["props/jump.cpp"], [PCI]),
    "distmap": ros(["props/distmap.cpp", PCS + "/distance_map.cpp", PCS + "/costmap_bbf.cpp"] + P3SRC, [PCI]),
    "astar": dict(src=["props/astar.cpp"], inc=[PCI], san="asan"),
    "gridmap": dict(src=["props/gridmap.cpp"], inc=[PCI], san="asan"),
    "bbf": dict(src=["props/bbf.cpp", PCS + "/costmap_bbf.cpp"], inc=[PCI], san="aubsan"),
    "joint2dof": dict(src=["props/joint2dof.cpp", PCS + "/grid_astar_model_2dof_joints.cpp"], inc=[PCI], san="asan"),
    "kalman": dict(src=["props/kalman.cpp"], inc=[TOI], san="aubsan"),
    "tracker_math": dict(src=["props/tracker_math.cpp"], inc=[TTI, "/usr/include/eigen3"], san="asan"),
    "rotcache": dict(src=["props/rotcache.cpp", PCS + "/rotation_cache.cpp"], inc=[PCI], san="asan"),
}
def chk(parts, technique, quick=20, thorough=600, **kw):
    d = dict(parts=[p if len(p) == 3 else (p[0], p[1], 1) for p in parts], technique=technique, quick=quick, thorough=thorough)
    d.update(kw)
    return d
CHECKS = {
    "P01": chk([("astar", ["valid_3d", "valid_2d", "valid_torus"])],
               "property-based testing: random graphs, path validity + reachability reference"),
    "P02": chk([("astar", ["optimal_3d", "optimal_2d", "optimal_torus", "multi_task"])],
               "property-based differential testing against Dijkstra"),
    "P03": chk([("astar", ["history_3d", "history_torus"])],
               "stateful property-based testing: used instance vs fresh instance"),
    "P04": chk([("gridmap", ["grid_3d", "grid_2d", "grid_other"])],
               "stateful model-based property testing against a plain array"),
    "P05": chk([("gridmap", ["cyclic_int", "cyclic_dist", "cyclic_rotate"])],
               "property-based testing against integer/double definitions"),
    "P06": chk([("bbf", [])], "stateful model-based property testing against a reference odds grid"),
    "P07": chk([("model3d", ["move_cost", "estimate", "move_cost_2d"])], "property-based testing against densely sampled motions"),
    "P08": chk([("model3d", ["primitives"])], "property-based testing against a double-precision classification"),
    "P09": chk([("rotcache", []), ("model3d", ["motion_tables", "interpolate_path"])], "property-based testing against double-precision geometry"),
    "P10": chk([("distmap", [])], "stateful property-based differential testing against Dijkstra"),
    "P11": chk([("startpred", [])], "property-based testing against a reference of the documented choice"),
    "P12": chk([("joint2dof", [])], "property-based testing against an exact sweep of joint space"),
    "P15": chk([("arm", [])], "stateful property-based testing of the node on a simulated graph"),
    "P21": chk([("planner", ["lifecycle"]), ("planner_asan", ["lifecycle"])], "stateful property-based testing of the node on a simulated graph"),
    "P22": chk([("planner", ["actions"])], "stateful property-based testing of the node on a simulated graph"),
    "P23": chk([("planner", ["escape", "escape_request"])], "stateful property-based testing of the node on a simulated graph"),
    "P24": chk([("planner", ["cadence"])], "stateful property-based testing of the node on a simulated graph"),
    "P20": chk([("planner", ["plan", "make_plan"])], "property-based testing of the node on a simulated graph"),
    "C01": chk([("costmap", ["base_map"])], "property-based testing against exact footprint geometry"),
    "C02": chk([("costmap", ["history"]), ("costmap_node", ["costmap_node"])], "stateful metamorphic testing: history vs fresh chain"),
    "C03": chk([("costmap", ["updates"]), ("costmap_node", ["costmap_node"])], "stateful property-based testing: replayed updates vs publisher"),
    "C04": chk([("costmap", ["overlay_modes"])], "property-based testing against a cell-by-cell model"),
    "C05": chk([("costmap", ["polygon", "polygon_invalid"])], "property-based testing against exact geometry"),
    "C06": chk([("costmap", ["accumulator"])], "stateful model-based property testing"),
    "C07": chk([("localmap", [])], "stateful model-based property testing of the nodes on a simulated graph"),
    "O01": chk([("kalman", [])], "stateful property-based testing against extended-precision formulas"),
    "T06": chk([("recorder", [])], "stateful model-based property testing of the nodes on a simulated graph, round trip through files"),
    "O02": chk([("odometry", ["project", "projection"])], "property-based testing of the function and of the node on a simulated graph"),
    "O03": chk([("odometry", ["corrected", "imu_only"])], "stateful model-based property testing of the node on a simulated graph"),
    "M01": chk([("maps", ["select", "pose", "files"])], "stateful model-based property testing of the nodes on a simulated graph, round trip through files"),
    "M02": chk([("maps", ["floors"])], "property-based testing of the node against a reference extraction"),
    "M03": chk([("maps", ["mesh", "mesh_fine"])], "property-based testing of the node: geometric and statistical oracles"),
    "P13": chk([("model3d", ["grid_metric"])], "property-based round-trip testing"),
    "P14": chk([("jump", [])], "stateful property-based testing against planar arithmetic"),
    "J01": chk([("joystick", ["interrupt"])], "stateful model-based property testing of the node on a simulated graph"),
    "J02": chk([("joystick", ["mux"])], "stateful model-based property testing of the node on a simulated graph"),
    "S01": chk([("safety", ["bounds"])], "stateful property-based testing of the node on a simulated graph"),
    "S02": chk([("safety", ["losses"], 3), ("safety_asan", ["losses"], 1)], "stateful model-based property testing of the node on a simulated graph"),
    "S03": chk([("safety", ["ratio", "closed_loop"], 3), ("safety_asan", ["ratio"], 1)], "stateful property-based testing of the node: reference prediction and closed-loop invariant"),
    "T01": chk([("tracker_math", ["limitter", "control_helpers", "time_optimal_loop"])], "stateful property-based testing"),
    "T02": chk([("path2d", [])], "property-based testing against exact path geometry"),
    "T03": chk([("tracker_math", ["filter_linear", "filter_angle"])], "property-based differential and metamorphic testing"),
    "T04": chk([("tracker", ["limits"])], "stateful property-based testing of the node on a simulated graph"),
    "T05": chk([("tracker", ["stops", "reach"], 3), ("tracker_asan", ["stops"], 1)], "stateful property-based testing of the node on a simulated graph"),
    "T08": chk([("tracker", ["tracking_law", "tracking_arc", "converge", "symmetry"])], "closed-loop and metamorphic property-based testing of the node on a simulated graph"),
    "T07": chk([("tracker_math", ["line_helpers", "curvature_circle", "average"])], "property-based testing against definitions"),
}
NOT_APPLICABLE = {}
