#!/usr/bin/env python3
"""Mutation sweep: mutate.py OUT.jsonl [--per-file N] [--workers W] [--seed S] [--files PATTERN] [--skip N]
Changes one operator, constant or statement at a time in scratch copies of /repo and
runs the checks of that file.  Survivors are read by hand (equivalent, out of the
statements, or a gap to close).  Nothing in MANIFEST.json uses this."""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, time, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PC, CC, TT, TO = "planner_cspace/include/planner_cspace/", "costmap_cspace/include/costmap_cspace/", "trajectory_tracker/", "track_odometry/"
FILES = {
    PC + "grid_astar.h": "P01 P02 P03", PC + "reservable_priority_queue.h": "P01 P02 P03", PC + "blockmem_gridmap.h": "P04", PC + "cyclic_vec.h": "P05",
    "planner_cspace/src/costmap_bbf.cpp": "P06", "planner_cspace/src/grid_astar_model_3dof.cpp": "P07 P20",
    "planner_cspace/src/motion_primitive_builder.cpp": "P08", "planner_cspace/src/rotation_cache.cpp": "P09", "planner_cspace/src/motion_cache.cpp": "P09",
    "planner_cspace/src/distance_map.cpp": "P10", "planner_cspace/src/start_pose_predictor.cpp": "P11", "planner_cspace/src/grid_astar_model_2dof_joints.cpp": "P12",
    PC + "planner_3d/grid_metric_converter.h": "P13", PC + "jump_detector.h": "P14", PC + "planner_3d/path_interpolator.h": "P09", PC + "planner_3d/rotation_cache.h": "P09",
    "planner_cspace/src/planner_2dof_serial_joints.cpp": "P15", "costmap_cspace/src/costmap_3d.cpp": "C02 C03",
    "planner_cspace/src/planner_3d.cpp": "P20 P21 P22 P23",
    CC + "costmap_3d_layer/footprint.h": "C01 C02 C04", CC + "costmap_3d_layer/base.h": "C02 C03 C04 C01", CC + "costmap_3d_layer/plain.h": "C02 C04",
    CC + "costmap_3d_layer/output.h": "C03", CC + "costmap_3d_layer/unknown_handle.h": "C04", CC + "costmap_3d_layer/stop_propagation.h": "C04",
    CC + "polygon.h": "C05 C01", CC + "pointcloud_accumulator.h": "C06", CC + "cspace3_cache.h": "C01",
    "costmap_cspace/src/laserscan_to_map.cpp": "C07", "costmap_cspace/src/pointcloud2_to_map.cpp": "C07", "costmap_cspace/src/largemap_to_map.cpp": "C07",
    TT + "include/trajectory_tracker/basic_control.h": "T01 T07", TT + "include/trajectory_tracker/filter.h": "T03", TT + "include/trajectory_tracker/path2d.h": "T02",
    TT + "include/trajectory_tracker/eigen_line.h": "T07 T02", TT + "include/trajectory_tracker/average.h": "T07",
    TT + "src/trajectory_tracker.cpp": "T04 T05 T08", TT + "src/trajectory_recorder.cpp": "T06", TT + "src/trajectory_saver.cpp": "T06", TT + "src/trajectory_server.cpp": "T06",
    "safety_limiter/src/safety_limiter.cpp": "S01 S02 S03", "joystick_interrupt/src/joystick_interrupt.cpp": "J01", "joystick_interrupt/src/joystick_mux.cpp": "J02",
    TO + "include/track_odometry/kalman_filter1.h": "O01", TO + "include/track_odometry/tf_projection.h": "O02", TO + "src/tf_projection.cpp": "O02", TO + "src/tf_projection_node.cpp": "O02", TO + "src/track_odometry.cpp": "O03",
    "map_organizer/src/select_map.cpp": "M01", "map_organizer/src/pose_transform.cpp": "M01", "map_organizer/src/save_maps.cpp": "M01", "map_organizer/src/tie_maps.cpp": "M01",
    "map_organizer/src/pointcloud_to_maps.cpp": "M02", "obj_to_pointcloud/src/obj_to_pointcloud.cpp": "M03",
}
RULES = [(r"(?<![<>=!-])<=(?!=)", "<"), (r"(?<![<>=!-])>=", ">"), (r"(?<= )<(?= )", "<="), (r"(?<= )>(?= )", ">="), (r"(?<= )<(?= )", ">"), (r"(?<= )>(?= )", "<"),
         (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "/"), (r"(?<= )/(?= )", "*"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-z_(])", ""), (r"\+\+(?=[a-z])", "--"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="),
         (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"\b0\.5\b", "0.4"), (r"\b1\.0\b", "1.1"), (r"\b2\.0\b", "1.9"), (r"\b0\.0\b", "0.1"),
         (r"\bstd::min\b", "std::max"), (r"\bstd::max\b", "std::min"), (r"\bsin(?=f?\()", "cos"), (r"\bcos(?=f?\()", "sin"), (r"\bfloor\b", "ceil"), (r"\bceil\b", "floor"), (r"\blround\b", "floor"),
         (r"std::abs\(", "("), (r"std::fabs\(", "("), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"), (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"(?<=\()-(?=[a-z])", "")]
def mutants(text, rng):
    out, lines = [], text.split("\n")
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if not s or s.startswith(("#", "//", "ROS_", "namespace", "using", "template", "class", "struct", "}", "{", "public", "private", "protected", "typedef")): continue
        if re.search(r"ROS_(INFO|WARN|ERROR|DEBUG|FATAL)|diag|pnh_?\.param|nh_?\.param|declareParam|advertise|subscribe\(|include|printf|std::cout|omp", s): continue
        for pat, rep in RULES:
            for m in re.finditer(pat, l):
                out.append((i, l[:m.start()] + rep + l[m.end():]))
        if s.endswith(";") and not re.match(r"(const |auto |static |std::\w+(<.*>)? \w|double |float |int |bool |size_t |unsigned |return\b.*\w|[\w:<>]+&? \w+( =|;|\())", s) and lines[i - 1].strip().endswith((";", "{", "}", ")", "")) and l.count("(") == l.count(")"):
            out.append((i, l[:len(l) - len(l.lstrip())] + ";"))
        m = re.match(r"(\s*)(else )?if \((.*)\)$", l)
        if m and m.group(3).count("(") == m.group(3).count(")"):
            out.append((i, "%s%sif (!(%s))" % (m.group(1), m.group(2) or "", m.group(3))))
            out.append((i, "%s%sif (true)" % (m.group(1), m.group(2) or "")))
            out.append((i, "%s%sif (false)" % (m.group(1), m.group(2) or "")))
    rng.shuffle(out)
    out.sort(key=lambda x: 0)  # keep the random order
    return out
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("--per-file", type=int, default=20); ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--files", default="."); ap.add_argument("--time", type=float, default=10); ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--base", default="/tmp/mut"); ap.add_argument("--stop", type=float, default=1e9)
    ap.add_argument("--scale", action="store_true")
    ap.add_argument("--again", help="run the survivors listed in this file again")
    a = ap.parse_args()
    done = set()
    if os.path.exists(a.out):
        done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(a.out))}
    q, lock, t0 = queue.Queue(), threading.Lock(), time.time()
    again = {}
    if a.again:
        for d in map(json.loads, open(a.again)):
            if d["by"] is None: again.setdefault(d["file"], []).append(d)
    fl = [f for f in (again or FILES) if re.search(a.files, f) and os.path.exists("/repo/" + f)]
    fl.sort(key=lambda f: -os.path.getsize("/repo/" + f))
    for f in fl: q.put(f)
    def work(k):
        base = "%s%d" % (a.base, k)
        shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
        repo = base + "/repo"
        subprocess.check_call("git -C /repo archive HEAD | (mkdir -p %s && tar x -C %s)" % (repo, repo), shell=True)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=base + "/build", VERIF_JOBS=str(a.jobs))
        while time.time() - t0 < a.stop:
            try: f = q.get_nowait()
            except queue.Empty: break
            text = open(repo + "/" + f).read()
            n = a.per_file
            if a.scale: n = max(6, min(80, len(text) // 600))
            tested = 0
            cand = [(d["line"] - 1, d["new"]) for d in again[f]] if again else mutants(text, random.Random("%d %s" % (a.seed, f)))
            if again: n = 1e9
            for i, new in cand:
                if tested >= n or time.time() - t0 > a.stop: break
                old = text.split("\n")[i]
                if (f, i + 1, new.strip()) in done: continue
                ls = text.split("\n"); ls[i] = new
                open(repo + "/" + f, "w").write("\n".join(ls))
                by, built, log = None, True, ""
                for p in FILES[f].split():
                    try:
                        r = subprocess.run([sys.executable, V + "/run.py", p, "--time", str(a.time), "--seed", "1"], env=env, capture_output=True, text=True, timeout=400)
                    except subprocess.TimeoutExpired:
                        by = p + " (timeout)"; break
                    if r.returncode == 2 and "did not build" in r.stdout: built = False; break
                    if r.returncode != 0:
                        by = p; log = r.stdout[:300]; break
                if not built: continue
                tested += 1
                with lock, open(a.out, "a") as o:
                    o.write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "by": by, "log": log}) + "\n")
            open(repo + "/" + f, "w").write(text)
        shutil.rmtree(base, ignore_errors=True)
    th = [threading.Thread(target=work, args=(k,)) for k in range(a.workers)]
    for t in th: t.start()
    for t in th: t.join()
main()
