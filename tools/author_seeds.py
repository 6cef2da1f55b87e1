#!/usr/bin/env python3
"""(Re)creates /verif/seeded/<id>/ from tools/seeds/*.py specs: each spec is a dict
id, property, needs, breaks, edits=[(file, old, new)], demo (C++ source), inc, extra sources."""
import os, subprocess, sys, json, shutil, glob, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    ns = {"V": V}
    exec(open(f).read(), ns)
    SEEDS += ns["SEEDS"]
want = sys.argv[1:]
for s in SEEDS:
    if want and s["id"] not in want:
        continue
    d = V + "/seeded/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    patch = ""
    tmp = "/tmp/author-%d" % os.getpid()
    for sub in ("a", "b"):
        os.makedirs(tmp + "/" + sub)
    files = []
    for fn, old, new in s["edits"]:
        if fn not in files:
            files.append(fn)
            for sub in ("a", "b"):
                os.makedirs(os.path.dirname(tmp + "/" + sub + "/" + fn), exist_ok=True)
                shutil.copy("/repo/" + fn, tmp + "/" + sub + "/" + fn)
        t = open(tmp + "/b/" + fn).read()
        assert t.count(old) == 1, (s["id"], fn, old, t.count(old))
        open(tmp + "/b/" + fn, "w").write(t.replace(old, new))
    for fn in files:
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + fn, "b/" + fn], cwd=tmp, capture_output=True, text=True)
        patch += r.stdout
    shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    for n, c in s.get("files", {}).items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
        open(d + "/" + n, "w").write(c)
    open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
    if s.get("nodes") is not None:  # the node runs on the simulated graph
        subprocess.check_call(["tar", "--sort=name", "--mtime=2026-01-01", "--owner=0", "--group=0", "-C", V, "-cJf", d + "/shim.tar.xz", "shim/gen.py", "shim/include", "shim/src"])
        open(d + "/demo.cpp", "w").write(open(V + "/tools/seeds/node_demo.h").read() + s["demo"].lstrip())
        inc = " ".join("-I$PWD/" + i for i in sorted(set(n.split("/")[0] + "/include" for n in s["nodes"] + s.get("src", [])) | {"neonavigation_common/include", "trajectory_tracker/include", "trajectory_tracker_msgs/include", "costmap_cspace/include"}))
        jobs = ["-Dmain=%s_main $PWD/%s" % (os.path.basename(n)[:-4], n) for n in s["nodes"]] + ["$PWD/" + n for n in s.get("src", [])] + ["$out/shim/src/world.cpp", "$out/shim/src/tf.cpp", '"$here/demo.cpp"']
        sh = """#!/bin/bash
# Run in /repo after the build: exit 0 when the behaviour is right.
# The node is compiled against a small simulated ROS graph (shim.tar.xz).
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$out"' EXIT
tar -C "$out" -xJf "$here/shim.tar.xz" || exit 3
python3 "$out/shim/gen.py" "$PWD" "$out/gen" || exit 3
F="-std=c++17 -O1 -w -fopenmp -DBOOST_BIND_GLOBAL_PLACEHOLDERS %s -I$out/shim/include -I$out/gen %s -I/usr/include/eigen3"
P=
""" % (s.get("flags", ""), inc)
        for i, j in enumerate(jobs):
            sh += "g++ $F -c %s -o $out/%d.o & P=\"$P $!\"\n" % (j, i)
        sh += """for p in $P; do wait $p || exit 3; done
g++ -fopenmp -Wl,--allow-multiple-definition $out/*.o -o "$out/demo" -lboost_chrono -lboost_system -lboost_thread -lpthread || exit 3
cd "$out" && OMP_WAIT_POLICY=passive OMP_NUM_THREADS=1 timeout 120 ./demo
"""
        open(d + "/demo.sh", "w").write(sh)
        print(s["id"])
        continue
    inc = " ".join("-I" + i for i in s.get("inc", []))
    src = " ".join(s.get("src", []))
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# Run in /repo after the build: exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O1 -g -w -fopenmp -DBOOST_BIND_GLOBAL_PLACEHOLDERS %s -I"$here" %s "$here/demo.cpp" %s -o "$out/demo" -lboost_chrono -lboost_system -lpthread || exit 3
cd "$out" && OMP_WAIT_POLICY=passive OMP_NUM_THREADS=%s timeout 120 ./demo
""" % (s.get("flags", ""), inc.replace("-I", "-I$PWD/") , src and " ".join("$PWD/" + x for x in s["src"]), s.get("threads", 1)))
    print(s["id"])
