#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree, searches for a
violation, writes evidence/<id>.json.

  run.py P01 [--tier quick|thorough] [--seed N] [--time S] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself could not run."""
import argparse, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
import checks  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", 0)) or max(1, min(8, os.cpu_count() or 1))
COMMON = ["-std=c++17", "-g1", "-fopenmp", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-w"]
SAN = {
    "none": [],
    "asan": ["-fsanitize=address", "-fno-omit-frame-pointer"],
    "aubsan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,float-cast-overflow,float-divide-by-zero,alignment",
               "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}


def file_hash(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in cache:
        with open(path, "rb") as f:
            cache[key] = hashlib.sha256(f.read()).hexdigest()
    return cache[key]


def subst(s, h):
    return s.replace("{REPO}", REPO).replace("{VERIF}", VERIF).replace("{GEN}", os.path.join(BUILD, "gen"))


def cached_compile(cmd, src, obj):
    """Compile src to obj unless the same command on the same contents made it."""
    meta = obj + ".json"
    tag = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["cmd"] == tag and all(file_hash(p) == h for p, h in m["deps"].items()):
                return None
        except Exception:
            pass
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj], capture_output=True, text=True)
    if r.returncode:
        return r.stderr[-6000:]
    text = open(dep).read().replace("\\\n", " ")
    deps = text.split(":", 1)[1].split()
    deps = [d for d in deps if d.startswith(REPO) or d.startswith(VERIF) or d.startswith(BUILD)]
    json.dump({"cmd": tag, "deps": {d: file_hash(d) for d in deps}}, open(meta, "w"))
    return None


def build(name, variant="", extra=()):
    h = checks.HARNESS[name]
    if h.get("gen"):
        subprocess.run([sys.executable, os.path.join(VERIF, h["gen"]), REPO, os.path.join(BUILD, "gen")], check=True)
    out = os.path.join(BUILD, name + variant)
    os.makedirs(out, exist_ok=True)
    cxx = "clang++" if variant == "-fuzz" else "g++"
    flags = list(COMMON) + [h.get("opt", "-O1")]
    if variant == "-fuzz":
        flags = ["-std=c++17", "-g1", "-O1", "-w", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-DPBT_LIBFUZZER",
                 "-fsanitize=fuzzer,address", "-fopenmp=libgomp"]
    else:
        flags += SAN[os.environ.get("VERIF_SAN") or h.get("san", "none")]
    flags += list(extra)
    incs = ["-I" + os.path.join(VERIF, "lib")] + ["-I" + subst(i, h) for i in h.get("inc", [])]
    flags += [subst(f, h) for f in h.get("flags", [])]
    jobs = []
    for s in [os.path.join(VERIF, "lib", "pbt_main.cpp")] + h["src"]:
        sf = []
        if isinstance(s, (tuple, list)):
            s, sf = s[0], list(s[1])
        s = subst(s, h)
        if not s.startswith("/"):
            s = os.path.join(VERIF, s)
        obj = os.path.join(out, hashlib.sha256((s + " ".join(sf)).encode()).hexdigest()[:8] + "-" + os.path.basename(s) + ".o")
        jobs.append(([cxx] + flags + [subst(x, h) for x in sf] + incs, s, obj))
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(lambda j: cached_compile(*j), jobs) if e]
    if errs:
        sys.stderr.write("\n".join(errs))
        return None
    exe = os.path.join(out, "harness")
    link = [cxx] + flags + [j[2] for j in jobs] + ["-o", exe] + h.get("libs", ["-lboost_chrono", "-lboost_system", "-lboost_thread", "-lpthread"])
    key = hashlib.sha256((" ".join(link) + "".join(file_hash(j[2]) for j in jobs)).encode()).hexdigest()
    kf = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr[-6000:])
            return None
        open(kf, "w").write(key)
    return exe


def run_env(tmp):
    e = dict(os.environ)
    e["PBT_TMP"] = tmp
    e["OMP_WAIT_POLICY"] = "PASSIVE"
    e["ASAN_OPTIONS"] = "exitcode=97:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    e.setdefault("OMP_NUM_THREADS", "1")
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--time", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--max-cases", type=int, default=0)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        os.makedirs(BUILD, exist_ok=True)
        for t in ("g++", "clang++"):
            subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
        print("toolchain present; every check builds its own harness")
        return 0
    pid = a.property
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    c = checks.CHECKS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    tmp = os.path.join(BUILD, "tmp-%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    try:
        return go(a, pid, c, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def go(a, pid, c, t0, tmp):
    parts = c["parts"]  # [(harness, [facets], share)]
    if a.replay:
        text = open(a.replay).read()
        facet = [l.split()[1] for l in text.splitlines() if l.startswith("facet ")][0]
        for hn, fl, _ in parts:
            if facet in fl or not fl:
                exe = build(hn)
                r = subprocess.run([exe, "--replay", os.path.abspath(a.replay)], env=run_env(tmp))
                return r.returncode
        print("no such facet:", facet)
        return 2
    with ThreadPoolExecutor(1) as ex:
        exes = list(ex.map(build, [p[0] for p in parts]))
    if any(e is None for e in exes):
        print("ERROR: harness for %s did not build" % pid)
        return 2
    t_build = time.time() - t0
    budget = a.time or c["quick" if a.tier == "quick" else "thorough"]
    shares = sum(p[2] for p in parts)
    results = []
    failures = []
    for (hn, fl, share), exe in zip(parts, exes):
        out = os.path.join(tmp, hn + ".json")
        cmd = [exe, "--run", "1", "--property", pid, "--seed", str(a.seed), "--time", str(budget * share / shares),
               "--workers", str(JOBS), "--out", out, "--replays", os.path.join(VERIF, "replays"),
               "--only", ",".join(fl), "--case-timeout", str(c.get("case_timeout", 30)),
               "--max-cases", str(a.max_cases), "--keep-going", "1" if a.keep_going else "0"]
        r = subprocess.run(cmd, env=run_env(tmp), stdout=subprocess.DEVNULL if not a.v else None, stderr=None if a.v else subprocess.PIPE)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("ERROR: harness ended with %s" % r.returncode)
            if r.stderr:
                sys.stderr.write(r.stderr.decode(errors="replace")[-3000:])
            return 2
        res = json.load(open(out))
        results.append((hn, res))
        for f in res["failures"]:
            f["harness"] = hn
            failures.append(f)
    # Coverage-guided pass (thorough tier only).
    fuzz = []
    if a.tier == "thorough" and not failures:
        for hn, fl in c.get("fuzz", []):
            exe = build(hn, "-fuzz")
            if exe is None:
                continue
            for facet in fl:
                f, info = run_fuzz(pid, hn, exe, facet, c.get("fuzz_time", 60), a.seed, tmp)
                fuzz.append(info)
                if f:
                    failures.append(f)
    known = load_known(pid)
    new, old = [], []
    for f in failures:
        k = [x for x in known if x["facet"] == f["facet"] and x["tag"] == f["tag"]]
        (old if k else new).append((f, k))
    for x in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
    write_evidence(a, pid, c, results, fuzz, len(new), time.time() - t0, t_build)
    n = sum(f["cases"] for _, r in results for f in r["facets"])
    nt = sum(f["distinct_nontrivial"] for _, r in results for f in r["facets"])
    for f, _ in new:
        print("VIOLATION property=%s replay=%s" % (pid, f["replay"]))
        print("  facet %s, check %s: %s" % (f["facet"], f["tag"], f["message"][:1500]))
        if f.get("case"):
            print("  case: %s" % f["case"][:3000])
    if n == 0 and not failures:
        print("ERROR: no case was completed")
        return 2
    print("%s %s: %s, %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" % (
        pid, a.tier, "VIOLATED" if new else "held", n, nt, t_build, time.time() - t0))
    if a.v:
        for hn, r in results:
            for f in r["facets"]:
                print("   %-28s cases %8d  discarded %7d  nontrivial %8d  distinct %8d" % (
                    f["name"], f["cases"], f["discarded"], f["nontrivial"], f["distinct_nontrivial"]))
            for k, v in sorted(r["labels"].items()):
                print("      %-50s %d" % (k, v))
            print("   flaky", r["flaky"], "unreproduced", r["unreproduced_crashes"])
    return 1 if new else 0


def run_fuzz(pid, hn, exe, facet, secs, seed, tmp):
    """libFuzzer over the same property; a crash becomes an ordinary replay tape."""
    corpus = os.path.join(tmp, "corpus-" + facet)
    os.makedirs(corpus, exist_ok=True)
    dump = os.path.join(tmp, "dump-" + facet)
    e = run_env(tmp)
    e["PBT_FACET"] = facet
    e["PBT_DUMP"] = dump
    log = os.path.join(tmp, "fuzz-%s.log" % facet)
    with open(log, "w") as lf:
        subprocess.run([exe, "-max_total_time=%d" % secs, "-seed=%d" % seed, "-max_len=2048", "-timeout=60", "-rss_limit_mb=4096",
                        "-fork=%d" % JOBS, "-artifact_prefix=" + tmp + "/", "-ignore_timeouts=1", "-ignore_ooms=1", corpus],
                       env=e, stdout=lf, stderr=subprocess.STDOUT, cwd=tmp)
    text = open(log, errors="replace").read()
    info = {"facet": facet, "seconds": secs, "corpus": len(os.listdir(corpus)),
            "last": [l for l in text.splitlines() if l.startswith("#")][-1:]}
    if os.path.exists(dump):
        src = dump
        rep = os.path.join(VERIF, "replays", "%s-%s-fuzz.tape" % (pid, facet))
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        shutil.copy(src, rep)
        plain = build(hn)
        ok = [subprocess.run([plain, "--replay", rep], env=run_env(tmp), capture_output=True).returncode == 1 for _ in range(3)]
        if any(ok):
            t = open(rep).read()
            tag = [l.split()[1] for l in t.splitlines() if l.startswith("tag ")][0]
            return {"facet": facet, "tag": tag, "message": t[:1500], "replay": rep, "harness": hn}, info
    return None, info


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)).get("findings", []) if x["property"] == pid]


def write_evidence(a, pid, c, results, fuzz, nviol, wall, t_build):
    facets = [f for _, r in results for f in r["facets"]]
    labels = {}
    for _, r in results:
        labels.update(r["labels"])
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": c.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(f["cases"] for f in facets),
            "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in facets),
            "rule": " || ".join("%s: %s" % (f["name"], f["rule"]) for f in facets),
            "samples": [{"facet": f["name"], "case": s} for f in facets for s in f["samples"]][:12]
            or [{"facet": f["name"], "case": "(no sample text)"} for f in facets[:1]],
            "facets": {f["name"]: {k: f[k] for k in ("cases", "discarded", "nontrivial", "distinct_nontrivial")} for f in facets},
            "labels": labels,
            "coverage_guided": fuzz,
            "flaky_failures_not_reported": sum(r["flaky"] for _, r in results),
            "unreproduced_crashes": sum(r["unreproduced_crashes"] for _, r in results),
        },
        "assumptions": c.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
