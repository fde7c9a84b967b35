#!/usr/bin/env python3
"""Decide one property by deterministic simulation with fault injection.

  check.py <ID>                 quick or thorough, by VERIF_TIER; seeds from VERIF_SEED
  check.py --replay FILE        rebuild and re-execute a replay file (exit 1: it reproduces)
  check.py --build ID DIR       build that property's simulators into DIR

exit 0: no violation on everything explored; exit 1 and a VIOLATION line: broken;
any other exit: the check itself failed (nothing is claimed).
"""
import concurrent.futures, json, os, shutil, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("XMEM_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

CXXFLAGS = ["-std=c++17", "-g1", "-fno-pie", "-w"]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "aligned_alloc", "posix_memalign"))]
VARIANTS = {
    "gcc-O1": ["g++", "-O1", "-fsanitize=thread"],
    "gcc-O0": ["g++", "-O0", "-fsanitize=thread"],
    "gcc-O2": ["g++", "-O2", "-DNDEBUG", "-fsanitize=thread"],  # as released: what is in an assert is gone
    "clang-O1": ["clang++", "-O1", "-fsanitize=thread", "-mllvm", "-tsan-handle-cxx-exceptions=0", "-mllvm", "-tsan-instrument-func-entry-exit=0"],
}

# simulator binary -> (source, extra flags)
BINARIES = {
    "refcount": ("refcount.cpp", []),
    "world_atomic": ("world.cpp", ["-DLIB=1"]),
    "world_local": ("world.cpp", ["-DLIB=2"]),
    "world_tracked": ("world.cpp", ["-DLIB=3"]),
    "storage_xmem": ("storage.cpp", ["-DLIB=1"]),
    "storage_tracked": ("storage.cpp", ["-DLIB=3"]),
    "storage_xstd": ("storage.cpp", ["-DLIB=4"]),
    "storage_xstd20": ("storage.cpp", ["-std=c++20", "-DLIB=4"]),  # over std::atomic<std::shared_ptr>
    "graph_atomic": ("graph.cpp", ["-DLIB=1"]),
    "graph_local": ("graph.cpp", ["-DLIB=2"]),
    "graph_tracked": ("graph.cpp", ["-DLIB=3"]),
    "unique": ("unique.cpp", []),
}
# what to leave out if the library refuses to compile it
FALLBACK = {"unique": ["-DNO_ARRAY_HANDOVER"]}
exec(open(os.path.join(ROOT, "checks.conf.py")).read())  # CHECKS, REAL, RULE

def die(msg, code=3):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build(bins, outdirs):
    """outdirs: variant -> directory"""
    rt = next(iter(outdirs.values())) + "/rt.o"
    jobs = {}
    for variant, outdir in outdirs.items():
        os.makedirs(outdir, exist_ok=True)
        v = VARIANTS[variant]
        for b in bins:
            src, fl = BINARIES[b]
            jobs[variant, b] = [v[0]] + CXXFLAGS + v[1:] + fl + [f"-I{REPO}/code", "-c", f"{ROOT}/harness/{src}", "-o", f"{outdir}/{b}.o"]
    jobs["rt", ""] = ["g++", "-std=c++17", "-O2", "-g1", "-fno-pie", "-w", "-c", f"{ROOT}/sim/rt.cpp", "-o", rt]
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        res = dict(zip(jobs, ex.map(lambda c: run(c), jobs.values())))
    for (variant, n), r in res.items():
        if r.returncode and n in FALLBACK:
            r = run(jobs[variant, n] + FALLBACK[n])
        if r.returncode:
            die(f"cannot compile {n} ({variant}) against {REPO}/code:\n{r.stdout[:3000]}")
    for variant, outdir in outdirs.items():
        for b in bins:
            r = run(["g++", "-no-pie", f"{outdir}/{b}.o", rt, "-o", f"{outdir}/{b}", "-ldl"] + WRAP)
            if r.returncode:
                die(f"cannot link {b}: {r.stdout[:3000]}")

def hash_of(binary, profile, seed):
    r = run([binary, "hash", "--profile", profile, "--seed", str(seed), "--count", "1"], timeout=120)
    return (r.returncode, r.stdout.strip())

def confirm(pid, binary, binname, variant, profile, v):
    """Gate a violation: same seed twice in fresh processes, minimise, replay twice in fresh processes."""
    seed = v["seed"]
    a, b = hash_of(binary, profile, seed), hash_of(binary, profile, seed)
    if a != b or a[0] != 0 or v["hash"] not in a[1] or v["class"] not in a[1].split():
        return None, f"seed {seed} does not repeat: {a} {b}"
    os.makedirs(f"{ROOT}/replays", exist_ok=True)
    path = f"{ROOT}/replays/{pid}-{binname}-{seed}.replay"
    err = ""
    for budget in ("20", "0"):
        m = run([binary, "minimise", "--profile", profile, "--seed", str(seed), "--out", path, "--property", pid,
                 "--binary", binname, "--variant", variant, "--budget", budget], timeout=240)
        if m.returncode:
            err = f"minimise failed: {m.returncode} {m.stdout[-400:]}"
            continue
        rs = [run([binary, "replay", "--file", path], timeout=120) for _ in range(2)]
        if all(r.returncode == 10 for r in rs) and rs[0].stdout == rs[1].stdout:
            t = run([binary, "replay", "--file", path, "--trace"], timeout=120)
            with open(path + ".trace.txt", "w") as f:
                f.write(t.stdout)
            return path, t.stdout.strip().splitlines()[-1]
        err = "replay does not reproduce: " + " / ".join(f"{r.returncode} {r.stdout.strip()[-200:]}" for r in rs)
    return None, err

def explore(pid, part, binary, binname, variant, seed, count, tmax, workers, tmpdir):
    profile = part["profile"]
    procs = []
    for w in range(workers):
        hf = f"{tmpdir}/h.{binname}.{variant}.{profile}.{w}"
        c = [binary, "search", "--profile", profile, "--base", str(seed), "--first", str(w), "--stride", str(workers),
             "--count", str(count), "--time", str(tmax), "--hashes", hf]
        procs.append((subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), hf))
    stats, viols, hashes = [], [], set()
    deadline = time.time() + tmax + 60
    pending = dict(enumerate(procs))
    outs = {}
    def reader(i):
        try:
            o, e = procs[i][0].communicate(timeout=max(1, deadline - time.time()))
            return i, procs[i][0].returncode, o, e
        except subprocess.TimeoutExpired:
            procs[i][0].kill()
            procs[i][0].communicate()
            return i, -99, "", "timed out"
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(reader, i) for i in range(workers)]
        for f in concurrent.futures.as_completed(futs):
            i, rc, o, e = f.result()
            outs[i] = (rc, o, e)
            if rc == 10:
                for p, _ in procs:
                    if p.poll() is None:
                        p.terminate()
    for i, (rc, o, e) in sorted(outs.items()):
        if rc == -15:
            continue
        if rc not in (0, 10):
            die(f"simulator {binname} profile {profile} worker {i} ended with {rc}: {e[-500:]}")
        s = json.loads(o)
        stats.append(s)
        if rc == 10:
            viols.append(s["violation"])
        if os.path.exists(procs[i][1]):
            d = open(procs[i][1], "rb").read()
            hashes.update(struct.unpack(f"<{len(d)//8}Q", d))
            os.unlink(procs[i][1])
    return stats, viols, hashes

def known(pid):
    p = f"{ROOT}/known-findings.txt"
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: ") and f"property={pid} " in l:
                head, text = l.strip().split(" -- ", 1)
                d = dict(x.split("=", 1) for x in head.split()[1:])
                out.append((d, text))
    return out

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        f = sys.argv[2]
        kv = {}
        for l in open(f):
            w = l.split(None, 1)
            if len(w) == 2 and w[0] not in kv:
                kv[w[0]] = w[1].strip()
        d = f"{ROOT}/build/replay-{os.getpid()}"
        build([kv["binary"]], {kv["variant"]: d})
        r = run([f"{d}/{kv['binary']}", "replay", "--file", f, "--trace"])
        shutil.rmtree(d)
        print(r.stdout)
        sys.exit({0: 0, 10: 1}.get(r.returncode, 3))
    if len(sys.argv) > 3 and sys.argv[1] == "--build":
        build(sorted({p["bin"] for p in CHECKS[sys.argv[2]]["parts"]}), {"gcc-O1": sys.argv[3]})
        return
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = CHECKS[pid]
    t0 = time.time()
    print(f"{pid}: tier={tier} VERIF_SEED={seed}", flush=True)
    variants = ["gcc-O1", "gcc-O2"] if tier == "quick" else ["gcc-O1", "gcc-O0", "gcc-O2", "clang-O1"]
    scale = 1 if tier == "quick" else conf.get("thorough_scale", 20)
    scale = float(os.environ.get("VERIF_SCALE", scale))
    bd = f"{ROOT}/build/{pid}-{os.getpid()}"
    shutil.rmtree(bd, ignore_errors=True)
    try:
        check(pid, conf, tier, seed, variants, scale, bd, t0)
    finally:
        shutil.rmtree(bd, ignore_errors=True)

def check(pid, conf, tier, seed, variants, scale, bd, t0):
    allstats, nd, result = [], 0, None
    per = []
    findings = known(pid)
    build(sorted({p["bin"] for p in conf["parts"]}), {v: f"{bd}/{v}" for v in variants})
    tbuild = time.time() - t0
    for vi, variant in enumerate(variants):
        if vi == 0:  # recorded, unrepaired defects: shown, not alarmed about
            for d, text in findings:
                b = f"{bd}/{variant}/{d['bin']}"
                r = run([b, "search", "--profile", d["profile"], "--base", "1", "--count", "40", "--time", "20"], timeout=120)
                if r.returncode == 10:
                    v = json.loads(r.stdout)["violation"]
                    if v["class"] == d["class"] and d["message"].replace("_", " ") in v["msg"]:
                        print(f"KNOWN-FINDING: property={pid} {text}", flush=True)
                        continue
                    path, info = confirm(pid, b, d["bin"], variant, d["profile"], v) # the same history fails in another way
                    if not path:
                        die(f"a violation was seen but could not be confirmed: {info}")
                    print(f"seed {v['seed']} class {v['class']}: {v['msg']}\nminimised: {info}")
                    result = path
                elif r.returncode != 0:
                    die(f"known-finding probe {d} ended with {r.returncode}")
                else:
                    print(f"note: known finding no longer shows: {text}", flush=True)
        for part in [] if result else conf["parts"]:
            count = int(part["count"] * scale / (1 if vi == 0 else 5 if tier == "quick" else 2))
            tmax = part.get("time", 20) * (1 if tier == "quick" else max(1, scale))
            b = f"{bd}/{variant}/{part['bin']}"
            st, viols, hs = explore(pid, part, b, part["bin"], variant, seed + 1000003 * vi, count, tmax, WORKERS, bd)
            allstats += st
            nd += len(hs)
            per.append({"binary": part["bin"], "variant": variant, "profile": part["profile"], "runs": sum(s["runs"] for s in st),
                        "distinct_nontrivial": len(hs), "wall_s": round(max([s["wall"] for s in st] or [0]), 2),
                        "stopped_by_time_cap": any(s["timed_out"] for s in st)})
            if viols:
                errs = []
                for v in viols:
                    path, info = confirm(pid, b, part["bin"], variant, part["profile"], v)
                    if path:
                        print(f"seed {v['seed']} class {v['class']}: {v['msg']}")
                        print(f"minimised: {info}")
                        result = path
                        break
                    errs.append(info)
                if not result:
                    die("a violation was seen but could not be confirmed: " + "; ".join(errs))
                break
        if result:
            break
    wall = time.time() - t0
    runs = sum(s["runs"] for s in allstats)
    faults, probes = {}, {}
    for s in allstats:
        for k, (a, r) in s["faults"].items():
            f = faults.setdefault(k, {"fired": 0, "in_runs": 0}); f["fired"] += a; f["in_runs"] += r
        for k, (a, r) in s["probes"].items():
            f = probes.setdefault(k, {"hits": 0, "in_runs": 0}); f["hits"] += a; f["in_runs"] += r
    simwall = sum(s["wall"] for s in allstats) / max(1, WORKERS)
    samples = [x for s in allstats for x in s["samples"]][:6]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nd,
            "rule": RULE,
            "samples": samples,
            "simulated_runs_per_hour": int(runs / max(simwall, 1e-3) * 3600),
            "simulated_steps": sum(s["steps"] for s in allstats),
            "context_switches": sum(s["switches"] for s in allstats),
            "preemptions_inside_operations": sum(s["preemptions"] for s in allstats),
            "faults_fired": faults,
            "reach_probes": probes,
            "probes_never_hit": sorted(k for k, v in probes.items() if not v["hits"]),
            "runs_abandoned_for_another_property": sum(s["foreign"] for s in allstats),
            "parts": per,
            "components_real": REAL,
            "components_stub": STUB,
            "build_s": round(tbuild, 1),
        },
        "assumptions": ASSUMPTIONS + conf.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if result else 0,
    }
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    with open(f"{ROOT}/evidence/{pid}.json" if not os.environ.get("XMEM_NO_EVIDENCE") else os.devnull, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {runs} simulated runs, {nd} distinct non-trivial, {wall:.1f} s ({tbuild:.1f} s building)", flush=True)
    if result:
        print(f"VIOLATION property={pid} replay={result}", flush=True)
        sys.exit(1)

if __name__ == "__main__":
    main()
