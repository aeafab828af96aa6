#!/usr/bin/env python3
"""Builds one world from /repo's working tree, runs the simulator and reports.

  check.py P01                 quick or thorough run, by VERIF_TIER (default quick)
  check.py P01 --replay FILE   replays a failure, printing the history
  check.py --build             builds every binary (setup_cmd)
"""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from worlds.config import BINARIES, PROPERTIES  # noqa: E402

CXXFLAGS = ("-std=c++20 -O1 -w -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS "
            "-ftrivial-auto-var-init=pattern -include cstdint -include cassert -include stdexcept -I%s/include" % REPO)


def write(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def build(names):
    os.makedirs(BUILD, exist_ok=True)
    n = ["cxxflags = " + CXXFLAGS,
         "rule cxx", "  command = g++ $cxxflags $extra -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = g++ -fsanitize=address $in -o $out $libs", ""]
    objs = {}

    def obj(src, extra=""):
        key = (src, extra)
        if key not in objs:
            rel = os.path.relpath(src, HERE if src.startswith(HERE) else REPO).replace("/", "_")
            o = os.path.join(BUILD, rel + (".%d" % len(objs) if any(k[0] == src for k in objs) else "") + ".o")
            objs[key] = o
            n.append("build %s: cxx %s" % (o, src))
            if extra:
                n.append("  extra = " + extra)
        return objs[key]

    for name in sorted(BINARIES):
        b = BINARIES[name]
        os_ = [obj(os.path.join(HERE, "sim/sim.cpp"))]
        for root, key in ((HERE, "src"), (REPO, "repo")):
            for s in b.get(key, []):
                s, extra = (s, "") if isinstance(s, str) else s
                os_.append(obj(os.path.join(root, s), extra))
        n.append("build %s: link %s" % (os.path.join(BUILD, name), " ".join(os_)))
        if b.get("libs"):
            n.append("  libs = " + b["libs"])
    outs = [os.path.join(BUILD, name) for name in names]
    nf = os.path.join(BUILD, "build.ninja")
    write(nf, "builddir = %s\n" % BUILD + "\n".join(n) + "\n")
    r = subprocess.run(["ninja", "-f", nf, "-j", str(os.cpu_count() or 8)] + outs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout)
        sys.stderr.write("build failed\n")
        sys.exit(2)


def findings(prop):
    known, fixed = [], []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                sig, text = rest.split(" ", 1)
                known.append((sig.split("=", 1)[1], text))
    return known


def main():
    if "--build" in sys.argv:
        build(sorted(BINARIES))
        return 0
    prop = sys.argv[1]
    cfg = PROPERTIES[prop]
    name = cfg["binary"]
    t0 = time.time()
    build([name])
    built = time.time() - t0
    exe = os.path.join(BUILD, name)
    known = findings(prop)
    common = ["--known", ",".join(s for s, _ in known)] if known else []
    if "--replay" in sys.argv:
        return subprocess.run([exe, "--replay", sys.argv[sys.argv.index("--replay") + 1], "-v"] + common).returncode
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    runs, seconds = (cfg["quick"], cfg.get("quick_seconds", 240)) if tier != "thorough" else (cfg.get("thorough", cfg["quick"] * 60), cfg.get("thorough_seconds", 1500))
    jobs = os.cpu_count() or 8
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    out = os.path.join(BUILD, "%s.json" % prop)
    if os.path.exists(out):
        os.remove(out)
    r = subprocess.run([exe, "--property", prop, "--seed", str(seed), "--runs", str(runs), "--max-seconds", str(seconds), "--jobs", str(jobs),
                        "--out", out, "--replay-dir", replays] + common, stdout=subprocess.PIPE, text=True)
    sys.stdout.write(r.stdout)
    if not os.path.exists(out):
        sys.stderr.write("the simulator gave no result\n")
        return 2
    res = json.load(open(out))
    samples = []
    for run in (0, 1, 2):
        tr = subprocess.run([exe, "--property", prop, "--seed", str(seed), "--trace", str(run)] + common, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        lines = tr.stderr.decode("utf-8", "replace").splitlines()
        samples.append({"run": run, "history": [x.strip()[:200] for x in lines[:25]], "events": len(lines), "result": tr.stdout.decode("utf-8", "replace").strip()[:200]})
    wall = res["wall"] or 1e-6
    counters = res["counters"]
    ev = {
        "property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res["runs"],
            "distinct_nontrivial": res["distinct_runs"],
            "rule": "One evaluation is one simulated run: a plan (configuration seed and steps, each with its own seed and fault permission) derived from VERIF_SEED and the run "
                    "index. A run counts as distinct when its complete history hash differs from that of every other run; runs have at least one operation. " + cfg["rule"],
            "samples": samples,
            "steps": res["steps"],
            "steps_with_faults_allowed": res["fault_enabled_steps"],
            "runs_per_hour": int(res["runs"] * 3600 / wall),
            "seeds_per_hour": int(res["runs"] * 3600 / wall),
            "simulated_time_us": res["simulated_us"],
            "faults_fired": {k[6:]: v for k, v in counters.items() if k.startswith("fault:")},
            "probes": {k: v for k, v in counters.items() if not k.startswith("fault:")},
            "distinct_states": res["distinct_states"],
            "state_measure": cfg["states"],
            "determinism_rechecks": res["determinism_rechecks"],
            "determinism_mismatches": res["determinism_mismatches"],
            "real_components": cfg["real"],
            "stubbed_components": cfg["stub"],
            "workers": res["jobs"],
            "build_s": round(built, 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if res["violation"] else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    for sig, text in known:
        print("KNOWN-FINDING: property=%s %s (%s, met %d times in this run)" % (prop, text, sig, counters.get("known:" + sig, 0)))
    print("%s: %d runs, %d steps, %d distinct histories, %.1f s simulation, %.1f s build" % (prop, res["runs"], res["steps"], res["distinct_runs"], wall, built))
    if res["violation"]:
        print("VIOLATION property=%s replay=%s" % (prop, res["violation"]["replay"]))
        return 1
    if r.returncode != 0:
        sys.stderr.write("simulator exit %d\n" % r.returncode)
        return 2
    if res["runs"] == 0:
        return 2
    return 0


sys.exit(main())
