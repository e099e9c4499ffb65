#!/usr/bin/env python3
"""Builds one property's harness from /repo's working tree, runs it and writes
evidence/<ID>.json.

  run.py setup                       configure and build everything
  run.py check ID [--tier quick|thorough]
  run.py replay FILE                 runs one recorded failure again
"""
import fcntl, json, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
REPLAYS = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "known_findings.txt")
PYTHON_CHECKS = {"P01": "P01.py", "P02": "P02.py", "E01": "E01.py"}
# python modules a Python check needs
PIPELINE = ["sm_numpy_eigen", "sm_python", "aslam_backend_python", "aslam_bsplines_python", "aslam_splines_python",
            "aslam_cv_python", "aslam_cv_backend_python", "aslam_cameras_april_python", "kalibr_errorterms_python"]
PYTHON_TARGETS = {"P01": PIPELINE, "E01": PIPELINE, "P02": PIPELINE + ["pbt_echo"]}
THOROUGH_SCALE = 40.0
QUICK_CAP, THOROUGH_CAP = 90, 1500


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def env():
    e = dict(os.environ)
    e.update(CC="gcc", CXX="g++", CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="4G",
             CCACHE_SLOPPINESS="time_macros", CCACHE_NOHASHDIR="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return e


def configure():
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(os.path.join(BUILD, "build.ninja")):
        return
    cmd = ["cmake", "-S", ROOT, "-B", BUILD, "-G", "Ninja", "-DREPO=" + REPO, "-DCMAKE_BUILD_TYPE=",
           "-DCMAKE_C_FLAGS=-O1", "-DCMAKE_CXX_FLAGS=-O1"]
    if subprocess.run(["which", "ccache"], stdout=subprocess.DEVNULL).returncode == 0:
        cmd += ["-DCMAKE_C_COMPILER_LAUNCHER=ccache", "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"]
    r = sh(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:])
        sys.exit(2)


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        configure()
        for attempt in (1, 2):
            r = sh(["ninja", "-C", BUILD] + targets, env=env(), stdout=subprocess.PIPE,
                   stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                return
            print("build attempt %d failed" % attempt, file=sys.stderr)
        lines = [l[:400] for l in r.stdout.splitlines() if re.search(r"error|undefined|FAILED", l)]
        sys.stderr.write("\n".join(lines[:12]) + "\n")
        sys.exit(2)


def known_listed(pid):
    """name -> text, of the findings listed for this property"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) name=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def assumptions(pid):
    p = os.path.join(ROOT, "assumptions.json")
    if os.path.exists(p):
        d = json.load(open(p))
        return d.get("*", []) + d.get(pid, [])
    return []


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    quick = tier == "quick"
    if pid in PYTHON_CHECKS:
        if PYTHON_TARGETS[pid]:
            build(PYTHON_TARGETS[pid])
        cmd = [sys.executable, os.path.join(ROOT, "python", PYTHON_CHECKS[pid])]
    else:
        build([pid])
        cmd = [os.path.join(BUILD, "bin", pid)]
    tb = time.time()
    out = os.path.join(BUILD, "stats-%s-%d.json" % (pid, os.getpid()))
    scale = 1.0 if quick else THOROUGH_SCALE
    cap = QUICK_CAP if quick else THOROUGH_CAP
    scale *= float(os.environ.get("VERIF_SCALE", "1"))
    cmd += ["--seed", str(seed), "--scale", str(scale), "--cap", str(cap), "--json", out, "--replays", REPLAYS,
            "--shrink", "15" if quick else "60", "--workers", str(min(16, max(2, os.cpu_count() or 4)))]
    e = env()
    e["MALLOC_PERTURB_"] = "165"
    e["VERIF_REPO"] = REPO
    e["VERIF_BUILD"] = BUILD
    r = sh(cmd, env=e, cwd=ROOT)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        print("harness %s ended with %s" % (pid, r.returncode), file=sys.stderr)
        sys.exit(2)
    s = json.load(open(out))
    os.unlink(out)
    listed = known_listed(pid)
    for k in s.get("known", []):
        if k["name"] in listed and k["fails"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[k["name"]]))
        elif k["fails"]:
            # a fixed input that fails and is not listed
            path = os.path.join(REPLAYS, "%s-%s.replay" % (pid, k["name"]))
            with open(path, "w") as f:
                f.write("property %s\nknown %s\nmessage %s\n" % (pid, k["name"], json.dumps(k["what"])))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  " + k["what"])
            s["violations"] += 1
    samples = s["samples"][:24]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": s["evaluations"], "distinct_nontrivial": s["distinct_nontrivial"],
                       "rule": s["rule"], "samples": samples, "claims": s["claims"], "labels": s["labels"],
                       "unconfirmed": s.get("unconfirmed", 0), "known_findings": s.get("known", []),
                       "build_s": round(tb - t0, 1), "search_s": round(s["search_s"], 1)},
          "assumptions": assumptions(pid), "wall_s": round(time.time() - t0, 1), "violations": s["violations"]}
    text = json.dumps(ev, indent=1)
    if len(text) > 60000:
        ev["coverage"]["samples"] = [x[:300] for x in samples[:8]]
        text = json.dumps(ev, indent=1)
    path = os.path.join(ROOT, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        f.write(text + "\n")
    os.replace(path + ".tmp", path)
    empty = [n for n, c in s["claims"].items() if c["nontrivial"] == 0]
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, build %.0f s, search %.0f s%s" % (
        pid, tier, seed, s["evaluations"], s["distinct_nontrivial"], s["violations"], tb - t0, s["search_s"],
        " EMPTY " + ",".join(empty) if empty else ""))
    sys.exit(1 if s["violations"] else 0)


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        os.makedirs(BUILD, exist_ok=True)
        t = ["harnesses"]
        for v in PYTHON_TARGETS.values():
            t += v
        build(sorted(set(t)))
    elif len(a) >= 2 and a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        check(a[1], tier)
    elif len(a) == 2 and a[0] == "replay":
        pid = re.search(r"property (\S+)", open(a[1]).read()).group(1)
        if pid in PYTHON_CHECKS:
            build(PYTHON_TARGETS[pid]) if PYTHON_TARGETS[pid] else None
            cmd = [sys.executable, os.path.join(ROOT, "python", PYTHON_CHECKS[pid])]
        else:
            build([pid])
            cmd = [os.path.join(BUILD, "bin", pid)]
        sys.exit(sh(cmd + ["--replay", a[1]], env=dict(env(), VERIF_REPO=REPO, VERIF_BUILD=BUILD)).returncode)
    else:
        print(__doc__)
        sys.exit(2)


main()
