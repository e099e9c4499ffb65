#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below.
Run it after adding a harness or a property; both outputs are committed."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SM, CV, OPT, NP, OFF, INC = ("Schweizer-Messer/", "aslam_cv/", "aslam_optimizer/", "aslam_nonparametric_estimation/",
                             "aslam_offline_calibration/", "aslam_incremental_calibration/aslam_incremental_calibration/")
KIN = SM + "sm_kinematics/"
CAM = CV + "aslam_cameras/"
PROPS = []
_UNCLAIMED = {}


def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    for f in files + [w for _, w in mech] + [w for _, _, w in state or []]:
        assert os.path.exists("/repo/" + f), (id, f)
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


exec(open(os.path.join(ROOT, "tools", "properties_table.py")).read())

ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")

cm = open(os.path.join(ROOT, "cmake", "harnesses.cmake")).read()
built = set(re.findall(r"^harness\((\w+)", cm, re.M)) | {x[:-3] for x in os.listdir(os.path.join(ROOT, "python")) if re.match(r"[A-Z]\d+\.py$", x)} \
    if os.path.isdir(os.path.join(ROOT, "python")) else set(re.findall(r"^harness\((\w+)", cm, re.M))
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in built:
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "property-based testing: structured random generation against " + ORACLE.get(i, "an explicit oracle") + ", with shrinking",
                       "level": "exploration", "level_note": NOTE.get(i, DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": _UNCLAIMED.get(i, "the check for it is not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "none", "enable": "no hooks: the harnesses compile /repo's sources as they are", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the packages it needs from /repo's working tree into /verif/build, runs its generated cases in "
              "forked workers, shrinks a failure and writes the replay file named in the VIOLATION line. 'python3 run.py replay FILE' runs it again."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
