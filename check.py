#!/usr/bin/env python3
"""The check of one property: python3 check.py C11 [--tier quick|thorough]

1. every contract unit of the property is verified against /repo's current
   source (kv/, contracts/): all paths, all inputs, no bound;
2. the property's battery runs the real code on concrete cases, as the replay
   engine for failed obligations and as the bounded stand-in of what the
   verifier cannot take (battery/).
Exit 0 or 1 only; see DESIGN.md for the policy.
"""
import argparse
import json
import os
import re
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VT, VENV = "python3-vt", "/opt/venv/bin/python"
sys.path.insert(0, HERE)
import props                                     # noqa: E402


def sh(cmd, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -1, "", "timeout"


def verify(name, scale=1):
    rc, out, err = sh([VT, "kv/worker.py", name, str(scale)], 240 * scale)
    try:
        return json.loads(out)
    except ValueError:
        return {"unit": name, "status": "error", "why": "the verifier ended with %s: %s" % (rc, err[-800:]),
                "obligations": [], "functions": []}


def battery(pid, seed, seconds):
    fd, path = tempfile.mkstemp(prefix="kvbat")
    os.close(fd)
    rc, out, err = sh([VENV, "battery/run.py", pid, "--seed", str(seed), "--seconds", str(seconds), "--out", path],
                      seconds * 4 + 90)
    try:
        with open(path) as f:
            out = f.read()
    finally:
        os.unlink(path)
    try:
        return json.loads(out)
    except ValueError:
        return {"property": pid, "evaluations": 0, "distinct": 0, "rule": "none", "samples": [], "seconds": 0,
                "seed": seed, "failures": [], "error": "the battery ended with %s: %s" % (rc, err[-1500:])}


def bad(o):
    return o["status"] != "discharged"


def owner(name):
    m = re.match(r"(C\d\d)\.", name)
    return m.group(1) if m else None


def known(pid):
    """Listed findings: lines 'finding: property=<id> match=<regex> :: <what fails>'."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    pid, seed = a.prop, int(os.environ.get("VERIF_SEED", "1"))
    thorough = a.tier == "thorough"
    t0 = time.time()
    rc, out, err = sh([VT, "kv/worker.py", "--list"], 120)
    try:
        units = [u for u in json.loads(out) if pid in u["props"]]
        lost = None
    except ValueError:
        units, lost = [], err[-1500:]
    secs = (60 if thorough else 5)
    nbat = 4 if thorough else 2
    scale = 3 if thorough else 1
    with ThreadPoolExecutor(8) as ex:
        fb = [ex.submit(battery, pid, seed * 1000 + k, secs) for k in range(nbat)]
        fu = [ex.submit(verify, u["name"], scale) for u in units]
        bats = [f.result() for f in fb]
        res = [f.result() for f in fu]
        # what is undecided is tried once more, alone and longer
        for i, r in enumerate(res):
            if any(o["status"] == "undecided" for o in r["obligations"]) or (
                    r["status"] == "error") or "time budget" in str(r.get("why")):
                res[i] = verify(r["unit"], scale * 3)
        for r in res:
            # a unit may serve several properties: the obligations of the others are theirs
            r["obligations"] = [o for o in r["obligations"] if owner(o["name"]) in (None, pid)]
            dead = [c for c, hit in r.get("covers", {}).items() if not hit and owner(c) in (None, pid)]
            if r["status"] == "done" and dead:
                r["status"], r["why"] = "vacuous", "no execution reaches: " + ", ".join(dead)
        failed = [(r, o) for r in res for o in r["obligations"] if bad(o)]
        unproved = [r for r in res if r["status"] != "done"]
        fails = [(f, b) for b in bats for f in b["failures"]]
        if not fails and (failed or unproved or lost):
            more = [ex.submit(battery, pid, seed * 1000 + 100 + k, secs * 4) for k in range(7)]
            bats += [f.result() for f in more]
            fails = [(f, b) for b in bats for f in b["failures"]]
    kn = known(pid)
    seen, new = {}, []
    for f, b in fails:
        for rx, what in kn:
            if rx.search(f["message"]):
                seen[what] = f
                break
        else:
            new.append(f)
    for what in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    violations = 0
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + ".json")
    # fields of the failing obligations are part of every replay file
    fo = [{"unit": r["unit"], "obligation": o["name"], "status": o["status"], "goal": o["goal"],
           "model": o["model"], "where": o["where"], "functions": r.get("functions")} for r, o in failed]
    if new:
        f = new[0]
        json.dump({"property": pid, "case": f["case"], "message": f["message"], "obligations": fo,
                   "replay": "%s battery/run.py %s --replay %s" % (VENV, pid, rpath)},
                  open(rpath, "w"), indent=1)
        for o in fo:
            print("obligation %s: %s (unit %s)" % (o["status"], o["obligation"], o["unit"]))
        print("failing input on the real code: %s" % f["message"])
        print("VIOLATION property=%s replay=%s" % (pid, rpath))
        violations = len(new)
    elif failed and not seen:
        json.dump({"property": pid, "case": None, "obligations": fo,
                   "message": "obligations not discharged, no failing input found"},
                  open(rpath, "w"), indent=1, default=str)
        for o in fo:
            print("obligation %s: %s (unit %s)" % (o["status"], o["obligation"], o["unit"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath))
        violations = len(fo)
    for r in unproved:
        print("NOT PROVED on this tree: unit %s (%s); bounded stand-in: %d cases" % (
            r["unit"], str(r.get("why"))[:300], sum(b["evaluations"] for b in bats)))
    for b in bats:
        if b.get("error"):
            print("battery: %s" % b["error"][-600:])
    nobl = sum(len(r["obligations"]) for r in res)
    ndis = sum(1 for r in res for o in r["obligations"] if not bad(o) and r["status"] == "done")
    spec = props.PROPS[pid]
    allproved = bool(res) and not unproved and not failed and not lost
    level = spec["level"] if (allproved or spec["level"] != "proof") else "exploration"
    funs = sorted({f for r in res if r["status"] == "done" for f in r.get("functions", ())})
    cov = {
        "obligations": nobl, "discharged": ndis,
        "checker_cmd": "python3-vt kv/worker.py <unit> (units: %s)" % ", ".join(u["name"] for u in units),
        "back_end": "z3 %s" % z3v(), "solver_s": round(sum(r.get("solver_seconds", 0) for r in res), 2),
        "functions_under_contract": funs,
        "trusted_base": props.TRUSTED + spec.get("trusted", []),
        "units": [{"unit": r["unit"], "status": r["status"], "why": r.get("why"), "doc": r.get("doc"),
                   "obligations": [{"name": o["name"], "status": o["status"], "queries": o["times"],
                                    "seconds": o["seconds"]} for o in r["obligations"]],
                   "functions_under_contract": r.get("functions"), "functions_executed": r.get("executed"),
                   "paths": r.get("paths"), "invariant_rounds": r.get("rounds"), "queries": r.get("checks"),
                   "solver_s": r.get("solver_seconds"), "reachable": r.get("covers")} for r in res],
        "evaluations": sum(b["evaluations"] for b in bats),
        "distinct_nontrivial": sum(b["distinct"] for b in bats),
        "rule": bats[0]["rule"] + "; distinct by content", "samples": bats[0]["samples"][:3] or ["-"],
        "bounded_only": spec.get("bounded", "") or "nothing: the concrete cases are the replay engine only",
        "bounded_seeds": [b["seed"] for b in bats],
        "bounded_s": round(sum(b["seconds"] for b in bats), 1),
        "unproved_units": [r["unit"] for r in unproved],
    }
    if lost:
        cov["verifier_error"] = lost
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": spec.get("assume", []) + props.ASSUMED, "wall_s": round(time.time() - t0, 2),
          "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged in %d units, %d bounded cases, %.1f s" % (
        pid, ndis, nobl, len(res), cov["evaluations"], time.time() - t0))
    return 1 if violations else 0


def z3v():
    rc, out, err = sh([VT, "-c", "import z3; print(z3.get_version_string())"], 60)
    return out.strip()


if __name__ == "__main__":
    sys.exit(main())
