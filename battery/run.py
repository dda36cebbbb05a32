"""Bounded replay of a property against the real code.

  run.py PROP --seed N --seconds S [--cases N] --out FILE   search
  run.py --replay FILE                                      one recorded case"""
import argparse
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from battery import net, zk  # noqa  (before kiel)

WHERE = {"C01": "p_codec", "C02": "p_codec", "C03": "p_codec", "C04": "p_codec", "C05": "p_codec",
         "C06": "p_conn", "C07": "p_conn", "C08": "p_conn", "C09": "p_prod", "C10": "p_prod", "C11": "p_prod",
         "C12": "p_cons", "C13": "p_cons", "C14": "p_cons", "C15": "p_cons", "C16": "p_group", "C17": "p_group",
         "C18": "p_group", "C19": "p_cluster", "C20": "p_cluster", "C21": "p_zk", "C22": "p_zk", "C23": "p_zk",
         "C24": "p_zk"}


class Hang(BaseException):
    pass


def alarm(*a):
    raise Hang()


def prop(pid):
    return getattr(importlib.import_module("battery." + WHERE[pid]), pid)


def one(P, case):
    """None, or what is wrong."""
    signal.signal(signal.SIGVTALRM, alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 8)
    try:
        return P.run(case)
    except Hang:
        return "never completes (busy loop)"
    except net.Pending as e:
        return "never completes: %s" % e
    except Exception as e:
        return "unexpected %s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_exc().splitlines(True)[-8:]))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def search(pid, seed, seconds, cases=None):
    t0 = time.time()
    P = prop(pid)
    rng = random.Random("%s/%s" % (pid, seed))
    seen, n, samples, fails = set(), 0, [], []
    fixed = list(getattr(P, "fixed", lambda: [])())
    i = 0
    while time.time() - t0 < seconds and (cases is None or n < cases):
        if n < len(fixed):
            case = fixed[n]
        else:
            case = P.gen(rng, 2 + (i // 60) % 4, i)
            i += 1
        n += 1
        s = json.dumps(case, sort_keys=True)
        h = hashlib.sha1(s.encode()).digest()
        if h in seen:
            continue
        seen.add(h)
        if len(samples) < 3 and len(s) < 1500:
            samples.append(case)
        m = one(P, case)
        if m is not None:
            m2 = one(P, case)
            if m2 is None:
                continue                    # not reproducible: not a finding
            fails.append((len(s), case, m))
            if len(fails) >= 5 or "never completes" in m:
                break
    fails.sort(key=lambda f: f[0])
    return {"property": pid, "evaluations": n, "distinct": len(seen), "rule": P.rule, "samples": samples,
            "seconds": round(time.time() - t0, 2), "seed": seed,
            "failures": [{"case": c, "message": m} for _, c, m in fails[:3]]}


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop", nargs="?")
    a.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    a.add_argument("--seconds", type=float, default=5)
    a.add_argument("--cases", type=int)
    a.add_argument("--out")
    a.add_argument("--replay")
    o = a.parse_args()
    if o.replay:
        r = json.load(open(o.replay))
        if r.get("case") is None:
            print("no concrete input recorded: %s" % r.get("message", ""))
            return 2
        m = one(prop(r["property"]), r["case"])
        print("FAILS: " + m if m else "holds for this input")
        return 1 if m else 0
    r = search(o.prop, o.seed, o.seconds, o.cases)
    s = json.dumps(r)
    if o.out:
        open(o.out, "w").write(s)
    else:
        print(json.dumps({k: v for k, v in r.items() if k != "samples"}, indent=1)[:3000])
    return 0


if __name__ == "__main__":
    sys.exit(main())
