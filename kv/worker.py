"""Verify one unit in this process; JSON on stdout."""
import importlib
import json
import os
import resource
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def contracts():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f not in ("__init__.py", "base.py"):
            importlib.import_module("contracts." + f[:-3])
    from contracts import base
    return base.UNITS


def main():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(5000)
    us = contracts()
    if sys.argv[1] == "--list":
        print(json.dumps([{"name": u.name, "props": list(u.props), "functions": list(u.functions),
                           "doc": u.doc} for u in us]))
        return
    from kv import run
    scale = float(sys.argv[2]) if len(sys.argv) > 2 else 1
    for u in us:
        if u.name == sys.argv[1]:
            u.timeout = int(u.timeout * scale)
            u.seconds = u.seconds * scale
            real, sys.stdout = sys.stdout, sys.stderr
            try:
                r = run.run_unit(u)
            except MemoryError:
                r = {"unit": u.name, "status": "error", "why": "out of memory", "obligations": []}
            real.write(json.dumps(r, default=str))
            real.flush()
            os._exit(0)
    raise SystemExit("no such unit")


if __name__ == "__main__":
    main()
