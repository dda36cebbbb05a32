"""Runs units and collects obligations."""
import time
import traceback
from . import core, loader


def run_unit(u, repo=None):
    """Verify a unit; where it has further (dearer) sets of invariant candidates,
    these are tried when obligations fail without them."""
    out = run_variant(u, 0, repo)
    for v in range(1, u.variants):
        if out["status"] != "done" or all(o["status"] == "discharged" for o in out["obligations"]):
            break
        new = run_variant(u, v, repo)
        if new["status"] == "done" and all(o["status"] == "discharged" for o in new["obligations"]):
            return new
    return out


def run_variant(u, variant, repo):
    t = time.time()
    e = core.set_engine(core.Engine(u.name, timeout_ms=u.timeout, deadline=t + u.seconds * (2.5 if variant else 1)))
    e.variant = variant
    e._begin([])
    out = {"unit": u.name, "doc": u.doc, "props": list(u.props), "functions": list(u.functions)}
    try:
        e.repo = repo or loader.Repo()

        def body():
            e.ghost = {}
            e.repo.restore()
            u.body(e)
        e.run(body)
        out["status"] = "done"
    except core.Unsupported as x:
        out["status"] = "unsupported"
        out["why"] = x.why
        tb = x.__traceback__
        fr = []
        while tb is not None:
            f = tb.tb_frame.f_code
            fr.append("%s:%d %s" % (f.co_filename, tb.tb_lineno, f.co_name))
            tb = tb.tb_next
        out["trace"] = fr[-14:]
    except core.PathEnd:
        out["status"] = "unsupported"
        out["why"] = "module cannot be loaded symbolically"
    except Exception as x:
        out["status"] = "error"
        out["why"] = "%s: %s" % (type(x).__name__, x)
        out["trace"] = traceback.format_exc().splitlines()[-20:]
    out["obligations"] = [
        {"name": o.name, "status": o.status, "times": o.count, "seconds": round(o.time, 2),
         "goal": o.smt, "model": o.model, "where": o.where}
        for o in getattr(e, "obls", {}).values()]
    out["covers"] = dict(e.covers)
    out["paths"] = getattr(e, "npaths", 0)
    out["rounds"] = e.rounds
    out["checks"] = e.checks
    out["solver_seconds"] = round(e.solver_time, 2)
    out["seconds"] = round(time.time() - t, 2)
    out["executed"] = sorted(e.funcs_run)
    out["killed"] = sorted(str(k) for i in e.loopinfo.values() for k in i.killed)
    return out
