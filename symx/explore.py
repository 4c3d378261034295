"""explore one harness unit symbolically."""
import os
import random
import sys
import time
import traceback

from . import engine
from .engine import BoundExceeded, HarnessStop, PathAbort, SymCtx, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


def explore(unit, seed=1, max_witness=3, timeout_ms=20000, budget=60, max_paths=4000):
    body, kwargs = unit["fn"], unit.get("kwargs", {})
    budget = unit.get("budget", budget)
    t0 = time.time()
    ctx = SymCtx(timeout_ms=timeout_ms, max_paths=unit.get("max_paths", max_paths),
                 deadline=t0 + budget)
    res = {"unit": unit["name"], "cex": [], "unknown": [], "unsupported": [], "witness": [],
           "bound": [], "functions": [], "aborted": 0}
    funcs = set()
    rng = random.Random("%s/%s" % (seed, unit["name"]))
    engine.set_cur(ctx)
    work = [[]]
    nchecks = 0
    root = os.path.realpath(REPO)

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(root) and co.co_name not in ("<listcomp>", "<genexpr>",
                                                                      "<dictcomp>", "<lambda>",
                                                                      "<module>"):
                funcs.add("%s:%s" % (os.path.relpath(co.co_filename, root), co.co_qualname))

    first = True
    try:
        while work:
            if ctx.stats.paths >= ctx.max_paths:
                res["bound"].append("path bound %d" % ctx.max_paths)
                break
            prefix = work.pop()
            ctx.begin(prefix)
            outcome = "ok"
            if first:
                sys.setprofile(prof)
            try:
                body(ctx, **kwargs)
            except PathAbort:
                outcome = "abort"
            except HarnessStop:
                pass
            except Unsupported as ex:
                outcome = "unsupported"
                tb = traceback.extract_tb(ex.__traceback__)
                where = [f for f in tb if f.filename.startswith(root)]
                loc = "%s:%d" % (os.path.relpath(where[-1].filename, root), where[-1].lineno) \
                    if where else ""
                res["unsupported"].append("%s @ %s" % (str(ex)[:120], loc))
                res.setdefault("_tb", traceback.format_exc()[-2500:])
            except BoundExceeded as ex:
                outcome = "bound"
                res["bound"].append(str(ex))
                raise
            except Exception as ex:  # noqa
                outcome = "exception"
                exc = "unexpected %s: %s" % (type(ex).__name__, str(ex)[:160])
                etb = traceback.format_exc()[-2500:]
            finally:
                if first:
                    sys.setprofile(None)
            work.extend(ctx.forks)
            if outcome == "abort":
                res["aborted"] += 1
                ctx.stats.infeasible += 1
                continue
            first = False
            ctx.stats.paths += 1
            nchecks += len(ctx.checks)
            if outcome == "exception":
                w = []
                for generic in (True, False):
                    r = ctx.witness(rng, generic)
                    if r:
                        w.append(r[0])
                res["cex"].append((exc, w, etb))
            for lab, st, cands in ctx.decide_checks():
                if st == "unknown":
                    res["unknown"].append(lab)
                else:
                    res["cex"].append((lab, cands, None))
            if len(res["witness"]) < max_witness or outcome in ("unsupported",):
                if len(res["witness"]) < 12:
                    r = ctx.witness(rng)
                    if r:
                        res["witness"].append((r[0], ctx.eval_obs(r[1]) if outcome == "ok" else None))
            if len(res["unsupported"]) > 6 or len(res["cex"]) > 12:
                res["bound"].append("stopped after repeated failures")
                break
    except BoundExceeded:
        if work:
            pass
        if not res["bound"]:
            res["bound"].append("wall clock budget")
    finally:
        sys.setprofile(None)
        engine.set_cur(None)
    # on incomplete exploration add more concrete inputs for the real code
    if res["unsupported"] or res["bound"]:
        try:
            ctx.deadline = time.time() + 20
            for _ in range(8):
                r = ctx.witness(rng)
                if r:
                    res["witness"].append((r[0], None))
        except (BoundExceeded, Exception):  # noqa
            pass
    st = ctx.stats
    res.update(paths=st.paths, infeasible=st.infeasible, queries=st.queries, solver_s=st.solver_s,
               solver_unknown=st.unknown, decisions=st.decisions, checks=nchecks,
               functions=sorted(funcs), covered=sorted(ctx.covered), wall=time.time() - t0)
    return res
