#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--strict] [--unit REGEX]

Decides one property: symbolic execution of the real sources + z3, replay on the real libraries."""
import warnings

warnings.simplefilter("ignore")
import argparse  # noqa
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("QISKIT_PARALLEL", "FALSE")

PY = "/opt/venv/bin/python"
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EVID, "replay")


class Server:
    """real code, real libraries, in its own process."""

    def __init__(self):
        self.start()

    def start(self):
        self.p = subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "replay.py"), "--serve"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, cwd=HERE)

    def run(self, job, timeout=60):
        box = {}

        def go():
            try:
                self.p.stdin.write(json.dumps(job) + "\n")
                self.p.stdin.flush()
                box["r"] = self.p.stdout.readline()
            except Exception as ex:  # noqa
                box["e"] = str(ex)

        th = threading.Thread(target=go, daemon=True)
        th.start()
        th.join(timeout)
        if th.is_alive() or not box.get("r"):
            self.p.kill()
            self.start()
            return {"status": "error", "failures": ["replay process: %s" % box.get("e", "no answer")]}
        try:
            return json.loads(box["r"])
        except ValueError:
            self.p.kill()
            self.start()
            return {"status": "error", "failures": ["replay process: unreadable answer"]}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:  # noqa
            self.p.kill()


def load_known(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) unit=(\S+) label=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(unit=m.group(2), label=m.group(3), what=m.group(4), hit=False))
    return out


UNITS = []
ARGS = None


def _work(i):
    from symx.explore import explore

    u = UNITS[i]
    try:
        return i, explore(u, seed=ARGS.seed, budget=ARGS.budget, timeout_ms=ARGS.query_ms,
                          max_witness=3 if ARGS.tier == "quick" else 6)
    except BaseException as ex:  # noqa
        import traceback

        return i, {"unit": u["name"], "crash": "%s: %s" % (type(ex).__name__, ex),
                   "tb": traceback.format_exc()[-2000:]}


def main():
    global UNITS, ARGS
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--unit", default=None)
    ap.add_argument("--strict", action="store_true", help="inconclusive results exit 3 (development)")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ARGS = ap.parse_args()
    prop = ARGS.property
    ARGS.budget = 150 if ARGS.tier == "quick" else 1500
    ARGS.query_ms = 20000 if ARGS.tier == "quick" else 120000
    total_budget = 420 if ARGS.tier == "quick" else 3600
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    srv = [Server() for _ in range(4)]
    install_error = None
    try:
        from symx import loader

        loader.install()
    except BaseException as ex:  # noqa
        import traceback

        install_error = "%s: %s" % (type(ex).__name__, ex)
        if ARGS.v:
            traceback.print_exc()
    mod = importlib.import_module("checks." + prop.lower())
    UNITS = [u for u in mod.units(ARGS.tier) if not ARGS.unit or re.search(ARGS.unit, u["name"])]
    names = [u["name"] for u in UNITS]
    assert len(set(names)) == len(names), "duplicate unit names"
    results = {}
    if install_error is None:
        # warm-up of expensive z3 initialisation happens in the children
        mpc = mp.get_context("fork")
        order = sorted(range(len(UNITS)), key=lambda i: -UNITS[i].get("cost", 1))
        with mpc.Pool(min(ARGS.j, max(1, len(UNITS)))) as pool:
            it = pool.imap_unordered(_work, order, chunksize=1)
            deadline = t0 + total_budget
            done = 0
            while done < len(order):
                try:
                    i, r = it.next(timeout=max(1, deadline - time.time()))
                    results[i] = r
                    done += 1
                    if ARGS.v:
                        print("  %-48s paths=%-4s checks=%-5s q=%-6s solver=%.1fs wall=%.1fs cex=%d unk=%d "
                              "unsup=%d %s %s" % (r["unit"][:48], r.get("paths"), r.get("checks"),
                                               r.get("queries"), r.get("solver_s", 0), r.get("wall", 0),
                                               len(r.get("cex", [])), len(r.get("unknown", [])),
                                               len(r.get("unsupported", [])), r.get("bound") or "",
                                               r.get("crash", "")), flush=True)
                        if r.get("_tb") and r.get("unsupported"):
                            print(r["_tb"][-500:])
                except mp.TimeoutError:
                    break
                except StopIteration:
                    break
            pool.terminate()
    inconclusive = []
    if install_error:
        inconclusive.append("the package could not be loaded for symbolic execution: " + install_error)
    known = load_known(prop)
    violations = []
    validated = 0
    mismatches = []
    samples = []

    # ---- jobs for the real code ---------------------------------------------------------------
    jobs = []  # (unit index, kind, label, inputs, predicted obs)
    for i, u in enumerate(UNITS):
        r = results.get(i)
        if r is None or "crash" in r:
            inconclusive.append("%s: %s" % (u["name"], (r or {}).get("crash", "not finished in time")))
            jobs.append((i, "auto", None, None, None))
            continue
        for lab, cands, tb in r["cex"]:
            jobs.append((i, "cex", lab, cands, tb))
        for w, obs in r["witness"]:
            jobs.append((i, "witness", None, [w], obs))
        if r["unsupported"] or r["bound"] or r["unknown"]:
            jobs.append((i, "auto", None, None, None))
        for x in sorted(set(r["unsupported"])):
            inconclusive.append("%s: not encoded: %s" % (u["name"], x))
        for x in sorted(set(r["bound"])):
            inconclusive.append("%s: bound: %s" % (u["name"], x))
        for x in sorted(set(r["unknown"])):
            inconclusive.append("%s: solver returned unknown for %s" % (u["name"], x))
        if not r["paths"]:
            inconclusive.append("%s: no feasible path (vacuous)" % u["name"])
        miss = set(u.get("must_cover", ())) - set(r["covered"])
        if miss and not (r["unsupported"] or r["bound"]):
            inconclusive.append("%s: not reached: %s" % (u["name"], sorted(miss)))
    lock = threading.Lock()
    answers = [None] * len(jobs)
    # counterexamples and fallbacks first
    order = sorted(range(len(jobs)), key=lambda k: {"cex": 0, "witness": 1, "auto": 2}[jobs[k][1]])
    pos = [0]
    rdead = time.time() + (240 if ARGS.tier == "quick" else 1200)

    def worker(s):
        while True:
            with lock:
                if pos[0] >= len(order):
                    return
                k = order[pos[0]]
                pos[0] += 1
            i, kind, lab, cands, extra = jobs[k]
            if time.time() > rdead:
                answers[k] = [(None, {"status": "error", "failures": ["replay budget"]})]
                continue
            if kind == "auto":
                r = s.run(dict(property=prop, unit=UNITS[i]["name"], auto=ARGS.seed,
                               n=UNITS[i].get("auto_n", 60)), timeout=90)
                answers[k] = [(r.get("inputs"), r)]
                continue
            out = []
            for c in cands:
                r = s.run(dict(property=prop, unit=UNITS[i]["name"], inputs=c))
                out.append((c, r))
                if r["status"] == "violated":
                    break
            answers[k] = out

    ths = [threading.Thread(target=worker, args=(s,)) for s in srv]
    [t.start() for t in ths]
    [t.join() for t in ths]
    [s.close() for s in srv]
    seen = set()
    for k, (i, kind, lab, cands, extra) in enumerate(jobs):
        u = UNITS[i]
        hit = [(c, r) for c, r in answers[k] or [] if r["status"] == "violated"]
        if hit:
            c, r = hit[0]
            fl = "; ".join(r["failures"][:3])
            kn = [e for e in known if re.search(e["unit"], u["name"]) and
                  any(re.search(e["label"], f) for f in r["failures"])]
            if kn:
                kn[0]["hit"] = True
                continue
            key = (u["name"], re.sub(r"[-+0-9.e]+", "#", r["failures"][0])[:40])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(REPLAYS, "%s_%d.json" % (prop, len(violations)))
            json.dump(dict(property=prop, unit=u["name"], inputs=c, failures=r["failures"],
                           found_by=kind, traceback=r.get("tb")), open(path, "w"), indent=1, default=str)
            violations.append((u["name"], fl, path, kind))
        elif kind == "cex":
            inconclusive.append("%s: counterexample for '%s' did not reproduce on the real code" % (
                u["name"], lab))
            if ARGS.v:
                print("SPURIOUS", u["name"], lab, cands[:1], [r["failures"] for _, r in answers[k]][:2])
                if extra:
                    print(extra)
        elif kind == "witness":
            c, r = answers[k][0]
            if r["status"] == "ok":
                validated += 1
                if len(samples) < 4:
                    samples.append({"unit": u["name"], "inputs": c})
                if extra and "obs" in r:
                    for (la, a, b), (lb, x, y) in zip(extra, r["obs"]):
                        for p, q in ((a, x), (b, y)):
                            if p is not None and q is not None and abs(p - q) > 1e-5 * (1 + abs(p)):
                                mismatches.append("%s/%s: encoding %r, real %r" % (u["name"], la, p, q))
                                break
                    if len(extra) != len(r["obs"]):
                        mismatches.append("%s: different number of observations" % u["name"])
            elif r["status"] == "skipped":
                if ARGS.v:
                    print("witness skipped", u["name"], c)
            else:
                inconclusive.append("%s: witness run: %s" % (u["name"], r["failures"][:1]))
    for m in mismatches[:20]:
        inconclusive.append("encoding/real mismatch: " + m)
    ok = [r for r in results.values() if "crash" not in r]
    funcs = sorted({f for r in ok for f in r["functions"]})
    npaths = sum(r["paths"] for r in ok)
    nchecks = sum(r["checks"] for r in ok)
    nq = sum(r["queries"] for r in ok)
    sol = sum(r["solver_s"] for r in ok)
    ev = {
        "property": prop, "tier": ARGS.tier, "seed": ARGS.seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the functions listed under functions_encoded "
                           "(re-read from /repo on this run); z3 decided every assertion on every "
                           "feasible path for all input values within the bounds. "
                           + ("All paths were exhausted." if not inconclusive else
                              "INCOMPLETE: see inconclusive."),
            "harness_units": len(UNITS),
            "paths_explored": npaths,
            "assertions_decided": nchecks,
            "solver_queries": nq,
            "solver_seconds": round(sol, 2),
            "solver": "z3 " + _z3v(),
            "functions_encoded": funcs,
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside_the_claim": getattr(mod, "OUTSIDE", ""),
            "covered_labels": sorted({c for r in ok for c in r["covered"]}),
            "witnesses_validated_on_real_code": validated,
            "samples": samples,
            "inconclusive": inconclusive,
            "exhaustive": not inconclusive,
        },
        "assumptions": COMMON_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if not ARGS.unit:
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for e in known:
        if e["hit"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
        elif not ARGS.unit and not violations:
            print("note: listed finding no longer reproduces: property=%s %s" % (prop, e["what"]))
    print("%s %s: %d units, %d paths, %d assertions, %d queries, solver %.1fs, wall %.1fs, "
          "%d witnesses validated, %d inconclusive" % (
              prop, ARGS.tier, len(UNITS), npaths, nchecks, nq, sol, time.time() - t0, validated,
              len(inconclusive)))
    for x in inconclusive[:12]:
        print("INCONCLUSIVE:", x)
    for n, fl, path, kind in violations[:10]:
        print("VIOLATION property=%s replay=%s  [%s] %s (%s)" % (prop, path, n, fl, kind))
    if violations:
        return 1
    if ARGS.strict and inconclusive:
        return 3
    return 0


def _z3v():
    try:
        import z3

        return z3.get_version_string()
    except Exception:  # noqa
        return "?"


COMMON_ASSUMPTIONS = [
    "numbers are mathematical integers/reals: floating point rounding is outside the claim",
    "numpy object arrays stand in for float arrays; scipy.sparse matrices are the pure Python model in "
    "symx/sparse.py (validated against scipy by selftest.py)",
]

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
