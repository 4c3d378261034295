"""Writes properties.jsonl and MANIFEST.json from one table (run from /verif)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None, level_note="", na=None, technique=None):
    d = {"id": pid, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, level_note, na, technique))


Q = "qiskit_optimization/"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_table.py")).read())

TECH = ("symbolic execution of the real Python sources into z3 (SMT) queries, all values within the bounds; "
        "counterexamples replayed on the real code")
NOTE = ("Bounded symbolic verification: every path of the real functions is executed on symbolic inputs and z3 decides "
        "every assertion for all input values within the bounds (%s). Trusts z3, the models of numpy/scipy.sparse%s "
        "(cross-validated on every run: solver-chosen inputs are rerun on the real libraries and must give the same "
        "results), and exact real arithmetic in place of floating point. Outside: %s.")


def main():
    import importlib
    with open("properties.jsonl", "w") as f:
        for d, *_ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, note, reason, technique in P:
        pid = d["id"]
        if reason:
            na.append({"property": pid, "reason": reason})
            continue
        mod = importlib.import_module("checks." + pid.lower())
        ln = NOTE % (mod.BOUNDS, note, mod.OUTSIDE)
        checks.append({"property": pid,
                       "quick_cmd": "/opt/venv/bin/python -W ignore run.py %s" % pid,
                       "thorough_cmd": "/opt/venv/bin/python -W ignore run.py %s --tier thorough" % pid,
                       "technique": technique or TECH, "level": "other", "level_note": ln})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore selftest.py",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed. level 'other' = bounded symbolic verification of the real code (solver-based "
                  "checking): the SMT verdict covers every value within the stated bounds."}
    with open("MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
