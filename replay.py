#!/opt/venv/bin/python
"""replay FILE.json   - replays a recorded counterexample on the real code with the real libraries.
   replay --serve     - reads one JSON job per line, answers one JSON line each."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def find(prop, unit):
    mod = importlib.import_module("checks." + prop.lower())
    for tier in ("quick", "thorough"):
        for u in mod.units(tier):
            if u["name"] == unit:
                return u
    raise SystemExit("unknown unit %s" % unit)


def main():
    from symx.loader_concrete import install_concrete
    out = os.dup(1)
    os.dup2(2, 1)  # library chatter goes to stderr
    report = os.fdopen(out, "w", buffering=1)
    sys.stdout = sys.stderr
    install_concrete()
    from symx import concrete

    if sys.argv[1:] == ["--serve"]:
        cache = {}
        for line in sys.stdin:
            job = json.loads(line)
            key = (job["property"], job["unit"])
            if key not in cache:
                cache[key] = find(*key)
            u = cache[key]
            if "auto" in job:
                r = concrete.auto(u["fn"], u.get("kwargs", {}), job["auto"], job["n"])
            else:
                r = concrete.run(u["fn"], u.get("kwargs", {}), job["inputs"])
            report.write(json.dumps(r, default=str) + "\n")
            report.flush()
        return 0
    rec = json.load(open(sys.argv[1]))
    u = find(rec["property"], rec["unit"])
    r = concrete.run(u["fn"], u.get("kwargs", {}), rec["inputs"])
    print(json.dumps({"property": rec["property"], "unit": rec["unit"], "inputs": rec["inputs"],
                      "result": {k: v for k, v in r.items() if k != "obs"}}, indent=1, default=str), file=report)
    return 1 if r["status"] == "violated" else 0


if __name__ == "__main__":
    sys.exit(main())
