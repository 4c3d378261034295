"""Helper to plant bugs: plant(id, property, edits, needs, breaks, demo) makes the change in a scratch
copy, runs tests and the demo, runs the property's check on the copy, and writes seeded/<id>/."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", QISKIT_PARALLEL="FALSE", LANG="C.UTF-8", LC_ALL="C.UTF-8")


def tests(d):
    x = os.path.join(d, "junit.xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "test", "-q", "-p", "no:cacheprovider", "--timeout=300",
                    "--disable-warnings", "-n0", "-o", "junit_family=xunit2", "--junitxml=" + x]
                   if False else
                   ["/opt/venv/bin/python", "-m", "pytest", "test", "-q", "-p", "no:cacheprovider", "--timeout=300",
                    "--disable-warnings", "-o", "junit_family=xunit2", "--junitxml=" + x],
                   cwd=d, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    o = os.path.join(d, "o.json")
    subprocess.run(["python3", "/opt/vp/results.py", o, "junit:" + x], stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    ok = set(json.load(open(o))["passed"])
    os.remove(x)
    os.remove(o)
    return sorted(BASE - ok)


def run_check(prop, d, verbose=True):
    env = dict(ENV, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=d + "/.ev")
    p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "run.py", prop], cwd=VERIF, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    vio = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    return p.returncode, vio, p.stdout[-1500:]


def demo(d, where):
    p = subprocess.run(["bash", os.path.join(where, "demo.sh")], cwd=d, env=ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=300)
    return p.returncode, p.stdout[-600:]


def plant(bid, prop, edits, needs, breaks, code, check=True):
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    wt = os.path.join(d, "repo")
    try:
        shutil.copytree("/repo", wt, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, "EDIT does not match once:", s.count(old), repr(old[:60]))
                return False
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, text=True).stdout
        out = os.path.join(VERIF, "seeded", bid)
        tmp = os.path.join(d, "demo")
        os.makedirs(tmp)
        open(tmp + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n"
                                          "import warnings\nwarnings.simplefilter('ignore')\n" + code.strip() + "\n")
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                          'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        r0 = demo("/repo", tmp)
        r1 = demo(wt, tmp)
        if r0[0] != 0 or r1[0] == 0:
            print(bid, "DEMO wrong: unchanged", r0, "changed", r1)
            return False
        miss = tests(wt)
        if miss:
            print(bid, "TESTS fail:", miss[:5])
            return False
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(tmp, f), os.path.join(out, f))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"),
                  indent=1)
        if check:
            rc, vio, txt = run_check(prop, wt)
            print(bid, prop, "CAUGHT" if rc == 1 and vio else "MISSED rc=%d %s" % (rc, txt[-500:]), vio[:1])
        else:
            print(bid, prop, "planted")
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recheck(ids=None):
    """apply every planted bug to a scratch copy and run its check."""
    root = os.path.join(VERIF, "seeded")
    for bid in sorted(os.listdir(root)):
        if ids and bid not in ids:
            continue
        meta = json.load(open(os.path.join(root, bid, "meta.json")))
        d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
        wt = os.path.join(d, "repo")
        try:
            shutil.copytree("/repo", wt, symlinks=True)
            a = subprocess.run(["git", "-C", wt, "apply", os.path.join(root, bid, "patch.diff")])
            if a.returncode:
                print(bid, "PATCH does not apply")
                continue
            rc, vio, txt = run_check(meta["property"], wt)
            print(bid, meta["property"], "CAUGHT" if rc == 1 and vio else "MISSED rc=%d" % rc, vio[:1], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    recheck(sys.argv[1:])
