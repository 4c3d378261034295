#!/opt/venv/bin/python
"""setup: sanity checks of the environment and of the models the symbolic execution uses.

The numpy / scipy.sparse models are compared with the real libraries on a fixed family of concrete
inputs (this validates the models; it decides no property)."""
import os
import random
import sys
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True

import numpy as np  # noqa
import scipy.sparse as rs  # noqa
import z3  # noqa

from symx import npshim, sparse  # noqa

SP = sparse.make_module()
NP = npshim.make_numpy()
rng = random.Random(1)
n_ok = 0


def arr(x):
    if hasattr(x, "toarray"):
        x = x.toarray()
    return np.array(np.asarray(x).tolist(), dtype=float)


def same(what, a, b):
    global n_ok
    a, b = arr(a), arr(b)
    if a.shape != b.shape or not np.allclose(a, b):
        print("MODEL MISMATCH", what, a, b)
        sys.exit(2)
    n_ok += 1


for trial in range(60):
    n = rng.randint(1, 4)
    m = rng.randint(1, 4)
    A = np.array([[rng.choice([0, 0, 1, -2, 2.5, 7]) for _ in range(n)] for _ in range(n)], dtype=float)
    B = np.array([[rng.choice([0, 1, -3]) for _ in range(n)] for _ in range(n)], dtype=float)
    v = np.array([rng.choice([0, 1, -1, 3.5]) for _ in range(n)])
    for fmt in ("dok_matrix", "csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix"):
        if not hasattr(SP, fmt):
            continue
        a, ra = getattr(SP, fmt)(A), getattr(rs, fmt)(A)
        b, rb = getattr(SP, fmt)(B), getattr(rs, fmt)(B)
        same("ctor", a, ra)
        same("add", a + b, ra + rb)
        same("sub", a - b, ra - rb)
        same("T", a.transpose(), ra.transpose())
        same("scale", a * 3, ra * 3)
        same("rscale", 2 * a, 2 * ra)
        same("matvec", a @ v, ra @ v)
        same("rmatvec", v @ a, v @ ra)
        same("dot", a.dot(v), ra.dot(v))
        same("matmat", a @ b, ra @ rb)
        same("copy", a.copy(), ra.copy())
        same("tocoo", a.tocoo(), ra.tocoo())
        same("diag", a.diagonal(), ra.diagonal())
        if fmt in ("dok_matrix", "csr_matrix", "csc_matrix", "lil_matrix"):
            i, j = rng.randrange(n), rng.randrange(n)
            same("get", a[i, j], ra[i, j])
            a[i, j] = 9
            ra[i, j] = 9
            same("set", a, ra)
            a[i, j] += -4
            ra[i, j] += -4
            same("iset", a, ra)
    d, rd = SP.dok_matrix(A), rs.dok_matrix(A)
    if dict(d.items()) != dict(rd.items()):
        print("MODEL MISMATCH items")
        sys.exit(2)
    same("nnz", d.nnz, rd.nnz)
    for dt in (int, float):
        q = [rng.randint(-5, 5) / 2 for _ in range(m)]
        same("array", NP.array(q, dtype=dt), np.array(q, dtype=dt))
    same("norm", NP.linalg.norm(v), np.linalg.norm(v))
    same("clip", NP.clip(v, 0, 1), np.clip(v, 0, 1))
    same("maximum", NP.maximum(v, 0), np.maximum(v, 0))
    same("round", NP.round(v), np.round(v))
    same("isclose", NP.isclose(v, 1), np.isclose(v, 1))
    same("outer", NP.outer(v, v), np.outer(v, v))
x = z3.Real("x")
s = z3.Solver()
s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
print("selftest: %d model comparisons agree; z3 %s" % (n_ok, z3.get_version_string()))
