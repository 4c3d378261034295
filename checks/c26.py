"""C26: Goemans-Williamson relaxes the given max-cut problem and reports the generated cuts truthfully."""
from .c16 import Patch
from .c22 import dump, same
from .common import nparr2, obj_val, unit

BOUNDS = ("complete graphs of 2-3 nodes (4 thorough) with arbitrary real weights, 1-3 cuts, every outcome of the random "
          "hyperplanes, all combinations of the options; the relaxation's objective and constraints at every symmetric "
          "matrix, relaxed solutions of full and of deficient rank; one graph with 12 nodes")
OUTSIDE = ("the semidefinite solver and the approximation ratio; programs that are not of the documented max-cut form; more "
           "nodes; floating point rounding")
ASSUMPTIONS = ["cvxpy's modelling functions are replaced by stand-ins that evaluate the program at an arbitrary symmetric "
               "matrix and return a given solution; numpy.random.normal returns arbitrary signs"]


def make_cvx(ctx, n, chi, log, fail=None):
    import numpy as np

    class Var(np.ndarray):
        value = None

        def __rshift__(self, other):
            log["psd"] = True  # the semidefinite order
            return True

    class Cvx:
        def __getattr__(self, k):
            ctx.assume(False)  # not modelled: nothing is decided

        @staticmethod
        def Variable(shape, PSD=False, symmetric=False, name=None, **kw):
            X = [[None] * n for _ in range(n)]
            for i in range(n):
                for j in range(i + 1):
                    X[i][j] = X[j][i] = ctx.real("X%d%d" % (i, j), -3, 3)
            v = nparr2(ctx, X).view(Var)
            ctx.check("square variable", tuple(shape) == (n, n))
            log["psd"] = bool(PSD)
            log["var"] = v
            return v

        @staticmethod
        def sum(e):
            return np.sum(np.asarray(e))

        @staticmethod
        def multiply(a, b):
            return np.asarray(a) * np.asarray(b)

        @staticmethod
        def diag(a):
            return np.array([np.asarray(a)[i, i] for i in range(n)], dtype=object)

        @staticmethod
        def trace(a):
            return sum(np.asarray(a)[i, i] for i in range(n))

        class Maximize:
            sign = 1

            def __init__(self, e):
                self.expr = e

        class Minimize:
            sign = -1

            def __init__(self, e):
                self.expr = e

        class Problem:
            status = "optimal"

            def __init__(self, objective, constraints=()):
                log["obj"], log["cons"] = objective, list(constraints)
                self.value = 0.0

            def solve(self, *a, **kw):
                if fail:
                    import cvxpy

                    raise getattr(cvxpy, fail)("no")
                log["var"].value = np.array(chi, dtype=float)
                return 0.0

    return Cvx()


def graph_problem(ctx, n, edges=None):
    """max cut of a complete graph (or of the given edges), written with the cut's objective."""
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram("cut")
    for i in range(n):
        qp.binary_var("x%d" % i)
    w = {}
    for i in range(n):
        for j in range(i):
            if edges is None:
                w[j, i] = ctx.real("w%d%d" % (j, i), -9, 9)
            elif (j, i) in edges:
                w[j, i] = ctx.real("w%d_%d" % (j, i), -9, 9) if edges[j, i] is None else edges[j, i]
    lin = {}
    for (i, j), v in w.items():
        lin[i] = lin.get(i, 0) + v
        lin[j] = lin.get(j, 0) + v
    qp.maximize(linear=lin, quadratic={p: -2 * v for p, v in w.items()})
    return qp, w


def cut(w, x):
    s = 0
    for (i, j), v in w.items():
        if bool(x[i]) != bool(x[j]):
            s = s + v
    return s


CHI = {"free": lambda n: [[float(i == j) for j in range(n)] for i in range(n)],
       "same": lambda n: [[1.0] * n for i in range(n)],
       "split": lambda n: [[1.0 if (i == 0) == (j == 0) else -1.0 for j in range(n)] for i in range(n)]}


def gw(ctx, n, cuts, sort, unique, chi, edges=None, free=None):
    import numpy as np

    from qiskit_optimization.algorithms import GoemansWilliamsonOptimizer

    qp, w = graph_problem(ctx, n, edges)
    before = dump(qp)
    mat = CHI[chi](n)
    log, drawn = {}, []

    def normal(loc=0.0, scale=1.0, size=None):
        r = np.array([[1.0 if ((i * (i + 1) // 2) % 2 if free is not None and (k, i) not in free else
                               ctx.choice("r%d_%d" % (k, i), [0, 1])) else -1.0 for i in range(n)] for k in range(cuts)])
        ctx.check("one vector per cut", tuple(size) == (cuts, n))
        drawn.append(r)
        return r

    names = ("normal", "standard_normal", "randn")
    old = {k: getattr(np.random, k) for k in names}, np.random.get_state()
    opt = GoemansWilliamsonOptimizer(num_cuts=cuts, sort_cuts=sort, unique_cuts=unique, seed=3)
    np.random.normal = normal
    np.random.standard_normal = lambda size=None: normal(size=size)
    np.random.randn = lambda *d: normal(size=d)
    try:
        with Patch(ctx, {"cvx": make_cvx(ctx, n, mat, log)}):
            res = opt.solve(qp)
    finally:
        for k in names:
            setattr(np.random, k, old[0][k])
        np.random.set_state(old[1])
    same(ctx, "the problem is changed", before, dump(qp))
    # relaxation
    if not {"var", "obj", "cons"} <= set(log):
        ctx.assume(False)  # posed in another way: nothing is known about it
    ctx.check("positive semidefinite variable", log["psd"])
    X = log["var"]
    S = 0
    for i in range(n):
        for j in range(n):
            if i != j:
                S = S + w.get((min(i, j), max(i, j)), 0) * (1 - X[i, j])
    e = log["obj"].expr * log["obj"].sign
    if ctx.symbolic:
        # any positive multiple is the same problem
        ctx.check("objective of the relaxation", ctx.Or(*[e == S * k for k in (1, 0.5, 0.25, 2)]))
    else:
        ctx.check("objective of the relaxation", any(ctx.close(e, S * k) for k in (1, 0.5, 0.25, 2)))
    flat = []
    for c in log["cons"]:
        flat += list(np.asarray(c, dtype=object).flat)
    ctx.check("unit vectors", ctx.Iff(ctx.And(*flat), ctx.And(*[X[i, i] == 1 for i in range(n)])))
    # cuts
    if len(drawn) != 1:
        ctx.assume(False)  # drawn in another way: nothing is known about these
    r = drawn[0]
    made = []
    for k in range(cuts):
        if chi == "free":
            made.append([int(v > 0) for v in r[k]])
        elif chi == "same":
            made.append([int(r[k][0] > 0)] * n)
        else:
            made.append([int(r[k][0] > 0)] + [int(r[k][0] < 0)] * (n - 1))

    def canon(c):
        return tuple(c) if c[0] == 0 else tuple(1 - v for v in c)

    got = [[int(v) for v in s.x] for s in res.samples]
    ctx.check("0/1 values", all(float(v) in (0.0, 1.0) for s in res.samples for v in s.x))
    if unique:
        ctx.check("each cut once", len({canon(c) for c in got}) == len(got))
        ctx.check("exactly the generated cuts", {canon(c) for c in got} == {canon(c) for c in made})
    else:
        ctx.check("exactly the generated cuts", sorted(map(tuple, got)) == sorted(map(tuple, made)))
    for c, s in zip(got, res.samples):
        ctx.eq("value of a cut", s.fval, cut(w, c))
        ctx.eq("value of a cut", s.fval, obj_val(qp, c))
        ctx.check("probability", abs(s.probability * len(got) - 1) < 1e-9)
        ctx.check("status of a cut", s.status.name == "SUCCESS")
    if sort:
        for a, b in zip(res.samples, res.samples[1:]):
            ctx.check("sorted", a.fval >= b.fval - (0 if ctx.symbolic else 1e-9))
        for c in made:
            ctx.check("the best cut is reported", res.fval >= cut(w, c) - (0 if ctx.symbolic else 1e-9))
    elif not unique:
        ctx.check("order of generation", got == made)
    ctx.check("solution", [int(v) for v in res.x] == got[0])
    ctx.eq("value", res.fval, cut(w, got[0]))
    ctx.check("status", res.status.name == "SUCCESS")
    ctx.check("variables", [v.name for v in res.variables] == [v.name for v in qp.variables])
    ctx.check("relaxed solution", np.array_equal(np.array(res.sdp_solution, dtype=float), np.array(mat)))
    ctx.cover("done")


def failing(ctx, err):
    from qiskit_optimization.algorithms import GoemansWilliamsonOptimizer

    qp, w = graph_problem(ctx, 2)
    with Patch(ctx, {"cvx": make_cvx(ctx, 2, None, {}, err)}):
        res = GoemansWilliamsonOptimizer(num_cuts=2).solve(qp)
    ctx.check("failure is reported", res.status.name == "FAILURE")
    ctx.check("no solution is invented", res.x is None or len(res.x) == 0)
    ctx.cover("done")


def refuse(ctx, kind):
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
    from qiskit_optimization.algorithms import GoemansWilliamsonOptimizer

    qp = QuadraticProgram()
    for i, k in enumerate(kind):
        (qp.binary_var("x%d" % i) if k == "b" else qp.integer_var(0, ctx.int("u%d" % i, 1, 5), "x%d" % i) if k == "i" else
         qp.continuous_var(0, ctx.real("u%d" % i, 0.5, 3), "x%d" % i))
    qp.maximize(linear={0: ctx.real("l", -5, 5)})
    opt = GoemansWilliamsonOptimizer(num_cuts=1)
    ok = set(kind) == {"b"}
    ctx.check("compatibility", opt.is_compatible(qp) == ok)
    if not ok:
        try:
            with Patch(ctx, {"cvx": make_cvx(ctx, len(kind), CHI["free"](len(kind)), {})}):
                opt.solve(qp)
            ctx.fail("other variables are refused")
        except QiskitOptimizationError:
            pass
    ctx.cover("done")


def units(tier):
    us = []
    D = ("done",)

    def add(n, cuts, sort, unique, chi):
        us.append(unit("gw/%d/%d/%s/%s/%s" % (n, cuts, sort, unique, chi), gw, n=n, cuts=cuts, sort=sort, unique=unique,
                       chi=chi, must_cover=D, cost=n * cuts))

    for sort in (True, False):
        for unique in (True, False):
            for chi in CHI:
                add(2, 2, sort, unique, chi)
            add(3, 1, sort, unique, "free")
            add(3, 2, sort, unique, "free")
            add(3, 2, sort, unique, "split")
    add(2, 3, True, True, "free")
    if tier != "quick":
        add(3, 3, True, True, "free")
        add(4, 2, True, True, "free")
        add(3, 3, False, True, "split")
    # twelve nodes: a ring with a few chords, cuts that differ in single nodes
    E = {(i, i + 1): 1.0 + i % 3 for i in range(11)}
    E.update({(0, 11): None, (1, 10): None, (2, 3): None, (9, 11): 2.5})
    for sort in (True, False):
        us.append(unit("gw/wide/%s" % sort, gw, n=12, cuts=3, sort=sort, unique=True, chi="free", edges=E,
                       free=((0, 11), (1, 10), (2, 0)), must_cover=D, cost=8))
    us.append(unit("gw/wide/all", gw, n=12, cuts=3, sort=True, unique=False, chi="free", edges=E,
                   free=((0, 11), (1, 1), (2, 0)), must_cover=D, cost=8))
    for e in ("SolverError", "DCPError"):
        us.append(unit("fail/%s" % e, failing, err=e, must_cover=D))
    for k in ("b", "bb", "bi", "c", "cb"):
        us.append(unit("refuse/%s" % k, refuse, kind=k, must_cover=D))
    return us
