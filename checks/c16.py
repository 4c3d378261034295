"""C16: continuous optimizers hand the right problem to the local solver and report its best answer truthfully."""
from .common import lin_val, nparr, quad_val, unit

BOUNDS = ("1-3 continuous variables (12 in the wide units; finite and infinite bounds), 0-3 linear and quadratic constraints of every sense, both "
          "objective senses, arbitrary real objective and constraint coefficients at arbitrary points; 1-3 trials (4 "
          "thorough) whose local solutions are arbitrary points, all orders of their objective values; for CPLEX the "
          "solver's answer is an arbitrary point with its objective value"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = ("what scipy's SLSQP/COBYLA and CPLEX make of the problem (numerical convergence); which trial is reported when "
           "some are infeasible; equality residuals between 0 and 1e-6*(1+|lhs|+|rhs|); trials without finite objective "
           "value; floating point rounding")
ASSUMPTIONS = ["scipy.optimize.fmin_slsqp / fmin_cobyla, CPLEX and scipy.stats.uniform are replaced by stand-ins that "
               "record what they are given and return arbitrary values in their documented range"]
NAMES = ["x", "y", "z"] + ["v%d" % i for i in range(3, 12)]


def original(name):
    """the object that the package knows as `name`."""
    import importlib

    if name == "cvx":
        return importlib.import_module("cvxpy")
    for mod in ("scipy.optimize", "qiskit.circuit", "qiskit.circuit.library"):
        v = getattr(importlib.import_module(mod), name, None)
        if v is not None:
            return v


class Patch:
    """replaces functions in scipy and in the package's modules, for both kinds of runs."""

    def __init__(self, ctx, repl):
        self.todo, self.repl = [], repl

    def __enter__(self):
        import scipy.optimize
        import scipy.stats
        import sys

        mods = [scipy.optimize] + [m for k, m in list(sys.modules.items()) if k.startswith("qiskit_optimization")]
        for name, fn in self.repl.items():
            if name == "rvs":
                self.todo.append((scipy.stats.uniform, "rvs", scipy.stats.uniform.__dict__.get("rvs", self)))
                scipy.stats.uniform.rvs = fn
                continue
            # under whatever name the original is known in a module
            real = original(name)
            for m in mods:
                for k, v in list(vars(m).items()):
                    if k == name or real is not None and v is real:
                        self.todo.append((m, k, v))
                        setattr(m, k, fn)
        return self

    def __exit__(self, *a):
        for m, name, old in reversed(self.todo):
            if old is self:
                delattr(m, name)
            else:
                setattr(m, name, old)


def build(ctx, n, sense, cons, bounds, objective, far=1):
    from qiskit_optimization import INFINITY, QuadraticProgram

    qp = QuadraticProgram("p")
    lo, hi = [], []
    for i in range(n):
        b = bounds[i % len(bounds)]
        if n > 9 and i not in (2, 10):  # few symbolic bounds
            b = "const" if b == "b" else b
            lo.append(-INFINITY if b in ("u", "R") else -9 - i)
            hi.append(INFINITY if b in ("l", "R") else 9 + i)
            qp.continuous_var(lo[-1], hi[-1], NAMES[i])
            continue
        l = -INFINITY if b in "uR" else ctx.real("lb%d" % i, -100 * far, 100 * far) if b in "bl" else ctx.real("lb%d" % i, -9, 9)
        h = INFINITY if b in "lR" else ctx.real("ub%d" % i, -100 * far, 100 * far)
        if b == "b":
            ctx.assume(l <= h)
        qp.continuous_var(l, h, NAMES[i])
        lo.append(l)
        hi.append(h)
    if objective == "sym":
        k = ctx.real("k", -50, 50)
        ol = {i: ctx.real("ol%d" % i, -50, 50) for i in range(n)}
        oq = {(0, n - 1): ctx.real("oq", -50, 50), (0, 0): ctx.real("od", -50, 50)}
        if n == 1:
            oq = {(0, 0): oq[(0, 0)]}
    else:
        k, ol, oq = objective
    (qp.minimize if sense == "min" else qp.maximize)(k, dict(ol), dict(oq))
    cl = []
    for m, (ck, s) in enumerate(cons):
        l = {i: ctx.real("c%d_%d" % (m, i), -50, 50) for i in range(n)} if objective == "sym" else \
            {i: 1 + i + m for i in range(n)}
        r = ctx.real("r%d" % m, -50, 50)
        q = {}
        if ck == "l":
            qp.linear_constraint(l, s, r, "k%d" % m)
        else:
            q = {(0, n - 1): ctx.real("cq%d" % m, -50, 50) if objective == "sym" else 2}
            qp.quadratic_constraint(l, q, s, r, "k%d" % m)
        cl.append((s, l, q, r))
    return qp, lo, hi, (k, ol, oq), cl


def optimizer(which, trials, **kw):
    from qiskit_optimization.algorithms import CobylaOptimizer, SlsqpOptimizer

    return (SlsqpOptimizer if which == "slsqp" else CobylaOptimizer)(trials=trials, **kw)


def every(ctx, one, loc, scale, size):
    """one draw, or one per element of the ranges or of the size."""
    import numpy as np

    shape = np.shape(loc) or np.shape(scale) or (() if size is None else (size,) if isinstance(size, int) else tuple(size))
    if shape == ():
        return one(loc, scale)
    if len(shape) > 1:
        ctx.assume(False)
    at = lambda v, i: v[i] if np.shape(v) else v
    return nparr(ctx, [one(at(loc, i), at(scale, i)) for i in range(shape[0])])


def val(o, x):
    k, l, q = o
    return k + lin_val(l, x) + quad_val(q, x)


def handed(ctx, which, n, sense, cons, bounds, full=False, objective="sym", far=1):
    """the functions handed to the local solver describe the problem at every point."""
    qp, lo, hi, ob, cl = build(ctx, n, sense, cons, bounds, objective, far)
    x = [ctx.real("x%d" % i, -200 * far, 200 * far) if n < 10 or i in (2, 10) else ctx.real("x%d" % i, -8, 8)
         for i in range(n)]
    sg = 1 if sense == "min" else -1
    calls = []

    def slsqp(func, x0, eqcons=(), f_eqcons=None, ieqcons=(), f_ieqcons=None, bounds=(), fprime=None, **kw):
        calls.append(1)
        p = nparr(ctx, x)
        ctx.eq("objective handed to the solver", func(p), sg * val(ob, x))
        if fprime is not None:
            g = fprime(p)
            for i in range(n):
                d = ob[1].get(i, 0) + sum(c * ((x[b] if a == i else 0) + (x[a] if b == i else 0))
                                          for (a, b), c in ob[2].items())
                ctx.eq("gradient handed to the solver", g[i], sg * d)
        # as in scipy, the function of all constraints takes precedence
        ie = [f(p) for f in ieqcons] if f_ieqcons is None else list(f_ieqcons(p))
        eq = [f(p) for f in eqcons] if f_eqcons is None else list(f_eqcons(p))
        ok = [ctx.And(v >= 0) for v in ie] + [v == 0 for v in eq]
        big = 1e19
        for i, (l, h) in enumerate(bounds):
            if l is not None and (ctx.symbolic or l > -big):
                ok.append(x[i] >= l)
            if h is not None and (ctx.symbolic or h < big):
                ok.append(x[i] <= h)
        meaning(ok)
        out = nparr(ctx, x)
        return (out, 0.0, 1, 0, "ok") if kw.get("full_output") else out

    def cobyla(func, x0, cons, **kw):
        calls.append(1)
        p = nparr(ctx, x)
        ctx.eq("objective handed to the solver", func(p), sg * val(ob, x))
        meaning([f(p) >= 0 for f in cons])
        return nparr(ctx, x)

    def meaning(ok):
        want = [ctx.And(a <= v, v <= b) for a, v, b in zip(lo, x, hi)]
        for s, l, q, r in cl:
            v = lin_val(l, x) + quad_val(q, x)
            want.append(v <= r if s == "<=" else v >= r if s == ">=" else v == r)
        if ctx.symbolic:
            ctx.check("the constraints handed to the solver mean feasibility", ctx.Iff(ctx.And(*ok), ctx.And(*want)))
        else:
            near = [abs(v - e) < 1e-7 * (1 + abs(v)) for a, v, b in zip(lo, x, hi) for e in (a, b)]
            near += [abs(lin_val(l, x) + quad_val(q, x) - r) < 1e-7 * (1 + abs(r)) for s, l, q, r in cl]
            if not any(near):
                ctx.check("the constraints handed to the solver mean feasibility", all(ok) == all(want))

    with Patch(ctx, {"fmin_slsqp": slsqp, "fmin_cobyla": cobyla}):
        optimizer(which, 1, **({"full_output": True} if full else {})).solve(qp)
    ctx.check("the local solver is called once", len(calls) == 1)
    ctx.cover("done")


OBJ = {"lin": (7, {0: 2, 1: -3}, {}), "quad": (-1, {0: 1}, {(0, 1): 2, (1, 1): -1}), "one": (3, {0: -2}, {(0, 0): 1})}


def multistart(ctx, which, sense, trials, n=2, obj="lin", cons=(("l", "<="),), bounds="b", full=False):
    k, ol, oq = OBJ[obj]
    k0 = ctx.real("k", -50, 50)
    qp, lo, hi, ob, cl = build(ctx, n, sense, cons, bounds, (k0, ol, oq))
    pts = [[ctx.real("p%d_%d" % (t, i), -20, 20) for i in range(n)] for t in range(trials)]
    for x in pts:  # equality residuals are zero or clear
        for s, l, q, r in cl:
            if s == "==":
                d = lin_val(l, x) + quad_val(q, x) - r
                ctx.assume(ctx.Or(d == 0, d > 1, d < -1))
    starts = []
    clip = 12

    def rvs(loc=0, scale=1, size=None, random_state=None):
        def one(loc, scale):
            t = ctx.real("u%d" % len(draws), 0, 1)
            draws.append(t)
            ctx.check("the range of guesses is not empty", scale >= 0)
            return loc + t * scale

        return every(ctx, one, loc, scale, size)

    draws = []

    def slsqp(func, x0, *a, **kw):
        starts.append(list(x0))
        out = nparr(ctx, pts[len(starts) - 1])
        return (out, "fx%d" % len(starts), len(starts), 10 + len(starts), "m%d" % len(starts)) if kw.get("full_output") else out

    def cobyla(func, x0, *a, **kw):
        starts.append(list(x0))
        return nparr(ctx, pts[len(starts) - 1])

    opt = optimizer(which, trials, clip=clip, **({"full_output": True} if full else {}))
    with Patch(ctx, {"fmin_slsqp": slsqp, "fmin_cobyla": cobyla, "rvs": rvs}):
        res = opt.solve(qp)
    ctx.check("number of trials", len(starts) == trials)
    ctx.check("the first guess is zero", all(bool(v == 0) for v in starts[0]))
    for t, x0 in enumerate(starts):
        for i in range(n):
            b = bounds[i % len(bounds)]
        if n > 9 and i not in (2, 10):  # few symbolic bounds
            b = "const" if b == "b" else b
            lo.append(-INFINITY if b in ("u", "R") else -9 - i)
            hi.append(INFINITY if b in ("l", "R") else 9 + i)
            qp.continuous_var(lo[-1], hi[-1], NAMES[i])
            continue
            l = -clip if b in "uR" else lo[i]
            h = clip if b in "lR" else hi[i]
            if t:
                ctx.check("guesses lie within the (clipped) bounds",
                          ctx.Implies(l <= h, ctx.And(x0[i] >= l - 1e-9, x0[i] <= h + 1e-9)))
                ctx.check("guesses lie within the bounds", ctx.And(x0[i] >= lo[i] - 1e-9, x0[i] <= hi[i] + 1e-9))
    sg = 1 if sense == "min" else -1
    x = list(res.x)
    vals = [val(ob, p) for p in pts]
    ctx.check("the result is one of the local solutions",
              ctx.Or(*[ctx.And(*[x[i] == p[i] for i in range(n)]) for p in pts]))
    ctx.eq("value", res.fval, val(ob, x))
    for v in vals:
        ctx.check("no trial is better than the result", sg * res.fval <= sg * v + 1e-6)
    feas = [ctx.And(a <= v, v <= b) for a, v, b in zip(lo, x, hi)]
    for s, l, q, r in cl:
        v = lin_val(l, x) + quad_val(q, x)
        feas.append(v <= r if s == "<=" else v >= r if s == ">=" else v == r)
    near = [] if ctx.symbolic else [abs(v - e) < 1e-7 * (1 + abs(v)) for a, v, b in zip(lo, x, hi) for e in (a, b)] + [
        abs(lin_val(l, x) + quad_val(q, x) - r) < 1e-5 * (1 + abs(r)) for s, l, q, r in cl]
    if not any(near):
        ctx.check("status", ctx.Iff(res.status.name == "SUCCESS", ctx.And(*feas)))
    ctx.check("status is success or infeasible", res.status.name in ("SUCCESS", "INFEASIBLE"))
    ctx.check("variables", [v.name for v in res.variables] == NAMES[:n] and list(res.variables_dict) == NAMES[:n])
    for i in range(n):
        ctx.eq("value by name", res[NAMES[i]], x[i])
    if full:
        w = res.its - 1
        ctx.check("details belong to the reported solution",
                  ctx.And(res.fx == "fx%d" % (w + 1), res.imode == 11 + w, res.smode == "m%d" % (w + 1), *[pts[w][i] == x[i] for i in range(n)]))
    ctx.cover("done")


def settings(ctx, which, how):
    """the settings of the optimizer are those of the local solver; trials and clip take effect."""
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram()
    qp.continuous_var(name="x", lowerbound=-1e20)
    qp.minimize(linear=[ctx.real("c", -3, 3)])
    it, acc, pr = ctx.int("iter", 1, 999), ctx.real("acc", 0, 1), ctx.int("iprint", -1, 2)
    rb, re = ctx.real("rhobeg", 1, 2), ctx.real("rhoend", 0, 1)
    clip = ctx.real("clip", 1, 50)
    us, calls = [], []

    def rvs(loc=0, scale=1, size=None, random_state=None):
        def one(loc, scale):
            us.append(ctx.real("u%d" % len(us), 0, 1))
            ctx.eq("guesses start at minus clip", loc, -clip)
            ctx.eq("guesses end at clip", loc + scale, clip)
            return loc + us[-1] * scale

        return every(ctx, one, loc, scale, size)

    def slsqp(func, x0, eqcons=(), f_eqcons=None, ieqcons=(), f_ieqcons=None, bounds=(), fprime=None,
              fprime_eqcons=None, fprime_ieqcons=None, args=(), iter=100, acc=1e-6, iprint=1, disp=None,
              full_output=0, epsilon=1.5e-8, callback=None):
        calls.append(x0[0])
        ctx.eq("iterations", iter, it)
        ctx.eq("accuracy", acc, accw)
        ctx.eq("verbosity", iprint, pr)
        return nparr(ctx, [1.0])

    accw = acc

    def cobyla(func, x0, cons, args=(), consargs=None, rhobeg=1.0, rhoend=1e-4, maxfun=1000, disp=None, catol=2e-4,
               callback=None):
        calls.append(x0[0])
        ctx.eq("begin", rhobeg, rb)
        ctx.eq("end", rhoend, re)
        ctx.eq("number of evaluations", maxfun, it)
        ctx.eq("verbosity", disp, pr)
        return nparr(ctx, [1.0])

    kw = dict(iter=it, acc=acc, iprint=pr) if which == "slsqp" else dict(rhobeg=rb, rhoend=re, maxfun=it, disp=pr)
    if how == "init":
        opt = optimizer(which, 3, clip=clip, **kw)
    else:
        opt = optimizer(which, 1, **kw)
        opt.trials, opt.clip = 3, clip
    ctx.check("settings are kept", opt.trials == 3)
    ctx.eq("clip is kept", opt.clip, clip)
    with Patch(ctx, {"fmin_slsqp": slsqp, "fmin_cobyla": cobyla, "rvs": rvs}):
        opt.solve(qp)
    ctx.check("number of trials", len(calls) == 3)
    for u, x in zip(us, calls[1:]):
        ctx.eq("the guesses are used", x, -clip + 2 * u * clip)
    ctx.cover("done")


def refuse(ctx, which, kind):
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram

    qp = QuadraticProgram()
    for i, k in enumerate(kind):
        (qp.binary_var(NAMES[i]) if k == "b" else qp.integer_var(0, ctx.int("u%d" % i, 1, 9), NAMES[i]) if k == "i" else
         qp.continuous_var(0, ctx.real("u%d" % i, 1, 9), NAMES[i]))
    qp.minimize(linear={0: ctx.real("c", -3, 3)})
    want = kind.strip("c") == ""

    def local(func, x0, *a, **kw):
        return nparr(ctx, [0.0] * len(kind))

    opt = optimizer(which, 1)
    ctx.check("compatibility", opt.is_compatible(qp) == want and (opt.get_compatibility_msg(qp) == "") == want)
    with Patch(ctx, {"fmin_slsqp": local, "fmin_cobyla": local}):
        try:
            opt.solve(qp)
            ctx.check("other variables are refused", want)
        except QiskitOptimizationError:
            ctx.check("continuous problems are accepted", not want)
    ctx.cover("done")


def nosolution(ctx, sense):
    """CPLEX finds no solution."""
    from cplex.exceptions import CplexSolverError
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.algorithms import CplexOptimizer

    qp, *_ = build(ctx, 2, sense, [("l", "<=")], "b", (ctx.real("k", -5, 5),) + OBJ["lin"][1:])

    class Sol:
        def __getattr__(self, name):
            def get(*a):
                raise CplexSolverError("CPLEX Error  1217: No solution exists.", None, 1217)
            return get

    class Cpx:
        solution = Sol()

        def __getattr__(self, name):
            if name != "solve" and not name.startswith("set_"):
                raise AttributeError(name)
            return lambda *a: None

    class Model:
        def get_cplex(self):
            return Cpx()

    old = QuadraticProgram.to_docplex
    QuadraticProgram.to_docplex = lambda self: Model()
    try:
        res = CplexOptimizer().solve(qp)
    finally:
        QuadraticProgram.to_docplex = old
    ctx.check("a failure is reported", res.status.name == "FAILURE" and res.x is None)
    ctx.check("variables", [v.name for v in res.variables] == NAMES[:2])
    ctx.cover("done")


def cplex(ctx, sense, cons):
    """what the optimizer makes of CPLEX's answer."""
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.algorithms import CplexOptimizer

    qp, lo, hi, ob, cl = build(ctx, 2, sense, cons, "b", (ctx.real("k", -5, 5),) + OBJ["quad"][1:])
    x = [ctx.real("x%d" % i, -20, 20) for i in range(2)]
    for s, l, q, r in cl:
        if s == "==":
            d = lin_val(l, x) + quad_val(q, x) - r
            ctx.assume(ctx.Or(d == 0, d > 1, d < -1))
    seen = []

    class Sol:
        def get_values(self):
            return list(x)

        def get_objective_value(self):
            return val(ob, x)

    class Cpx:
        solution = Sol()

        def __getattr__(self, name):
            if not name.startswith("set_"):
                raise AttributeError(name)
            return lambda *a: None

        def solve(self):
            seen.append(1)

    class Model:
        def get_cplex(self):
            return Cpx()

    old = QuadraticProgram.to_docplex
    QuadraticProgram.to_docplex = lambda self: Model()
    try:
        res = CplexOptimizer().solve(qp)
    finally:
        QuadraticProgram.to_docplex = old
    ctx.check("solved once", seen == [1])
    for i in range(2):
        ctx.eq("values", res.x[i], x[i])
    ctx.eq("objective value", res.fval, val(ob, x))
    feas = [ctx.And(a <= v, v <= b) for a, v, b in zip(lo, x, hi)]
    for s, l, q, r in cl:
        v = lin_val(l, x) + quad_val(q, x)
        feas.append(v <= r if s == "<=" else v >= r if s == ">=" else v == r)
    near = [] if ctx.symbolic else [abs(v - e) < 1e-7 * (1 + abs(v)) for a, v, b in zip(lo, x, hi) for e in (a, b)] + [
        abs(lin_val(l, x) + quad_val(q, x) - r) < 1e-5 * (1 + abs(r)) for s, l, q, r in cl]
    if not any(near):
        ctx.check("status", ctx.Iff(res.status.name == "SUCCESS", ctx.And(*feas)))
    ctx.cover("done")


def units(tier):
    from . import edits
    us = []
    S = ("<=", ">=", "==")
    D = ("done",)
    for w in ("slsqp", "cobyla"):
        for sense in ("min", "max"):
            us.append(unit("handed/%s/%s/free" % (w, sense), handed, which=w, n=2, sense=sense, cons=[], bounds="bR",
                           must_cover=D))
            for ck in "lq":
                for s in S:
                    us.append(unit("handed/%s/%s/%s%s" % (w, sense, ck, s), handed, which=w, n=2, sense=sense,
                                   cons=[(ck, s)], bounds="lu", must_cover=D))
        us.append(unit("handed/%s/far" % w, handed, which=w, n=2, sense="min", bounds="bl", must_cover=D, cost=3,
                       cons=[], objective=(7, {0: 2, 1: -3}, {}), far=10 ** 9))
        us.append(unit("handed/%s/mix" % w, handed, which=w, n=2, sense="max", bounds="b", must_cover=D, cost=3,
                       cons=[("l", "<="), ("q", ">="), ("l", "==")]))
        us.append(unit("handed/%s/three" % w, handed, which=w, n=3, sense="min", bounds="lbu", must_cover=D, cost=3,
                       cons=[("l", ">="), ("q", "=="), ("l", "<=")]))
        us.append(unit("handed/%s/wide" % w, handed, which=w, n=12, sense="max", bounds="lbuR", must_cover=D, cost=3,
                       cons=[("l", "<="), ("q", ">=")], objective=(7, {2: 2, 10: -3}, {(2, 10): 2, (11, 11): -1})))
        us.append(unit("handed/%s/two-of-a-kind" % w, handed, which=w, n=2, sense="min", bounds="R", must_cover=D,
                       cons=[("l", "<="), ("l", "<="), ("q", "<=")]))
        for sense in ("min", "max"):
            for t in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                us.append(unit("multi/%s/%s/%d" % (w, sense, t), multistart, which=w, sense=sense, trials=t, bounds="lb",
                               must_cover=D, cost=t))
            us.append(unit("multi/%s/%s/quad" % (w, sense), multistart, which=w, sense=sense, trials=2, obj="quad",
                           cons=[], bounds="R", must_cover=D, cost=2))
            us.append(unit("multi/%s/%s/eq" % (w, sense), multistart, which=w, sense=sense, trials=2, obj="one", n=1,
                           cons=[("l", "=="), ("l", ">=")], bounds="u", must_cover=D, cost=2))
            for b in "lu":
                us.append(unit("multi/%s/%s/%s" % (w, sense, b), multistart, which=w, sense=sense, trials=2, n=1, obj="one",
                               cons=[], bounds=b, must_cover=D))
        for how in ("init", "set"):
            us.append(unit("settings/%s/%s" % (w, how), settings, which=w, how=how, must_cover=D))
        for k in ("c", "cc", "b", "cb", "ic", "ci"):
            us.append(unit("refuse/%s/%s" % (w, k), refuse, which=w, kind=k, must_cover=D))
    us.append(unit("handed/slsqp/full", handed, which="slsqp", n=1, sense="max", bounds="b", cons=[("l", ">=")], full=True,
                   must_cover=D))
    for sense in ("min", "max"):
        us.append(unit("multi/slsqp/%s/full" % sense, multistart, which="slsqp", sense=sense, trials=3, bounds="b", full=True,
                       must_cover=D, cost=3))
        us.append(unit("cplex/%s/nosolution" % sense, nosolution, sense=sense, must_cover=D))
        for s in S:
            us.append(unit("cplex/%s/%s" % (sense, s), cplex, sense=sense, cons=[("l", s), ("q", "<=")], must_cover=D))
    us += edits.units("slsqp", ("cc|l<=",), edits.ALL)
    us += edits.units("cobyla", ("cc|l>=",), edits.ALL)
    return us
