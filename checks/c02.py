"""C02: gradients are the exact derivatives of the functions they belong to."""
from .common import lin_val, nparr, nparr2, quad_val, unit

BOUNDS = ("1 to 3 variables (4 in the thorough tier), and 12 variables with 3-4 nonzero coefficients; arbitrary real coefficients and points, |v|<=1000; "
          "upper, lower and full coefficient matrices, list/array/dict points"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = "more variables; floating point rounding"
NAMES = ["x", "y", "z", "w"] + ["v%d" % i for i in range(4, 13)]


def _qp(n):
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram()
    for i in range(n):
        qp.continuous_var(-1000, 1000, NAMES[i])
    return qp


def _pairs(n, tri):
    if n > 9:
        return {"upper": [(2, 10), (9, 11), (11, 11)], "lower": [(10, 2), (11, 9), (11, 11)],
                "full": [(2, 10), (11, 9), (10, 2), (11, 11)]}[tri]
    return [(i, j) for i in range(n) for j in range(n)
            if tri == "full" or (tri == "upper" and i <= j) or (tri == "lower" and i >= j)]


def _grad(n, l, q, x):
    g = []
    for k in range(n):
        s = l.get(k, 0)
        for (i, j), c in q.items():
            if i == k:
                s = s + c * x[j]
            if j == k:
                s = s + c * x[i]
        g.append(s)
    return g


def _pts(ctx, x):
    return [("list", list(x)), ("array", nparr(ctx, x)), ("idx", dict(enumerate(x))),
            ("name", {NAMES[i]: v for i, v in enumerate(x)})]


def expr(ctx, n, tri, fmt):
    from qiskit_optimization.problems import LinearExpression, QuadraticExpression

    qp = _qp(n)
    x = [ctx.real("x%d" % i) for i in range(n)]
    l = {i: ctx.real("l%d" % i) for i in range(n) if n < 9 or i in (2, 9, 10, 11)}
    q = {p: ctx.real("q%d_%d" % p) for p in _pairs(n, tri)}
    rows = [[q.get((i, j), 0) for j in range(n)] for i in range(n)]
    le = LinearExpression(qp, [l.get(i, 0) for i in range(n)] if fmt != "dict" else dict(l))
    qe = QuadraticExpression(qp, rows if fmt == "list" else nparr2(ctx, rows) if fmt == "array" else q)
    for pn, p in _pts(ctx, x):
        gl, gq = le.evaluate_gradient(p), qe.evaluate_gradient(p)
        ctx.check("lengths", len(gl) == n and len(gq) == n)
        wl, wq = _grad(n, l, {}, x), _grad(n, {}, q, x)
        for k in range(n):
            ctx.eq("linear gradient/%s" % pn, gl[k], wl[k])
            ctx.eq("quadratic gradient/%s" % pn, gq[k], wq[k])
    # the gradient is what the value changes by: f(x + h e_k) - f(x) = g_k h + q_kk h^2
    z = [ctx.int("z%d" % i) if i < (n + 1) // 2 else x[i] for i in range(n)]  # integers first
    for pn, p in _pts(ctx, z):
        gq = qe.evaluate_gradient(p)
        for k, w in enumerate(_grad(n, {}, q, z)):
            ctx.eq("gradient at an integer point/%s" % pn, gq[k], w)
    h = ctx.real("h", -10, 10)
    for k in range(n):
        y = list(x)
        y[k] = y[k] + h
        ctx.eq("difference quotient", qe.evaluate(y) - qe.evaluate(x),
               qe.evaluate_gradient(x)[k] * h + q.get((k, k), 0) * h * h)
    ctx.cover("done")


def objective(ctx, n, sense, tri, missing):
    qp = _qp(n)
    x = [ctx.real("x%d" % i) for i in range(n)]
    k0 = ctx.real("k")
    l = {} if missing == "linear" else {i: ctx.real("l%d" % i) for i in range(n)}
    q = {} if missing == "quadratic" else {p: ctx.real("q%d_%d" % p) for p in _pairs(n, tri)}
    f = qp.minimize if sense == "min" else qp.maximize
    f(constant=k0, linear=l or None, quadratic=q or None)
    o = qp.objective
    w = _grad(n, l, q, x)
    for pn, p in _pts(ctx, x):
        g = o.evaluate_gradient(p)
        ctx.check("length", len(g) == n)
        for k in range(n):
            ctx.eq("objective gradient/%s" % pn, g[k], w[k])
    v = ctx.real("v")
    o.linear = {0: v}
    g = o.evaluate_gradient(x)
    w = _grad(n, {0: v}, q, x)
    for k in range(n):
        ctx.eq("after replacing the linear part", g[k], w[k])
    o.quadratic[n - 1, 0] = v
    q2 = {p: c for p, c in q.items() if set(p) != {0, n - 1}}
    q2[0, n - 1] = v
    w = _grad(n, {0: v}, q2, x)
    g = o.evaluate_gradient(x)
    for k in range(n):
        ctx.eq("after setting a quadratic coefficient", g[k], w[k])
    ctx.eq("value", o.evaluate(x), k0 + v * x[0] + quad_val(q2, x) + lin_val({}, x))
    ctx.cover("done")


def constraint(ctx, n, kind):
    """SLSQP relies on the gradients of the constraints."""
    qp = _qp(n)
    x = [ctx.real("x%d" % i) for i in range(n)]
    l = {i: ctx.real("l%d" % i) for i in range(n)}
    if kind == "lin":
        con = qp.linear_constraint(dict(l), "<=", ctx.real("r"), "c")
        w = _grad(n, l, {}, x)
        g = con.linear.evaluate_gradient(x)
    else:
        q = {p: ctx.real("q%d_%d" % p) for p in _pairs(n, "full")}
        con = qp.quadratic_constraint(dict(l), q, ">=", ctx.real("r"), "c")
        w = _grad(n, l, q, x)
        a, b = con.linear.evaluate_gradient(x), con.quadratic.evaluate_gradient(x)
        g = [a[k] + b[k] for k in range(n)]
    for k in range(n):
        ctx.eq("constraint gradient", g[k], w[k])
    ctx.cover("done")


def units(tier):
    from . import edits
    us = []
    ns = [1, 2, 3] if tier == "quick" else [1, 2, 3, 4]
    for n in ns + [12]:
        for tri in ("upper", "lower", "full"):
            for fmt in ("list", "array", "dict"):
                us.append(unit("expr/n%d/%s/%s" % (n, tri, fmt), expr, n=n, tri=tri, fmt=fmt,
                               must_cover=("done",)))
            for s in ("min", "max"):
                for m in ("none", "linear", "quadratic"):
                    if tri != "full" and m != "none":
                        continue
                    us.append(unit("objective/n%d/%s/%s/%s" % (n, tri, s, m), objective, n=n, sense=s,
                                   tri=tri, missing=m, must_cover=("done",)))
        for k in ("lin", "quad"):
            us.append(unit("constraint/n%d/%s" % (n, k), constraint, n=n, kind=k, must_cover=("done",)))
    us += edits.units("grad", ("bi|l<=q>=", "bc|l==", "bb|"), edits.ALL)
    return us
