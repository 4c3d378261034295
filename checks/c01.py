"""C01: linear and quadratic expressions mean what their coefficients say, in every input format."""
from .common import lin_val, nparr, nparr2, quad_val, sparse, unit

BOUNDS = ("1 to 3 variables (4 in the thorough tier), and 12 variables with 3-4 nonzero coefficients; every coefficient, every point and every newly set "
          "coefficient is an arbitrary real (|v|<=1000) or, in the int units, an arbitrary integer; all "
          "supported coefficient and point formats"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = "more variables; non-finite values; floating point rounding"
NAMES = ["x", "y", "z", "w"] + ["v%d" % i for i in range(4, 13)]


def _qp(n):
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram()
    for i in range(n):
        qp.continuous_var(-1000, 1000, NAMES[i])
    return qp


def _points(ctx, x, n):
    sp = sparse(ctx)
    pts = [("list", list(x)), ("array", nparr(ctx, x)),
           ("dict_idx", {i: x[i] for i in range(n)}),
           ("dict_name", {NAMES[i]: x[i] for i in range(n)})]
    return pts, sp


def _coef(ctx, name, kind):
    return ctx.int(name) if kind == "i" else ctx.real(name)


def linear(ctx, n, fmt, kind, at=None):
    from qiskit_optimization.problems import LinearExpression

    qp = _qp(n)
    c = [_coef(ctx, "c%d" % i, kind) if at is None or i in at else 0 for i in range(n)]
    x = [ctx.real("x%d" % i) for i in range(n)]
    sp = sparse(ctx)
    given = {i: c[i] for i in range(n) if at is None or i in at}
    if fmt == "list":
        coefs = list(c)
    elif fmt == "array":
        coefs = nparr(ctx, c)
    elif fmt == "dok":
        coefs = sp.dok_matrix([c])
    elif fmt == "csr":
        coefs = sp.csr_matrix([c])
    elif fmt == "dict_idx":
        coefs = dict(given)
    elif fmt == "dict_name":
        coefs = {NAMES[i]: c[i] for i in given}
    elif fmt == "dict_mixed":
        coefs = {(NAMES[i] if i % 2 else i): c[i] for i in given}
    elif fmt == "dict_partial":
        coefs = {NAMES[n - 1]: c[n - 1]}
        given = {n - 1: c[n - 1]}
    keep = dict(coefs) if type(coefs) is dict else None
    e = LinearExpression(qp, coefs)
    want = lin_val(given, x)
    for pn, p in _points(ctx, x, n)[0]:
        ctx.eq("evaluate/%s" % pn, e.evaluate(p), want)
    if n > 1:
        ctx.eq("evaluate/partial point", e.evaluate({NAMES[0]: x[0]}),
               given.get(0, 0) * x[0])
    arr = e.to_array()
    ctx.check("to_array length", len(arr) == n)
    for i in range(n):
        ctx.eq("to_array[%d]" % i, arr[i], given.get(i, 0))
        ctx.eq("getitem index", e[i], given.get(i, 0))
        ctx.eq("getitem name", e[NAMES[i]], given.get(i, 0))
    # dictionary forms: exactly the non zero coefficients
    d, dn = e.to_dict(), e.to_dict(use_name=True)
    for i in range(n):
        v = given.get(i, 0)
        ctx.check("to_dict key present iff nonzero", ctx.Iff(i in d, v != 0))
        ctx.eq("to_dict value", d.get(i, 0), v)
        ctx.check("to_dict name key", (NAMES[i] in dn) == (i in d))
        ctx.eq("to_dict name value", dn.get(NAMES[i], 0), v)
    ctx.check("to_dict no extra keys", set(d) <= set(range(n)) and set(dn) <= set(NAMES[:n]))
    # round trip through the exported forms
    for back in (d, dn, arr):
        ctx.eq("rebuilt", LinearExpression(qp, back).evaluate(x), want)
    # setting a coefficient
    v = ctx.real("v")
    e[0] = v
    given2 = dict(given)
    given2[0] = v
    ctx.eq("set/get", e[NAMES[0]], v)
    ctx.eq("set/evaluate", e.evaluate(x), lin_val(given2, x))
    u = ctx.real("u")
    e[NAMES[n - 1]] = u
    given2[n - 1] = u
    ctx.eq("set by name/evaluate", e.evaluate(list(x)), lin_val(given2, x))
    if keep is not None:
        ctx.check("input dict keys untouched", set(keep) == set(coefs))
        for k in keep:
            ctx.eq("input dict untouched", coefs[k], keep[k])
    ctx.cover("done")


def quadratic(ctx, n, fmt, kind, nz=False, at=None):
    from qiskit_optimization.problems import QuadraticExpression

    qp = _qp(n)
    pairs = [(i, j) for i in range(n) for j in range(n)]
    if n >= 3:
        pairs = [(0, 0), (0, 1), (1, 0), (2, 1), (2, 0), (1, 1)][:6] if n == 3 else \
            [(0, 0), (0, 1), (1, 0), (2, 1), (3, 0), (2, 3), (3, 3)]
    pairs = pairs if at is None else at
    c = {p: _coef(ctx, "c%d%d" % p, kind) for p in pairs}
    if nz:
        for v in c.values():
            ctx.assume(v != 0)
    x = [ctx.real("x%d" % i) for i in range(n)]
    sp = sparse(ctx)
    rows = [[c.get((i, j), 0) for j in range(n)] for i in range(n)]
    if fmt == "list":
        coefs = rows
    elif fmt == "array":
        coefs = nparr2(ctx, rows)
    elif fmt == "dok":
        coefs = sp.dok_matrix(nparr2(ctx, rows))
    elif fmt == "csr":
        coefs = sp.csr_matrix(nparr2(ctx, rows))
    elif fmt == "dict_idx":
        coefs = dict(c)
    elif fmt == "dict_name":
        coefs = {(NAMES[i], NAMES[j]): v for (i, j), v in c.items()}
    elif fmt == "dict_mixed":
        coefs = {(NAMES[i] if (i + j) % 2 else i, j if i == 0 else NAMES[j]): v
                 for (i, j), v in c.items()}
    e = QuadraticExpression(qp, coefs)
    want = quad_val(c, x)
    for pn, p in _points(ctx, x, n)[0]:
        ctx.eq("evaluate/%s" % pn, e.evaluate(p), want)
    up = {(i, j): (c.get((i, j), 0) + (c.get((j, i), 0) if i != j else 0))
          for i in range(n) for j in range(i, n)}
    arr, sym = e.to_array(), e.to_array(symmetric=True)
    for i in range(n):
        for j in range(n):
            a, b = min(i, j), max(i, j)
            ctx.eq("getitem idx", e[i, j], up[a, b])
            ctx.eq("getitem name", e[NAMES[i], NAMES[j]], up[a, b])
            ctx.eq("to_array upper", arr[i][j], up[i, j] if i <= j else 0)
            ctx.eq("to_array symmetric", sym[i][j], up[i, i] if i == j else up[a, b] / 2)
    d, dn = e.to_dict(), e.to_dict(use_name=True)
    ctx.check("to_dict keys upper", all(i <= j for i, j in d))
    for (i, j), v in up.items():
        ctx.check("to_dict present iff nonzero", ctx.Iff((i, j) in d, v != 0))
        ctx.eq("to_dict value", d.get((i, j), 0), v)
        ctx.eq("to_dict name value", dn.get((NAMES[i], NAMES[j]), 0), v)
    ds = e.to_dict(symmetric=True)
    for i in range(n):
        for j in range(n):
            a, b = min(i, j), max(i, j)
            ctx.eq("to_dict symmetric value", ds.get((i, j), 0), up[i, i] if i == j else up[a, b] / 2)
    for back in (d, dn, arr, sym, ds):
        ctx.eq("rebuilt", QuadraticExpression(qp, back).evaluate(x), want)
    # setting coefficients addresses the unordered pair
    v = ctx.real("v")
    up2 = dict(up)
    if n > 1:
        e[1, 0] = v
        up2[0, 1] = v
        ctx.eq("set/get", e[NAMES[0], 1], v)
        u = ctx.real("u")
        e[NAMES[n - 1], NAMES[n - 1]] = u
        up2[n - 1, n - 1] = u
    else:
        e["x", 0] = v
        up2[0, 0] = v
    ctx.eq("set/evaluate", e.evaluate(x), quad_val(up2, x))
    ctx.cover("done")


def objective(ctx, n, sense, at=None):
    """the objective is constant + linear + quadratic for both senses."""
    from qiskit_optimization.problems.quadratic_objective import ObjSense

    qp = _qp(n)
    k = ctx.real("k")
    at = range(n) if at is None else at
    l = {NAMES[i]: ctx.real("l%d" % i) for i in at}
    q = {(NAMES[i], NAMES[j]): ctx.real("q%d_%d" % (i, j)) for i in at for j in at if i <= j}
    x = [ctx.real("x%d" % i) for i in range(n)]
    (qp.minimize if sense == "min" else qp.maximize)(constant=k, linear=l, quadratic=q)
    o = qp.objective
    quad = quad_val({(i, j): q[NAMES[i], NAMES[j]] for i in at for j in at if i <= j}, x)
    want = k + lin_val({i: l[NAMES[i]] for i in at}, x) + quad
    ctx.check("sense", o.sense == (ObjSense.MINIMIZE if sense == "min" else ObjSense.MAXIMIZE))
    ctx.eq("constant", o.constant, k)
    ctx.eq("value", o.evaluate(x), want)
    ctx.eq("value array", o.evaluate(nparr(ctx, x)), want)
    ctx.eq("value dict", o.evaluate({NAMES[i]: x[i] for i in range(n)}), want)
    # defaults and replacement of the parts
    nl = {NAMES[0]: ctx.real("nl")}
    o.linear = nl
    k2 = ctx.real("k2")
    o.constant = k2
    want2 = k2 + nl[NAMES[0]] * x[0] + quad
    ctx.eq("replaced linear/constant", o.evaluate(x), want2)
    o.quadratic = {}
    ctx.eq("replaced quadratic", o.evaluate(x), k2 + nl[NAMES[0]] * x[0])
    qp.minimize(linear={NAMES[0]: k})
    ctx.eq("defaults", qp.objective.evaluate(x), k * x[0])
    qp.maximize(quadratic=[[k if i == j == 0 else 0 for j in range(n)] for i in range(n)])
    ctx.eq("defaults2", qp.objective.evaluate(x), k * x[0] * x[0])
    ctx.cover("done")


def constraint(ctx, n, quad, sense):
    """constraints evaluate their left-hand side and keep sense, rhs and name."""
    qp = _qp(n)
    l = [ctx.real("l%d" % i) for i in range(n)]
    r = ctx.real("r")
    x = [ctx.real("x%d" % i) for i in range(n)]
    want = lin_val(dict(enumerate(l)), x)
    if quad:
        q = {(n - 1, 0): ctx.real("qa"), (0, 0): ctx.real("qb")}
        con = qp.quadratic_constraint(linear=l, quadratic=q, sense=sense, rhs=r, name="k")
        want = want + quad_val(q, x)
    else:
        con = qp.linear_constraint(linear=l, sense=sense, rhs=r, name="k")
    ctx.eq("lhs", con.evaluate(x), want)
    ctx.eq("lhs dict", con.evaluate({NAMES[i]: x[i] for i in range(n)}), want)
    ctx.eq("rhs", con.rhs, r)
    canon = {"<=": "LE", "<": "LE", "L": "LE", "LE": "LE", ">=": "GE", ">": "GE", "G": "GE", "GE": "GE",
             "==": "EQ", "=": "EQ", "E": "EQ", "EQ": "EQ"}[sense]
    ctx.check("sense", con.sense.name == canon)
    ctx.check("name", con.name == "k")
    r2 = ctx.real("r2")
    con.rhs = r2
    ctx.eq("rhs set", con.rhs, r2)
    con.linear = {NAMES[0]: r2}
    want3 = r2 * x[0]
    if quad:
        want3 = want3 + quad_val(q, x)
    ctx.eq("linear set", con.evaluate(x), want3)
    if quad:
        con.quadratic = {(0, n - 1): r}
        ctx.eq("quadratic set", con.evaluate(x), r2 * x[0] + r * x[0] * x[n - 1])
    ctx.cover("done")


def units(tier):
    from . import edits
    us = []
    lf = ["list", "array", "dok", "csr", "dict_idx", "dict_name", "dict_mixed", "dict_partial"]
    qf = ["list", "array", "dok", "csr", "dict_idx", "dict_name", "dict_mixed"]
    for fmt in lf:
        for kind in ("f", "i"):
            for n in ([3] if tier == "quick" else [1, 2, 3, 4]):
                us.append(unit("linear/%s/%s/n%d" % (fmt, kind, n), linear, n=n, fmt=fmt, kind=kind,
                               must_cover=("done",)))
    for fmt in qf:
        for kind in ("f", "i"):
            us.append(unit("quadratic/%s/%s/n2" % (fmt, kind), quadratic, n=2, fmt=fmt, kind=kind,
                           must_cover=("done",)))
            for n in ([3] if tier == "quick" else [1, 3, 4]):
                us.append(unit("quadratic/%s/%s/n%d/nz" % (fmt, kind, n), quadratic, n=n, fmt=fmt,
                               kind=kind, nz=True, must_cover=("done",)))
    for fmt in lf:  # more than ten variables: two-digit positions
        us.append(unit("linear/wide/%s" % fmt, linear, n=12, fmt=fmt, kind="f", at=(2, 9, 10, 11), must_cover=("done",)))
    for fmt in qf:
        us.append(unit("quadratic/wide/%s" % fmt, quadratic, n=12, fmt=fmt, kind="f", at=[(2, 10), (11, 2), (10, 9), (11, 11)],
                       must_cover=("done",)))
    for s in ("min", "max"):
        us.append(unit("objective/%s/wide" % s, objective, n=12, sense=s, at=(2, 10, 11), must_cover=("done",)))
        us.append(unit("objective/%s/n2" % s, objective, n=2, sense=s, must_cover=("done",)))
        if tier != "quick":
            us.append(unit("objective/%s/n3" % s, objective, n=3, sense=s, must_cover=("done",)))
    for q in (False, True):
        for s in ("<=", "<", "L", "LE", ">=", ">", "G", "GE", "==", "=", "E", "EQ"):
            us.append(unit("constraint/%s/%s" % ("quad" if q else "lin", s), constraint, n=2, quad=q,
                           sense=s, must_cover=("done",)))
    us += edits.units("value", ("bi|l<=q>=", "bc|l==", "bb|"), edits.ALL)
    return us
