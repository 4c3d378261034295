"""C03: the feasibility verdict and the reported violations are exact."""
from .common import lin_val, nparr, quad_val, unit

BOUNDS = ("2 variables (3 thorough) of every type (and 12 continuous ones with 12 constraints), 2 constraints of every kind and sense; arbitrary real "
          "coefficients, bounds, right-hand sides and points (|v|<=1000), infinite bounds included"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = ("points whose equality constraint residual is nonzero but below 1e-6*(1+|lhs|+|rhs|) (either verdict is "
           "accepted there); integrality of the point (the library reports bounds and constraints only)")
ASSUMPTIONS = ["for equality constraints, both verdicts are accepted for a nonzero residual below "
               "1e-6*(1+|lhs|+|rhs|)"]


def feas(ctx, kinds, cons, fmt, inf=None, one_name=False):
    from qiskit_optimization import INFINITY, QuadraticProgram

    qp = QuadraticProgram()
    n = len(kinds)
    lo, hi = [], []
    for i, k in enumerate(kinds):
        if k == "b":
            qp.binary_var("v%d" % i)
            lo.append(0)
            hi.append(1)
            continue
        mk = ctx.int if k == "i" else ctx.real
        a = mk("lb%d" % i) if inf not in ("lo", "both") else -INFINITY
        b = mk("ub%d" % i) if inf not in ("hi", "both") else INFINITY
        ctx.assume(a <= b)
        (qp.integer_var if k == "i" else qp.continuous_var)(a, b, "v%d" % i)
        lo.append(a)
        hi.append(b)
    x = [ctx.real("x%d" % i) for i in range(n)]
    want = []  # (name, kind, lhs, rhs)
    for m, (ck, s) in enumerate(cons):
        l = {i: ctx.real("l%d_%d" % (m, i), -50, 50) for i in range(n)}
        r = ctx.real("r%d" % m)
        lhs = lin_val(l, x)
        nm = "k" if one_name else "k%d" % m
        if ck == "l":
            qp.linear_constraint(l, s, r, nm)
        else:
            q = {(0, n - 1): ctx.real("q%d" % m, -50, 50), (0, 0): ctx.real("p%d" % m, -50, 50)}
            qp.quadratic_constraint(l, q, s, r, nm)
            lhs = lhs + quad_val(q, x)
        want.append((nm, ck, s, lhs, r))
    pt = list(x) if fmt == "list" else nparr(ctx, x) if fmt == "array" else tuple(x)
    if fmt == "tuple":
        pt = list(x)
    ok, vv, vc = qp.get_feasibility_info(pt)
    ctx.check("verdict agrees with the reports", bool(ok) == (not vv and not vc))
    names = [v.name for v in vv]
    ctx.check("variables reported once", len(set(names)) == len(names))
    ctx.check("variables belong to the program", all(v is qp.get_variable(v.name) for v in vv))
    for i in range(n):
        out = ctx.Or(x[i] < lo[i], x[i] > hi[i])
        ctx.check("bound report v%d" % i, ctx.Iff("v%d" % i in names, out))
    cn = [(c.name, "q" if hasattr(c, "quadratic") else "l") for c in vc]
    ctx.check("constraints reported once", len(set(cn)) == len(cn))
    for nm, ck, s, lhs, r in want:
        rep = (nm, ck) in cn
        if s == "<=":
            ctx.check("report LE", ctx.Iff(rep, lhs > r))
        elif s == ">=":
            ctx.check("report GE", ctx.Iff(rep, lhs < r))
        else:
            ctx.check("report EQ satisfied", ctx.Implies(lhs == r, not rep))
            d = lhs - r
            big = ctx.Or(d > 1e-6 * (1 + abs(lhs) + abs(r)), -d > 1e-6 * (1 + abs(lhs) + abs(r)))
            ctx.check("report EQ violated", ctx.Implies(big, rep))
    ctx.check("is_feasible", bool(qp.is_feasible(pt)) == bool(ok))
    ctx.cover("feasible" if ok else "infeasible")


def wide(ctx, s, ck):
    """more than ten variables and constraints: two-digit positions and names."""
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram()
    at, n = (2, 10, 11), 12
    x, lo = [], []
    for i in range(n):
        lo.append(ctx.real("lb%d" % i) if i in at else -i - 1)
        qp.continuous_var(lo[i], 2000, "v%d" % i)
        x.append(ctx.real("x%d" % i) if i in at else i)
    want = []
    for m in range(n):
        r = ctx.real("r%d" % m) if m in at else m + 1
        l = {i: ctx.real("l%d_%d" % (m, i), -50, 50) if m == 10 and ck == "l" else 1 + i for i in at} if m in at else {"v%d" % m: 1}
        lhs = lin_val(l, x) if m in at else m
        if ck == "l":
            qp.linear_constraint(l, s if m in at else "<=", r, "k%d" % m)
        else:
            q = {("v2", "v10"): 3, (11, 11): m - 9} if m in at else {}
            qp.quadratic_constraint(l, q, s if m in at else "<=", r, "k%d" % m)
            lhs = lhs + (3 * (x[2] * x[10]) + (m - 9) * (x[11] * x[11]) if m in at else 0)
        want.append((lhs, r))
    ok, vv, vc = qp.get_feasibility_info(list(x))
    ctx.check("verdict agrees with the reports", bool(ok) == (not vv and not vc))
    vn, cn = [v.name for v in vv], [c.name for c in vc]
    ctx.check("reported once", len(set(vn)) == len(vn) and len(set(cn)) == len(cn))
    for m in range(n):
        ctx.check("bound report", ctx.Iff("v%d" % m in vn, x[m] < lo[m]))
        lhs, r = want[m]
        rep = "k%d" % m in cn
        if m not in at:
            ctx.check("satisfied", not rep)
        elif s == "<=":
            ctx.check("report LE", ctx.Iff(rep, lhs > r))
        elif s == ">=":
            ctx.check("report GE", ctx.Iff(rep, lhs < r))
        else:
            ctx.check("report EQ satisfied", ctx.Implies(lhs == r, not rep))
            d, t = lhs - r, 1e-6 * (1 + abs(lhs) + abs(r))
            ctx.check("report EQ violated", ctx.Implies(ctx.Or(d > t, -d > t), rep))
    ctx.check("is_feasible", bool(qp.is_feasible(nparr(ctx, x))) == bool(ok))
    ctx.cover("feasible" if ok else "infeasible")


def sizes(ctx, n, m):
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram

    qp = QuadraticProgram()
    for i in range(n):
        qp.continuous_var(-5, 5, "v%d" % i)
    x = [ctx.real("x%d" % i, -5, 5) for i in range(m)]
    try:
        r = qp.is_feasible(x)
        ctx.check("a point of the wrong size is refused", n == m)
        ctx.check("in bounds", r)
    except QiskitOptimizationError:
        ctx.check("a point of the right size is accepted", n != m)
    ctx.cover("done")


def units(tier):
    from . import edits
    us = []
    S = ("<=", ">=", "==")
    for s in S:
        for ck in "lq":
            for k in "bic":
                us.append(unit("one/%s%s/%s" % (ck, s, k), feas, kinds=k + "c", cons=[(ck, s)], fmt="list",
                               must_cover=("feasible", "infeasible")))
    for s in S:
        for t in S:
            us.append(unit("two/l%s-q%s" % (s, t), feas, kinds="bc", cons=[("l", s), ("q", t)],
                           fmt="array", one_name=S.index(s) <= S.index(t), must_cover=("feasible", "infeasible")))
            us.append(unit("two/l%s-l%s" % (s, t), feas, kinds="ic", cons=[("l", s), ("l", t)],
                           fmt="list", must_cover=("feasible", "infeasible")))
    for s in S:
        for ck in "lq":
            us.append(unit("wide/%s%s" % (ck, s), wide, s=s, ck=ck, must_cover=("feasible", "infeasible"), cost=5))
    for inf in ("lo", "hi"):
        us.append(unit("inf/%s" % inf, feas, kinds="ci", cons=[("l", "<=")], fmt="array", inf=inf,
                       must_cover=("feasible", "infeasible")))
    us.append(unit("inf/both", feas, kinds="ci", cons=[("l", "<=")], fmt="array", inf="both",
                   must_cover=("feasible", "infeasible")))
    us.append(unit("none", feas, kinds="bic", cons=[], fmt="list", must_cover=("feasible", "infeasible")))
    for n in (1, 2):
        for m in (0, 1, 2, 3):
            us.append(unit("size/%d-%d" % (n, m), sizes, n=n, m=m, must_cover=("done",)))
    if tier != "quick":
        for s in S:
            for t in S:
                us.append(unit("three/l%s-q%s" % (s, t), feas, kinds="bic",
                               cons=[("l", s), ("q", t), ("l", t)], fmt="list"))
    us += edits.units("feas", ("bi|l<=q>=", "bc|l==", "bb|"), edits.ALL)
    return us
