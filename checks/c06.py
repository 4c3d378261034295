"""C06: replacing inequalities by equalities with slack variables keeps the problem equivalent."""
from .common import bounds_ok, con_val, cons_ok, nparr, obj_val, unit

BOUNDS = ("2 variables of every type combination, 1 or 2 constraints (and 12 variables, up to 12 constraints) (linear and quadratic, every sense), modes "
          "auto/integer/continuous; right-hand sides, coefficients (small integers or reals) and points are "
          "symbolic, bounds are symbolic in the 'bounds' units; equivalence is decided for all points"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = ("integer variables with fractional bounds; mode "
           "'integer' on constraints with continuous variables (the user forces it); more variables")
NAMES = ["x", "y", "z"] + ["v%d" % i for i in range(3, 12)]


def isint(ctx, v):
    if isinstance(v, int):
        return True
    return v.is_integer()


def integral(ctx, qp, x):
    return ctx.And(*[isint(ctx, v) for v, var in zip(x, qp.variables)
                     if var.vartype.name in ("INTEGER", "BINARY")])


def conv(ctx, kinds, cons, mode, coef, sense="min", box=((0, 3), (-2, 2), (1, 2)), symbounds=False, same=False,
         vnames=NAMES):
    """cons: list of (kind, sense, linear vars, quadratic pairs); coef: 'i' ints, 'f' reals, tuple=concrete"""
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
    from qiskit_optimization.converters import InequalityToEquality

    n = len(kinds)
    qp = QuadraticProgram("prog")
    x = []
    for i, k in enumerate(kinds):
        lo, hi = box[i % 3]
        if k == "b":
            qp.binary_var(vnames[i])
            x.append(ctx.bit("x%d" % i))
            continue
        if symbounds:
            mk = ctx.int if k == "i" else ctx.real
            lo, hi = mk("lo%d" % i, -8, 8), mk("hi%d" % i, -8, 8)
            ctx.assume(lo <= hi)
        (qp.integer_var if k == "i" else qp.continuous_var)(lo, hi, vnames[i])
        x.append(ctx.int("x%d" % i, -8, 8) if k == "i" else ctx.real("x%d" % i, -8, 8))
    cnt = [0]

    def co():
        cnt[0] += 1
        if isinstance(coef, tuple):
            return coef[(cnt[0] - 1) % len(coef)]
        c = ctx.int("c%d" % cnt[0], -4, 4) if coef == "i" else ctx.real("c%d" % cnt[0], -4, 4)
        ctx.assume(c != 0)
        return c

    (qp.minimize if sense == "min" else qp.maximize)(
        ctx.real("k"), {0: ctx.real("l0")}, {(0, n - 1): ctx.real("q0")})
    for m, (ck, s, lv, qv) in enumerate(cons):
        r = ctx.real("r%d" % m, -30, 30) if len(cons) < 9 or m in (2, 10) else {"<=": 2, ">=": -1, "==": 0}[s]
        if ck == "l":
            qp.linear_constraint({i: co() for i in lv}, s, r, "k" if same else "k%d" % m)
        else:
            qp.quadratic_constraint({i: co() for i in lv}, {p: co() for p in qv}, s, r, "k" if same else "k%d" % m)
    con = InequalityToEquality(mode)
    ineq = any(c[1] != "==" for c in cons)
    try:
        dst = con.convert(qp)
    except QiskitOptimizationError:
        ctx.check("refused only in integer mode", mode == "integer" and ineq)
        ctx.check("refused only for fractional coefficients", coef == "f" or isinstance(coef, tuple) and any(
            c != int(c) for c in coef))
        ctx.cover("refused")
        return
    ctx.check("only equalities", all(c.sense.name == "EQ" for c in list(dst.linear_constraints) +
                                     list(dst.quadratic_constraints)))
    ctx.check("original variables first", [v.as_tuple()[0] for v in dst.variables[:n]] == list(vnames[:n]) and all(
        a.vartype == b.vartype for a, b in zip(qp.variables, dst.variables)))
    ctx.check("constraint names kept",
              [c.name for c in dst.linear_constraints] == [c.name for c in qp.linear_constraints] and
              [c.name for c in dst.quadratic_constraints] == [c.name for c in qp.quadratic_constraints])
    ctx.check("sense", dst.objective.sense == qp.objective.sense)
    ctx.check("name of the program", dst.name == qp.name)
    for a, b in zip(qp.variables, dst.variables):
        ctx.eq("bounds kept", b.lowerbound, a.lowerbound)
        ctx.eq("bounds kept", b.upperbound, a.upperbound)
    N = dst.get_num_vars()
    if mode == "continuous":
        ctx.check("continuous slacks", all(v.vartype.name == "CONTINUOUS" for v in dst.variables[n:]))
    if mode == "integer":
        ctx.check("integer slacks", all(v.vartype.name == "INTEGER" for v in dst.variables[n:]))
    dcons = list(dst.linear_constraints) + list(dst.quadratic_constraints)
    # forward: every feasible point extends to a feasible point of the new problem
    slack = {}
    for c in dcons:
        arr = c.linear.to_array()
        for k in range(n, N):
            if not ctx.symbolic and arr[k] == 0 or isinstance(arr[k], (int, float)) and arr[k] == 0:
                continue
            full = list(x) + [0] * (N - n)
            slack[k] = (c.rhs - con_val(c, full, N)) / arr[k]
    ctx.check("each slack is used", set(slack) == set(range(n, N)))
    full = list(x) + [slack[k] for k in range(n, N)]
    src_ok = ctx.And(integral(ctx, qp, x), bounds_ok(ctx, qp, x), cons_ok(ctx, qp, x))
    dst_ok = ctx.And(integral(ctx, dst, full), bounds_ok(ctx, dst, full), cons_ok(ctx, dst, full))
    ctx.check("feasible points extend", ctx.Implies(src_ok, dst_ok))
    # backward: every feasible point of the new problem maps to a feasible point
    s = [ctx.real("s%d" % k) for k in range(n, N)]
    for v, var in zip(s, dst.variables[n:]):
        if var.vartype.name == "INTEGER":
            ctx.assume(isint(ctx, v))
    full2 = list(x) + s
    back = con.interpret(nparr(ctx, full2))
    ctx.check("interpret length", len(back) == n)
    for i in range(n):
        ctx.eq("interpret", back[i], x[i])
    ctx.check("feasible points map back", ctx.Implies(
        ctx.And(integral(ctx, dst, full2), bounds_ok(ctx, dst, full2), cons_ok(ctx, dst, full2)), src_ok))
    ctx.eq("objective", dst.objective.evaluate(nparr(ctx, full2)), obj_val(qp, x))
    if N > n:
        ctx.cover("slack")
    else:
        ctx.cover("noslack")


def units(tier):
    from . import edits
    us = []

    def add(nm, **kw):
        us.append(unit(nm, conv, **kw))

    S = ("<=", ">=", "==")
    for s in S:
        for mode in ("auto", "integer", "continuous"):
            add("qlin/%s/%s" % (s, mode), kinds="bi", cons=[("q", s, (0, 1), ())], mode=mode, coef="i")
            add("qlinf/%s/%s" % (s, mode), kinds="ii", cons=[("q", s, (1,), ())], mode=mode, coef=(0.5,))
            add("none/%s/%s" % (s, mode), kinds="bi", cons=[("l", s, (), ())], mode=mode, coef="i")
            add("qnone/%s/%s" % (s, mode), kinds="ib", cons=[("q", s, (), ())], mode=mode, coef="i")
            add("qsq/%s/%s" % (s, mode), kinds="ib", cons=[("q", s, (), ((0, 0),))], mode=mode, coef="i")
        for mode in ("auto", "integer", "continuous"):
            add("lin/%s/%s/ints" % (s, mode), kinds="bi", cons=[("l", s, (0, 1), ())], mode=mode, coef="i")
            add("lin/%s/%s/reals" % (s, mode), kinds="bi", cons=[("l", s, (0, 1), ())], mode=mode, coef="f",
                sense="max")
            add("quad/%s/%s/ints" % (s, mode), kinds="bi", cons=[("q", s, (0,), ((0, 1),))], mode=mode,
                coef="i")
            add("quad/%s/%s/conc" % (s, mode), kinds="ii", cons=[("q", s, (0,), ((0, 1), (1, 1)))],
                mode=mode, coef=(2, -3, 1))
            add("quad/%s/%s/conc2" % (s, mode), kinds="bi", cons=[("q", s, (1,), ((0, 1),))],
                mode=mode, coef=(-1, 2))
            add("bounds/lin/%s/%s" % (s, mode), kinds="ii", cons=[("l", s, (0, 1), ())], mode=mode,
                coef=(2, -3), symbounds=True)
            add("both/%s/%s" % (s, mode), kinds="ib", cons=[("l", s, (0, 1), ()), ("l", "<=", (0,), ()),
                                                           ("q", ">=", (1,), ((0, 1),))], mode=mode,
                coef=(1, 2, -1, 3, -2))
        for mode in ("auto", "continuous"):
            add("cont/lin/%s/%s" % (s, mode), kinds="cb", cons=[("l", s, (0, 1), ())], mode=mode, coef="i")
            add("cont/linf/%s/%s" % (s, mode), kinds="cc", cons=[("l", s, (0, 1), ())], mode=mode, coef="f")
            add("cont/quad/%s/%s" % (s, mode), kinds="ci", cons=[("q", s, (1,), ((0, 1),))], mode=mode,
                coef=(2, 1))
            add("cont/quadonly/%s/%s" % (s, mode), kinds="ci", cons=[("q", s, (), ((0, 1),))], mode=mode,
                coef=(1,))
            add("bounds/contlin/%s/%s" % (s, mode), kinds="ci", cons=[("l", s, (0, 1), ())], mode=mode,
                coef=(0.5, -3), symbounds=True)
            add("bounds/quad/%s/%s" % (s, mode), kinds="cc", cons=[("q", s, (0,), ((0, 1),))], mode=mode,
                coef=(1.5, -2), symbounds=True)
    for mode in ("auto", "integer", "continuous"):  # more than ten variables and constraints: two-digit positions
        add("wide/vars/%s" % mode, kinds="b" * 9 + "ibi", cons=[("l", "<=", (2, 9, 10, 11), ()), ("q", ">=", (10,), ((2, 11),))],
            mode=mode, coef=(1, 2, -1, 3, 2, -2), cost=5)
        add("wide/cons/%s" % mode, kinds="b" * 9 + "ibi", cons=[("l", ("<=", ">=", "==")[m % 3], (m,), ()) for m in range(12)],
            mode=mode, coef=(1, 2, -1), cost=5)
        add("samename/%s" % mode, kinds="ib", cons=[("l", "<=", (0, 1), ()), ("q", ">=", (1,), ((0, 1),))], mode=mode,
            coef=(1, 2, -1), same=True)
        add("taken/%s" % mode, kinds="ib", cons=[("l", ">=", (0, 1), ())], mode=mode, coef=(1, 2),
            vnames=("k0@int_slack", "k0@continuous_slack"))
    if tier != "quick":
        for s in S:
            for t in S:
                for mode in ("auto", "continuous", "integer"):
                    add("deep/%s%s/%s" % (s, t, mode), kinds="ibi",
                        cons=[("l", s, (0, 1, 2), ()), ("l", t, (0, 2), ()), ("q", t, (1,), ((0, 1), (2, 2)))],
                        mode=mode, coef=(1, 2, -1, 3, -2))
    us += edits.units("conv ineq", ("bi|l<=", "bc|l>=q<="), edits.ALL)
    return us
