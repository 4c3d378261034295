"""C08: penalised problems are the original objective plus penalty times squared residuals."""
from .common import all_bits, cons_ok, lin_val, nparr, obj_val, quad_val, unit

BOUNDS = ("up to 3 variables and 2 equality constraints (and 12 variables or 11 constraints), both objective senses; coefficients, right-hand sides, "
          "penalty and points are arbitrary reals for the exact identity; for the automatic penalty: 2-3 binary "
          "variables (any objective coefficients, integer constraint data in [-4,4])"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = ("the automatic penalty for fractional constraint data (a documented heuristic constant) or for "
           "non-binary variables; more variables")
NAMES = ["x", "y", "z"] + ["v%d" % i for i in range(3, 12)]


def _build(ctx, kinds, cons, sense, quadp, real=True, sparse=False, rows=None):
    from qiskit_optimization import QuadraticProgram

    n = len(kinds)
    qp = QuadraticProgram("prog")
    for i, k in enumerate(kinds):
        if k == "b":
            qp.binary_var(NAMES[i])
        else:
            (qp.integer_var if k == "i" else qp.continuous_var)(-8, 8, NAMES[i])
    (qp.minimize if sense == "min" else qp.maximize)(
        ctx.real("k"), {i: _nz(ctx, "l%d" % i, sparse) for i in range(n)},
        {p: _nz(ctx, "q%d%d" % p, sparse) for p in quadp})
    for m, vs in enumerate(cons):
        row = {}
        for i in vs:
            row[i] = (_nz if real else _nzi)(ctx, "a%d_%d" % (m, i), sparse)
        r = ctx.real("r%d" % m, -50, 50) if real else ctx.int("r%d" % m, -4, 4)
        qp.linear_constraint(row, "==", r, "k%d" % m)
        if rows is not None:
            rows.append((dict(row), r))
    return qp


def _nz(ctx, nm, sparse=False):
    c = ctx.real(nm, -50, 50)
    if not sparse:
        ctx.assume(c != 0)
    return c


def _nzi(ctx, nm, sparse=False):
    c = ctx.int(nm, -4, 4)
    if not sparse:
        ctx.assume(c != 0)
    return c


def identity(ctx, kinds, cons, sense, quadp, how, sparse=False, qcons=()):
    from qiskit_optimization.converters import LinearEqualityToPenalty

    n = len(kinds)
    qp = _build(ctx, kinds, cons, sense, quadp, sparse=sparse)
    qref = []
    for m, t in enumerate(qcons):
        lin, quad, r = ({0: ctx.real("dl%d" % m)} if m else {}), {(0, n - 1): ctx.real("dq%d" % m)}, ctx.real("dr%d" % m)
        qp.quadratic_constraint(dict(lin), dict(quad), t, r, "quad%d" % m)
        qref.append((t, lin, quad, r))
    p = ctx.real("p", 0, 500)
    if how == "init":
        conv = LinearEqualityToPenalty(penalty=p)
    else:
        conv = LinearEqualityToPenalty()
        conv.penalty = p
    dst = conv.convert(qp)
    ctx.check("no linear constraint remains", dst.get_num_linear_constraints() == 0)
    ctx.check("quadratic constraints are kept", [c.name for c in dst.quadratic_constraints] ==
              [c.name for c in qp.quadratic_constraints])
    ctx.check("variables kept", [v.as_tuple() for v in dst.variables] == [v.as_tuple() for v in qp.variables])
    ctx.check("sense", dst.objective.sense == qp.objective.sense)
    ctx.check("name of the program", dst.name == qp.name)
    x = [ctx.real("x%d" % i) for i in range(n)]
    for c, (t, lin, quad, r) in zip(dst.quadratic_constraints, qref):
        ctx.check("sense of a quadratic constraint", {"LE": "<=", "GE": ">=", "EQ": "=="}[c.sense.name] == t)
        ctx.eq("quadratic constraint", c.evaluate(list(x)) - c.rhs, lin_val(lin, x) + quad_val(quad, x) - r)
    pen = 0
    for c in qp.linear_constraints:
        a = c.linear.to_array()
        r = lin_val(dict(enumerate(a)), x) - c.rhs
        pen = pen + r * r
    want = obj_val(qp, x) + p * pen if sense == "min" else obj_val(qp, x) - p * pen
    ctx.eq("objective", dst.objective.evaluate(x), want)
    ctx.eq("penalty kept", conv.penalty, p)
    back = conv.interpret(nparr(ctx, x))
    for i in range(n):
        ctx.eq("interpret", back[i], x[i])
    # a second conversion with the same converter
    dst2 = conv.convert(qp)
    ctx.eq("objective again", dst2.objective.evaluate(x), want)
    try:
        conv.interpret(nparr(ctx, x + [0]))
        ctx.fail("interpret accepts a point of the wrong size")
    except Exception as ex:  # noqa
        ctx.check("error type", type(ex).__name__ == "QiskitOptimizationError")
    ctx.cover("done")


def auto(ctx, n, cons, sense, quadp, second=False, sparse=False):
    """the automatic penalty separates feasible from infeasible points (binary problems, integer data)."""
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.converters import LinearEqualityToPenalty

    rows = []
    qp = _build(ctx, "b" * n, cons, sense, quadp, real=False, sparse=sparse, rows=rows)
    conv = LinearEqualityToPenalty()
    if second:
        small = QuadraticProgram()
        small.binary_var("x")
        small.minimize(linear=[1])
        small.linear_constraint([1], "==", 1)
        conv.convert(small)
    dst = conv.convert(qp)
    bad = [ctx.bit("u%d" % i) for i in range(n)]
    good = [ctx.bit("v%d" % i) for i in range(n)]
    ctx.assume(cons_ok(ctx, qp, good))
    fb, fg = dst.objective.evaluate(bad), dst.objective.evaluate(good)
    ctx.eq("feasible points keep their value", fg, obj_val(qp, good))
    ctx.cover("done")
    # by lemma: the penalty exceeds every difference of values, and is paid once for every unit of violation
    sg = 1 if sense == "min" else -1
    p, ob, og = conv.penalty, obj_val(qp, bad), obj_val(qp, good)
    res = [lin_val(row, bad) - r for row, r in rows]
    if ctx.symbolic and bool(ctx.And(sg * (og - ob) < p, p >= 0)):
        if bool(fb == ob + sg * p * sum(r * r for r in res)):
            assert all(getattr(r, "kind", "i") == "i" for r in res)
            return  # the residuals are integers: an infeasible point pays at least the penalty once
    worse = fb > fg if sense == "min" else fb < fg
    ctx.check("infeasible points are strictly worse than every feasible one",
              ctx.Or(cons_ok(ctx, qp, bad), worse))


def refuse(ctx, sense):
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
    from qiskit_optimization.converters import LinearEqualityToPenalty

    qp = QuadraticProgram()
    qp.binary_var("x")
    qp.minimize(linear=[1])
    qp.linear_constraint([ctx.real("a")], "==", ctx.real("r"))
    qp.linear_constraint([ctx.real("b")], sense, ctx.real("s"))
    try:
        LinearEqualityToPenalty(ctx.real("p")).convert(qp)
        ctx.check("inequalities are refused", sense == "==")
    except QiskitOptimizationError:
        ctx.check("equalities are accepted", sense != "==")
    ctx.cover("done")


def units(tier):
    from . import edits
    us = []
    n2 = [(0, 0), (0, 1)]
    for s in ("min", "max"):
        for how in ("init", "set"):
            us.append(unit("identity/bb/%s/%s" % (s, how), identity, kinds="bb", cons=[(0, 1)], sense=s,
                           quadp=n2, how=how, must_cover=("done",)))
        us.append(unit("identity/none/%s" % s, identity, kinds="bc", cons=[], sense=s, quadp=n2, how="init"))
        us.append(unit("identity/two/%s" % s, identity, kinds="ic", cons=[(0, 1), (1,)], sense=s, quadp=n2,
                       how="init", must_cover=("done",)))
        us.append(unit("identity/three/%s" % s, identity, kinds="bic", cons=[(0, 1, 2), (2, 0)], sense=s,
                       quadp=[(0, 2), (1, 1), (1, 2)], how="set", must_cover=("done",)))
        us.append(unit("identity/noquad/%s" % s, identity, kinds="bb", cons=[(1, 0)], sense=s,
                       quadp=[], how="set", must_cover=("done",)))
        for q in ("<=", ">=", "=="):
            us.append(unit("identity/qcon/%s/%s" % (s, q), identity, kinds="bc", cons=[(0, 1)], sense=s, quadp=n2, how="init",
                           qcons=(q, "<=") if q != "<=" else (">=", "<="), must_cover=("done",)))
        for k in ("bb", "ci"):
            us.append(unit("identity/sparse/%s/%s" % (k, s), identity, kinds=k, cons=[(0, 1)], sense=s,
                           quadp=[(0, 0), (0, 1)], how="init", sparse=True, must_cover=("done",)))
        us.append(unit("auto/sparse/%s" % s, auto, n=2, cons=[(0, 1)], sense=s, quadp=[(0, 0), (0, 1), (1, 1)],
                       sparse=True, must_cover=("done",), cost=5))
        us.append(unit("auto/n2/%s" % s, auto, n=2, cons=[(0, 1)], sense=s, quadp=n2, must_cover=("done",)))
        us.append(unit("auto/n2two/%s" % s, auto, n=2, cons=[(0, 1), (1,)], sense=s, quadp=[(0, 1)],
                       must_cover=("done",)))
        us.append(unit("auto/n3/%s" % s, auto, n=3, cons=[(0, 1, 2)], sense=s, quadp=[(0, 1), (1, 2)],
                       must_cover=("done",)))
        us.append(unit("auto/second/%s" % s, auto, n=2, cons=[(0, 1)], sense=s, quadp=n2, second=True,
                       must_cover=("done",)))
        us.append(unit("identity/wide/%s" % s, identity, kinds="b" * 9 + "ibi", cons=[(2, 10), (9, 10, 11)], sense=s,
                       quadp=[(2, 10), (9, 11), (10, 11)], how="set", must_cover=("done",), cost=5))
        us.append(unit("identity/manycons/%s" % s, identity, kinds="bib", cons=[(m % 3, (m + 1) % 3) for m in range(11)], sense=s,
                       quadp=n2, how="init", must_cover=("done",), cost=5))
        if tier != "quick":
            us.append(unit("auto/n3two/%s" % s, auto, n=3, cons=[(0, 1, 2), (0, 2)], sense=s,
                           quadp=[(0, 1), (1, 2), (0, 2)], must_cover=("done",)))
            us.append(unit("auto/n4/%s" % s, auto, n=3, cons=[(0, 1, 2), (0, 1), (1, 2)], sense=s,
                           quadp=[(0, 1), (1, 2), (0, 2), (1, 1)], must_cover=("done",)))
    for s in ("<=", ">=", "=="):
        us.append(unit("refuse/%s" % s, refuse, sense=s, must_cover=("done",)))
    us += edits.units("conv pen", ("bb|l==", "bi|"), edits.LIN)
    us += edits.units("conv autopen", ("bb|l==",), edits.LIN)
    return us
