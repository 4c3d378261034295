"""C09: the QUBO of a problem has the same optima as the problem."""
import itertools

from .common import bounds_ok, cons_ok, nparr, obj_val, unit

BOUNDS = ("2-3 binary/integer variables (integer lower bounds symbolic, ranges 1..3), 0-2 linear constraints of every "
          "sense with integer coefficients in [-3,3] (fixed rows) and symbolic right-hand sides, arbitrary real "
          "objectives of both senses, automatic and user-given penalty; all bit assignments of at most 7 bits"
          "; programs of 12 variables at selected assignments; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = "larger problems; fractional equality data with the automatic penalty (a documented heuristic constant)"
NAMES = ["x", "y", "z"]


def qubo(ctx, kinds, ranges, cons, quadp, sense, penalty="auto", symrhs=True, reuse=False, sparse=False):
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.converters import QuadraticProgramToQubo

    n = len(kinds)
    qp = QuadraticProgram("prog")
    for i, k in enumerate(kinds):
        if k == "b":
            qp.binary_var(NAMES[i])
        else:
            lb = ctx.int("lb%d" % i, -2, 2) if ranges[i][0] is None else ranges[i][0]
            qp.integer_var(lb, lb + ranges[i][1], NAMES[i])

    def co(nm):
        c = ctx.real(nm, -50, 50)
        if not sparse:
            ctx.assume(c != 0)
        return c

    (qp.minimize if sense == "min" else qp.maximize)(
        ctx.real("k"), {i: co("l%d" % i) for i in range(n)}, {p: co("q%d%d" % p) for p in quadp})
    for m, (row, s, r) in enumerate(cons):
        if r is None:
            # any real right-hand side for inequalities, integers for equalities
            r = ctx.int("r%d" % m, -4, 4) if s == "==" else ctx.real("r%d" % m, -4, 4)
            if not symrhs:
                r = int(r)
        qp.linear_constraint(dict(row), s, r, "k%d" % m)
    p = None
    if penalty == "sym":
        p = ctx.real("p", 0, 1000)
    conv = QuadraticProgramToQubo(penalty=p)
    if reuse:
        other = QuadraticProgram()
        other.integer_var(-1, 2, "x")
        other.minimize(linear=[1])
        other.linear_constraint([1], "<=", 1)
        conv.convert(other)
    ctx.check("compatible", bool(conv.is_compatible(qp)))
    dst = conv.convert(qp)
    N = dst.get_num_vars()
    ctx.check("qubo", dst.get_num_binary_vars() == N and dst.get_num_linear_constraints() == 0 and
              dst.get_num_quadratic_constraints() == 0)
    ctx.check("sense", dst.objective.sense == qp.objective.sense)
    if N > 7:
        raise AssertionError("harness: too many bits")
    sg = 1 if sense == "min" else -1
    # any bit assignment
    b = [ctx.bit("b%d" % i) for i in range(N)]
    xb = conv.interpret(nparr(ctx, b))
    ctx.check("length", len(xb) == n)
    fb = dst.objective.evaluate(nparr(ctx, b))
    ob = obj_val(qp, xb)
    okb = cons_ok(ctx, qp, xb)
    ctx.check("interpreted point is within bounds", bounds_ok(ctx, qp, xb))
    ctx.check("never better than the objective", (fb - ob) * sg >= 0 if ctx.symbolic else
              (fb - ob) * sg >= -1e-6 * (1 + abs(ob) + abs(fb)))
    # any feasible point of the problem
    xf = [ctx.bit("f%d" % i) if k == "b" else ctx.int("f%d" % i, -8, 8) for i, k in enumerate(kinds)]
    okf = ctx.And(bounds_ok(ctx, qp, xf), cons_ok(ctx, qp, xf))
    ctx.assume(okf)
    of = obj_val(qp, xf)
    same = []
    for bits in itertools.product([0, 1], repeat=N):
        y = conv.interpret(nparr(ctx, list(bits)))
        v = dst.objective.evaluate(nparr(ctx, list(bits)))
        same.append(ctx.And(*([y[i] == xf[i] for i in range(n)] + [ctx.close(v, of)])))
    ctx.check("every feasible point is represented with its exact value", ctx.Or(*same))
    if penalty == "auto":
        ctx.check("infeasible assignments are worse than every feasible point",
                  ctx.Or(okb, (fb - of) * sg > 0))
    else:
        ctx.eq("penalty", conv.penalty, p)
    ctx.cover("done")


def wide(ctx, sense, s, at):
    """12 variables, two-digit positions; the assignments are arbitrary at the positions `at`."""
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.converters import QuadraticProgramToQubo

    n = 12
    qp = QuadraticProgram("prog")
    for i in range(n):
        if i == 10:
            qp.integer_var(-1, 2, "v10")
        else:
            qp.binary_var("v%d" % i)
    lin = {i: float((5 * i) % 7 - 3) for i in range(n)}
    quad = {(i, i + 1): float(i % 3 - 1) for i in range(n - 1)}
    quad[0, 11] = 2.0
    lin[11], quad[1, 10], quad[9, 11] = ctx.real("l11", -50, 50), ctx.real("q", -50, 50), ctx.real("p", -50, 50)
    (qp.minimize if sense == "min" else qp.maximize)(ctx.real("k"), lin, quad)
    row = {i: (1 + i % 2) * (-1 if s == ">=" else 1) for i in range(n)}
    qp.linear_constraint(row, s, {"<=": 6, ">=": -6, "==": 6}[s], "k")
    qp.linear_constraint({"v1": 1, "v11": -1}, "==", 0, "e")
    conv = QuadraticProgramToQubo()
    dst = conv.convert(qp)
    N = dst.get_num_vars()
    names = [v.name for v in dst.variables]
    ctx.check("qubo", dst.get_num_binary_vars() == N and dst.get_num_linear_constraints() == 0 and
              dst.get_num_quadratic_constraints() == 0 and dst.objective.sense == qp.objective.sense)
    sg = 1 if sense == "min" else -1
    fixed = {"v%d" % i: (len(str(i)) + i) % 2 for i in range(n)}
    b = [ctx.bit("b%d" % i) if m in at or m not in fixed else fixed[m] for i, m in enumerate(names)]
    xb = conv.interpret(nparr(ctx, b))
    ctx.check("length", len(xb) == n)
    fb = dst.objective.evaluate(nparr(ctx, b))
    ob = obj_val(qp, xb)
    okb = cons_ok(ctx, qp, xb)
    ctx.check("interpreted point is within bounds", bounds_ok(ctx, qp, xb))
    ctx.check("never better than the objective", (fb - ob) * sg >= 0 if ctx.symbolic else
              (fb - ob) * sg >= -1e-6 * (1 + abs(ob) + abs(fb)))
    xf = [1 if i == 10 else ctx.bit("f%d" % i) if "v%d" % i in at else fixed["v%d" % i]
          for i in range(n)]
    ctx.assume(ctx.And(bounds_ok(ctx, qp, xf), cons_ok(ctx, qp, xf)))
    of = obj_val(qp, xf)
    ctx.check("infeasible assignments are worse than every feasible point", ctx.Or(okb, (fb - of) * sg > 0))
    # every feasible point has an assignment with its value: any choice of the bits of slack and integer
    extra = [i for i, m in enumerate(names) if m not in {v.name for v in qp.variables}]
    same = []
    for bits in itertools.product([0, 1], repeat=len(extra)):
        y = [xf[int(m[1:])] if i not in extra else bits[extra.index(i)] for i, m in enumerate(names)]
        z = conv.interpret(nparr(ctx, y))
        v = dst.objective.evaluate(nparr(ctx, y))
        same.append(ctx.And(*([z[i] == xf[i] for i in range(n)] + [ctx.close(v, of)])))
    ctx.check("every feasible point is represented with its exact value", ctx.Or(*same))
    ctx.cover("done")


def compat(ctx, case):
    """problems that cannot become a QUBO are refused, not silently changed."""
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
    from qiskit_optimization.converters import QuadraticProgramToQubo

    qp = QuadraticProgram()
    qp.binary_var("x")
    qp.integer_var(0, 3, "y")
    a = ctx.real("a", -5, 5)
    good = True
    if case == "continuous":
        qp.continuous_var(0, 1, "c")
        good = False
    qp.minimize(linear={"x": a})
    if case == "quadcon":
        qp.quadratic_constraint(linear={"x": 1}, quadratic={("x", "y"): 1}, sense="<=", rhs=a)
        good = False
    if case == "fracle":
        qp.linear_constraint({"x": a, "y": 1}, "<=", 2)
        good = a.is_integer()
    if case == "fracge":
        qp.linear_constraint({"x": 1, "y": a}, ">=", 2)
        good = a.is_integer()
    conv = QuadraticProgramToQubo()
    try:
        conv.convert(qp)
        ctx.check("accepted only if convertible", good)
        ctx.check("is_compatible agrees", bool(conv.is_compatible(qp)))
        ctx.cover("accepted")
    except QiskitOptimizationError:
        ctx.check("refused only if not convertible", ctx.Not(good) if not isinstance(good, bool) else not good)
        ctx.check("is_compatible agrees", not conv.is_compatible(qp))
        ctx.cover("refused")


def units(tier):
    from . import edits
    us = []

    def add(nm, cost=1, **kw):
        us.append(unit(nm, qubo, must_cover=("done",), cost=cost, **kw))

    S = ("<=", ">=", "==")
    for sense in ("min", "max"):
        add("plain/%s" % sense, kinds="bb", ranges=[0, 0], cons=[], quadp=[(0, 1)], sense=sense)
        add("sparse/%s" % sense, kinds="bb", ranges=[0, 0], cons=[(((0, 1), (1, 1)), "<=", 1)],
            quadp=[(0, 0), (0, 1), (1, 1)], sense=sense, sparse=True, cost=5)
        add("int/%s" % sense, kinds="ib", ranges=[(None, 3), 0], cons=[], quadp=[(0, 1), (0, 0)], sense=sense)
        for s in S:
            add("bb/%s/%s" % (s, sense), kinds="bb", ranges=[0, 0], cons=[(((0, 1), (1, 2)), s, None)],
                quadp=[(0, 1)], sense=sense, cost=3)
            add("bbb/%s/%s" % (s, sense), kinds="bbb", ranges=[0, 0, 0],
                cons=[(((0, 2), (1, -1), (2, 1)), s, {"<=": 1.5, ">=": 0.5, "==": 1}[s])],
                quadp=[(0, 2), (0, 1)], sense=sense, cost=2)
            add("ib/%s/%s" % (s, sense), kinds="ib", ranges=[(-1, 2), 0],
                cons=[(((0, 1), (1, -2)), s, {"<=": -0.5, ">=": -1, "==": 0}[s])], quadp=[(0, 1)], sense=sense,
                cost=3)
            add("lb/%s/%s" % (s, sense), kinds="ib", ranges=[(None, 2), 0],
                cons=[(((0, 1), (1, 1)), s, 1)], quadp=[(0, 0)], sense=sense, cost=3)
        add("two/%s" % sense, kinds="bb", ranges=[0, 0],
            cons=[(((0, 1), (1, 1)), "<=", 1), (((0, 1), (1, -1)), ">=", 0)], quadp=[(0, 1)], sense=sense, cost=4)
        add("neg/%s" % sense, kinds="bb", ranges=[0, 0], cons=[(((0, -3), (1, -1)), ">=", -2)],
            quadp=[(0, 1)], sense=sense, cost=2)
        add("penalty/%s" % sense, kinds="bb", ranges=[0, 0], cons=[(((0, 1), (1, 1)), "<=", 1)],
            quadp=[(0, 1)], sense=sense, penalty="sym")
        add("reuse/%s" % sense, kinds="bb", ranges=[0, 0], cons=[(((0, 1), (1, 1)), "==", 1)],
            quadp=[(0, 1)], sense=sense, reuse=True)
        if tier != "quick":
            for s in S:
                for t in S:
                    add("deep/%s%s/%s" % (s, t, sense), kinds="bib", ranges=[0, (-1, 2), 0],
                        cons=[(((0, 1), (1, 2)), s, 1), (((1, 1), (2, 1)), t, 1)], quadp=[(0, 1), (1, 2)],
                        sense=sense, cost=9)
    for c in ("ok", "continuous", "quadcon", "fracle", "fracge"):
        us.append(unit("compat/%s" % c, compat, case=c))
    for s in S:
        for sense in ("min", "max") if s == "<=" or tier != "quick" else ("min",):
            us.append(unit("wide/%s/%s" % (s, sense), wide, sense=sense, s=s,
                           at=("v0", "v1", "v11"), must_cover=("done",), cost=8))
    us += edits.units("conv qubo", ("bi|l<=", "bb|"), edits.LIN)
    return us
