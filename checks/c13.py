"""C13: any docplex model is read with its exact meaning, or refused."""
from .c12 import SENSE, dval
from .common import con_val, sat, unit

BOUNDS = ("docplex models with 3 variables (binary, integer, continuous; 12 in the wide units) whose objective and constraints are built from "
          "every combination of 14 left and right expression shapes (variables, constants, monomials, sums, products, "
          "squares, repeated and cancelling terms), with arbitrary real coefficients, constants, bounds and points; "
          "12 kinds of elements a quadratic program cannot express")
OUTSIDE = ("models mixing unnamed elements with elements that carry the automatic names (refused with an error); user "
           "cuts (redundant by definition); floating point rounding")


BIG = 10 ** 12


def exprs(ctx, m, x, y, z, tag):
    """expression shapes; coefficients are symbolic where docplex allows it."""
    a, b, c = (ctx.real("%s%s" % (tag, s), -100, 100) for s in "abc")
    for v in (a, b):
        ctx.assume(v != 0)
    return {
        "const": lambda: c,
        "var": lambda: x,
        "vary": lambda: y,
        "neg": lambda: -y,
        "mono": lambda: a * y,
        "lin": lambda: a * x + b * y + c,
        "linz": lambda: a * z - y + c,
        "cancel": lambda: a * x + y - a * x,
        "quad": lambda: a * (x * y) + b * z + c,
        "square": lambda: y * y,
        "sq": lambda: a * (z * z) + x,
        "dup": lambda: a * (x * y) + b * (y * x) + x + x,
        "poly": lambda: (x + y * 2 - 1) * (z + 3),
        "qmono": lambda: a * (y * z),
    }


def model(ctx, bounds):
    from docplex.mp.model import Model

    m = Model("mod")
    x = m.binary_var("x")
    if bounds:
        lo, hi = ctx.int("lo", -BIG, BIG), ctx.int("hi", -BIG, BIG)
        ctx.assume(lo <= hi)
        y = m.integer_var(lo, hi, "y")
        lo, hi = ctx.real("clo", -BIG, BIG), ctx.real("chi", -BIG, BIG)
        ctx.assume(lo <= hi)
        z = m.continuous_var(lo, hi, "z")
    else:
        y, z = m.integer_var(0, 9, "y"), m.continuous_var(name="z")
    return m, x, y, z


def compare(ctx, m, qp, vals, names="xyz"):
    val = dict(zip(names, vals))
    dv = list(m.iter_variables())
    ctx.check("variables", [v.name for v in qp.variables] == [v.name for v in dv])
    T = {"B": "BINARY", "I": "INTEGER", "C": "CONTINUOUS"}
    for v, w in zip(qp.variables, dv):
        ctx.check("variable type", v.vartype.name == T[w.vartype.cplex_typecode])
        ctx.eq("lower bound", v.lowerbound, w.lb)
        ctx.eq("upper bound", v.upperbound, w.ub)
    ctx.check("sense", (qp.objective.sense.name == "MINIMIZE") == bool(m.objective_sense.is_minimize()))
    ctx.eq("objective", qp.objective.evaluate(list(vals)), dval(m.objective_expr, val))
    dc = list(m.iter_constraints())
    cs = list(qp.linear_constraints) + list(qp.quadratic_constraints)
    ctx.check("number of constraints", len(cs) == len(dc))
    byname = {c.name: c for c in cs}
    for k, c in enumerate(dc):
        q = byname[c.name] if c.name else cs[k]
        ctx.check("constraint sense", SENSE[c.sense.name] == SENSE[q.sense.name])
        want = dval(c.get_left_expr(), val) - dval(c.get_right_expr(), val)
        got = con_val(q, vals, len(vals)) - q.rhs
        ctx.eq("residual", got, want)
        ctx.check("constraint", ctx.Iff(sat(ctx, SENSE[c.sense.name], want, 0), sat(ctx, SENSE[q.sense.name], got, 0)))


def objective(ctx, shape, sense, bounds):
    from qiskit_optimization import QuadraticProgram

    m, x, y, z = model(ctx, bounds)
    (m.minimize if sense == "min" else m.maximize)(exprs(ctx, m, x, y, z, "o")[shape]())
    vals = [ctx.real("v%d" % i, -100, 100) for i in range(3)]
    qp = QuadraticProgram()
    qp.from_docplex(m)
    compare(ctx, m, qp, vals)
    ctx.cover("done")


def constraint(ctx, left, right, op, named=True):
    from qiskit_optimization import QuadraticProgram

    m, x, y, z = model(ctx, False)
    l, r = exprs(ctx, m, x, y, z, "l")[left](), exprs(ctx, m, x, y, z, "r")[right]()
    ct = l <= r if op == "<=" else l >= r if op == ">=" else l == r
    m.add_constraint(ct, "con" if named else None)
    m.add_constraint(x + z <= 5, "other" if named else None)
    vals = [ctx.real("v%d" % i, -100, 100) for i in range(3)]
    qp = QuadraticProgram()
    qp.from_docplex(m)
    compare(ctx, m, qp, vals)
    ctx.cover("done")


def wide(ctx, named, sense):
    """more than ten variables and constraints: two-digit positions."""
    from docplex.mp.model import Model
    from qiskit_optimization import QuadraticProgram

    m = Model("mod")
    n = 12
    vs = [m.binary_var("v%d" % i) if i % 3 == 0 else m.integer_var(-i, i, "v%d" % i) if i % 3 == 1 else
          m.continuous_var(-i, 2 * i, "v%d" % i) for i in range(n)]
    a = [ctx.real("a%d" % i, -100, 100) for i in range(6)]
    for v in a[:4]:
        ctx.assume(v != 0)
    (m.minimize if sense == "min" else m.maximize)(a[0] * vs[2] + a[1] * vs[10] * vs[2] + vs[11] * vs[9] - vs[11] + a[4])
    for k in range(n):
        if k % 4 == 0:
            ct = vs[k] + 2 * vs[(k + 5) % n] <= vs[10] + (k if k != 8 else a[4])
        elif k % 4 == 1:
            ct = a[2] * vs[10] >= 3 * vs[k] + 1
        elif k % 4 == 2:
            ct = vs[k] * vs[11] + a[3] * vs[2] * vs[10] <= vs[9] + k
        else:
            ct = vs[11] * vs[11] + vs[k] == vs[9] * vs[10] + (k if k != 11 else a[5])
        m.add_constraint(ct, "k%d" % k if named else None)
    vals = [ctx.real("x%d" % i, -100, 100) for i in range(n)]
    qp = QuadraticProgram()
    qp.from_docplex(m)
    if named:
        ctx.check("names", sorted(c.name for c in list(qp.linear_constraints) + list(qp.quadratic_constraints)) ==
                  sorted("k%d" % k for k in range(n)))
        compare(ctx, m, qp, vals, [v.name for v in vs])
    else:
        # unnamed constraints: linear and quadratic ones keep their order
        names = {v.name: x for v, x in zip(vs, vals)}
        dc = list(m.iter_constraints())
        for part, cs in (("l", qp.linear_constraints), ("q", qp.quadratic_constraints)):
            ds = [c for c in dc if (type(c).__name__ == "LinearConstraint") == (part == "l")]
            ctx.check("number of constraints", len(ds) == len(cs))
            for c, q in zip(ds, cs):
                ctx.check("constraint sense", SENSE[c.sense.name] == SENSE[q.sense.name])
                ctx.eq("residual", con_val(q, vals, n) - q.rhs,
                       dval(c.get_left_expr(), names) - dval(c.get_right_expr(), names))
    ctx.cover("done")


def unsupported(ctx, case):
    from qiskit_optimization import QuadraticProgram

    m, x, y, z = model(ctx, False)
    a = ctx.real("a", -5, 5)
    m.minimize(x + a * y)
    if case == "range":
        m.add_range(1, x + y, 3)
    elif case == "indicator":
        m.add_indicator(x, y <= 1)
    elif case == "equivalence":
        m.add_equivalence(x, y <= 1)
    elif case == "ifthen":
        m.add(m.if_then(x == 1, y == 2))
    elif case == "sos":
        m.add_sos1([x, y])
    elif case == "neq":
        m.add_constraint(y != 1)
    elif case == "lazy":
        m.add_lazy_constraint(x + y <= 1)
    elif case == "multi":
        m.set_multi_objective("min", [x + 0, y + 0])
    elif case == "semicont":
        m.semicontinuous_var(1, 3, "s")
    elif case == "semiint":
        m.semiinteger_var(1, 3, "s")
    elif case == "abs":
        m.minimize(m.abs(y))
    elif case == "max":
        m.minimize(m.max(x, y))
    qp = QuadraticProgram()
    try:
        qp.from_docplex(m)
    except Exception:  # noqa
        ctx.cover("refused")
        return
    ctx.fail("an element that cannot be expressed is refused")


def fixedbin(ctx, lo, hi):
    from qiskit_optimization import QuadraticProgram

    m, x, y, z = model(ctx, False)
    x.lb, x.ub = lo, hi
    m.minimize(ctx.real("a") * x)
    qp = QuadraticProgram()
    qp.from_docplex(m)
    v = qp.get_variable("x")
    ctx.check("bounds of a binary variable", (v.lowerbound, v.upperbound) == (lo, hi))


SHAPES = ["const", "var", "vary", "neg", "mono", "lin", "linz", "cancel", "quad", "square", "sq", "dup", "poly", "qmono"]


def units(tier):
    us = []
    for s in SHAPES:
        us.append(unit("obj/%s/min" % s, objective, shape=s, sense="min", bounds=True, must_cover=("done",)))
        us.append(unit("obj/%s/max" % s, objective, shape=s, sense="max", bounds=False, must_cover=("done",)))
    ops = ("<=", ">=", "==")
    k = 0
    for l in SHAPES:
        for r in SHAPES:
            if l == "const" and r == "const":
                continue
            for o in (ops if tier != "quick" else (ops[k % 3],)):
                us.append(unit("con/%s%s%s" % (l, o, r), constraint, left=l, right=r, op=o, must_cover=("done",)))
            k += 1
    for o in ops:
        us.append(unit("unnamed/%s" % o, constraint, left="lin", right="quad", op=o, named=False))
        us.append(unit("unnamed2/%s" % o, constraint, left="lin", right="linz", op=o, named=False))
    for c in ("range", "indicator", "equivalence", "ifthen", "sos", "neq", "lazy", "multi", "semicont", "semiint",
              "abs", "max"):
        us.append(unit("unsupported/%s" % c, unsupported, case=c, must_cover=("refused",)))
    for s in ("min", "max"):
        for named in (True, False):
            us.append(unit("wide/%s/%s" % (s, named), wide, named=named, sense=s, must_cover=("done",), cost=5))
    for lo, hi in ((0, 0), (1, 1), (0, 1)):
        us.append(unit("binary/%d%d" % (lo, hi), fixedbin, lo=lo, hi=hi))
    return us
