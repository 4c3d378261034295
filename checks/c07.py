"""C07: the binary encoding of integer variables covers exactly their range and preserves the problem."""
import itertools

from .common import con_val, cons_ok, nparr, obj_val, sat, unit

BOUNDS = ("integer variables with an arbitrary symbolic lower bound and every range 0..9 (0..40 thorough), 1 to 3 "
          "variables mixed with binary and continuous ones; linear, square and product terms with arbitrary real "
          "coefficients in objective and constraints; all bit assignments"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = "integer variables with fractional or infinite bounds; ranges above the bound"
NAMES = ["x", "y", "z"] + ["v%d" % i for i in range(3, 12)]


def encode(ctx, lo_max, hi_range):
    """range coverage of a single variable."""
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.converters import IntegerToBinary

    lb = ctx.int("lb", -lo_max, lo_max)
    r = ctx.int("r", 0, hi_range)
    qp = QuadraticProgram()
    qp.integer_var(lb, lb + r, "x")
    qp.minimize(linear=[1])
    conv = IntegerToBinary()
    dst = conv.convert(qp)
    m = dst.get_num_vars()
    ctx.check("only binary variables", dst.get_num_binary_vars() == m)
    v = ctx.int("v", -lo_max, lo_max + hi_range)
    vals = []
    for bits in itertools.product([0, 1], repeat=m):
        out = conv.interpret(nparr(ctx, list(bits)))
        ctx.check("length", len(out) == 1)
        vals.append(out[0])
    for o in vals:
        ctx.check("encoded value within bounds", ctx.And(o >= lb, o <= lb + r))
        ctx.check("encoded value is an integer", o == int(o) if not ctx.symbolic else
                  (True if isinstance(o, int) else o.is_integer()))
    ctx.check("every value of the range is encoded", ctx.Implies(
        ctx.And(v >= lb, v <= lb + r), ctx.Or(*[v == o for o in vals])))
    # cost must not explode: number of bits needed
    ctx.cover("done")


def sizes(ctx, sizes):
    """ranges around powers of two: coefficients of the encoding only (the logarithm is computed numerically)."""
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.converters import IntegerToBinary

    r = ctx.choice("range", sizes)
    lb = ctx.choice("lb", [0, -5, 3])
    qp = QuadraticProgram()
    qp.integer_var(lb, lb + r, "x")
    k = ctx.real("k", -9, 9)
    qp.minimize(constant=k, linear=[1])
    conv = IntegerToBinary()
    dst = conv.convert(qp)
    m = dst.get_num_vars()
    # linear in the bits, so they may be relaxed
    b = [ctx.real("b%d" % i, 0, 1) for i in range(m)]
    v = conv.interpret(nparr(ctx, b))[0]
    ctx.eq("objective", dst.objective.evaluate(nparr(ctx, b)), k + v)
    # the value is linear in the bits; positive integer weights cover exactly 0..r if their sum is r and each is at most
    # one more than the sum of the smaller ones
    w = [int(conv.interpret(nparr(ctx, [int(j == i) for j in range(m)]))[0]) - lb for i in range(m)]
    ctx.eq("encoded value", v, lb + sum(a * c for a, c in zip(w, b)))
    w = sorted(w)
    ctx.check("weights", all(x >= 0 for x in w) and sum(w) == r)
    ctx.check("no gaps", all(w[i] <= 1 + sum(w[:i]) for i in range(m)))
    ctx.check("few bits", m <= r.bit_length() + 1)
    ctx.cover("done")


def equiv(ctx, kinds, ranges, lin, quad, lcon=None, qcon=None, sense="min", reuse=False):
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.converters import IntegerToBinary

    n = len(kinds)
    qp = QuadraticProgram("prog")
    for i, k in enumerate(kinds):
        if k == "b":
            qp.binary_var(NAMES[i])
        elif k == "c":
            lo, hi = ctx.real("lo%d" % i, -10 ** 12, 10 ** 12), ctx.real("hi%d" % i, -10 ** 12, 10 ** 12)
            ctx.assume(lo <= hi)
            qp.continuous_var(lo, hi, NAMES[i])
        else:
            lb = ctx.int("lb%d" % i, -9, 9)
            qp.integer_var(lb, lb + ranges[i], NAMES[i])

    def co(nm):
        c = ctx.real(nm, -50, 50)
        ctx.assume(c != 0)
        return c

    k = ctx.real("k")
    (qp.minimize if sense == "min" else qp.maximize)(
        k, {i: co("l%d" % i) for i in lin}, {p: co("q%d%d" % p) for p in quad})
    if lcon:
        qp.linear_constraint({i: co("a%d" % i) for i in lcon[1]}, lcon[0], ctx.real("r"), "lc")
    if qcon:
        qp.quadratic_constraint({i: co("d%d" % i) for i in qcon[1]}, {p: co("e%d%d" % p) for p in qcon[2]},
                                qcon[0], ctx.real("s"), "qc")
    conv = IntegerToBinary()
    if reuse:
        other = QuadraticProgram()
        other.integer_var(-3, 4, "x")
        other.minimize(linear=[2])
        conv.convert(other)
    dst = conv.convert(qp)
    ctx.check("no integer variables", dst.get_num_integer_vars() == 0)
    ctx.check("sense", dst.objective.sense == qp.objective.sense)
    ctx.check("name of the program", dst.name == qp.name)
    b = []
    for j, v in enumerate(dst.variables):
        b.append(ctx.bit("b%d" % j) if v.vartype.name == "BINARY" else ctx.real("t%d" % j))
    x = conv.interpret(nparr(ctx, b))
    ctx.check("length", len(x) == n)
    for i, kd in enumerate(kinds):
        if kd != "i":
            ctx.eq("untouched variable", x[i], b[dst.variables_index[NAMES[i]]])
            v, w = qp.get_variable(i), dst.get_variable(NAMES[i])
            ctx.check("type", v.vartype == w.vartype)
            ctx.eq("bounds", v.lowerbound, w.lowerbound)
            ctx.eq("bounds", v.upperbound, w.upperbound)
        else:
            v = qp.get_variable(i)
            ctx.check("in range", ctx.And(x[i] >= v.lowerbound, x[i] <= v.upperbound))
    ctx.eq("objective", dst.objective.evaluate(nparr(ctx, b)), obj_val(qp, x))
    N = dst.get_num_vars()
    cs = list(zip(list(qp.linear_constraints) + list(qp.quadratic_constraints),
                  list(dst.linear_constraints) + list(dst.quadratic_constraints)))
    ctx.check("constraint count", len(cs) == qp.get_num_linear_constraints() + qp.get_num_quadratic_constraints()
              and dst.get_num_linear_constraints() == qp.get_num_linear_constraints())
    for c, d in cs:
        ctx.check("constraint name and sense", c.name == d.name and c.sense == d.sense)
        ctx.eq("constraint residual", con_val(d, b, N) - d.rhs, con_val(c, x, n) - c.rhs)
        ctx.check("constraint", ctx.Iff(sat(ctx, d.sense, con_val(d, b, N), d.rhs),
                                        sat(ctx, c.sense, con_val(c, x, n), c.rhs)))
    ctx.check("all constraints", ctx.Iff(cons_ok(ctx, dst, b), cons_ok(ctx, qp, x)))
    ctx.cover("done")


def noint(ctx, kinds):
    """without integer variables the problem is only copied."""
    equiv(ctx, kinds=kinds, ranges=[0] * len(kinds), lin=[0, 1], quad=[(0, 1), (1, 1)],
          lcon=("<=", (0, 1)), qcon=(">=", (0,), [(0, 1)]))


def units(tier):
    from . import edits
    us = []
    hi = 9 if tier == "quick" else 40
    us.append(unit("encode/small", encode, lo_max=20, hi_range=hi, must_cover=("done",)))
    us.append(unit("encode/sizes", sizes, must_cover=("done",), cost=4,
                   sizes=[1, 2, 3, 7, 8, 15, 16, 30, 31, 32, 33, 61, 62, 63, 64, 100, 126, 127, 128, 255, 256, 1000, 1023,
                          1024, 4095, 4096, 65535, 1 << 20, (1 << 20) - 1, (1 << 30) - 1, 1 << 30]))
    us.append(unit("encode/wide", encode, lo_max=1000, hi_range=4, must_cover=("done",)))

    def add(nm, **kw):
        us.append(unit(nm, equiv, must_cover=("done",), **kw))

    R = [0, 1, 2, 3, 5, 6] if tier == "quick" else list(range(0, 17))
    for r in R:
        add("one/r%d" % r, kinds="i", ranges=[r], lin=[0], quad=[(0, 0)], lcon=("<=", (0,)),
            qcon=(">=", (0,), [(0, 0)]))
        add("ib/r%d" % r, kinds="ib", ranges=[r, 0], lin=[0, 1], quad=[(0, 1), (0, 0)], lcon=(">=", (0, 1)),
            qcon=("<=", (1,), [(0, 1)]), sense="max")
        add("bi/r%d" % r, kinds="bi", ranges=[0, r], lin=[1], quad=[(0, 1)], lcon=("==", (0, 1)),
            qcon=("==", (0,), [(0, 1), (1, 1)]))
        add("ci/r%d" % r, kinds="ci", ranges=[0, r], lin=[0, 1], quad=[(0, 1), (0, 0)], lcon=("<=", (0, 1)),
            qcon=(">=", (1,), [(0, 1)]))
        for r2 in ([2, 5] if tier == "quick" else [0, 2, 5, 7]):
            add("ii/r%d-%d" % (r, r2), kinds="ii", ranges=[r, r2], lin=[0, 1], quad=[(0, 1), (0, 0), (1, 1)],
                lcon=("<=", (0, 1)), qcon=("==", (0, 1), [(0, 1)]))
    add("iib", kinds="iib", ranges=[3, 2, 0], lin=[0, 2], quad=[(0, 1), (1, 2), (0, 2)], lcon=("==", (0, 1, 2)),
        qcon=("<=", (2,), [(0, 1), (1, 2)]))
    add("wide/0", kinds="b" * 9 + "ibi", ranges=[0] * 9 + [3, 0, 2], lin=[2, 9, 10, 11], quad=[(2, 10), (9, 11), (10, 11)],
        lcon=("<=", (2, 9, 11)), qcon=(">=", (11,), [(2, 9), (10, 11)]), cost=5)
    add("wide/1", kinds="i" + "b" * 9 + "ib", ranges=[2] + [0] * 9 + [3, 0], lin=[0, 10, 11], quad=[(0, 10), (2, 10), (9, 11)],
        lcon=("==", (0, 2, 10)), qcon=("<=", (10, 11), [(0, 11), (10, 10)]), sense="max", cost=5)
    for k in ("ib", "ii", "ci"):
        add("sparse/0/%s" % k, kinds=k, ranges=[3, 2], lin=[], quad=[(0, 1)], lcon=("<=", (0,)), qcon=(">=", (), [(0, 1)]))
        add("sparse/1/%s" % k, kinds=k, ranges=[3, 2], lin=[1], quad=[], lcon=("==", (1,)), qcon=("<=", (1,), [(0, 0)]))
        add("sparse/2/%s" % k, kinds=k, ranges=[2, 3], lin=[0], quad=[(1, 1)], lcon=(">=", ()), qcon=("==", (0,), []),
            sense="max")
        add("sparse/3/%s" % k, kinds=k, ranges=[2, 3], lin=[], quad=[], lcon=(">=", (1,)), qcon=("<=", (), [(1, 0), (1, 1)]))
    add("reuse", kinds="ib", ranges=[5, 0], lin=[0, 1], quad=[(0, 1)], lcon=("==", (0, 1)), reuse=True)
    for k in ("bb", "bc", "cc"):
        us.append(unit("noint/%s" % k, noint, kinds=k, must_cover=("done",)))
    us += edits.units("conv int", ("ib|l==",), edits.ALL)
    return us
