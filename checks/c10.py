"""C10: the Ising Hamiltonian has, on every basis state, the (signed) objective value as energy."""
from .common import all_bits, energy, ising_terms, lin_val, quad_val, unit

BOUNDS = ("1 to 4 binary variables (5 thorough; 12 with 8 coefficients), every sparsity pattern of up to 2 variables (3: without squares or without products; all "
          "in the thorough tier) and selected patterns of more, both senses; constant, linear and quadratic coefficients are arbitrary reals |v|<=1000 (zero and "
          "cancelling ones included in the 'free' units); all basis states"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = "more variables; operators are compared by their diagonal; floating point rounding"


def toising(ctx, n, lin, quad, sense, free=False, every=False):
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram()
    for i in range(n):
        qp.binary_var("v%d" % i)

    def co(nm):
        c = ctx.real(nm)
        if not free:
            ctx.assume(c != 0)
        return c

    k = ctx.real("k")
    if every:
        lin = [i for i in range(n) if ctx.choice("has%d" % i, [0, 1])]
        quad = [(i, j) for i in range(n) for j in range(i, n)
                if (every == "all" or (i == j) == (every == "squares")) and ctx.choice("has%d%d" % (i, j), [0, 1])]
    l = {i: co("l%d" % i) for i in lin}
    q = {p: co("q%d%d" % p) for p in quad}
    (qp.minimize if sense == "min" else qp.maximize)(k, dict(l), dict(q))
    op, offset = qp.to_ising()
    ctx.check("number of qubits", op.num_qubits == n)
    terms = ising_terms(op)
    ctx.check("diagonal", not any(any(x) for _, _, x in terms))
    if n >= 3:  # linear in the coefficients at each basis state
        # both sides are polynomials of degree two, which agree if they agree at all points with at most two ones
        ctx.check("one and two body terms", all(sum(bool(b) for b in z) <= 2 for _, z, _ in terms))
        for x in all_bits(n) if n < 8 else [[int(i in (a, b)) for i in range(n)] for a in range(-1, n) for b in range(a, n)]:
            f = k + lin_val(l, x) + quad_val(q, x)
            ctx.eq("energy + offset = signed objective", energy(terms, x) + offset, f if sense == "min" else -f)
    x = [ctx.bit("x%d" % i) for i in range(n)]
    f = k + lin_val(l, x) + quad_val(q, x)
    if n < 3:
        ctx.eq("energy + offset = signed objective", energy(terms, x) + offset, f if sense == "min" else -f)
    # the program itself is unchanged
    ctx.eq("objective unchanged", qp.objective.evaluate(list(x)), f)
    ctx.cover("done")


def refuse(ctx, case):
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram

    qp = QuadraticProgram()
    qp.binary_var("x")
    a = ctx.real("a")
    if case == "integer":
        qp.integer_var(0, 1, "y")
    elif case == "continuous":
        qp.continuous_var(0, 1, "y")
    else:
        qp.binary_var("y")
    qp.minimize(linear={"x": a, "y": 1})
    if case == "linear":
        qp.linear_constraint({"x": 1}, "<=", a)
    if case == "quadratic":
        qp.quadratic_constraint({"x": 1}, {("x", "y"): 1}, "<=", a)
    try:
        qp.to_ising()
        ctx.check("only unconstrained binary programs are accepted", case == "ok")
    except QiskitOptimizationError:
        ctx.check("unconstrained binary programs are accepted", case != "ok")


def units(tier):
    from . import edits
    us = []

    def add(nm, **kw):
        us.append(unit(nm, toising, must_cover=("done",), **kw))

    pats = {
        1: [([], []), ([0], []), ([], [(0, 0)]), ([0], [(0, 0)])],
        2: [(l, q) for l in ([], [0], [1], [0, 1]) for q in
            ([], [(0, 1)], [(1, 0)], [(0, 0), (0, 1)], [(1, 1)], [(0, 1), (1, 0)], [(0, 0), (0, 1), (1, 1)])],
        3: [([0, 2], [(0, 1), (1, 2)]), ([1], [(0, 2), (2, 2), (2, 1)]), ([], [(0, 1), (0, 2), (1, 2)]),
            ([0, 1, 2], [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)])],
        4: [([0, 3], [(0, 3), (1, 2), (3, 1)])],
    }
    if tier != "quick":
        pats[4] += [([0, 1, 2, 3], [(i, j) for i in range(4) for j in range(i, 4)])]
        pats[5] = [([0, 4], [(0, 4), (1, 3), (2, 2), (4, 2), (3, 1)])]
    for s in ("min", "max"):
        for n, ps in pats.items():
            for m, (l, q) in enumerate(ps):
                add("n%d/%d/%s" % (n, m, s), n=n, lin=l, quad=q, sense=s)
        for e in ("squares", "products") + (("all",) if tier != "quick" else ()):
            add("every/3/%s/%s" % (e, s), n=3, lin=(), quad=(), sense=s, every=e, cost=5, max_paths=4000, budget=600)
        add("wide/%s" % s, n=12, lin=[2, 9, 10, 11], quad=[(2, 10), (11, 9), (10, 11), (11, 11)], sense=s, cost=5)
        add("free/1/%s" % s, n=1, lin=[0], quad=[(0, 0)], sense=s, free=True)
        add("free/2/%s" % s, n=2, lin=[0, 1], quad=[(0, 0), (0, 1), (1, 1)], sense=s, free=True)
        add("free/3/%s" % s, n=3, lin=[0, 2], quad=[(0, 1), (2, 0)], sense=s, free=True)
    for c in ("ok", "integer", "continuous", "linear", "quadratic"):
        us.append(unit("refuse/%s" % c, refuse, case=c))
    us += edits.units("ising", ("bb|",), edits.ALL)
    return us
