"""C05: substitution of variables keeps objective, constraints and bounds equivalent."""
from .common import bounds_ok, cons_ok, lin_val, nparr, obj_val, quad_val, unit

BOUNDS = ("2 to 3 variables of any type (and 12 continuous ones), every combination of constant / scaled-variable substitutions of "
          "them, one linear and one quadratic constraint of each sense; coefficients, bounds, right-hand "
          "sides, constants, scale factors and the evaluation point are arbitrary reals; equivalence is "
          "decided for all points of the substituted program"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = ("integrality lost by scaling an integer variable by a non-integer factor (the library documents bound "
           "updates only); more variables; floating point rounding")
NAMES = ["x", "y", "z"] + ["v%d" % i for i in range(3, 12)]


def subst(ctx, kinds, consts, subs, lin, quad, sense="min", keys="name", inf=False, zero=(), obj=None):
    from qiskit_optimization import INFINITY, QuadraticProgram

    n = len(kinds)
    qp = QuadraticProgram("prog")
    for i, k in enumerate(kinds):
        if k == "b":
            qp.binary_var(NAMES[i])
        else:
            if inf:
                lo, hi = -INFINITY, INFINITY
                if i == 0:
                    hi = ctx.real("u0", -8, 8)
            elif n > 9 and i not in (2, 10, 11):
                lo, hi = -8 - i, 8 + i
            else:
                lo, hi = ctx.real("b%d" % i, -8, 8), ctx.real("u%d" % i, -8, 8)
                ctx.assume(lo <= hi)
            (qp.integer_var if k == "i" else qp.continuous_var)(lo, hi, NAMES[i])
    pairs = [(i, j) for i in range(n) for j in range(i, n)]

    def co(nm):
        c = ctx.real(nm, -20, 20)
        if nm not in zero:
            ctx.assume(c != 0)  # which entries are present is a path, kept out of the numbers
        return c

    (qp.minimize if sense == "min" else qp.maximize)(
        ctx.real("k"), {i: co("l%d" % i) for i in range(n) if obj is None or i in obj},
        {p: co("q%d_%d" % p if n > 9 else "q%d%d" % p) for p in pairs if obj is None or p in obj})
    for m, (s, vs) in enumerate(lin):
        qp.linear_constraint({v: co("a%d_%d" % (m, v)) for v in vs}, s, ctx.real("r%d" % m), "k%d" % m)
    for m, (s, vs, ps) in enumerate(quad):
        qp.quadratic_constraint({v: co("d%d_%d" % (m, v)) for v in vs},
                                {p: co("e%d_%d_%d" % ((m,) + p)) for p in ps}, s, ctx.real("s%d" % m),
                                "k%d" % m)
    cs = {i: ctx.real("c%d" % i, -8, 8) for i in consts}
    sv = {}
    for i, j in subs:
        v = ctx.real("v%d" % i, -8, 8)
        ctx.assume(v != 0)
        sv[i] = (j, v)

    def key(i, alt):
        return NAMES[i] if (keys == "name") != (keys == "mix" and alt) else i

    dst = qp.substitute_variables(
        constants={key(i, False): c for i, c in cs.items()} or None,
        variables={key(i, True): (key(j, False), v) for i, (j, v) in sv.items()} or None)
    left = [i for i in range(n) if i not in cs and i not in sv]
    ctx.check("remaining variables", [v.name for v in dst.variables] == [NAMES[i] for i in left])
    ctx.check("name of the program", dst.name == qp.name)
    ctx.check("types kept", all(dst.get_variable(NAMES[i]).vartype == qp.get_variable(NAMES[i]).vartype
                                for i in left))
    ctx.check("sense kept", dst.objective.sense == qp.objective.sense)
    y = {i: ctx.real("y%d" % i) for i in left}
    x = [cs[i] if i in cs else sv[i][1] * y[sv[i][0]] if i in sv else y[i] for i in range(n)]
    yl = [y[i] for i in left]
    ctx.eq("objective", dst.objective.evaluate(nparr(ctx, yl) if yl else []) if yl else dst.objective.constant,
           obj_val(qp, x))
    src = ctx.And(bounds_ok(ctx, qp, x), cons_ok(ctx, qp, x))
    if dst.status.name == "VALID":
        ctx.check("feasible sets agree", ctx.Iff(ctx.And(bounds_ok(ctx, dst, yl), cons_ok(ctx, dst, yl)), src))
        ctx.cover("valid")
    else:
        ctx.check("infeasible really is", ctx.Not(src))
        ctx.cover("infeasible")
    # names of the surviving constraints
    for c in dst.linear_constraints:  # constraints that became constant are evaluated, not kept
        ctx.check("a constraint that is kept has variables", ctx.Or(*[c.linear[i] != 0 for i in range(len(left))]))
    for c in dst.quadratic_constraints:
        ctx.check("a quadratic constraint that is kept has a quadratic term", ctx.Or(
            *[c.quadratic[i, j] != 0 for i in range(len(left)) for j in range(i, len(left))]))
    ln = {c.name for c in dst.linear_constraints}
    ctx.check("constraint names unique", len(ln) == dst.get_num_linear_constraints())


def sparse(ctx, kinds, consts, subs, s, part):
    """every pattern of present coefficients (zero constants and cancelling terms are paths as well)."""
    n = len(kinds)
    has = [i for i in range(n) if ctx.choice("L%d" % i, [0, 1])]
    has += [p for p in [(0, 0), (0, 1), (1, 1)] if ctx.choice("Q%d%d" % p, [0, 1])]
    vs, ps = [i for i in has if isinstance(i, int)], [p for p in has if not isinstance(p, int)]
    if part == "obj":
        return subst(ctx, kinds, consts, subs, [], [], obj=has, sense="max")
    return subst(ctx, kinds, consts, subs, [(s, vs)] if vs and not ps else [], [(s, vs, ps)] if ps else [], obj=[0])


def refuse(ctx, case):
    """contradictory substitutions are refused, never silently misapplied."""
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram

    qp = QuadraticProgram("prog")
    for v in NAMES[:3]:
        qp.continuous_var(-10, 10, v)
    a, b = ctx.real("a", -5, 5), ctx.real("b", -5, 5)
    qp.minimize(linear=[a, b, 1])
    bad = True
    if case == "zero":
        args = dict(variables={"x": ("y", a)})
        bad = a == 0
    elif case == "self":
        args = dict(variables={"x": ("x", 2)})
    elif case == "self_index":
        args = dict(variables={"x": (0, 2)})
    elif case == "twice":
        args = dict(constants={"x": a}, variables={"x": ("y", 2)})
    elif case == "twice_const":
        args = dict(constants={"x": a, 0: b})
    elif case == "twice_var":
        args = dict(variables={"x": ("y", 2), 0: ("z", 2)})
    elif case == "target_const":
        args = dict(constants={"y": a}, variables={"x": ("y", 2)})
    elif case == "target_var":
        args = dict(variables={"y": ("z", 3), "x": ("y", 2)})
    elif case == "chain":
        args = dict(variables={"x": ("y", 2), "y": ("z", 3)})
    try:
        qp.substitute_variables(**args)
        ctx.check("accepted only if valid", ctx.Not(bad) if not isinstance(bad, bool) else not bad)
    except QiskitOptimizationError:
        ctx.check("refused only if invalid", bad)
    ctx.cover("done")


def units(tier):
    from . import edits
    us = []

    def add(name, **kw):
        us.append(unit(name, subst, **kw))

    S = ("<=", ">=", "==")
    L2, Q2 = lambda s: [(s, (0, 1))], lambda s: [(s, (0,), [(0, 1), (1, 1)])]
    for s in S:
        add("const1/lin%s" % s, kinds="cc", consts=[0], subs=[], lin=L2(s), quad=[])
        add("const2/lin%s" % s, kinds="cc", consts=[0, 1], subs=[], lin=L2(s), quad=[])
        add("var1/lin%s" % s, kinds="cc", consts=[], subs=[(0, 1)], lin=L2(s), quad=[])
        add("varR/lin%s" % s, kinds="cc", consts=[], subs=[(1, 0)], lin=L2(s), quad=[], sense="max")
        add("const1/quad%s" % s, kinds="cc", consts=[0], subs=[], lin=[], quad=Q2(s))
        add("const1b/quad%s" % s, kinds="cc", consts=[0], subs=[], lin=[], quad=[(s, (1,), [(0, 1)])])
        add("constname/quad%s" % s, kinds="cc", consts=[0], subs=[], lin=L2(s), quad=[(s, (1,), [(0, 1)])])
        add("const2/quad%s" % s, kinds="cc", consts=[1, 0], subs=[], lin=[], quad=Q2(s))
        add("var1/quad%s" % s, kinds="cc", consts=[], subs=[(0, 1)], lin=[], quad=Q2(s), sense="max")
        add("varR/quad%s" % s, kinds="cc", consts=[], subs=[(1, 0)], lin=[], quad=Q2(s))
        add("mixed3/%s" % s, kinds="cci", consts=[2], subs=[(0, 1)], lin=[(s, (0, 1, 2))],
            quad=[(s, (2,), [(0, 2), (1, 2)])])
        add("fan3/%s" % s, kinds="ccc", consts=[], subs=[(0, 2), (1, 2)], lin=[(s, (0, 1, 2))], quad=[],
            keys="index")
    for k in ("b", "i", "c"):
        for k2 in ("b", "i", "c"):
            add("types/const-%s%s" % (k, k2), kinds=k + k2, consts=[0], subs=[], lin=L2("<="), quad=[],
                keys="index")
            add("types/var-%s%s" % (k, k2), kinds=k + k2, consts=[], subs=[(0, 1)], lin=L2(">="), quad=[],
                keys="mix")
    for s in S:  # more than ten variables: two-digit positions
        add("wide/%s" % s, kinds="c" * 12, consts=[2], subs=[(10, 11)], lin=[(s, (1, 2, 10, 11))],
            quad=[(s, (9, 10), [(2, 10), (10, 11)])], obj=[2, 10, 11, (1, 10), (9, 11), (2, 11)], keys="index" if s == "==" else "mix",
            cost=5)
        add("wideR/%s" % s, kinds="c" * 12, consts=[10], subs=[(11, 2)], lin=[(s, (2, 9, 10, 11))],
            quad=[(s, (10,), [(9, 11), (2, 10)])], obj=[2, 9, 10, 11, (2, 10), (10, 11)], keys="name", sense="max", cost=5)
    for s in S:  # substitution may cancel what was there
        add("cancel/const%s" % s, kinds="cc", consts=[0], subs=[], lin=[], quad=[(s, (1,), [(0, 1)])], obj=[0], zero=("l0",))
        add("cancel/var%s" % s, kinds="cc", consts=[], subs=[(0, 1)], lin=[(s, (0, 1))],
            quad=[(s, (0, 1), [(0, 1), (1, 1)])], obj=[0])
        add("cancel/both%s" % s, kinds="bbb", consts=[0], subs=[(1, 2)], lin=[], quad=[(s, (1, 2), [(0, 2), (0, 1)])], obj=[0])
    add("none", kinds="cib", consts=[], subs=[], lin=[("<=", (0, 1, 2))], quad=[(">=", (0, 2), [(0, 2), (2, 1)])])
    add("inf/const", kinds="cc", consts=[0], subs=[], lin=L2("<="), quad=[], inf=True)
    add("inf/var", kinds="cc", consts=[], subs=[(0, 1)], lin=L2("<="), quad=[], inf=True)
    add("inf/varR", kinds="cc", consts=[], subs=[(1, 0)], lin=L2("<="), quad=[], inf=True)
    add("zeros", kinds="cc", consts=[0], subs=[], lin=L2("<="), quad=Q2(">="),
        zero=("l0", "l1", "q01", "q11", "a0_0", "a0_1"))
    for m, (consts, subs) in enumerate((([0], []), ([1], []), ([], [(0, 1)]), ([], [(1, 0)]), ([0, 1], []))):
        for part in ("obj", "con"):
            for s in S if part == "con" and tier != "quick" else (S[m % 3],):
                us.append(unit("sparse/%s/%d/%s" % (part, m, s), sparse, kinds="cc", consts=consts, subs=subs, s=s, part=part,
                               cost=4, max_paths=4000))
    for c in ("zero", "self", "self_index", "twice", "twice_const", "twice_var", "target_const", "target_var",
              "chain"):
        us.append(unit("refuse/%s" % c, refuse, case=c, must_cover=("done",)))
    if tier != "quick":
        for s in S:
            for t in S:
                add("deep3/%s%s" % (s, t), kinds="cci", consts=[1], subs=[(2, 0)],
                    lin=[(s, (0, 1, 2)), (t, (1, 2))], quad=[(t, (0, 1), [(0, 0), (1, 2), (2, 2)])],
                    sense="max", keys="mix")
    us += edits.units("subst", ("bi|l<=q>=", "bc|l==", "bb|"), edits.ALL)
    return us
