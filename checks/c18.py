"""C18: ADMM solves the block problems of the augmented Lagrangian and returns the iterate of least merit."""
import itertools

from .common import lin_val, nparr, quad_val, unit

BOUNDS = ("1-4 binary/integer (12 in the wide units) and 0-2 continuous variables, 0-3 constraints (binary equalities with coefficients of either "
          "sign, mixed equalities and inequalities, quadratic ones), both senses, arbitrary real objective coefficients, two "
          "and three blocks, both rho rules, warm start; 1-3 iterations (4 thorough) in which the inner optimizers return "
          "arbitrary bits and arbitrary real values, all orders of the merit values"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = ("convergence and solution quality of the heuristic; whether binary variables that occur neither in the objective "
           "nor in a binary equality take part in step 1; more than 4 iterations; floating point rounding")
ASSUMPTIONS = ["the QUBO and continuous optimizers are stand-ins that return arbitrary bits / values; "
               "QuadraticProgram.export_as_lp_string (debug output only) is replaced by a constant in symbolic runs"]


def program(ctx, kinds, sense, lin, quad, cons, sym):
    """cons: (type, {i: coef}, {(i,j): coef}, sense, rhs)"""
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram("p")
    for i, k in enumerate(kinds):
        nm = "v%d" % i
        if k == "b":
            qp.binary_var(nm)
        elif k == "i":
            qp.integer_var(-1, 1, nm)
        else:
            qp.continuous_var(-4, 9, nm)

    def co(nm, v):
        if not sym:
            return v
        c = ctx.real(nm, -50, 50)
        ctx.assume(c != 0)
        return c

    k0 = ctx.real("k", -50, 50)
    l = {i: co("l%d" % i, v) for i, v in lin.items()}
    q = {p: co("q%d%d" % p, v) for p, v in quad.items()}
    (qp.minimize if sense == "min" else qp.maximize)(k0, dict(l), dict(q))
    for m, (cl, cq, s, r) in enumerate(cons):
        if cq:
            qp.quadratic_constraint(cl, cq, s, r, "k%d" % m)
        else:
            qp.linear_constraint(cl, s, r, "k%d" % m)
    return qp, k0, l, q


def near(ctx, label, a, b):
    """equal up to the rounding of rho, which is a float that grows by 10%."""
    d = a - b
    ctx.check(label, ctx.And(d <= 1e-6, d >= -1e-6) if ctx.symbolic else ctx.close(a, b))


def probes(n):
    """points that determine a quadratic function."""
    z = [0] * n
    out = []
    for i in range(n):
        for f in (1, 2):
            p = list(z)
            p[i] = f
            out.append(p)
        for j in range(i):
            if n > 9 and not (i - j == 1 or j in (1, 2) and i > 8):  # thinned out
                continue
            p = list(z)
            p[i] = p[j] = 1
            out.append(p)
    return out


def admm(ctx, kinds, sense, lin, quad, cons=(), sym=True, maxiter=2, three=True, vary=0, warm=False, us=None, tol=None,
         rho=8, freezy=True):
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.algorithms import ADMMOptimizer, OptimizationAlgorithm
    from qiskit_optimization.algorithms.admm_optimizer import ADMMParameters
    from qiskit_optimization.algorithms.optimization_algorithm import OptimizationResult, OptimizationResultStatus
    from qiskit_optimization.converters import IntegerToBinary

    qp, k0, l, q = program(ctx, kinds, sense, lin, quad, cons, sym)
    S = OptimizationResultStatus.SUCCESS
    own = IntegerToBinary()
    base = own.convert(qp)  # C07
    names = [v.name for v in base.variables]
    bi = [i for i, v in enumerate(base.variables) if v.vartype.name == "BINARY"]
    ci = [i for i, v in enumerate(base.variables) if v.vartype.name == "CONTINUOUS"]
    N = len(names)
    sg = 1 if sense == "min" else -1
    L = base.objective.linear.to_array()
    Q = base.objective.quadratic.to_array()

    def obj(x):  # minimised objective
        s = base.objective.constant
        for i in range(N):
            s = s + L[i] * x[i]
            for j in range(N):
                if not (isinstance(Q[i][j], (int, float)) and Q[i][j] == 0):
                    s = s + Q[i][j] * (x[i] * x[j])
        return sg * s

    def clhs(c, x):
        s = 0
        for i, v in c.linear.to_dict().items():
            s = s + v * x[i]
        if hasattr(c, "quadratic"):
            for (i, j), v in c.quadratic.to_dict().items():
                s = s + v * x[i] * x[j]
        return s

    allc = list(base.linear_constraints) + list(base.quadratic_constraints)
    beq = [c for c in base.linear_constraints if c.sense.name == "EQ" and set(c.linear.to_dict()) <= set(bi)]
    need = {i for i in bi if any(True for c in beq if i in c.linear.to_dict())}
    for i in lin:
        need |= {b for b in bi if names[b] == "v%d" % i or names[b].startswith("v%d@" % i)}
    for p in quad:
        for i in p:
            need |= {b for b in bi if names[b] == "v%d" % i or names[b].startswith("v%d@" % i)}
    C, beta, mu = 16, 4, 32
    st = dict(rho=rho, lam=[0] * len(bi), z=[0] * len(bi), y=[0] * len(bi), x0=[0] * len(bi))
    log = []
    calls = []

    def lagr1(xb):
        x = [0] * N
        for i, v in zip(bi, xb):
            x[i] = v
        s = obj(x)
        for c in beq:
            d = clhs(c, x) - c.rhs
            s = s + C / 2 * d * d
        for k in range(len(bi)):
            s = s + st["lam"][k] * xb[k]
            d = xb[k] - st["z"][k] - st["y"][k]
            s = s + st["rho"] / 2 * (d * d)
        return s

    class Qubo(OptimizationAlgorithm):
        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, op):
            t = sum(1 for c in calls if c == "qubo")
            calls.append("qubo")
            on = [v.name for v in op.variables]
            pos = [names.index(v) for v in on]
            ctx.check("step 1 has the binary variables of objective and binary equalities",
                      len(set(on)) == len(on) and need <= set(pos) <= set(bi))
            ctx.check("step 1 has variables", len(on) > 0)
            ctx.check("step 1 is a QUBO", op.get_num_binary_vars() == len(on) and op.get_num_linear_constraints() == 0
                      and op.get_num_quadratic_constraints() == 0 and op.objective.sense.name == "MINIMIZE")
            rel = [bi.index(p) for p in pos]

            def full(b):
                xb = [0] * len(bi)
                for r, v in zip(rel, b):
                    xb[r] = v
                return xb

            z0 = [0] * len(on)
            for p in probes(len(on)):
                if max(p) > 1:
                    continue
                near(ctx, "step 1 objective", op.objective.evaluate(p) - op.objective.evaluate(z0),
                       lagr1(full(p)) - lagr1(full(z0)))
            b = [ctx.choice("b%d_%d" % (t, i), [0, 1]) if N < 9 or t == 0 and i in (1, 3) else (i + t) % 2 for i in range(len(on))]
            st["x0"] = full(b)
            return OptimizationResult(nparr(ctx, [float(v) for v in b]), 0.0, op.variables, S)

    class Cont(OptimizationAlgorithm):
        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, op):
            if warm and not calls:
                calls.append("relax")
                ctx.check("relaxation: variables", [v.name for v in op.variables] == names and
                          op.get_num_continuous_vars() == N)
                for p in probes(N)[:: max(1, N - 1)]:
                    near(ctx, "relaxation: objective", op.objective.evaluate(p), obj(p))
                ctx.check("relaxation: constraints",
                          op.get_num_linear_constraints() + op.get_num_quadratic_constraints() == len(allc))
                w = [ctx.real("w%d" % i, 0, 1) for i in range(N)]
                st["x0"] = [w[i] for i in bi]
                st["z"] = [w[i] for i in bi]
                st["u"] = [w[i] for i in ci]
                return OptimizationResult(nparr(ctx, w), 0.0, op.variables, S)
            cur = [c for c in calls if c in ("s2", "s3")]
            if not cur or cur[-1] == "s3" or not three or not bi:
                return self.step2(op)
            return self.step3(op)

        def step2(self, op):
            t = sum(1 for c in calls if c == "s2")
            calls.append("s2")
            ctx.check("step 2: variables", [v.name for v in op.variables] == names and op.get_num_continuous_vars() == N)
            for i, v in enumerate(op.variables):
                lo, hi = (0, 1) if i in bi else (base.variables[i].lowerbound, base.variables[i].upperbound)
                ctx.check("step 2: bounds", v.lowerbound == lo and v.upperbound == hi)
            ctx.check("step 2: sense", op.objective.sense.name == "MINIMIZE")
            want = [c.name for c in allc if c not in beq]
            have = list(op.linear_constraints) + list(op.quadratic_constraints)
            ctx.check("step 2: constraints", [c.name for c in have] == want)
            for c in have:
                o = [d for d in allc if d.name == c.name][0]
                ctx.check("step 2: constraint kept", c.sense == o.sense and c.rhs == o.rhs and
                          c.linear.to_dict() == o.linear.to_dict() and
                          (not hasattr(o, "quadratic") or c.quadratic.to_dict() == o.quadratic.to_dict()))

            def lagr2(x):
                xc = [x[i] if i in ci else 0 for i in range(N)]
                s = obj(xc)
                for k, i in enumerate(bi):
                    d = st["x0"][k] - x[i] - st["y"][k]
                    s = s - st["lam"][k] * x[i] + st["rho"] / 2 * (d * d)
                return s

            z0 = [0] * N
            for p in probes(N):
                near(ctx, "step 2 objective", op.objective.evaluate(p) - op.objective.evaluate(z0), lagr2(p) - lagr2(z0))
            u = [us[t % len(us)][k] if us else ctx.real("u%d_%d" % (t, k), -4, 9) for k in range(len(ci))]
            z = [(t + k) % 2 if freezy == "fix" else ctx.real("z%d_%d" % (t, k), 0, 1) if freezy else ctx.choice("z%d_%d" % (t, k), [0, 1])
                 for k in range(len(bi))]
            st["u"], st["z"] = u, z
            x = [None] * N
            for i, v in zip(ci, u):
                x[i] = v
            for i, v in zip(bi, z):
                x[i] = v
            if not three or not bi:
                self.end()
            return OptimizationResult(nparr(ctx, x), 0.0, op.variables, S)

        def step3(self, op):
            t = sum(1 for c in calls if c == "s3")
            calls.append("s3")
            ctx.check("step 3: variables", [v.name for v in op.variables] == [names[i] for i in bi] and
                      op.get_num_continuous_vars() == len(bi) and
                      all(v.lowerbound <= -1e20 and v.upperbound >= 1e20 for v in op.variables))
            ctx.check("step 3: unconstrained", op.get_num_linear_constraints() + op.get_num_quadratic_constraints() == 0
                      and op.objective.sense.name == "MINIMIZE")

            def lagr3(y):
                s = 0
                for k in range(len(bi)):
                    d = st["x0"][k] - st["z"][k] - y[k]
                    s = s + beta / 2 * y[k] * y[k] - st["lam"][k] * y[k] + st["rho"] / 2 * (d * d)
                return s

            z0 = [0] * len(bi)
            for p in probes(len(bi)):
                near(ctx, "step 3 objective", op.objective.evaluate(p) - op.objective.evaluate(z0), lagr3(p) - lagr3(z0))
            y = [-0.5 * t if freezy == "fix" else ctx.real("y%d_%d" % (t, k), -2, 2) if freezy else ctx.choice("y%d_%d" % (t, k), [0, 1])
                 for k in range(len(bi))]
            st["y"] = y
            self.end()
            return OptimizationResult(nparr(ctx, y), 0.0, op.variables, S)

        def end(self):
            """the rest of the iteration, as documented."""
            e = [a - b - c for a, b, c in zip(st["x0"], st["z"], st["y"])]
            st["lam"] = [v + st["rho"] * d for v, d in zip(st["lam"], e)]
            x = [0] * N
            for i, v in zip(bi, st["x0"]):
                x[i] = v
            for i, v in zip(ci, st.get("u", [])):
                x[i] = v
            cost = obj(x)
            r = 0
            for c in allc:
                d = clhs(c, x) - c.rhs
                if c.sense.name == "EQ":
                    r = r + abs(d)
                else:
                    d = d if c.sense.name == "LE" else -d
                    r = r + ctx.If(d > 0, d, 0)
            zp = log[-1]["z"] if log else [0] * len(bi)
            log.append(dict(x=x, cost=cost, cr=r, e2=sum([v * v for v in e], 0), z=list(st["z"]), rho=st["rho"],
                            y=list(st["y"]), lam=list(st["lam"]),
                            d2=st["rho"] * (st["rho"] * sum([(a - b) * (a - b) for a, b in zip(st["z"], zp)], 0))))
            if vary == 0:
                st["rho"] = st["rho"] * 1.1
            else:
                # primal > 10 * dual: grow, dual > 10 * primal: shrink (squares compared)
                p2, d2 = log[-1]["e2"], log[-1]["d2"]
                if p2 > 100 * d2:
                    st["rho"] = st["rho"] * 2
                elif d2 > 100 * p2:
                    st["rho"] = st["rho"] / 4

    params = ADMMParameters(rho_initial=rho, factor_c=C, beta=beta, mu_merit=mu, maxiter=maxiter,
                            tol=-1 if tol is None else tol, three_block=three, vary_rho=vary, tau_incr=2, tau_decr=4,
                            mu_res=10, warm_start=warm)
    old = QuadraticProgram.export_as_lp_string
    if ctx.symbolic:
        QuadraticProgram.export_as_lp_string = lambda self: ""
    try:
        res = ADMMOptimizer(Qubo(), Cont(), params).solve(qp)
    finally:
        QuadraticProgram.export_as_lp_string = old
    T = len(log)
    s = res.state
    if tol is None:
        ctx.check("number of iterations", T == maxiter)
    else:
        ctx.check("number of iterations", 1 <= T <= maxiter)
        for g in log[:-1]:
            ctx.check("goes on while the residual is large", g["e2"] > tol * tol - 1e-9)
        ctx.check("stops when the residual is small", T == maxiter or bool(log[-1]["e2"] <= tol * tol + 1e-9))
    for nm in ("cost_iterates", "residuals", "dual_residuals", "cons_r", "merits", "lambdas", "x0_saved", "u_saved",
               "z_saved", "y_saved"):
        ctx.check("history: one entry per iteration", len(getattr(s, nm)) == T)
    for t, g in enumerate(log):
        near(ctx, "history: cost", s.cost_iterates[t], g["cost"])
        near(ctx, "history: constraint residual", s.cons_r[t], g["cr"])
        near(ctx, "history: merit", s.merits[t], g["cost"] + mu * g["cr"])
        near(ctx, "history: residual", s.residuals[t] * s.residuals[t], g["e2"])
        near(ctx, "history: dual residual", s.dual_residuals[t] * s.dual_residuals[t], g["d2"])
        for k in range(len(bi)):
            near(ctx, "history: z", s.z_saved[t][k], g["z"][k])
            near(ctx, "history: y", s.y_saved[t][k], g["y"][k])
            near(ctx, "history: x0", s.x0_saved[t][k], g["x"][bi[k]])
        for k in range(len(ci)):
            near(ctx, "history: u", s.u_saved[t][k], g["x"][ci[k]])
    for k in range(len(bi)):
        near(ctx, "multipliers", s.lambda_mult[k], log[-1]["lam"][k])
    # the result is the iterate of least merit
    x = list(res.x)
    ctx.check("size", len(x) == qp.get_num_vars())
    alts = []
    for g in log:
        full = list(own.interpret(nparr(ctx, g["x"])))
        m = g["cost"] + mu * g["cr"]
        alts.append(ctx.And(*([full[i] == x[i] if ctx.symbolic else ctx.close(full[i], x[i]) for i in range(len(x))] +
                              [m <= h["cost"] + mu * h["cr"] + (0 if ctx.symbolic else 1e-6) for h in log])))
    ctx.check("the result is an iterate of least merit", ctx.Or(*alts))
    near(ctx, "value", res.fval, k0 + lin_val(l, x) + quad_val(q, x))
    if not cons:
        ok = ctx.And(*[ctx.And(x[i] >= v.lowerbound, x[i] <= v.upperbound) for i, v in enumerate(qp.variables)])
        ctx.check("status", ctx.Iff(res.status.name == "SUCCESS", ok))
    ctx.check("the given problem is unchanged", (qp.objective.sense.name == "MINIMIZE") == (sense == "min"))
    ctx.cover("done")


def compat(ctx, kinds, pair, zero=False):
    from qiskit_optimization import QiskitOptimizationError
    from qiskit_optimization.algorithms import ADMMOptimizer

    qp, *_ = program(ctx, kinds, "min", {0: 1}, {} if zero else {pair: 1}, (), True)
    mixed = not zero and {kinds[i] == "c" for i in pair} == {True, False}
    opt = ADMMOptimizer()
    ctx.check("inseparable objectives are reported", (opt.get_compatibility_msg(qp) == "") == (not mixed))
    ctx.check("compatible", bool(opt.is_compatible(qp)) == (not mixed))
    if mixed:
        try:
            opt.solve(qp)
            ctx.fail("an inseparable objective is accepted")
        except QiskitOptimizationError:
            pass
    ctx.cover("done")


def units(tier):
    from . import edits
    us = []
    U = [[1.5, 0], [-2, 3], [4, 1]]

    def add(nm, **kw):
        us.append(unit(nm, admm, must_cover=("done",), **kw))

    for s in ("min", "max"):
        add("b/%s" % s, kinds="b", sense=s, lin={0: 1}, quad={})
        add("bc/%s" % s, kinds="bc", sense=s, lin={0: 1, 1: 1}, quad={(1, 1): 1}, us=U)
        add("bb/%s" % s, kinds="bb", sense=s, lin={0: 1}, quad={(0, 1): 1}, cost=2)
        add("cbb/sq/%s" % s, kinds="cbb", sense=s, lin={2: 1}, quad={(1, 1): 1, (0, 0): 1}, us=U, cost=2)
        add("bcb/%s" % s, kinds="bcb", sense=s, lin={1: 1, 2: 1}, quad={(0, 2): 1}, us=U, cost=2,
            cons=[({0: 1, 1: 1}, {}, "<=", 2)])
        add("eq/%s" % s, kinds="bbc", sense=s, lin={0: 1, 2: 1}, quad={}, us=U, cost=2,
            cons=[({0: 1, 1: -1}, {}, "==", 0), ({1: 1, 2: 1}, {}, ">=", 1)])
        add("eqpos/%s" % s, kinds="bcb", sense=s, lin={2: 1}, quad={}, us=U, cost=2,
            cons=[({0: 2, 2: 1}, {}, "==", 1), ({0: 1, 1: 1}, {}, "==", 1)])
        add("eq2/%s" % s, kinds="bbb", sense=s, lin={0: 1}, quad={}, cost=3, maxiter=1,
            cons=[({0: 1, 1: 2}, {}, "==", 1), ({1: -1, 2: -3}, {}, "==", -1), ({2: 1, 0: 1}, {}, "<=", 1)])
        add("quadcon/%s" % s, kinds="bc", sense=s, lin={0: 1, 1: 1}, quad={}, us=U, cost=2,
            cons=[({1: 1}, {(0, 1): 1}, "<=", 2), ({}, {(1, 1): 1}, "==", 4)])
        add("i/%s" % s, kinds="ic", sense=s, lin={0: 1, 1: 1}, quad={(0, 0): 1}, us=U, cost=3)
        add("c/%s" % s, kinds="cc", sense=s, lin={0: 1, 1: 1}, quad={(0, 1): 1}, us=U)
        add("two-block/%s" % s, kinds="bc", sense=s, lin={0: 1, 1: 1}, quad={}, us=U, three=False)
        add("warm/%s" % s, kinds="cb", sense=s, lin={0: 1, 1: 1}, quad={}, us=U, warm=True, cost=2)
        add("warm/unused/%s" % s, kinds="bcb", sense=s, lin={0: 1, 1: 1}, quad={}, us=U, warm=True, maxiter=1, cost=2)
        add("unused/%s" % s, kinds="bcbb", sense=s, lin={3: 1, 1: 1}, quad={}, us=U, maxiter=1, cost=2)
        add("wide/%s" % s, kinds="bbcbbbbbbbcbbb", sense=s, lin={1: 1.5, 11: -2, 2: 1}, quad={(1, 11): 3, (2, 10): 1, (12, 13): -1},
            us=U, cost=6, budget=300, sym=False, freezy="fix",
            cons=[({0: 1, 11: 1, 12: 2}, {}, "==", 1), ({2: 1, 10: 2, 13: 1}, {}, "<=", 4), ({11: 1, 13: 1}, {}, "==", 1)])
        # fixed objectives, arbitrary continuous answers: orders of the merit values
        add("merit/%s" % s, kinds="bc", sense=s, lin={0: 2, 1: -1}, quad={}, sym=False, freezy="fix", maxiter=3, cost=4,
            cons=[({0: 1, 1: 1}, {}, "<=", 2), ({0: 1, 1: -1}, {}, ">=", -3)])
        add("rho/%s" % s, kinds="b", sense=s, lin={0: 2}, quad={}, sym=False, freezy=False, vary=1, maxiter=3, cost=4)
        add("tol/%s" % s, kinds="b", sense=s, lin={0: 2}, quad={}, sym=False, freezy=False, tol=0.5, maxiter=3, cost=4)
        if tier != "quick":
            add("bb/3/%s" % s, kinds="bb", sense=s, lin={0: 1, 1: 1}, quad={(0, 1): 1, (0, 0): 1}, maxiter=3, cost=9)
            add("merit/4/%s" % s, kinds="bc", sense=s, lin={0: 2, 1: -1}, quad={}, sym=False, freezy="fix", maxiter=4,
                cost=9, cons=[({0: 1, 1: 1}, {}, "<=", 2)])
            add("bbb/%s" % s, kinds="bbb", sense=s, lin={0: 1, 2: 1}, quad={(0, 1): 1, (1, 2): 1}, cost=9,
                cons=[({0: 1, 1: -1, 2: 1}, {}, "==", 1)])
    for kinds in ("bc", "cb", "ic", "ci", "bb", "cc", "bi"):
        for p in ((0, 1), (1, 0)):
            us.append(unit("compat/%s/%d%d" % ((kinds,) + p), compat, kinds=kinds, pair=p, must_cover=("done",)))
    us.append(unit("compat/none", compat, kinds="bc", pair=(0, 1), zero=True, must_cover=("done",)))
    us += edits.units("admm", ("bb|l==",), edits.ALL)
    return us
