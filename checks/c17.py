"""C17: recursive elimination of correlated variables keeps the problem."""
from .common import all_bits, lin_val, nparr, obj_val, quad_val, some_bits, unit

BOUNDS = ("unconstrained problems with 2-3 binary variables (4 thorough; 12 with selected correlations) and constrained/integer ones with QUBOs of 2-3 "
          "qubits, both senses, arbitrary objective coefficients (2 variables: real; else integer multiples of 1 or of 2**-20); the inner optimizers return arbitrary samples and points "
          "(so every order of eliminations, equal or opposite, is explored)"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = ("more variables; quality of the inner optimizer's correlations; coefficients below 1e-10 (rounded to zero by "
           "the library)")
NAMES = ["x", "y", "z", "w"]
WIDE = ["x%d" % i for i in range(12)]  # names that begin with other names


def points(n):
    """all points, or enough of them to tell two polynomials of degree two apart."""
    return all_bits(n) if n < 8 else [x for x in some_bits(n) if sum(x) <= 2]


def recursive(ctx, kind, sense, minv, conv="default", history="ALL_ITERATIONS", lin=(0, 1), quad=((0, 1),),
              scale=1):
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.algorithms import (IntermediateResult, OptimizationAlgorithm,
                                                RecursiveMinimumEigenOptimizer)
    from qiskit_optimization.algorithms.optimization_algorithm import (OptimizationResult, OptimizationResultStatus,
                                                                       SolutionSample)
    from qiskit_optimization.converters import QuadraticProgramToQubo

    names = NAMES if len(kind) < 9 else WIDE
    qp = QuadraticProgram("p")
    for i, k in enumerate(kind.rstrip("<=")):
        qp.binary_var(names[i]) if k == "b" else qp.integer_var(1, 3, names[i])
    n = qp.get_num_vars()

    def co(nm):
        if len(kind) > 9 and nm not in ("l1", "q10_11"):
            return {"l10": 3, "l11": -5.5, "q1_10": 7, "q2_11": -2}.get(nm, 4.25)
        c = ctx.int(nm, -50, 50) if scale else ctx.real(nm, -50, 50)
        ctx.assume(c != 0)
        return c * scale if scale not in (0, 1) else c

    k0 = ctx.real("k", -50, 50)
    l = {i: co("l%d" % i) for i in lin}
    q = {tuple(p): co("q%d_%d" % tuple(p)) for p in quad}
    (qp.minimize if sense == "min" else qp.maximize)(k0, dict(l), dict(q))
    if kind.endswith("<="):
        qp.linear_constraint({0: 1, 1: 1}, "==" if kind.endswith("==") else "<=", 1, "c")
    own = QuadraticProgramToQubo()
    qubo = own.convert(qp)
    N = qubo.get_num_vars()
    qn = [v.name for v in qubo.variables]
    seen = []

    def snap(problem):
        # the optimizer goes on changing the problem it has passed on: read it now
        m = problem.get_num_vars()
        return dict(names=[v.name for v in problem.variables], n=m, sense=problem.objective.sense,
                    binary=all(v.vartype.name == "BINARY" and v.lowerbound == 0 and v.upperbound == 1
                               for v in problem.variables),
                    constraints=problem.get_num_linear_constraints() + problem.get_num_quadratic_constraints(),
                    values={b: problem.objective.evaluate(list(b)) for b in points(m)})

    class Inner(OptimizationAlgorithm):
        """arbitrary correlations: two samples with symbolic relation."""

        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, problem):
            m = problem.get_num_vars()
            t = len(seen)
            seen.append(snap(problem))
            S = OptimizationResultStatus.SUCCESS
            if m > 9:
                # one correlated pair, all others uncorrelated
                pairs = [(1, 10), (2, m - 1), (m - 1, 10 if m > 11 else 1)]
                k = seen[0]["pair"] = ctx.choice("pair", [0, 1, 2]) if t == 0 else seen[0]["pair"]
                s = seen[0]["sign"] = ctx.choice("sign", [0, 1]) if t == 0 else seen[0]["sign"]
                (i, j), s = pairs[(k + t) % 3], (s + t) % 2
                row = [list(range(1, m + 1))[j if a == i else a] for a in range(m)]
                flip = [s if a == i else 0 for a in range(m)]
                bs = [[(bin(row[a] & w).count("1") + flip[a]) % 2 for a in range(m)] for w in range(16)]
                seen[-1]["samples"] = [(b, 1 / 16) for b in bs]
                return OptimizationResult(nparr(ctx, bs[0]), 0.0, problem.variables, S,
                                          samples=[SolutionSample(nparr(ctx, b), 0.0, 1 / 16, S) for b in bs])
            # correlation matrix entries become independent: one sample decides signs, probabilities the size
            b1 = [ctx.choice("s%d_%d" % (t, i), [0, 1]) for i in range(m)]
            b2 = [1 if i == m - 1 else 0 for i in range(m)]
            p = ctx.real("p%d" % t, 0, 1)
            seen[-1]["samples"] = [(b1, p), (b2, 1 - p)]
            return OptimizationResult(
                nparr(ctx, b1), 0.0, problem.variables, S,
                samples=[SolutionSample(nparr(ctx, b1), 0.0, p, S), SolutionSample(nparr(ctx, b2), 0.0, 1 - p, S)])

    last, final = [], []

    class Last(OptimizationAlgorithm):
        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, problem):
            last.append(snap(problem))
            m = problem.get_num_vars()
            x = [ctx.choice("f%d" % i, [0, 1]) if m < 9 or i == m - 1 else i % 2 for i in range(m)]
            final.append(x)
            return OptimizationResult(nparr(ctx, x), 0.0, problem.variables, OptimizationResultStatus.SUCCESS)

    cv = {"default": None, "empty": [], "list": [QuadraticProgramToQubo()]}[conv]
    opt = RecursiveMinimumEigenOptimizer(Inner(), min_num_vars=minv, min_num_vars_optimizer=Last(),
                                         history=getattr(IntermediateResult, history), converters=cv)
    res = opt.solve(qp)
    ctx.check("the given problem is unchanged", n == qp.get_num_vars())
    for b in all_bits(n) if kind in ("bb", "bbb", "bbbb") else []:
        ctx.eq("the given objective is unchanged", qp.objective.evaluate(list(b)),
               k0 + lin_val(l, b) + quad_val(q, b))
    ctx.check("recursion stops at the given size", len(last) == 1 and last[0]["n"] == min(minv, N))
    ctx.check("one variable less each time", [p["n"] for p in seen] == list(range(N, min(minv, N), -1)))
    rep = res.replacements
    ctx.check("replacements", sorted(rep) == sorted(set(qn) - set(last[0]["names"])))
    ctx.check("replacements have weight 1 or -1", all(w in (1, -1) for _, w in rep.values()))

    def extend(prob, b):
        """values of all QUBO variables given those of the reduced problem."""
        val = dict(zip(prob["names"], b))

        def get(nm):
            if nm not in val:
                y, s = rep[nm]
                val[nm] = get(y) if s == 1 else 1 - get(y)
            return val[nm]

        return [get(nm) for nm in qn]

    for prob in seen + last:
        ctx.check("sense of the reduced problem", prob["sense"] == qubo.objective.sense)
        ctx.check("binary variables", prob["binary"])
        ctx.check("no constraints", prob["constraints"] == 0)
        for b, v in prob["values"].items():
            # coefficients below 1e-10 are rounded to zero by the library
            d = v - obj_val(qubo, extend(prob, b))
            ctx.check("the reduced objective equals the objective of the full assignment",
                      ctx.And(d <= 2e-10 * N, d >= -2e-10 * N))
    for t, prob in enumerate(seen):
        gone = set(prob["names"]) - set((seen + last)[t + 1]["names"])
        ctx.check("one variable is eliminated", len(gone) == 1)
        a = gone.pop()
        ctx.check("it is replaced by a remaining variable", rep[a][0] in (seen + last)[t + 1]["names"])

        def corr(i, j):
            return sum(p * (1 if b[i] == b[j] else -1) for b, p in prob["samples"])

        ix = prob["names"].index
        c = corr(ix(a), ix(rep[a][0]))
        ctx.check("the sign of the replacement is that of the correlation", c >= 0 if rep[a][1] == 1 else c <= 0)
        for i in range(prob["n"]):
            for j in range(i):
                d = corr(i, j)
                ctx.check("the strongest correlation is used", ctx.And(abs(c) + 1e-9 >= d, abs(c) + 1e-9 >= -d))
    # the result
    f = final[0]
    full = own.interpret(nparr(ctx, extend(last[0], f)))
    x = [float(v) for v in res.x]
    ctx.check("the result is the extended solution of the reduced problem", x == [float(v) for v in full])
    ctx.eq("value", res.fval, obj_val(qp, x))
    feas = all({"LE": sum(w * x[i] for i, w in c.linear.to_dict().items()) <= c.rhs}.get(c.sense.name, False)
               for c in qp.linear_constraints)
    ctx.check("status", (res.status.name == "SUCCESS") == feas)
    h = res.history
    ctx.check("history", len(h[0]) == (len(seen) if history == "ALL_ITERATIONS" else 0) and
              (h[1] is None) == (history == "NO_ITERATIONS"))
    ctx.cover("done")


def units(tier):
    from . import edits
    us = []

    def add(nm, **kw):
        us.append(unit(nm, recursive, must_cover=("done",), **kw))

    for s in ("min", "max"):
        add("bb/1/%s" % s, kind="bb", sense=s, minv=1, scale=0)
        add("bb/2/%s" % s, kind="bb", sense=s, minv=2)
        add("bb/5/%s" % s, kind="bb", sense=s, minv=5)
        add("bb/sq/%s" % s, kind="bb", sense=s, minv=1, lin=(0,), quad=((0, 1), (1, 1), (0, 0)), scale=0)
        add("bbb/small/%s" % s, kind="bbb", sense=s, minv=2, lin=(0, 2), quad=((0, 1), (1, 2)), cost=3,
            scale=2.0 ** -20)
        add("bbb/2/%s" % s, kind="bbb", sense=s, minv=2, lin=(0, 2), quad=((0, 1), (1, 2), (2, 2)), cost=3)
        add("bbb/1/%s" % s, kind="bbb", sense=s, minv=1, lin=(1,), quad=((0, 1), (0, 2)), cost=6, budget=300)
        add("bbb/lin/%s" % s, kind="bbb", sense=s, minv=1, lin=(0, 2), quad=(), cost=5, budget=300)
        add("bbb/quad/%s" % s, kind="bbb", sense=s, minv=1, lin=(), quad=((0, 2), (1, 2)), cost=5, budget=300)
        add("bbb/const/%s" % s, kind="bbb", sense=s, minv=2, lin=(), quad=(), cost=2)
        add("bb<=/2/%s" % s, kind="bb<=", sense=s, minv=2, cost=4)
        add("bi/2/%s" % s, kind="bi", sense=s, minv=2, cost=3)
        add("empty/%s" % s, kind="bb", sense=s, minv=1, conv="empty")
        add("empty3/%s" % s, kind="bbb", sense=s, minv=2, conv="empty", quad=((0, 1), (1, 2)), cost=3)
        add("list/%s" % s, kind="bb", sense=s, minv=1, conv="list")
        add("wide/%s" % s, kind="b" * 12, sense=s, minv=10, lin=(1, 10, 11), quad=((1, 10), (2, 11), (10, 11), (1, 9)), scale=0,
            conv="empty" if s == "min" else "default", cost=9, budget=300)
        if tier != "quick":
            add("bbb/1/full/%s" % s, kind="bbb", sense=s, minv=1, lin=(0, 1, 2),
                quad=((0, 0), (0, 1), (0, 2), (1, 1), (1, 2)), cost=9)
            add("bbbb/2/%s" % s, kind="bbbb", sense=s, minv=2, lin=(0, 3), quad=((0, 1), (1, 2), (2, 3), (3, 3)), cost=20,
                budget=600, max_paths=20000)
            add("bi/1/%s" % s, kind="bi", sense=s, minv=1, cost=9)
    for h in ("NO_ITERATIONS", "LAST_ITERATION"):
        add("history/%s" % h, kind="bb", sense="min", minv=1, history=h)
    us += edits.units("rec", ("bb|l==", "bb|"), edits.ALL)
    return us
