"""C14: the result of an eigensolver-based optimizer is consistent, whatever the eigensolver returned."""
from . import eig
from .common import all_bits, energy, ising_terms, nparr, obj_val, unit

BOUNDS = ("problems with 2-3 binary/integer variables and 0-1 constraints (QUBOs of 2-4 qubits; 12 in the wide units), both senses, arbitrary "
          "real objectives; eigenstates with up to 4 basis states (5 thorough) of arbitrary real amplitudes, as "
          "dictionary, state function or vector, real and complex amplitudes, no eigenstate; all orders of "
          "the sampled objective values"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = "more qubits or basis states; floating point rounding"


def solve(ctx, kind, sense, form, states, conv="default"):
    from qiskit_optimization.algorithms import MinimumEigenOptimizer
    from qiskit_optimization.algorithms.optimization_algorithm import OptimizationResultStatus as St
    from qiskit_optimization.converters import QuadraticProgramToQubo

    qp, nq = eig.problem(ctx, kind, sense)
    es, w = eig.eigenstate(ctx, form, nq, states)
    seen = []
    own = QuadraticProgramToQubo()
    qubo = own.convert(qp)
    ctx.check("harness: number of qubits", qubo.get_num_vars() == nq)
    cv = {"default": None, "list": [QuadraticProgramToQubo()], "one": QuadraticProgramToQubo()}.get(conv)
    if conv == "empty":
        cv = []
    opt = MinimumEigenOptimizer(eig.solver(ctx, es, seen), converters=cv)
    res = opt.solve(qp)
    # the operator handed to the eigensolver
    ctx.check("one eigensolver call", len(seen) == 1)
    t = ising_terms(seen[0])
    b0 = [0] * nq
    sg = 1 if sense == "min" else -1
    # many qubits: polynomials of degree two agree if they agree at all points with at most two ones
    ctx.check("one and two body terms", all(sum(bool(v) for v in z) <= 2 for _, z, _ in t))
    for b in all_bits(nq) if nq < 8 else [[int(i in (j, k)) for i in range(nq)] for j in range(nq) for k in range(j, nq)]:
        ctx.eq("the operator's energies are the QUBO's values", energy(t, b) - energy(t, b0),
               sg * (obj_val(qubo, b) - obj_val(qubo, b0)))
    # the result
    n = qp.get_num_vars()
    names = [v.name for v in qp.variables]
    ctx.check("variable names", list(res.variable_names) == names)
    ctx.check("length", len(res.x) == n)
    x = [float(v) for v in res.x]
    ctx.eq("value of the result", res.fval, obj_val(qp, x))
    ctx.check("status of the result", (res.status == St.SUCCESS) == eig.feasible(qp, x) and
              res.status in (St.SUCCESS, St.INFEASIBLE))
    for i, nm in enumerate(names):
        ctx.check("access by index and name", float(res[i]) == x[i] and float(res[nm]) == x[i] and
                  float(res.variables_dict[nm]) == x[i])
    ctx.check("variables_dict", sorted(res.variables_dict) == sorted(names))
    # samples
    prev = None
    for s in res.samples:
        y = [float(v) for v in s.x]
        ctx.check("sample length", len(y) == n)
        ctx.eq("value of a sample", s.fval, obj_val(qp, y))
        ctx.check("status of a sample", (s.status == St.SUCCESS) == eig.feasible(qp, y))
        if prev is not None:
            ctx.check("feasible samples first", prev.status.value <= s.status.value)
            if prev.status == s.status:
                ctx.check("samples in order", sg * prev.fval <= sg * s.fval)
        prev = s
    for s in res.raw_samples:
        ctx.eq("value of a raw sample", s.fval, obj_val(qubo, [int(v) for v in s.x]))
        ctx.check("the result is at least as good as every raw sample",
                  sg * obj_val(qubo, [int(v) for v in res.raw_samples[0].x]) <= sg * s.fval)
    best = own.interpret(nparr(ctx, [int(v) for v in res.raw_samples[0].x]))
    ctx.check("the result is the best raw sample", [float(v) for v in best] == x)
    ctx.check("the result is sampled", any([float(v) for v in s.x] == x for s in res.samples))
    ctx.cover("done")


def nostate(ctx, kind, sense):
    from qiskit_optimization.algorithms import MinimumEigenOptimizer
    from qiskit_optimization.algorithms.optimization_algorithm import OptimizationResultStatus as St

    qp, nq = eig.problem(ctx, kind, sense)
    res = MinimumEigenOptimizer(eig.solver(ctx, None)).solve(qp)
    ctx.check("failure is reported", res.status == St.FAILURE)
    ctx.check("no value is made up", res.x is None and res.fval is None)
    ctx.check("names", list(res.variable_names) == [v.name for v in qp.variables])


def constant(ctx, n, sense):
    """a constant objective."""
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.algorithms import MinimumEigenOptimizer

    qp = QuadraticProgram()
    for i in range(n):
        qp.binary_var("v%d" % i)
    k = ctx.real("k")
    (qp.minimize if sense == "min" else qp.maximize)(k)
    res = MinimumEigenOptimizer(eig.solver(ctx, {"0" * (n - 1) + "1": 1.0})).solve(qp)
    ctx.eq("value", res.fval, k)
    ctx.check("point", [float(v) for v in res.x] == [1.0] + [0.0] * (n - 1))


def incompatible(ctx, case):
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
    from qiskit_optimization.algorithms import MinimumEigenOptimizer

    qp = QuadraticProgram()
    qp.binary_var("x")
    a = ctx.real("a", -3, 3)
    if case == "continuous":
        qp.continuous_var(0, 1, "y")
    else:
        qp.binary_var("y")
    qp.minimize(linear={"x": a})
    if case == "quadratic":
        qp.quadratic_constraint({"x": 1}, {("x", "y"): 1}, "<=", a)
    if case == "fraction":
        ctx.assume(a == 0.5)
        qp.linear_constraint({"x": a, "y": 1}, "<=", 1)
    calls = []
    opt = MinimumEigenOptimizer(eig.solver(ctx, {"00": 1.0}, calls))
    ctx.check("is_compatible", opt.is_compatible(qp) == (case == "ok"))
    try:
        opt.solve(qp)
        ctx.check("only compatible problems are solved", case == "ok")
    except QiskitOptimizationError:
        ctx.check("compatible problems are solved", case != "ok" and not calls)


def result(ctx, case):
    """the result object itself."""
    from qiskit_optimization import QiskitOptimizationError
    from qiskit_optimization.algorithms.optimization_algorithm import (OptimizationResult, OptimizationResultStatus,
                                                                       SolutionSample)
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram()
    qp.binary_var("x")
    qp.integer_var(-5, 5, "y")
    qp.continuous_var(name="z")
    v = [ctx.real("v%d" % i) for i in range(3)]
    f = ctx.real("f")
    if case == "size":
        try:
            OptimizationResult(v[:2], f, qp.variables, OptimizationResultStatus.SUCCESS)
            ctx.fail("wrong sizes are rejected")
        except QiskitOptimizationError:
            ctx.cover("done")
        return
    if case == "none":
        r = OptimizationResult(None, f, qp.variables, OptimizationResultStatus.FAILURE)
        ctx.check("no point", r.x is None and r.status == OptimizationResultStatus.FAILURE)
        ctx.cover("done")
        return
    samples = None
    if case == "samples":
        p = ctx.real("p", 0, 1)
        samples = [SolutionSample(nparr(ctx, v), f, p, OptimizationResultStatus.SUCCESS),
                   SolutionSample(nparr(ctx, [v[2], v[1], v[0]]), f, 1 - p, OptimizationResultStatus.INFEASIBLE)]
    r = OptimizationResult(v if case == "list" else nparr(ctx, v), f, qp.variables, OptimizationResultStatus.SUCCESS,
                           samples=samples)
    ctx.check("length", len(r.x) == 3)
    for i, nm in enumerate("xyz"):
        ctx.eq("x", r.x[i], v[i])
        ctx.eq("by index", r[i], v[i])
        ctx.eq("by name", r[nm], v[i])
        ctx.eq("dict", r.variables_dict[nm], v[i])
    ctx.eq("fval", r.fval, f)
    ctx.check("names", list(r.variable_names) == ["x", "y", "z"])
    if samples:
        ctx.check("samples", len(r.samples) == 2)
    else:
        ctx.check("default sample", len(r.samples) == 1)
        ctx.eq("default sample value", r.samples[0].fval, f)
        ctx.eq("default sample probability", r.samples[0].probability, 1)
        for i in range(3):
            ctx.eq("default sample point", r.samples[0].x[i], v[i])
    try:
        r["nope"]
        ctx.fail("unknown names are rejected")
    except KeyError:
        ctx.cover("done")


def units(tier):
    from . import edits
    us = []

    def add(kind, sense, form, states, conv="default", cost=1):
        us.append(unit("solve/%s/%s/%s/%s/%s" % (kind, sense, form, "+".join(states), conv), solve, kind=kind,
                       sense=sense, form=form, states=states, conv=conv, must_cover=("done",), cost=cost))

    for s in ("min", "max"):
        for f in ("dict", "dictfn", "array", "complex"):
            add("bb", s, f, ["01", "10", "00"])
            add("bb", s, f, ["11"])
            add("bb<=", s, f, ["001", "101", "010"])
            add("ib", s, f, ["001", "110"])
            add("bb==", s, f, ["10", "01"])
        for f in ("symcomplex", "dictcomplex"):
            add("bb", s, f, ["01", "10", "00"])
            add("bb<=", s, f, ["101", "010"])
        add("bbb", s, "dict", ["001", "011", "100"], cost=3)
        add("2c", s, "dict", ["0001", "0101", "1010"], cost=3)
        add("bb>=", s, "dict", ["001", "010", "111"])
        add("bi<=", s, "dict", ["00001", "00110", "11011"], cost=3)
        add("bb", s, "dict", ["00", "01", "10", "11"], cost=4)
        add("wide", s, "dict", ["100000000010", "010000000100"], cost=4)
        add("bb", s, "dict", ["01", "10"], conv="empty")
        add("bb<=", s, "dict", ["101", "010"], conv="list")
        add("ib", s, "dict", ["101", "010"], conv="one")
        if tier != "quick":
            add("bb", s, "array", ["00", "01", "10", "11"], cost=9)
            add("bbb", s, "dict", ["001", "011", "100", "110"], cost=9)
            add("bi<=", s, "dict", ["00001", "00110", "11011", "01100"], cost=9)
            add("bb<=", s, "array", ["001", "101", "010", "110"], cost=9)
        us.append(unit("nostate/%s" % s, nostate, kind="ib", sense=s))
        for n in (1, 2):
            us.append(unit("constant/%d/%s" % (n, s), constant, n=n, sense=s))
    for c in ("ok", "continuous", "quadratic", "fraction"):
        us.append(unit("compat/%s" % c, incompatible, case=c))
    for c in ("list", "array", "samples", "none", "size"):
        us.append(unit("result/%s" % c, result, case=c, must_cover=("done",)))
    us += edits.units("meo", ("bb|l==", "bb|"), edits.LIN)
    return us
