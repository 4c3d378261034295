"""C15: samples carry the probabilities of the basis states they come from, with the right bit order."""
from . import eig
from .common import add_var, nparr, unit

BOUNDS = ("problems with 2-3 variables (QUBOs of 2-5 qubits; 12 in the wide units), eigenstates with up to 4 basis states of arbitrary real "
          "or complex amplitudes (dictionary, state function, vector; unnormalised dictionaries included); correlations of up to 3 samples of 3 variables with arbitrary probabilities")
OUTSIDE = ("basis states with probability below 1e-4 (the documented cut-off is 1e-6); "
           "floating point rounding")


def probs(ctx, kind, sense, form, states):
    from qiskit_optimization.algorithms import MinimumEigenOptimizer
    from qiskit_optimization.converters import QuadraticProgramToQubo

    qp, nq = eig.problem(ctx, kind, sense)
    es, w = eig.eigenstate(ctx, form, nq, states)
    res = MinimumEigenOptimizer(eig.solver(ctx, es)).solve(qp)
    own = QuadraticProgramToQubo()
    own.convert(qp)
    total = sum(w.values()) if form.startswith("dict") else 1
    want, raw = {}, {}
    for s in states:
        b = eig.bits(s)
        x = tuple(float(v) for v in own.interpret(nparr(ctx, b)))
        want[x] = want.get(x, 0) + w[s] / total
        raw[tuple(b)] = w[s] / total
    got_raw = {}
    for s in res.raw_samples:
        key = tuple(int(v) for v in s.x)
        ctx.check("raw sample reported once", key not in got_raw)
        got_raw[key] = s.probability
    got = {}
    for s in res.samples:
        key = tuple(float(v) for v in s.x)
        ctx.check("sample reported once", key not in got)
        got[key] = s.probability
    for what, g, t in (("raw sample", got_raw, raw), ("sample", got, want)):
        for k in g:
            ctx.check("%s is in the eigenstate" % what, k in t)
        for k, p in t.items():
            if k in g:
                ctx.eq("probability of a %s" % what, g[k], p)
            else:
                ctx.check("no %s is lost" % what, p < 0.0001)
    ctx.cover("done")


def corr(ctx, n, pts):
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.algorithms.optimization_algorithm import (OptimizationResult, OptimizationResultStatus,
                                                                       SolutionSample)

    qp = QuadraticProgram()
    for i in range(n):
        qp.binary_var("v%d" % i)
    p = [ctx.real("p%d" % k, 0, 1) for k in range(len(pts))]
    ctx.assume(ctx.close(sum(p), 1) if not ctx.symbolic else sum(p) == 1)
    bits = [[ctx.bit("b%d_%d" % (k, i)) for i in range(n)] if pt is None else list(pt) for k, pt in enumerate(pts)]
    res = OptimizationResult(
        nparr(ctx, bits[0]), 0.0, qp.variables, OptimizationResultStatus.SUCCESS,
        samples=[SolutionSample(nparr(ctx, b), 0.0, q, OptimizationResultStatus.SUCCESS) for b, q in zip(bits, p)])
    c = res.get_correlations()
    ctx.check("shape", c.shape == (n, n))
    for i in range(n):
        for j in range(i):
            e = 0
            for b, q in zip(bits, p):
                e = e + q * (1 - 2 * b[i]) * (1 - 2 * b[j])
            ctx.eq("correlation", c[i][j], e)
    ctx.cover("done")


def corr_values(ctx, kinds, m):
    """samples with values of every type: plus the probability where two values agree, minus where they differ."""
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.algorithms.optimization_algorithm import (OptimizationResult, OptimizationResultStatus,
                                                                       SolutionSample)

    qp = QuadraticProgram()
    for i, k in enumerate(kinds):
        add_var(qp, (k, "v%d" % i, -5, 5))
    n = len(kinds)
    p = [ctx.real("p%d" % k, 0, 1) for k in range(m)]
    v = [[ctx.bit("b%d_%d" % (k, i)) if kinds[i] == "b" else (ctx.int if kinds[i] == "i" else ctx.real)(
        "v%d_%d" % (k, i), -5, 5) for i in range(n)] for k in range(m)]
    res = OptimizationResult(
        nparr(ctx, v[0]), 0.0, qp.variables, OptimizationResultStatus.SUCCESS,
        samples=[SolutionSample(nparr(ctx, b), 0.0, q, OptimizationResultStatus.SUCCESS) for b, q in zip(v, p)])
    c = res.get_correlations()
    for i in range(n):
        for j in range(i):
            e = 0
            for b, q in zip(v, p):
                e = e + ctx.If(b[i] == b[j], q, -q)
            ctx.eq("correlation", c[i][j], e)
    ctx.cover("done")


def units(tier):
    us = []

    def add(kind, sense, form, states):
        us.append(unit("probs/%s/%s/%s/%s" % (kind, sense, form, "+".join(states)), probs, kind=kind, sense=sense,
                       form=form, states=states, must_cover=("done",)))

    for f in ("dict", "dictfn", "array", "complex"):
        for m, st in enumerate((["01"], ["10"], ["01", "10"], ["00", "01", "11"])):
            add("bb", "min" if m % 2 else "max", f, st)
        add("bb<=", "min", f, ["001", "101", "010"])
        add("bb<=", "max", f, ["001", "101"])
        add("ib", "min", f, ["001", "010", "110"])
        add("bb==", "max", f, ["10", "01"])
    for f in ("symcomplex", "dictcomplex"):
        add("bb", "min", f, ["01", "10"])
        add("bb", "max", f, ["00", "01", "11"])
        add("bb<=", "min", f, ["001", "101", "010"])
        add("ib", "min", f, ["001", "010", "110"])
        add("2c", "max", f, ["0001", "0101", "1001"])
    add("bbb", "min", "dict", ["001", "011", "100"])
    add("bbb", "max", "array", ["110", "001"])
    add("2c", "min", "dict", ["0001", "0101", "1010"])
    add("2c", "max", "dictfn", ["0001", "0101", "1001"])
    add("2c", "max", "array", ["0000", "0111", "1011", "1100"])
    add("bi<=", "min", "dict", ["00010", "00100", "11010"])
    add("bi<=", "max", "array", ["00110", "11010"])
    for f in ("dict", "dictfn", "dictcomplex"):
        add("wide", "min", f, ["100000000010", "010000000001", "110000000100"])
    if tier != "quick":
        for f in ("dict", "array"):
            for s in ("min", "max"):
                add("bbb", s, f, ["001", "011", "100", "110"])
                add("ib", s, f, ["001", "010", "110", "101"])
    us.append(unit("corr/2", corr, n=2, pts=[None, None], must_cover=("done",)))
    us.append(unit("corr/3", corr, n=3, pts=[None, (0, 1, 0)], must_cover=("done",)))
    us.append(unit("corr/3b", corr, n=3, pts=[None, (0, 1, 1), (1, 1, 0)], must_cover=("done",)))
    for kinds in ("ii", "ib", "iii", "cc"):
        us.append(unit("corr/values/%s" % kinds, corr_values, kinds=kinds, m=2, must_cover=("done",)))
    return us
