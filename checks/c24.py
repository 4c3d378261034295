"""C24: warm started QAOA uses the pre-solver's solutions and reports the samples of its runs truthfully."""
from . import eig
from .c16 import Patch
from .c22 import by_size, dump, res_dump, same
from .common import nparr, obj_val, unit

BOUNDS = ("problems of 2-3 binary or integer variables with and without constraint (QUBOs of 2-5 qubits), both senses, "
          "arbitrary real objective coefficients; 1-3 pre-solver solutions with arbitrary values, 1-3 requested; QAOA "
          "answers with 1-2 basis states of arbitrary amplitudes per run; arbitrary epsilon, relaxed values and mixer angle")
OUTSIDE = ("quality of the warm start; QAOA itself; runs in which QAOA returns no state; probabilities below 1e-4; floating "
           "point rounding")
ASSUMPTIONS = ["QAOA is replaced by a solver that records initial state and mixer and returns arbitrary states; in symbolic "
               "runs qiskit's QuantumCircuit is replaced by a product state model of ry/rz/rx gates, arcsin by its "
               "defining equations"]


def qaoa(ctx, states, log):
    from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult

    class Stub(MinimumEigensolver):
        initial_state = None
        mixer = None

        def compute_minimum_eigenvalue(self, operator, aux_operators=None):
            r = MinimumEigensolverResult()
            r.eigenstate = dict(states[len(log)])
            r.eigenvalue = 0.0
            log.append((self.initial_state, self.mixer, operator))
            return r

        @classmethod
        def supports_aux_operators(cls):
            return True

    return Stub()


def presolver(ctx, points, status, log):
    from qiskit_optimization.algorithms import OptimizationAlgorithm
    from qiskit_optimization.algorithms.optimization_algorithm import (OptimizationResult, OptimizationResultStatus,
                                                                       SolutionSample)

    class Pre(OptimizationAlgorithm):
        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, problem):
            log.append(dump(problem))
            st = getattr(OptimizationResultStatus, status)
            if points is None:
                return OptimizationResult([0.0] * problem.get_num_vars(), 0.0, problem.variables, st)
            return OptimizationResult(
                nparr(ctx, points[0]), 0.0, problem.variables, st,
                samples=[SolutionSample(nparr(ctx, p), 0.0, 1.0 / len(points), st) for p in points])

    return Pre()


def warm(ctx, kind, sense, npre, nsol, states, relax, agg=None):
    from qiskit_optimization.algorithms import (MeanAggregator, MinimumEigenOptimizer, WarmStartQAOAFactory,
                                                WarmStartQAOAOptimizer)
    from qiskit_optimization.algorithms.optimization_algorithm import OptimizationResultStatus, SolutionSample
    from qiskit_optimization.converters import QuadraticProgramToQubo

    qp, nq = eig.problem(ctx, kind, sense)
    before = dump(qp)
    own = QuadraticProgramToQubo()
    qubo = own.convert(qp)
    pts = [[ctx.real("p%d_%d" % (t, i), 0, 1) for i in range(nq)] for t in range(npre)]
    used = min(npre, nsol)
    sts, ws = [], []
    for t in range(used):
        lab = states[t % len(states)]
        if len(lab) == 1:
            amp = {lab[0]: 1.0}
            w = {lab[0]: 1.0}
        else:
            a = ctx.real("w%d" % t, 0.1, 0.9)
            b = ctx.real("v%d" % t, 0.1, 0.9)
            amp = {lab[0]: a, lab[1]: b}
            w = {lab[0]: a * a / (a * a + b * b), lab[1]: b * b / (a * a + b * b)}
        sts.append(amp)
        ws.append(w)
    log, plog, flog, alog = [], [], [], []

    class Factory(WarmStartQAOAFactory):
        def create_initial_variables(self, solution):
            flog.append(list(solution))
            return ("vars", len(flog) - 1)

        def create_initial_state(self, initial_variables):
            return ("state", initial_variables)

        def create_mixer(self, initial_variables):
            return ("mixer", initial_variables)

    class Agg(MeanAggregator):
        def aggregate(self, results):
            alog.append([res_dump(r) for r in results])
            if agg == "own":
                return [SolutionSample(nparr(ctx, r.x), r.fval, 1.0 / len(results), OptimizationResultStatus.SUCCESS)
                        for r in results]
            return super().aggregate(results)

    opt = WarmStartQAOAOptimizer(presolver(ctx, pts, "SUCCESS", plog), relax, qaoa(ctx, sts, log), epsilon=0.3,
                                 num_initial_solutions=nsol, warm_start_factory=Factory(0.3),
                                 aggregator=None if agg is None else Agg())
    res = opt.solve(qp)
    same(ctx, "the given problem is changed", before, dump(qp))
    # pre-solver
    want = dump(qubo)
    if relax:
        want[1] = [[n, "CONTINUOUS", l, u] for n, k, l, u in want[1]]
        want[5] = [0, 0, nq]
    ctx.check("pre-solver is called once", len(plog) == 1)
    same(ctx, "problem of the pre-solver", want, plog[0])
    # one run per solution, started from it
    ctx.check("number of runs", len(log) == used)
    same(ctx, "the runs start from the pre-solver's solutions", pts[:used], flog)
    for t, (ini, mix, op) in enumerate(log):
        ctx.check("initial state of the run", ini == ("state", ("vars", t)))
        ctx.check("mixer of the run", mix == ("mixer", ("vars", t)))
    # answer
    single = []
    for amp in sts:
        single.append(MinimumEigenOptimizer(eig.solver(ctx, dict(amp))).solve(qp))
    if used == 1:
        same(ctx, "result of the only run", res_dump(single[0]), res_dump(res))
        ctx.check("no aggregation", alog == [])
        ctx.cover("done")
        return
    if agg is not None:
        ctx.check("aggregated once", len(alog) == 1)
        same(ctx, "results to be aggregated", [res_dump(r) for r in single], alog[0])
    if agg == "own":
        keys = [(tuple(float(v) for v in r.x), r.fval) for r in single]
        ctx.check("aggregated samples", len(res.samples) == len(single))
        x = tuple(float(v) for v in res.x)
        ctx.check("solution is one of the samples", x in [k for k, f in keys])
        ctx.eq("value", res.fval, obj_val(qp, list(x)))
        ctx.cover("done")
        return
    prob = {}
    for w in ws:
        for s, p in w.items():
            x = tuple(float(v) for v in own.interpret(nparr(ctx, eig.bits(s))))
            prob[x] = prob.get(x, 0) + p / used
    got = {tuple(float(v) for v in s.x): s for s in res.samples}
    ctx.check("samples", sorted(got) == sorted(prob) and len(res.samples) == len(prob))
    sg = qp.objective.sense.value
    for x, s in got.items():
        if x in prob:
            ctx.eq("mean probability", s.probability, prob[x])
        ctx.eq("value of a sample", s.fval, obj_val(qp, list(x)))
        ctx.check("status of a sample", (s.status.name == "SUCCESS") == bool(qp.is_feasible(list(x))))
    x = tuple(float(v) for v in res.x)
    ctx.check("the solution is one of the samples", x in got)
    ctx.eq("value", res.fval, obj_val(qp, list(x)))
    ctx.check("status", (res.status.name == "SUCCESS") == bool(qp.is_feasible(list(x))))
    feas = [y for y in got if qp.is_feasible(list(y))]
    ctx.check("a feasible solution is preferred", not feas or x in feas)
    for y in (feas or got):
        ctx.check("no better sample", sg * obj_val(qp, list(x)) <= sg * obj_val(qp, list(y)) + 1e-9)
    ctx.check("variables", [v.name for v in res.variables] == [v.name for v in qp.variables])
    ctx.cover("done")


def refused(ctx, status):
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
    from qiskit_optimization.algorithms import WarmStartQAOAOptimizer

    log, plog = [], []
    qp, nq = eig.problem(ctx, "bb", "min")
    if status == "continuous":
        qp.continuous_var(0, ctx.real("u", 1, 5), "c")
    eps = ctx.real("eps", -1, 1)
    sol = presolver(ctx, [[0.0] * nq], "SUCCESS" if status == "continuous" else status, plog)
    try:
        opt = WarmStartQAOAOptimizer(sol, True, qaoa(ctx, [{"01": 1.0}], log), epsilon=eps)
        ctx.check("epsilon is within its range", ctx.And(eps >= 0, eps <= 0.5))
    except QiskitOptimizationError:
        ctx.check("epsilon is refused only outside its range", ctx.Or(eps < 0, eps > 0.5))
        ctx.cover("done")
        return

    class Cheap:
        def __call__(self, *a):
            return None

    opt._warm_start_factory.create_initial_state = opt._warm_start_factory.create_mixer = Cheap()
    try:
        opt.solve(qp)
        ctx.check("unsolved or unsupported problems are refused", status == "SUCCESS")
    except QiskitOptimizationError:
        ctx.check("solved problems are accepted", status != "SUCCESS")
        ctx.check("nothing is run", not log)
    ctx.cover("done")


class Circ:
    """product state model: per qubit the sequence of 2x2 matrices (pairs of real and imaginary part)."""

    def __init__(self, n, *a, **kw):
        self.n, self.ops = n, [[] for _ in range(n)]

    def ry(self, t, q):
        self._app(("ry", t), q)

    def rx(self, t, q):
        self._app(("rx", t), q)

    def rz(self, t, q):
        self._app(("rz", t), q)

    def _app(self, op, q):
        for i in (q if isinstance(q, (list, tuple, range)) else [q]):
            self.ops[int(i)].append(op)

    def __getattr__(self, name):
        from symx.engine import Unsupported

        raise Unsupported("gate " + name)

    def apply(self, i, v, beta):
        """v: [(re, im), (re, im)]"""
        for g, t in self.ops[i]:
            s, c = half(t, beta)
            (ar, ai), (br, bi) = v
            if g == "ry":
                v = [(c * ar - s * br, c * ai - s * bi), (s * ar + c * br, s * ai + c * bi)]
            elif g == "rx":
                v = [(c * ar + s * bi, c * ai - s * br), (c * br + s * ai, c * bi - s * ar)]
            else:  # rz: e^{-i t/2}, e^{i t/2}
                v = [(c * ar + s * ai, c * ai - s * ar), (c * br - s * bi, c * bi + s * br)]
        return v


def half(t, beta):
    import math

    from symx.npshim import Angle

    if isinstance(t, Beta):
        return beta.sincos(t.f / 2)
    if isinstance(t, Angle):
        return t.sincos(0.5)
    return math.sin(t / 2), math.cos(t / 2)


class Beta:
    """stand-in for the circuit parameter."""

    def __init__(self, name, f=1.0):
        self.f = f

    def __mul__(self, f):
        return Beta("", self.f * f)

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1


def factory(ctx, n, how):
    """initial variables, the state that has them as probabilities, the mixer with that state as its eigenstate."""
    from qiskit_optimization.algorithms import WarmStartQAOAFactory

    eps = ctx.real("eps", 0, 0.5) if how == "vars" else 0.25
    sol = [ctx.real("x%d" % i, 0, 1) for i in range(n)]
    fac = WarmStartQAOAFactory(eps)
    c = list(fac.create_initial_variables(nparr(ctx, sol))) if how == "vars" else sol
    ctx.check("one value per variable", len(c) == n)
    for v, x in zip(c, sol) if how == "vars" else []:
        want = ctx.If(x < eps, eps, ctx.If(x > 1 - eps, 1 - eps, x))
        ctx.eq("initial value", v, want)
    if how == "vars":
        ctx.cover("done")
        return
    if not ctx.symbolic:
        from qiskit.quantum_info import Operator, Statevector

        state = Statevector.from_instruction(fac.create_initial_state(c))
        mixer = fac.create_mixer(c)
        ctx.check("one parameter", len(mixer.parameters) == 1)
        b = ctx.real("sb", -1, 1) * 3
        mixer = mixer.bind_parameters({list(mixer.parameters)[0]: b})
        for i in range(n):
            p = state.probabilities([i])
            ctx.check("initial state", abs(p[1] - c[i]) < 1e-6)
        out = state.evolve(Operator(mixer))
        import numpy as np

        ctx.check("the mixer keeps the initial state", abs(abs(np.vdot(out.data, state.data)) - 1) < 1e-6)
        # ground state: the opposite state picks up the opposite phase, e^{-i beta} against e^{i beta}
        ph = np.vdot(state.data, out.data)
        ctx.check("phase of the initial state", abs(ph - np.exp(1j * n * b)) < 1e-6)
        ctx.cover("done")
        return
    from symx.npshim import Angle

    sb = ctx.real("sb", -1, 1)
    cb = (1 - sb * sb).sqrt()
    beta = Angle(sb, cb, 1)
    with Patch(ctx, {"QuantumCircuit": Circ, "Parameter": Beta}):
        state = fac.create_initial_state(c)
        mixer = fac.create_mixer(c)
    ctx.check("qubits", state.n == n and mixer.n == n)

    def near(label, a, b):
        ctx.check(label, ctx.And(a - b <= 1e-9, b - a <= 1e-9))

    for i in range(n):
        v = state.apply(i, [(1.0, 0.0), (0.0, 0.0)], beta)
        (ar, ai), (br, bi) = v
        near("initial state", br * br + bi * bi, c[i])
        out = mixer.apply(i, v, beta)
        # e^{i beta} v
        for (xr, xi), (yr, yi) in zip(out, v):
            near("the mixer keeps the initial state", xr, cb * yr - sb * yi)
            near("the mixer keeps the initial state", xi, cb * yi + sb * yr)
    ctx.cover("done")


def default_factory(ctx, eps):
    """without factory, the epsilon of the optimizer is used."""
    from qiskit_optimization.algorithms import WarmStartQAOAOptimizer
    from qiskit.quantum_info import Statevector

    qp, nq = eig.problem(ctx, "bb", "min")
    log, plog = [], []
    pts = [[0.0, 1.0], [0.4, 1.0]]
    opt = WarmStartQAOAOptimizer(presolver(ctx, pts, "SUCCESS", plog), True, qaoa(ctx, [{"01": 1.0}] * 2, log), epsilon=eps,
                                 num_initial_solutions=2)
    opt.solve(qp)
    for t, (ini, mix, op) in enumerate(log):
        s = Statevector.from_instruction(ini)
        for i in range(2):
            ctx.check("initial state", abs(s.probabilities([i])[1] - min(max(pts[t][i], eps), 1 - eps)) < 1e-9)
    ctx.check("runs", len(log) == 2)
    ctx.cover("done")


def units(tier):
    us = []
    D = ("done",)

    def add(name, fn, **kw):
        us.append(unit(name, fn, must_cover=D, **kw))

    for s in ("min", "max"):
        for r in (True, False):
            add("warm/one/%s/%s" % (s, r), warm, kind="bb<=", sense=s, npre=2, nsol=1, states=[["010", "101"]], relax=r)
            add("warm/one-pre/%s/%s" % (s, r), warm, kind="ib", sense=s, npre=1, nsol=3, states=[["010", "101"]], relax=r)
            add("warm/two/%s/%s" % (s, r), warm, kind="bb", sense=s, npre=2, nsol=2, relax=r,
                states=[["01", "10"], ["01", "11"]])
        add("warm/int/%s" % s, warm, kind="ib", sense=s, npre=3, nsol=2, relax=True, states=[["010", "101"], ["110"]])
        add("warm/cons/%s" % s, warm, kind="bb<=", sense=s, npre=2, nsol=3, relax=True, states=[["011", "001"], ["001"]])
        add("warm/cons2/%s" % s, warm, kind="bi<=", sense=s, npre=2, nsol=2, relax=False,
            states=[["00010", "11010"], ["11010"]])
        add("warm/three/%s" % s, warm, kind="bbb", sense=s, npre=3, nsol=3, relax=True, agg="mean",
            states=[["001"], ["110", "001"], ["110"]])
        add("warm/own/%s" % s, warm, kind="ib", sense=s, npre=2, nsol=2, relax=True, agg="own",
            states=[["010"], ["100"]])
    for st in ("SUCCESS", "FAILURE", "INFEASIBLE", "continuous"):
        add("refused/%s" % st, refused, status=st)
    for n in (1, 2):
        add("factory/vars/%d" % n, factory, n=n, how="vars")
        add("factory/circuits/%d" % n, factory, n=n, how="circuits")
    for e in (0.1, 0.25, 0.5):
        add("default-factory/%s" % e, default_factory, eps=e)
    return us
