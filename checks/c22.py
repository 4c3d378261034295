"""C22: converting or solving a problem leaves it unchanged, and converters and optimizers can be used again."""
from .c16 import Patch
from .c23 import Device, Rng, form_class
from .common import nparr, unit
from . import eig

BOUNDS = ("programs of 2-3 variables of all types with linear and quadratic constraints, arbitrary real objective and "
          "constraint coefficients and right-hand sides, both senses; every converter (and their composition), "
          "substitute_variables, to_ising, and every optimizer on two problems one after the other"
          "; programs that are used, edited in one of about 30 ways and used again; "
          "results kept (and edited by the caller) while the optimizer solves further problems")
OUTSIDE = "larger problems; objects shared between a problem and its result's list of variables"
ASSUMPTIONS = ["eigensolver, quantum device, local solvers, CPLEX and inner optimizers are stand-ins that return arbitrary "
               "answers"]


def dump(qp):
    """everything a program says, as nested lists of numbers and names (copied)."""
    n = qp.get_num_vars()

    def lin(e):
        a = e.to_array()
        return [a[i] for i in range(n)]

    def quad(e):
        a = e.to_array()
        return [a[i][j] for i in range(n) for j in range(n)]

    return [qp.name, [[v.name, v.vartype.name, v.lowerbound, v.upperbound] for v in qp.variables],
            [qp.objective.sense.name, qp.objective.constant, lin(qp.objective.linear), quad(qp.objective.quadratic)],
            [[c.name, c.sense.name, c.rhs, lin(c.linear)] for c in qp.linear_constraints],
            [[c.name, c.sense.name, c.rhs, lin(c.linear), quad(c.quadratic)] for c in qp.quadratic_constraints],
            [qp.get_num_binary_vars(), qp.get_num_integer_vars(), qp.get_num_continuous_vars()],
            sorted(qp.variables_index), sorted(qp.linear_constraints_index), sorted(qp.quadratic_constraints_index)]


def same(ctx, label, a, b):
    if isinstance(a, (list, tuple)):
        ctx.check(label, isinstance(b, (list, tuple)) and len(a) == len(b))
        if isinstance(b, (list, tuple)) and len(a) == len(b):
            for p, q in zip(a, b):
                same(ctx, label, p, q)
    elif isinstance(a, str) or a is None:
        ctx.check(label, a == b)
    else:
        ctx.eq(label, b, a)


def build(ctx, kind, sense, t="", fixed=False):
    """kind: variables + constraints, e.g. bi|l<=q== ; t: prefix of the input names."""
    from qiskit_optimization import QuadraticProgram

    vs, cs = kind.split("|")
    qp = QuadraticProgram("p" + t)
    for i, k in enumerate(vs):
        nm = "xyz"[i] + t
        if k == "b":
            qp.binary_var(nm)
        elif k == "i":
            qp.integer_var(-1, 2, nm)
        else:
            qp.continuous_var(-1, 3, nm)
    n = len(vs)

    def co(nm):
        if fixed:
            return {"l0": 3, "l1": -2, "q": 5}.get(nm, 1)
        c = ctx.real(t + nm, -9, 9)
        ctx.assume(c != 0)
        return c

    (qp.minimize if sense == "min" else qp.maximize)(
        ctx.real(t + "k", -9, 9), {0: co("l0"), n - 1: co("l1")} if n > 1 else {0: co("l0")},
        {(0, n - 1): co("q")} if n > 1 else {})
    m = 0
    while cs:
        ck, s, cs = cs[0], cs[1:3], cs[3:]
        row = {i: [1, -2, 3][(i + m) % 3] for i in range(n)}
        if ck == "L":  # symbolic coefficients
            row = {i: co("c%d_%d" % (m, i)) for i in range(n)}
        r = 1 if fixed else ctx.int(t + "r%d" % m, 0, 2)
        if ck in "lL":
            qp.linear_constraint(row, s, r, "k%d%s" % (m, t))
        else:
            qp.quadratic_constraint(row, {(0, n - 1): 2}, s, r, "k%d%s" % (m, t))
        m += 1
    return qp


def scribble(qp):
    """change everything that can be changed."""
    n = qp.get_num_vars()
    for i in range(n):
        qp.objective.linear[i] = 77 + i
        qp.objective.quadratic[0, i] = 55 + i
        for c in list(qp.linear_constraints) + list(qp.quadratic_constraints):
            c.linear[i] = 33 + i
        for c in qp.quadratic_constraints:
            c.quadratic[0, i] = 22 + i
    qp.objective.constant = 99
    qp.objective.sense = type(qp.objective.sense).MAXIMIZE if qp.objective.sense.name == "MINIMIZE" else \
        type(qp.objective.sense).MINIMIZE
    for c in list(qp.linear_constraints) + list(qp.quadratic_constraints):
        c.rhs = 11
    for v in qp.variables:
        v.upperbound = 1000
        v.lowerbound = -1000
    qp.name = "changed"
    qp.continuous_var(name="fresh")
    qp.linear_constraint({0: 1}, "<=", 1, "freshc")


def converter(which):
    from qiskit_optimization import converters as cv

    return {"ineq": lambda: cv.InequalityToEquality(), "ineq-int": lambda: cv.InequalityToEquality("integer"),
            "ineq-cont": lambda: cv.InequalityToEquality("continuous"), "int": lambda: cv.IntegerToBinary(),
            "pen": lambda: cv.LinearEqualityToPenalty(3), "autopen": lambda: cv.LinearEqualityToPenalty(),
            "qubo": lambda: cv.QuadraticProgramToQubo(), "qubo5": lambda: cv.QuadraticProgramToQubo(5)}[which]()


def leaves(ctx, which, kind, sense):
    qp = build(ctx, kind, sense)
    before = dump(qp)
    conv = converter(which)
    dst = conv.convert(qp)
    same(ctx, "conversion changes the given problem", before, dump(qp))
    N = dst.get_num_vars()
    x = [ctx.bit("b%d" % i) for i in range(N)]
    p = nparr(ctx, x)
    y = list(conv.interpret(p))
    same(ctx, "interpretation changes the given values", x, [p[i] for i in range(N)])
    same(ctx, "interpretation changes the given problem", before, dump(qp))
    first = dump(dst)
    again = conv.convert(qp)
    same(ctx, "converting again gives another result", first, dump(again))
    scribble(dst)
    same(ctx, "the converted problem shares data with the given one", before, dump(qp))
    out = dump(again)
    scribble(qp)
    same(ctx, "the converted problem changes with the given one", out, dump(again))
    same(ctx, "interpretation changes with the given problem", y, list(conv.interpret(nparr(ctx, x))))
    ctx.cover("done")


def reuse(ctx, which, kinds, senses):
    ps = [build(ctx, k, s, t) for k, s, t in zip(kinds, senses, ("", "2"))]
    conv = converter(which)
    for p in (ps[0], ps[1], ps[0]):
        dst = conv.convert(p)
        own = converter(which)
        want = own.convert(p)
        same(ctx, "result of a used converter", dump(want), dump(dst))
        N = want.get_num_vars()
        for b in ([0] * N, [1] * N, [i % 2 for i in range(N)], [1 - i % 2 for i in range(N)]):
            same(ctx, "interpretation of a used converter", list(own.interpret(nparr(ctx, b))),
                 list(conv.interpret(nparr(ctx, b))))
    ctx.cover("done")


def settings(ctx, which, kind, sense):
    """changing a setting has the effect of creating the object with it."""
    from qiskit_optimization import converters as cv

    qp = build(ctx, kind, sense)
    if which == "mode":
        first, then = ctx.choice("modes", [(a, b) for a in ("auto", "integer", "continuous")
                                           for b in ("auto", "integer", "continuous")])
        used, fresh = cv.InequalityToEquality(first), cv.InequalityToEquality(then)
        ctx.check("mode", used.mode == first)
        if ctx.choice("before", [0, 1]):
            used.convert(qp)
        used.mode = then
        ctx.check("mode", used.mode == then)
    else:
        cls = cv.LinearEqualityToPenalty if which == "penalty" else cv.QuadraticProgramToQubo
        pen = {"value": ctx.real("pen", 1, 50), "auto": None}[ctx.choice("to", ["value", "auto"])]
        used, fresh = cls(ctx.choice("from", [None, 7])), cls(pen)
        if ctx.choice("before", [0, 1]):
            used.convert(qp)
        used.penalty = pen
    for _ in range(2):
        same(ctx, "result after a change of settings", dump(fresh.convert(qp)), dump(used.convert(qp)))
    if which not in ("mode",):
        same(ctx, "penalty", fresh.penalty, used.penalty)
    ctx.cover("done")


def penalty_option(ctx, which, kind, sense):
    """an optimizer's penalty is that of its conversion; a new eigensolver is used."""
    from qiskit_optimization import algorithms as al
    from qiskit_optimization.converters import QuadraticProgramToQubo

    qp = build(ctx, kind, sense)
    pen = ctx.real("pen", 1, 50)
    log = {"a": [], "b": []}

    def solver(key):
        inner = by_size(ctx)
        old = inner.compute_minimum_eigenvalue

        def run(operator, aux_operators=None):
            log[key].append(eig_terms((operator, 0)))
            return old(operator, aux_operators)

        inner.compute_minimum_eigenvalue = run
        return inner

    if which == "meo":
        one = al.MinimumEigenOptimizer(solver("a"), penalty=pen)
        two = al.MinimumEigenOptimizer(by_size(ctx), converters=[QuadraticProgramToQubo(pen)])
        two.min_eigen_solver = mine = solver("b")
        ctx.check("eigensolver", two.min_eigen_solver is mine)
    else:
        def rec(key, **kw):
            return al.RecursiveMinimumEigenOptimizer(
                al.MinimumEigenOptimizer(solver(key)), min_num_vars=1,
                min_num_vars_optimizer=al.MinimumEigenOptimizer(by_size(ctx)), **kw)

        one, two = rec("a", penalty=pen), rec("b", converters=[QuadraticProgramToQubo(pen)])
    same(ctx, "result with a penalty", res_dump(one.solve(qp)), res_dump(two.solve(qp)))
    ctx.check("the eigensolver set is used", len(log["a"]) > 0 and len(log["a"]) == len(log["b"]))
    same(ctx, "operators with a penalty", log["a"], log["b"])
    ctx.cover("done")


def subst(ctx, kind, sense, how):
    qp = build(ctx, kind, sense)
    before = dump(qp)
    if how == "ising":
        a = eig_terms(qp.to_ising())
        same(ctx, "to_ising changes the problem", before, dump(qp))
        same(ctx, "to_ising a second time", a, eig_terms(qp.to_ising()))
        ctx.cover("done")
        return
    if how == "const":
        new = qp.substitute_variables(constants={"x": ctx.int("v", 0, 1)})
    else:
        new = qp.substitute_variables(variables={"x": ("y", 1)})
    same(ctx, "substitution changes the problem", before, dump(qp))
    scribble(new)
    same(ctx, "the new problem shares data with the old one", before, dump(qp))
    ctx.cover("done")


def eig_terms(r):
    from .common import ising_terms

    op, off = r
    return [off, [[c, str(z)] for c, z, x in ising_terms(op)]]


def res_dump(res):
    out = [list(res.x), res.fval, res.status.name, [v.name for v in res.variables]]
    if res.samples is not None:
        out.append([[list(s.x), s.fval, s.probability, s.status.name] for s in res.samples])
    return out


def solve(ctx, which, kinds, senses, conv=None):
    """a problem, another one, the first again: unchanged problems, and each answer like that of a fresh optimizer."""
    ps = [build(ctx, k, s, t, fixed=bool(t)) for k, s, t in zip(kinds, senses, ("", "2"))]
    before = [dump(p) for p in ps]
    env = globals()["env_" + which]
    make, patch, done = env(ctx, conv)
    try:
        with Patch(ctx, patch):
            opt = make()
            got, objs = [], []
            for i in (0, 1, 0):
                objs.append(opt.solve(ps[i]))
                got.append(res_dump(objs[-1]))
                for o, g in zip(objs, got):
                    same(ctx, "an earlier result changes with a later solve", g, res_dump(o))
                same(ctx, "solving changes the problem", before[i], dump(ps[i]))
                same(ctx, "solving changes the other problem", before[1 - i], dump(ps[1 - i]))
            same(ctx, "answer of a used optimizer", res_dump(make().solve(ps[1])), got[1])
            same(ctx, "answer to the same problem later", got[0], got[2])
            for o in objs:  # results belong to the caller
                for v in [o.x] + [t.x for t in o.samples or []] + [t.x for t in getattr(o, "raw_samples", None) or []]:
                    v[0] = v[0] + 7
            last = opt.solve(ps[0])
            same(ctx, "answer after the caller changed earlier results", got[0], res_dump(last))
            for p in ps:
                scribble(p)
            same(ctx, "a result changes with the problem",
                 [got[0][0], got[0][1], got[0][2], got[0][4:]], [list(last.x), last.fval, last.status.name, res_dump(last)[4:]])
            ctx.check("the names of a result change with the problem", list(last.variable_names) == got[0][3])
    finally:
        done()
    ctx.cover("done")


def nothing():
    pass


def convs(conv):
    from qiskit_optimization.converters import QuadraticProgramToQubo

    return None if conv is None else [] if conv == "empty" else [QuadraticProgramToQubo(7)]


def env_meo(ctx, conv):
    from qiskit_optimization.algorithms import MinimumEigenOptimizer

    return lambda: MinimumEigenOptimizer(by_size(ctx), converters=convs(conv)), {}, nothing


def by_size(ctx):
    """eigensolver answering with a state of fixed amplitudes, depending on the number of qubits only."""
    from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult

    class Stub(MinimumEigensolver):
        def compute_minimum_eigenvalue(self, operator, aux_operators=None):
            n = operator.num_qubits
            r = MinimumEigensolverResult()
            r.eigenstate = {"0" * (n - 1) + "1": 0.6, "1" + "0" * (n - 1): 0.8} if n > 1 else {"0": 0.6, "1": 0.8}
            r.eigenvalue = 0.0
            return r

        @classmethod
        def supports_aux_operators(cls):
            return True

    return Stub()


def env_rec(ctx, conv):
    from qiskit_optimization.algorithms import MinimumEigenOptimizer, RecursiveMinimumEigenOptimizer

    def make():
        return RecursiveMinimumEigenOptimizer(MinimumEigenOptimizer(by_size(ctx)), min_num_vars=1,
                                              min_num_vars_optimizer=MinimumEigenOptimizer(by_size(ctx)),
                                              converters=convs(conv))

    return make, {}, nothing


def env_local(ctx, cls):
    """local solver answering with a fixed point."""
    from qiskit_optimization import algorithms as al

    def point(x0):
        return nparr(ctx, [0.5 + i for i in range(len(x0))])

    patch = {"fmin_slsqp": lambda func, x0, *a, **kw: point(x0), "fmin_cobyla": lambda func, x0, *a, **kw: point(x0),
             "rvs": lambda loc=0, scale=1, size=None, random_state=None: loc}
    return lambda: getattr(al, cls)(trials=2), patch, nothing


def env_slsqp(ctx, conv):
    return env_local(ctx, "SlsqpOptimizer")


def env_cobyla(ctx, conv):
    return env_local(ctx, "CobylaOptimizer")


def env_admm(ctx, conv):
    from qiskit_optimization.algorithms import ADMMOptimizer, OptimizationAlgorithm
    from qiskit_optimization.algorithms.admm_optimizer import ADMMParameters
    from qiskit_optimization.algorithms.optimization_algorithm import OptimizationResult, OptimizationResultStatus

    class Inner(OptimizationAlgorithm):
        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, problem):
            n = problem.get_num_vars()
            return OptimizationResult(nparr(ctx, [float((i + 1) % 2) for i in range(n)]), 0.0, problem.variables,
                                      OptimizationResultStatus.SUCCESS)

    def make():
        return ADMMOptimizer(Inner(), Inner(), params=ADMMParameters(maxiter=2, three_block=conv != "two", tol=1e-9))

    from qiskit_optimization import QuadraticProgram

    old = QuadraticProgram.export_as_lp_string
    if ctx.symbolic:  # debug output
        QuadraticProgram.export_as_lp_string = lambda self: ""

    def done():
        QuadraticProgram.export_as_lp_string = old

    return make, {}, done


def env_grover(ctx, conv):
    from qiskit.utils import algorithm_globals
    from qiskit_optimization.algorithms import GroverOptimizer

    forms = []
    old = algorithm_globals._random

    class Dev(Device):
        """the same keys for every solve."""

        def execute(self, qc):
            ctx_, k = self.ctx, self.n
            self.n += 1
            form = self.forms[-1]
            n = self.nk = qc.num_qubits - self.nv - 1
            key = [(k + i) % 2 for i in range(n)]
            bits = "".join(str(b) for b in key) + ("100" if k == 0 else "001")[:self.nv] + "0"
            label = bits[::-1]

            class Res:
                def get_counts(self, *a, **kw):
                    return {label: 100}

            return Res()

    algorithm_globals._random = Rng(ctx, False)

    def make():
        class Fresh(Dev):
            pass

        return Restart(GroverOptimizer(3, num_iterations=1, quantum_instance=Fresh(ctx, False, 0, 3, 1, forms, 99),
                                       converters=convs(conv)))

    def done():
        algorithm_globals._random = old

    return make, {"QuadraticForm": form_class(forms)}, done


class Restart:
    """the device gives the same answers in every solve."""

    def __init__(self, opt):
        self.opt = opt

    def solve(self, p):
        self.opt.quantum_instance.n = 0
        return self.opt.solve(p)


def units(tier):
    from . import edits
    us = []
    D = ("done",)

    def add(name, fn, **kw):
        us.append(unit(name, fn, must_cover=D, **kw))

    K = {"ineq": ["bi|l<=L==", "bb|l==q==", "cb|l>=q<="], "ineq-int": ["bi|l<=l>="], "ineq-cont": ["bc|l>=l<="],
         "int": ["ib|L<=q>=", "bc|L<=q==", "ic|l=="], "pen": ["bb|l==L==", "bb|", "bi|l=="], "autopen": ["bb|l=="],
         "qubo": ["bi|l<=", "bb|", "bb|l>="], "qubo5": ["ib|l=="]}
    for w, ks in K.items():
        for k in ks:
            for s in ("min", "max"):
                add("leaves/%s/%s/%s" % (w, k, s), leaves, which=w, kind=k, sense=s)
        add("reuse/%s" % w, reuse, which=w, kinds=(ks[0], ks[-1]), senses=("min", "max"))
        add("reuse-one-less/%s" % w, reuse, which=w, kinds=(ks[0], {"ineq-cont": "b|l>="}.get(w, "b|")),
            senses=("max", "min"))
    for s in ("min", "max"):
        add("settings/mode/%s" % s, settings, which="mode", kind="bi|l<=", sense=s)
        add("settings/penalty/%s" % s, settings, which="penalty", kind="bb|l==", sense=s)
        add("settings/qubo/%s" % s, settings, which="qubo", kind="bi|l<=", sense=s)
        for w in ("meo", "rec"):
            add("penalty/%s/%s" % (w, s), penalty_option, which=w, kind="bb|l==", sense=s)
        add("subst/const/%s" % s, subst, kind="bib|L<=q==", sense=s, how="const")
        add("subst/var/%s" % s, subst, kind="bbi|L<=q==", sense=s, how="var")
        add("subst/ising/%s" % s, subst, kind="bbb|", sense=s, how="ising")
        o = "max" if s == "min" else "min"
        for c in (None, "empty", "qubo"):
            ks = ("bb|", "bbb|") if c == "empty" else ("bb|l<=", "bi|")
            add("solve/meo/%s/%s" % (c, s), solve, which="meo", kinds=ks, senses=(s, o), conv=c)
            add("solve/grover/%s/%s" % (c, s), solve, which="grover", kinds=ks, senses=(s, o), conv=c)
        add("solve/rec/empty/%s" % s, solve, which="rec", kinds=("bb|", "bbb|"), senses=(s, o), conv="empty")
        add("solve/rec/qubo/%s" % s, solve, which="rec", kinds=("bb|l==", "bb|"), senses=(s, o), conv=None)
        for w in ("slsqp", "cobyla"):
            add("solve/%s/%s" % (w, s), solve, which=w, kinds=("cc|L<=", "c|l>="), senses=(s, o))
        add("solve/admm3/%s" % s, solve, which="admm", kinds=("b|", "bb|l=="), senses=(s, o))
        add("solve/admm2/%s" % s, solve, which="admm", kinds=("bb|l==", "bi|"), senses=(s, o), conv="two")
    us += edits.units("conv ineq", ("bi|l<=", "bc|l>=q<="), edits.ALL)
    us += edits.units("conv int", ("ib|l==",), edits.ALL)
    us += edits.units("conv pen", ("bb|l==", "bi|"), edits.LIN)
    us += edits.units("conv autopen", ("bb|l==",), edits.LIN)
    us += edits.units("conv qubo", ("bi|l<=", "bb|"), edits.LIN)
    us += edits.units("meo", ("bb|l==", "bb|"), edits.LIN)
    us += edits.units("slsqp", ("cc|l<=",), edits.ALL)
    us += edits.units("cobyla", ("cc|l>=",), edits.ALL)
    us += edits.units("rec", ("bb|l==", "bb|"), edits.ALL)
    us += edits.units("admm", ("bb|l==",), edits.ALL)
    us += edits.units("grover", ("bb|l<=", "bb|"), edits.ALL)
    return us
