"""C23: Grover adaptive search encodes the problem, follows the measurements and reports the best value it measured."""
from .common import add_var, nparr, obj_val, unit
from .c16 import Patch

BOUNDS = ("problems of 1-2 binary variables, an integer variable, a constrained one (QUBOs of up to 3 qubits), both senses, "
          "2-4 value qubits, 1-3 iterations without improvement (8 with the first 7-8 keys given); arbitrary integer objective coefficients with every "
          "sequence of measured keys and values a faithful device can return, both simulator kinds, one or two measured "
          "basis states per run; the circuits of 1-2 key qubits for every assignment of values out of 0, 1, -1"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = ("how likely the search is to meet the optimum; the gates of the quadratic form "
           "circuit (qiskit-terra); values that do not fit into the value qubits; power of the rotations")
ASSUMPTIONS = ["qiskit's QuadraticForm is replaced by a stand-in recording its coefficients and register; the quantum "
               "instance is replaced by a device that returns arbitrary keys together with the value the recorded form "
               "gives them; the random generator returns arbitrary choices"]


class Rng:
    """arbitrary choices in place of the random generator."""

    def __init__(self, ctx, rot):
        import numpy as np

        self.rot = rot
        self.ctx, self.n, self.drawn, self.gen = ctx, 0, [], np.random.default_rng(5)

    def choice(self, a, size=None, replace=True, p=None, **kw):
        import numpy as np

        opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        idx = [i for i in range(len(opts)) if p is None or p[i] > 0]
        self.n += 1
        i = idx[0] if len(idx) == 1 else self.ctx.choice("pick%d" % self.n, idx)
        v = opts[i]
        self.drawn.append(p[i] if p is not None else 1.0)
        return np.array([v]) if size is not None else v

    def uniform(self, low=0.0, high=1.0, size=None):
        v = high if self.rot else low
        if size is None:
            return v
        import numpy as np

        return np.full(size, v)

    def __getattr__(self, k):
        return getattr(self.gen, k)


class Device:
    """quantum instance answering with basis states |key>|value of the recorded form at key>."""

    def __init__(self, ctx, sv, nk, nv, states, forms, limit, small=False, script=()):
        self.script = script  # keys measured first
        self.ctx, self.is_statevector, self.nk, self.nv = ctx, sv, nk, nv
        self.states, self.forms, self.limit = states, forms, limit
        self.n, self.runs = 0, []
        self.w = [1.0] if states == 1 else [0.996, 0.004] if small else [0.36, 0.64]

        class Cfg:
            shots = 1000

        self.run_config = Cfg()

    def execute(self, qc):
        import numpy as np

        ctx, k = self.ctx, self.n
        self.n += 1
        if self.n > self.limit:
            ctx.assume(False)
        form, size = self.forms[-1], qc.num_qubits
        where = list(range(self.nk + self.nv))
        for inst, qargs, _ in qc.data:
            if inst.name == "Q(x)" and len(qargs) == self.nk + self.nv:
                where = [qc.qubits.index(q) for q in qargs]
                break
        keys, outs, seen = [], [], []
        for j in range(self.states):
            key = self.script[k] if k < len(self.script) else \
                tuple(ctx.choice("key%d_%d_%d" % (k, j, i), [0, 1]) for i in range(self.nk))
            if key in keys:
                ctx.assume(False)
            fv = form.value(key)
            ctx.assume(ctx.And(fv >= -2 ** (self.nv - 1), fv < 2 ** (self.nv - 1)))
            for v in range(-2 ** (self.nv - 1), 2 ** (self.nv - 1)):
                if fv == v:
                    break
            bits = [int(c) for c in format(v % 2 ** self.nv, "0%db" % self.nv)]
            if form.little_endian:
                bits = bits[::-1]
            q = [0] * size
            for i, b in enumerate(list(key) + bits):
                q[where[i]] = b
            keys.append(key)
            outs.append(q)
            seen.append(v)
        self.runs.append((form, keys, seen))
        label = ["".join(str(b) for b in reversed(q)) for q in outs]
        w = self.w
        vec = np.zeros(2 ** size, dtype=complex)
        for s, p in zip(label, w):
            vec[int(s, 2)] = p ** 0.5

        class Res:
            def get_statevector(self, *a, **kw):
                return vec

            def get_counts(self, *a, **kw):
                return {s: int(round(1000 * p)) for s, p in zip(label, w)}

        return Res()


def form_class(record):
    from qiskit import QuantumCircuit
    from qiskit.circuit import Gate

    class QGate(Gate):
        def _define(self):
            self.definition = QuantumCircuit(self.num_qubits)

        def inverse(self):
            return QGate("Q(x)dg", self.num_qubits, [])

    class Form(QuantumCircuit):
        """stand-in for qiskit.circuit.library.QuadraticForm."""

        def __init__(self, num_result_qubits=None, quadratic=None, linear=None, offset=None, little_endian=True):
            n = len(linear) if linear is not None else len(quadratic)
            super().__init__(n + num_result_qubits)
            self.append(QGate("Q(x)", n + num_result_qubits, []), list(range(n + num_result_qubits)))
            self.nr, self.little_endian = num_result_qubits, little_endian
            self.q = [[quadratic[i][j] for j in range(n)] for i in range(n)] if quadratic is not None else None
            self.l = [linear[i] for i in range(n)] if linear is not None else None
            self.off = offset if offset is not None else 0
            record.append(self)

        def value(self, x):
            s = self.off
            on = [i for i, a in enumerate(x) if a]
            for i in on:
                if self.l is not None:
                    s = s + self.l[i]
                for j in on:
                    if self.q is not None:
                        s = s + self.q[i][j]
            return s

    return Form


def build(ctx, kind, sense):
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram("p")
    k = ctx.int("k", -3, 3)
    if kind == "b":
        qp.binary_var("x")
        lin, quad, nk = {0: ctx.int("l0", -6, 6)}, {}, 1
    elif kind in ("bb", "bb0"):
        qp.binary_var("x")
        qp.binary_var("y")
        lin, quad, nk = {0: ctx.int("l0", -6, 6), 1: ctx.int("l1", -6, 6)}, {(0, 1): ctx.int("q", -6, 6)}, 2
        if kind == "bb0":
            k = 0
        if sense == "max":
            ctx.nonzero(*lin.values(), *quad.values())
    elif kind == "bbb":  # (1, 1, 1) is the best one
        for v in "xyz":
            qp.binary_var(v)
        w = -1 if sense == "min" else 1
        lin, quad, nk = {0: ctx.choice("l0", [0, w]), 1: w, 2: 0}, {(0, 2): w, (1, 2): 0}, 3
        k = 0
    elif kind == "i":
        qp.integer_var(-1, 2, "x")
        lin, quad, nk = {0: ctx.int("l0", -6, 6)}, {}, 2
    elif kind == "bb==":
        qp.binary_var("x")
        qp.binary_var("y")
        lin, quad, nk = {0: ctx.int("l0", -1, 1), 1: ctx.int("l1", -1, 1)}, {}, 2
        qp.linear_constraint({"x": 1, "y": 1}, "==", 1, "c")
    (qp.minimize if sense == "min" else qp.maximize)(k, lin, quad)
    return qp, nk


def search(ctx, kind, sense, nv, iters, sv, states, conv, limit, rot, small, script=()):
    import itertools

    from qiskit.utils import algorithm_globals
    from qiskit_optimization.algorithms import GroverOptimizer
    from qiskit_optimization.converters import LinearEqualityToPenalty, QuadraticProgramToQubo

    qp, nk = build(ctx, kind, sense)
    own = {"none": lambda: [], "qubo": lambda: [QuadraticProgramToQubo()],
           "default": lambda: [QuadraticProgramToQubo()], "pen": lambda: [LinearEqualityToPenalty(3)]}[conv]
    mine, own = own(), own()
    qubo = qp
    for c in own:
        qubo = c.convert(qubo)
    sg = qubo.objective.sense.value
    forms = []
    dev = Device(ctx, sv, nk, nv, states, forms, limit, small, script)
    old = algorithm_globals._random
    algorithm_globals._random = rng = Rng(ctx, rot)
    try:
        with Patch(ctx, {"QuadraticForm": form_class(forms)}):
            opt = GroverOptimizer(nv, num_iterations=iters, quantum_instance=dev,
                                  converters=None if conv == "default" else mine)
            res = opt.solve(qp)
    finally:
        algorithm_globals._random = old
    # the circuits encode the objective (to be minimized) relative to the best value known
    best, trail, improved, met = None, 0, None, set()
    for k, (form, keys, vals) in enumerate(dev.runs):
        thr = 0 if best is None else best
        for x in itertools.product([0, 1], repeat=nk):
            ctx.eq("encoded value", form.value(x), sg * obj_val(qubo, nparr(ctx, list(x))) - thr)
        ctx.check("value qubits", form.nr == nv)
        pick = 0
        if states == 2:
            # which state was drawn shows in the probability it was drawn with
            ctx.check("one draw per run", k < len(rng.drawn))
            pick = 0 if abs(rng.drawn[k] - dev.w[0]) < 1e-6 else 1
            ctx.check("drawn with its probability", abs(rng.drawn[k] - dev.w[pick]) < 1e-6)
        v = vals[pick] + thr
        met.add(keys[pick])
        if best is None or v < best:
            best, trail, improved = v, 0, k
        else:
            trail += 1
    x = res.x
    own_x = None
    for key in itertools.product([0, 1], repeat=nk):
        y = nparr(ctx, list(key))
        for c in own[::-1]:
            y = c.interpret(y)
        if all(bool(a == b) for a, b in zip(x, y)):
            own_x = key
    ctx.check("the solution is one of the search space", own_x is not None)
    raw = obj_val(qubo, nparr(ctx, list(own_x)))
    ctx.check("the best value measured, or better, is reported", sg * raw <= best)
    ctx.check("reported key was measured, or is the zero key", own_x in met or not any(own_x))
    ctx.eq("intermediate fval", res.intermediate_fval, raw)
    ctx.eq("fval", res.fval, obj_val(qp, x))
    ctx.check("status", (res.status.name == "SUCCESS") == bool(qp.is_feasible(x)))
    ctx.eq("threshold", res.threshold, best)
    ctx.check("input qubits", res.n_input_qubits == nk)
    ctx.check("output qubits", res.n_output_qubits == nv)
    ctx.check("operation counts", len(res.operation_counts) == len(dev.runs))
    ctx.check("variables", [v.name for v in res.variables] == [v.name for v in qp.variables])
    ctx.check("search stops too early", trail >= iters or len(met) == 2 ** nk)
    ctx.check("search goes on for no reason", trail <= iters)
    # samples: distribution of the run that gave the best value
    form, keys, vals = dev.runs[improved]
    want, rawp = {}, {}
    for key, p in zip(keys, dev.w):
        y = nparr(ctx, list(key))
        for c in own[::-1]:
            y = c.interpret(y)
        y = tuple(float(a) for a in y)
        want[y] = want.get(y, 0) + p
        rawp[key] = p
    got = {tuple(float(a) for a in s.x): s for s in res.samples}
    ctx.check("samples", set(got) == set(want) and len(res.samples) == len(want))
    for y, s in got.items():
        ctx.check("sample probability", abs(s.probability - want[y]) < 1e-9)
        ctx.eq("sample fval", s.fval, obj_val(qp, nparr(ctx, list(y))))
        ctx.check("sample status", (s.status.name == "SUCCESS") == bool(qp.is_feasible(list(y))))
    graw = {tuple(int(a) for a in s.x): s for s in res.raw_samples}
    ctx.check("raw samples", set(graw) == set(rawp) and len(res.raw_samples) == len(rawp))
    for y, s in graw.items():
        ctx.check("raw sample probability", abs(s.probability - rawp[y]) < 1e-9)
        ctx.eq("raw sample fval", s.fval, obj_val(qubo, nparr(ctx, list(y))))
    osg = qp.objective.sense.value
    for a, b in zip(res.samples, res.samples[1:]):
        ctx.check("samples are sorted", a.status.value < b.status.value or
                  (a.status.value == b.status.value and osg * a.fval <= osg * b.fval))
    for a, b in zip(res.raw_samples, res.raw_samples[1:]):
        ctx.check("raw samples are sorted", sg * a.fval <= sg * b.fval)
    ctx.cover("done")


def marked_form(f, nk, nv):
    """stand-in for QuadraticForm that writes the value f[key] (two's complement) into the value qubits."""
    from qiskit import QuantumCircuit

    class Form(QuantumCircuit):
        def __init__(self, num_result_qubits=None, quadratic=None, linear=None, offset=None, little_endian=True):
            super().__init__(nk + num_result_qubits)
            from qiskit.circuit.library import XGate

            for key, v in f.items():
                bits = format(v % 2 ** nv, "0%db" % nv)
                for i, c in enumerate(reversed(bits) if little_endian else bits):
                    if c == "1":
                        self.append(XGate().control(nk, ctrl_state="".join(str(b) for b in reversed(key))),
                                    list(range(nk)) + [nk + i])

    return Form


def amplify(ctx, nk, nv, vals, sv, runs):
    """the circuits prepare all keys with their values and amplify exactly the negative values."""
    import itertools
    import math

    from qiskit.quantum_info import Statevector
    from qiskit.utils import algorithm_globals
    from qiskit_optimization import QuadraticProgram
    from qiskit_optimization.algorithms import GroverOptimizer

    keys = list(itertools.product([0, 1], repeat=nk))
    f = {k: ctx.choice("f" + "".join(map(str, k)), vals) for k in keys}
    good = [k for k in keys if f[k] < 0]
    qp = QuadraticProgram()
    for i in range(nk):
        qp.binary_var("v%d" % i)
    qp.minimize(ctx.int("k", -3, 3))
    seen = []

    class Stop(Exception):
        pass

    class Dev:
        is_statevector = sv

        class run_config:
            shots = 100

        def execute(self, qc):
            import numpy as np

            c = qc.remove_final_measurements(inplace=False)
            amp = Statevector.from_instruction(c).data
            out = None
            got = {}
            for i, a in enumerate(amp):
                if abs(a) > 1e-7:
                    b = eig_bits(i, c.num_qubits)
                    ctx.check("work qubits are clean", not any(b[nk + nv:]))
                    got[tuple(b[:nk]), tuple(b[nk:nk + nv])] = abs(a) ** 2
                    if out is None or not b[nk]:  # a value that is no improvement: the search goes on, rotating
                        out = i
            th = math.asin(math.sqrt(len(good) / len(keys)))
            fits = []
            for r in range(4):
                ok = True
                for k in keys:
                    v = tuple(int(ch) for ch in format(f[k] % 2 ** nv, "0%db" % nv))
                    p = math.sin((2 * r + 1) * th) ** 2 / len(good) if k in good else \
                        math.cos((2 * r + 1) * th) ** 2 / (len(keys) - len(good))
                    ok = ok and abs(got.get((k, v), 0) - p) < 1e-6
                fits.append(ok and abs(sum(got.values()) - 1) < 1e-6)
            ctx.check("the circuit amplifies exactly the negative values", any(fits))
            seen.append(1)
            if len(seen) == runs:
                raise Stop
            label = format(out, "0%db" % c.num_qubits)
            vec = np.zeros(2 ** c.num_qubits, dtype=complex)
            vec[out] = 1

            class Res:
                def get_statevector(self, *a, **kw):
                    return vec

                def get_counts(self, *a, **kw):
                    return {label: 100}

            return Res()

    old = algorithm_globals._random
    algorithm_globals._random = Rng(ctx, True)
    try:
        with Patch(ctx, {"QuadraticForm": marked_form(f, nk, nv)}):
            GroverOptimizer(nv, num_iterations=9, quantum_instance=Dev()).solve(qp)
    except Stop:
        pass
    finally:
        algorithm_globals._random = old
    ctx.check("circuits are run", len(seen) > 0)
    ctx.cover("done")


def eig_bits(i, n):
    return [(i >> k) & 1 for k in range(n)]


def units(tier):
    from . import edits
    us = []

    def add(kind, sense, nv, iters, sv, states=1, conv="none", limit=3, rot=False, small=False):
        us.append(unit("grover/%s/%s/nv%d/it%d/%s/st%d/%s%s" % (
            kind, sense, nv, iters, "sv" if sv else "counts", states, conv, "/rot" if rot else "/rare" if small else ""),
            search, kind=kind, sense=sense, nv=nv, iters=iters, sv=sv, states=states, conv=conv, limit=limit, rot=rot, small=small,
            must_cover=("done",), budget=400, max_paths=20000, cost=20))

    add("b", "min", 2, 1, True, limit=4, rot=True)
    add("b", "max", 2, 2, False, limit=4, rot=True)
    add("b", "min", 2, 3, True, limit=4)
    add("b", "min", 3, 1, False)
    add("bb", "min", 2, 1, False)
    add("bb", "max", 2, 1, True)
    add("bb0", "min", 2, 1, True, conv="default")
    add("b", "max", 2, 1, True, states=2)
    add("b", "min", 2, 1, False, states=2)
    add("b", "min", 2, 1, True, states=2, small=True)
    add("b", "max", 2, 1, False, states=2, small=True)
    add("i", "max", 2, 1, False, conv="qubo")
    add("i", "min", 2, 1, True, conv="default")
    add("bb==", "min", 3, 1, False, conv="pen", limit=2)
    add("bb==", "max", 3, 1, True, conv="pen", limit=2)
    bits = [(i >> 2 & 1, i >> 1 & 1, i & 1) for i in range(8)]
    for sense, order in (("min", (7, 0, 1, 2, 3, 4, 5, 6)), ("max", (7, 6, 5, 4, 3, 2, 1)), ("min", (7, 1, 1, 1, 2, 2, 7, 7))):
        us.append(unit("long/%s/%d" % (sense, order[-1]), search, kind="bbb", sense=sense, nv=4, iters=8, sv=False, states=1,
                       conv="none", limit=9, rot=False, small=False, script=[bits[i] for i in order],
                       must_cover=("done",), budget=400, cost=20))
    for sv in (True, False):
        us.append(unit("circuit/1/%s" % sv, amplify, nk=1, nv=2, vals=[0, 1, -1, -2], sv=sv, runs=3, must_cover=("done",),
                       cost=5))
        us.append(unit("circuit/2/%s" % sv, amplify, nk=2, nv=2, vals=[0, 1, -1] if tier == "quick" else [0, 1, -1, -2], sv=sv,
                       runs=4, must_cover=("done",), cost=10))
    us += edits.units("grover", ("bb|l<=", "bb|"), edits.ALL)
    return us
