"""stub eigensolver and problems shared by the checks of the minimum eigen optimizers."""


def solver(ctx, eigenstate, seen=None):
    from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult

    class Stub(MinimumEigensolver):
        """answers with the given eigenstate, whatever the operator."""

        def compute_minimum_eigenvalue(self, operator, aux_operators=None):
            if seen is not None:
                seen.append(operator)
            r = MinimumEigensolverResult()
            r.eigenstate = eigenstate
            r.eigenvalue = 0.0
            return r

        @classmethod
        def supports_aux_operators(cls):
            return True

    return Stub()


def problem(ctx, kind, sense):
    """-> quadratic program, number of qubits of its QUBO."""
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram("p")

    def co(nm):
        c = ctx.real(nm, -50, 50)
        ctx.assume(c != 0)
        return c

    if kind == "wide":  # twelve variables: two-digit positions
        for i in range(12):
            qp.binary_var("x%d" % i)
        (qp.minimize if sense == "min" else qp.maximize)(
            ctx.real("k", -50, 50), {2: co("l0"), 10: co("l1")}, {(1, 11): co("q")})
        return qp, 12
    if kind in ("bb", "bb<=", "bb==", "bb>="):
        qp.binary_var("x")
        qp.binary_var("y")
        n, nq = 2, 2
    elif kind == "2c":
        qp.binary_var("x")
        qp.binary_var("y")
        n, nq = 2, 4
    elif kind == "bbb":
        for v in "xyz":
            qp.binary_var(v)
        n, nq = 3, 3
    elif kind == "ib":
        qp.integer_var(-1, 1, "x")
        qp.binary_var("y")
        n, nq = 2, 3
    elif kind == "bi<=":
        qp.binary_var("x")
        qp.integer_var(1, 3, "y")
        n, nq = 2, 5
    (qp.minimize if sense == "min" else qp.maximize)(
        ctx.real("k", -50, 50), {0: co("l0"), n - 1: co("l1")}, {(0, 1): co("q")})
    if kind == "bb<=":
        qp.linear_constraint({"x": 1, "y": 1}, "<=", 1, "c")
        nq = 3
    elif kind == "2c":
        qp.linear_constraint({"x": 1, "y": 1}, "<=", 1, "c")
        qp.linear_constraint({"x": 1}, ">=", 0, "d")
    elif kind == "bb>=":
        qp.linear_constraint({"x": 1, "y": -1}, ">=", 0, "c")
        nq = 3
    elif kind == "bb==":
        qp.linear_constraint({"x": 1, "y": 2}, "==", 2, "c")
    elif kind == "bi<=":
        qp.linear_constraint({"x": 1, "y": 1}, "<=", 3, "c")
    return qp, nq


def feasible(qp, x):
    """concrete x, concrete constraint data."""
    for v, var in zip(x, qp.variables):
        if v < var.lowerbound or v > var.upperbound:
            return False
    for c in qp.linear_constraints:
        s = sum(w * x[i] for i, w in c.linear.to_dict().items())
        if {"<=": s > c.rhs, ">=": s < c.rhs, "==": s != c.rhs}[{"LE": "<=", "GE": ">=", "EQ": "=="}[c.sense.name]]:
            return False
    return True


def bits(label):
    """qiskit label (rightmost character = first qubit) -> values of the qubits."""
    return [int(ch) for ch in reversed(label)]


def label(i, nq):
    return format(i, "0%db" % nq)


def eigenstate(ctx, form, nq, states):
    """-> the eigenstate handed to the optimizer, {label: weight} (weights not normalised)."""
    import numpy as np

    amps = {}
    for s in states:
        a = ctx.real("amp" + s, -1, 1)
        amps[s] = a
    w = {s: a * a for s, a in amps.items()}
    if form == "dict":
        for a in amps.values():
            ctx.assume(a * a >= 0.0001)
        return dict(amps), w
    if form == "dictfn":
        from qiskit.opflow import DictStateFn

        for a in amps.values():
            ctx.assume(a * a >= 0.0001)
        return DictStateFn(dict(amps)), w
    if form == "array":
        for a in amps.values():
            ctx.assume(ctx.Or(a == 0, a * a >= 0.0001))
        v = [amps.get(label(i, nq), 0.0) for i in range(2 ** nq)]
        ctx.assume(sum(w.values()) > 0)
        if ctx.symbolic:
            from symx.npshim import obj1

            return obj1(v), w
        return np.array(v), w
    if form in ("symcomplex", "dictcomplex"):
        v = {s: ctx.complex("z" + s, -1, 1) for s in states}
        w = {s: z.real * z.real + z.imag * z.imag for s, z in v.items()}
        for p in w.values():
            ctx.assume(p >= 0.0001)
        if form == "dictcomplex":
            return dict(v), w
        v = [v.get(label(i, nq), 0.0) for i in range(2 ** nq)]
        if ctx.symbolic:
            from symx.cplx import carray

            return carray(v), w
        return np.array(v, dtype=complex), w
    if form == "complex":
        v = np.zeros(2 ** nq, dtype=complex)
        w = {}
        ph = [0.5, 0.5j, -0.5, 0.3 + 0.4j]
        for k, s in enumerate(states):
            v[int(s, 2)] = ph[k % 4]
            w[s] = 0.25
        return v, w
    raise AssertionError(form)
