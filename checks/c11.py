"""C11: a program made from an Ising operator has the operator's energies as objective values."""
from .common import energy, ising_terms, unit

BOUNDS = ("operators on 1 to 3 qubits (4 thorough; 12 with 6 terms) given as Pauli sums, single Paulis and (nested, scaled) sums, with "
          "one- and two-body Z terms, identity, repeated and cancelling terms; coefficients, scale factors and offset "
          "are arbitrary reals, both settings of the linear option; all basis states; round trips of quadratic "
          "programs with 1 to 3 variables")
OUTSIDE = "more qubits; complex coefficients; floating point rounding"


def build(ctx, labels, form):
    from qiskit.opflow import PauliOp, PauliSumOp, SummedOp
    from qiskit.quantum_info import Pauli

    cs = []
    for m, _ in enumerate(labels):
        c = ctx.real("c%d" % m)
        if form != "free":
            ctx.assume(c != 0)
        cs.append(c)
    s = 1
    if form in ("sum", "free"):
        op = PauliSumOp.from_list(list(zip(labels, cs)))
    elif form == "scaled":
        s = ctx.real("s")
        ctx.assume(s != 0)
        op = PauliSumOp.from_list(list(zip(labels, cs))) * s
    elif form == "pauli":
        op = PauliOp(Pauli(labels[0]), cs[0])
    elif form == "summed":
        op = SummedOp([PauliOp(Pauli(l), c) for l, c in zip(labels, cs)])
    elif form == "summed-scaled":
        s = ctx.real("s")
        ctx.assume(s != 0)
        op = SummedOp([PauliOp(Pauli(l), c) for l, c in zip(labels, cs)], coeff=s)
    elif form == "mixed":
        op = SummedOp([PauliSumOp.from_list(list(zip(labels[1:], cs[1:]))), PauliOp(Pauli(labels[0]), cs[0])])
    terms = [(s * c, [ch == "Z" for ch in reversed(l)], [ch in "XY" for ch in l]) for l, c in zip(labels, cs)]
    return op, terms


def fromising(ctx, labels, form, linear, used=None):
    from qiskit_optimization import QuadraticProgram

    op, terms = build(ctx, labels, form)
    off = ctx.real("off")
    n = len(labels[0])
    qp = QuadraticProgram()
    if used == "twice":
        qp.from_ising(op)
    elif used == "content":
        qp.integer_var(0, 5, "a")
        qp.binary_var("b")
        qp.maximize(3, {"a": 1}, {("a", "b"): 2})
        qp.linear_constraint({"a": 1}, "<=", 3, "c")
        qp.quadratic_constraint({"b": 1}, {("a", "b"): 1}, "<=", 3, "d")
    qp.from_ising(op, off, linear=linear)
    ctx.check("variables", qp.get_num_vars() == n and qp.get_num_binary_vars() == n)
    ctx.check("no constraints", not qp.linear_constraints and not qp.quadratic_constraints)
    # many variables: polynomials of degree two agree if they agree at all points with at most two ones
    for x in [[ctx.bit("x%d" % i) for i in range(n)]] if n < 8 else \
            [[int(i in (a, b)) for i in range(n)] for a in range(-1, n) for b in range(a, n)]:
        v = qp.objective.evaluate(list(x))
        e = energy(terms, x) + off
        ctx.eq("objective = energy + offset", v, e if qp.objective.sense.value == 1 else -e)
    if linear:
        ctx.check("linear terms are linear", all(ctx.close(qp.objective.quadratic[i, i], 0) for i in range(n)))
    else:
        ctx.check("squares are quadratic", all(ctx.close(qp.objective.linear[i], 0) for i in range(n)))
    ctx.cover("done")


def roundtrip(ctx, n, lin, quad, sense, linear, free=False):
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram()
    for i in range(n):
        qp.binary_var("v%d" % i)

    def co(nm):
        if free and ctx.choice("has " + nm, [0, 1]) == 0:
            return 0
        c = ctx.real(nm)
        ctx.assume(c != 0)
        return c

    (qp.minimize if sense == "min" else qp.maximize)(
        ctx.real("k"), {i: co("l%d" % i) for i in lin}, {p: co("q%d%d" % p) for p in quad})
    op, off = qp.to_ising()
    q2 = QuadraticProgram()
    q2.from_ising(op, off, linear=linear)
    ctx.check("variables", q2.get_num_vars() == n)
    x = [ctx.bit("x%d" % i) for i in range(n)]
    a, b = qp.objective.evaluate(list(x)), q2.objective.evaluate(list(x))
    if qp.objective.sense != q2.objective.sense:
        b = -b
    ctx.eq("round trip", a, b)
    ctx.cover("done")


def refuse(ctx, labels, form, good):
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram

    op, _ = build(ctx, labels, form)
    qp = QuadraticProgram()
    try:
        qp.from_ising(op)
        ctx.check("non-Ising operators are rejected", good)
    except QiskitOptimizationError:
        ctx.check("Ising operators are accepted", not good)


def units(tier):
    us = []

    def add(nm, **kw):
        us.append(unit(nm, fromising, must_cover=("done",), **kw))

    for linear in (False, True):
        t = "lin" if linear else "quad"
        one = {"z": ["Z"], "zi": ["IZ"], "iz": ["ZI"], "zz": ["ZZ"], "zziz": ["ZIZ"], "zizi": ["IZZ"], "id": ["II"]}
        for nm, l in one.items():
            for form in ("sum", "pauli", "scaled", "summed"):
                add("one/%s/%s/%s" % (nm, form, t), labels=l, form=form, linear=linear)
        many = {"two": ["ZI", "IZ"], "full2": ["ZZ", "ZI", "IZ"], "id2": ["II", "ZZ", "IZ"],
                "three": ["IIZ", "ZIZ", "IZZ"], "all3": ["ZII", "IZI", "IIZ", "ZZI", "ZIZ", "IZZ"],
                "dup": ["ZI", "ZZ", "ZI"], "dupzz": ["ZZ", "IZ", "ZZ"], "dup1": ["ZI", "ZI"]}
        many["wide"] = ["I" * 11 + "Z", "Z" + "I" * 11, "IZ" + "I" * 10, "ZZ" + "I" * 10, "Z" + "I" * 8 + "ZII", "I" * 12]
        if tier != "quick":
            many["four"] = ["ZIIZ", "IZZI", "IIIZ", "ZZII", "IIII"]
        for nm, l in many.items():
            for form in ("sum", "scaled", "summed", "summed-scaled", "mixed"):
                if form == "mixed" and len(l) < 3:
                    continue
                add("many/%s/%s/%s" % (nm, form, t), labels=l, form=form, linear=linear)
        for nm in ("two", "id2"):
            for used in ("twice", "content"):
                add("used/%s/%s/%s" % (nm, used, t), labels=many[nm], form="sum", linear=linear, used=used)
        for nm in ("two", "full2", "id2", "three"):
            add("free/%s/%s" % (nm, t), labels=many[nm], form="free", linear=linear)
        for s in ("min", "max"):
            for m, (n, l, q) in enumerate([(1, [0], []), (1, [], [(0, 0)]), (2, [0], [(0, 1)]),
                                           (2, [0, 1], [(0, 0), (1, 0)]), (2, [], []),
                                           (3, [1], [(0, 1), (1, 2), (2, 2)])]):
                us.append(unit("round/%d/%s/%s" % (m, s, t), roundtrip, n=n, lin=l, quad=q, sense=s, linear=linear,
                               must_cover=("done",)))
            us.append(unit("round/wide/%s/%s" % (s, t), roundtrip, n=12, lin=[2, 9, 11], quad=[(2, 10), (10, 11), (11, 11)],
                           sense=s, linear=linear, must_cover=("done",)))
            for n, l, q in ((2, [0, 1], [(0, 0), (0, 1), (1, 1)]), (3, [0, 2], [(0, 1), (0, 2), (1, 2)])):
                us.append(unit("round/free/%d/%s/%s" % (n, s, t), roundtrip, n=n, lin=l, quad=q, sense=s, linear=linear,
                               free=True, must_cover=("done",), max_paths=4000, cost=4))
    for form in ("sum", "summed"):
        for l, g in ((["XI", "ZI"], False), (["ZZZ", "ZII"], False), (["YI", "IZ"], False), (["ZX", "IZ"], False),
                     (["ZI", "IZ"], True), (["XX", "ZZ"], False)):
            us.append(unit("refuse/%s/%s" % (form, "+".join(l)), refuse, labels=l, form=form, good=g))
    for l in ("X", "Y", "XZ", "ZZZ", "YI"):
        us.append(unit("refuse/pauli/%s" % l, refuse, labels=[l], form="pauli", good=False))
    return us
