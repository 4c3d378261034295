"""programs that are changed after they have been used: what is computed from them afterwards is what a program created
afresh with the same content gives (nothing computed before is remembered)."""
from .common import ising_terms, nparr, unit

EDITS = {
    "objective": ["lin", "lin name", "lin.coef", "obj.linear", "quad", "quad.coef", "obj.quadratic", "const", "sense", "opt"],
    "constraint": ["con", "con.coef", "con.linear", "rhs", "con.sense", "con.add", "con.remove"],
    "qconstraint": ["qcon", "qcon.lin", "qcon.quadratic", "qcon.rhs", "qcon.sense"],
    "bounds": ["ub", "lb", "both"],
    "program": ["clear", "add"],
    "linear": ["con", "con.coef", "con.linear", "rhs", "con.add", "con.remove"],
}
ALL = ("objective", "constraint", "qconstraint", "bounds", "program")
LIN = ("objective", "linear", "bounds", "program")  # where the sense of the constraints must stay


def edit(ctx, qp, how):
    n = qp.get_num_vars()
    o = qp.objective
    names = [v.name for v in qp.variables]
    v = ctx.int("new", -4, 4)
    ctx.assume(v != 0)
    if how == "lin":
        o.linear[n - 1] = v
    elif how == "lin name":
        o.linear[names[0]] = v
    elif how == "lin.coef":
        o.linear.coefficients = {names[n - 1]: v, 0: 2} if n > 1 else {0: v}
    elif how == "obj.linear":
        o.linear = [v] + [1] * (n - 1)
    elif how == "quad":
        o.quadratic[n - 1, 0] = v
    elif how == "quad.coef":
        o.quadratic.coefficients = {(0, n - 1): v}
    elif how == "obj.quadratic":
        o.quadratic = {(0, n - 1): v} if n > 1 else [[v]]
    elif how == "const":
        o.constant = v
    elif how == "sense":
        o.sense = [s for s in type(o.sense) if s != o.sense][0]
    elif how == "opt":
        (qp.maximize if o.sense.name == "MINIMIZE" else qp.minimize)(2, {names[0]: v}, {})
    elif how == "con":
        qp.linear_constraints[0].linear[n - 1] = v
    elif how == "con.coef":
        qp.get_linear_constraint(0).linear.coefficients = {0: v}
    elif how == "con.linear":
        qp.linear_constraints[0].linear = [1] * (n - 1) + [v]
    elif how == "rhs":
        qp.linear_constraints[0].rhs = v
    elif how == "con.sense":
        c = qp.linear_constraints[0]
        c.sense = [s for s in type(c.sense) if s != c.sense][0]
    elif how == "con.add":
        qp.linear_constraint({names[n - 1]: 1}, "==", 1, "late")
    elif how == "con.remove":
        old = qp.linear_constraints[0].name
        qp.remove_linear_constraint(old)
        qp.linear_constraint({0: v}, "==", v, old)
    elif how == "qcon":
        qp.quadratic_constraints[0].quadratic[n - 1, 0] = v
    elif how == "qcon.lin":
        qp.quadratic_constraints[0].linear[0] = v
    elif how == "qcon.quadratic":
        qp.quadratic_constraints[0].quadratic = {(0, 0): v}
    elif how == "qcon.rhs":
        qp.quadratic_constraints[0].rhs = v
    elif how == "qcon.sense":
        c = qp.quadratic_constraints[0]
        c.sense = [s for s in type(c.sense) if s != c.sense][0]
    elif how == "ub":
        qp.variables[n - 1].upperbound = ctx.int("bound", 1, 5)
    elif how == "lb":
        qp.variables[n - 1].lowerbound = -ctx.int("bound", 2, 4)
    elif how == "both":
        qp.variables[n - 1].upperbound = 7
        qp.variables[n - 1].lowerbound = 5
    elif how == "clear":
        qp.clear()
        qp.binary_var("n0")
        qp.binary_var("n1")
        qp.maximize(1, {"n1": v}, {})
    elif how == "add":
        qp.binary_var("late")
        qp.minimize(0, {"late": v, 0: 1}, {(0, "late"): 2})
    else:
        raise KeyError(how)


def rebuild(qp):
    """a new program with the content of the given one."""
    from qiskit_optimization import QuadraticProgram

    new = QuadraticProgram(qp.name)
    for v in qp.variables:
        if v.vartype.name == "BINARY":
            new.binary_var(v.name)
        elif v.vartype.name == "INTEGER":
            new.integer_var(v.lowerbound, v.upperbound, v.name)
        else:
            new.continuous_var(v.lowerbound, v.upperbound, v.name)
    o, n = qp.objective, qp.get_num_vars()

    def lin(e):
        return {i: e[i] for i in range(n)}

    def quad(e):
        return {(i, j): e[i, j] for i in range(n) for j in range(i, n)}

    (new.minimize if o.sense.name == "MINIMIZE" else new.maximize)(o.constant, lin(o.linear), quad(o.quadratic))
    for c in qp.linear_constraints:
        new.linear_constraint(lin(c.linear), c.sense, c.rhs, c.name)
    for c in qp.quadratic_constraints:
        new.quadratic_constraint(lin(c.linear), quad(c.quadratic), c.sense, c.rhs, c.name)
    return new


def ops(ctx, op):
    """op(qp, obj) -> what is observed; obj: the object that is used again, or None."""
    from .c22 import converter, dump, res_dump

    def points(n):
        return [[ctx.real("x%d" % i, -3, 5) for i in range(n)], [i % 2 for i in range(n)]]

    def tidy(qp):  # without the zero entries some operations leave out
        return dump(qp)

    def value(qp, _):
        out = []
        for p in points(qp.get_num_vars()):
            for x in (p, nparr(ctx, p), dict(enumerate(p))):
                out.append(qp.objective.evaluate(x))
            for c in list(qp.linear_constraints) + list(qp.quadratic_constraints):
                out.append(c.evaluate(p))
        out += [list(qp.objective.linear.to_array()), [list(r) for r in qp.objective.quadratic.to_array(symmetric=True)]]
        return out

    def grad(qp, _):
        out = []
        for p in points(qp.get_num_vars()):
            out.append(list(qp.objective.evaluate_gradient(p)))
            for c in qp.linear_constraints:
                out.append(list(c.linear.evaluate_gradient(p)))
            for c in qp.quadratic_constraints:
                out.append(list(c.quadratic.evaluate_gradient(p)))
        return out

    def feas(qp, _):
        out = []
        n = qp.get_num_vars()
        for p in [[ctx.int("z%d" % i, -3, 6) for i in range(n)], [i % 2 for i in range(n)], [1] * n]:
            a, b, c = qp.get_feasibility_info(p)
            out.append([str(bool(a)), [v.name for v in b], [v.name for v in c], str(bool(qp.is_feasible(p)))])
        return out

    def ising(qp, _):
        o, off = qp.to_ising()
        t = {}
        for c, z, x in ising_terms(o):
            t[str(list(z))] = t.get(str(list(z)), 0) + c
        n = qp.get_num_vars()
        zs = [[i in (a, b) for i in range(n)] for a in range(-1, n) for b in range(a, n) if a != b or a < 0]
        return [off, o.num_qubits] + [t.get(str([bool(b) for b in z]), 0) for z in zs]

    def docplex(qp, _):
        from qiskit_optimization import QuadraticProgram

        new = QuadraticProgram()
        new.from_docplex(qp.to_docplex())
        return tidy(new)

    def subst(qp, _):
        names = [v.name for v in qp.variables]
        return [tidy(qp.substitute_variables(constants={names[0]: 1})),
                tidy(qp.substitute_variables(variables={names[0]: (names[-1], 1)}))]

    def conv(qp, obj):
        dst = obj.convert(qp)
        n = dst.get_num_vars()
        return [tidy(dst)] + [list(obj.interpret(nparr(ctx, b))) for b in ([0] * n, [1] * n, [i % 2 for i in range(n)])]

    def solve(qp, obj):
        return res_dump(obj.solve(qp))

    plain = {"value": value, "grad": grad, "feas": feas, "ising": ising, "docplex": docplex, "subst": subst}
    if op in plain:
        return plain[op], None
    if op.startswith("conv "):
        return conv, lambda: converter(op[5:])
    return solve, None


def edited(ctx, op, kind, sense, how, setting=None):
    """observe, change, observe again."""
    from . import c22
    from .c16 import Patch

    qp = c22.build(ctx, kind, sense, fixed=True)
    how = ctx.choice("edit", EDITS[how])
    run, make = ops(ctx, op)
    patch, done = {}, c22.nothing
    if run.__name__ == "solve":
        make, patch, done = getattr(c22, "env_" + op)(ctx, setting)
    seen = {}

    class Memo:  # the same inputs for all observations
        def __getattr__(self, k):
            f = getattr(ctx, k)
            if k not in ("int", "real"):
                return f

            def get(name, *a, **kw):
                if name not in seen:
                    seen[name] = f(name, *a, **kw)
                return seen[name]

            return get

    if make is None:
        run, _ = ops(Memo(), op)
    try:
        with Patch(ctx, patch):
            obj = make() if make else None
            run(qp, obj)
            edit(ctx, qp, how)
            got = run(qp, obj)
            want = run(rebuild(qp), make() if make else None)
            c22.same(ctx, "what is computed after a change", want, got)
    finally:
        done()
    ctx.cover("done")


def units(op, kinds, hows, **kw):
    """kinds: e.g. bb|l== ; hows: groups of edits."""
    us = []
    for kind in kinds:
        for sense in ("min", "max"):
            for how in hows:
                if how in ("constraint", "linear") and "l" not in kind.split("|")[1] or \
                        how == "qconstraint" and "q" not in kind.split("|")[1] or \
                        how == "bounds" and kind.split("|")[0][-1] == "b" or \
                        how == "program" and kind.split("|")[1]:
                    continue
                us.append(unit("edited/%s/%s/%s/%s" % (op, kind, sense, how), edited, op=op, kind=kind, sense=sense,
                               how=how, must_cover=("done",), cost=3, **kw))
    return us
