"""C12: translation to docplex and back keeps the problem."""
from .common import add_var, con_val, lin_val, obj_val, quad_val, sat, unit

BOUNDS = ("2-3 variables of every type (and 12 with 12 constraints), 0-3 linear and quadratic constraints of every sense; bounds, coefficients, "
          "right-hand sides and points are arbitrary reals |v|<=1000 (infinite bounds included); the translated model "
          "and the program read back are compared at all points; variable bounds up to 1e12; constraints without "
          "variables with right-hand sides -1, -.25, 0, .25, 1 (kept or refused unless they hold); 8 headers of LP files"
          "; programs that are used, edited in one of about 30 ways and used again")
OUTSIDE = ("the LP format itself (written by docplex, read by CPLEX: both are stand-ins that pass the model on); floating point rounding")
NAMES = ["x", "y", "z"] + ["v%d" % i for i in range(3, 12)]


def dlin(e, val):
    """value of a docplex linear expression / variable / constant, read term by term."""
    from docplex.mp.dvar import Var

    if isinstance(e, Var):
        return val[e.name]
    s = e.constant
    for v, c in e.iter_terms():
        s = s + c * val[v.name]
    return s


def dval(e, val):
    from docplex.mp.quad import QuadExpr

    if isinstance(e, QuadExpr):
        s = dlin(e.linear_part, val)
        for a, b, c in e.iter_quad_triplets():
            s = s + c * val[a.name] * val[b.name]
        return s
    return dlin(e, val)


def dcons(mdl):
    return {c.name: c for c in mdl.iter_constraints()}


SENSE = {"LE": "<=", "GE": ">=", "EQ": "=="}


class LpFiles:
    """LP files, with docplex's writer and CPLEX's reader replaced by stand-ins that pass the model on."""

    HEADERS = [(["\\ generated", "\\ ENCODING=ISO-8859-1", "\\Problem name: my prog", "", "Minimize"], "my prog"),
               (["\\Problem name: p-1"], "p-1"), (["\\Problem name:", "Maximize"], ""), (["Minimize", "\\Problem name: late"], ""),
               (["\\ generated", "\\ Problem name: no", "\\problem name: no", "Minimize"], ""),
               (["\\ generated", "", "\\Problem name: late"], ""), ([], ""),
               (["\\Problem name:   tab:\tand \\ backslash  ", "Minimize"], "tab:\tand \\ backslash")]

    def __init__(self, ctx):
        self.ctx = ctx

    def written(self, qp):
        from docplex.mp.model import Model

        seen = []
        old = Model.export_as_lp
        Model.export_as_lp = lambda m, path=None, *a, **kw: seen.append((m, path))
        try:
            qp.write_to_lp_file("some/where.lp")
        finally:
            Model.export_as_lp = old
        self.ctx.check("one file is written, where it was asked for", [p for _, p in seen] == ["some/where.lp"])
        return seen[0][0]

    def read(self, qp, mdl):
        import os
        import tempfile

        from docplex.mp.model_reader import ModelReader

        ctx = self.ctx
        lines, name = ctx.choice("header", self.HEADERS)

        def read(*a, model_name=None, **kw):
            ctx.check("the file that was named is read", path in a or path in kw.values())
            mdl.name = model_name or base  # as docplex does
            return mdl

        fd, path = tempfile.mkstemp(suffix=".lp")
        base = os.path.basename(path)[:-3]
        old = {k: ModelReader.__dict__[k] for k in ("read", "read_model") if k in ModelReader.__dict__}
        try:
            with os.fdopen(fd, "w") as f:
                f.write("\n".join(lines))
            for k in old:
                setattr(ModelReader, k, staticmethod(read))
            qp.read_from_lp_file(path)
        finally:
            for k, v in old.items():
                setattr(ModelReader, k, v)
            os.remove(path)
        return name or base


def back(ctx, kinds, lin, quad, cons, sense, inf=False, named=True, lp=False):
    from qiskit_optimization import INFINITY, QuadraticProgram

    n = len(kinds)
    qp = QuadraticProgram("prog")
    for i, k in enumerate(kinds):
        if k == "b":
            qp.binary_var(NAMES[i] if named else None)
            continue
        mk = ctx.int if k == "i" and inf != "real" else ctx.real
        lo = -INFINITY if inf in ("lo", "both") else mk("lo%d" % i, -10 ** 12, 10 ** 12)
        hi = INFINITY if inf in ("hi", "both") else mk("hi%d" % i, -10 ** 12, 10 ** 12)
        ctx.assume(lo <= hi)
        add_var(qp, (k, NAMES[i] if named else None, lo, hi))
    names = [v.name for v in qp.variables]

    def co(nm):
        c = ctx.real(nm)
        ctx.assume(c != 0)
        return c

    k0 = ctx.real("k")
    ol = {i: co("l%d" % i) for i in lin}
    oq = {p: co("q%d_%d" % p) for p in quad}
    (qp.minimize if sense == "min" else qp.maximize)(k0, dict(ol), dict(oq))
    x = [ctx.real("x%d" % i) for i in range(n)]
    want = {}
    for m, (s, cl, cq) in enumerate(cons):
        l = {i: co("a%d_%d" % (m, i)) for i in cl}
        r = ctx.real("r%d" % m) if len(cons) < 9 or m in (2, 10) else 5 + m
        if cq is None:
            c = qp.linear_constraint(dict(l), s, r, "k%d" % m if named else None)
            lhs = lin_val(l, x)
        else:
            q = {p: co("d%d_%d_%d" % ((m,) + p)) for p in cq}
            c = qp.quadratic_constraint(dict(l), dict(q), s, r, "k%d" % m if named else None)
            lhs = lin_val(l, x) + quad_val(q, x)
        # a quadratic constraint without quadratic terms may come back as a linear one
        want[c.name] = (s, lhs, r, "l" if cq is None else "q" if cq else "lq")
    files = LpFiles(ctx) if lp else None
    mdl = files.written(qp) if lp else qp.to_docplex()
    val = dict(zip(names, x))
    # the docplex model
    ctx.check("model name", mdl.name == "prog")
    ctx.check("objective sense", bool(mdl.objective_sense.is_minimize()) == (sense == "min"))
    f = k0 + lin_val(ol, x) + quad_val(oq, x)
    ctx.eq("docplex objective", dval(mdl.objective_expr, val), f)
    dv = list(mdl.iter_variables())
    ctx.check("docplex variables", [v.name for v in dv] == names)
    for v, w in zip(qp.variables, dv):
        ctx.eq("docplex lower bound", w.lb, v.lowerbound)
        ctx.eq("docplex upper bound", w.ub, v.upperbound)
        ctx.check("docplex variable type", {"b": "B", "i": "I", "c": "C"}[kinds[names.index(v.name)]]
                  == w.vartype.cplex_typecode)
    dc = dcons(mdl)
    ctx.check("docplex constraints", sorted(dc) == sorted(want))
    for nm, (s, lhs, r, _) in want.items():
        c = dc[nm]
        ctx.eq("docplex residual", dval(c.get_left_expr(), val) - dval(c.get_right_expr(), val), lhs - r)
        ctx.check("docplex constraint sense", SENSE[c.sense.name] == s)
    # and back
    q2 = QuadraticProgram()
    q2.binary_var("old")
    if lp:
        ctx.check("name", files.read(q2, mdl) == q2.name)
    else:
        q2.from_docplex(mdl)
        ctx.check("name", q2.name == qp.name)
    ctx.check("variables", [(v.name, v.vartype) for v in q2.variables] == [(v.name, v.vartype) for v in qp.variables])
    for v, w in zip(qp.variables, q2.variables):
        ctx.eq("lower bound", w.lowerbound, v.lowerbound)
        ctx.eq("upper bound", w.upperbound, v.upperbound)
    ctx.check("sense", q2.objective.sense == qp.objective.sense)
    ctx.eq("objective", q2.objective.evaluate(list(x)), f)
    ctx.check("counts", q2.get_num_linear_constraints() + q2.get_num_quadratic_constraints() == len(want))
    got = [c.name for c in q2.linear_constraints]
    ctx.check("linear constraints stay linear", [nm for nm in got if want[nm][3] != "lq"] ==
              [nm for nm, w in want.items() if w[3] == "l"])
    for c in list(q2.linear_constraints) + list(q2.quadratic_constraints):
        s, lhs, r, _ = want[c.name]
        ctx.check("constraint sense", SENSE[c.sense.name] == s)
        ctx.eq("residual", con_val(c, x, n) - c.rhs, lhs - r)
        ctx.check("constraint", ctx.Iff(sat(ctx, s, con_val(c, x, n), c.rhs), sat(ctx, s, lhs, r)))
    ctx.cover("done")


def sparse(ctx, kinds, s, sense, part):
    """every pattern of present coefficients."""
    n = len(kinds)
    pairs = [(0, 0), (0, 1), (1, 1)]
    lin = [i for i in range(n) if ctx.choice("L%d" % i, [0, 1])]
    quad = [p for p in pairs if ctx.choice("Q%d%d" % p, [0, 1])]
    if part == "obj":
        return back(ctx, kinds, lin, quad, [(s, [1], None)], sense)
    if not lin and not quad:
        lin = [0]  # a constraint without variables is outside
    cons = [(s, lin, quad), (s, [i for i in range(n) if i not in lin] or [0], None)]
    return back(ctx, kinds, [0], [], cons, sense)


def constant(ctx, quad, s):
    """a constraint without variables: dropped only if it holds, otherwise refused or kept."""
    from docplex.mp.utils import DOcplexException
    from qiskit_optimization import QiskitOptimizationError, QuadraticProgram

    r = ctx.choice("r", [-1, 0, 1, 0.25, -0.25])
    holds = {"<=": 0 <= r, ">=": 0 >= r, "==": r == 0}[s]
    qp = QuadraticProgram("prog")
    qp.binary_var("x")
    qp.minimize(linear={0: ctx.real("l")})
    a, b = ctx.real("a"), ctx.real("b")
    ctx.assume(a != 0)
    if quad:
        qp.quadratic_constraint({}, {}, s, r, "c")
    else:
        qp.linear_constraint({}, s, r, "c")
    qp.linear_constraint({0: a}, "<=", b, "d")
    try:
        mdl = qp.to_docplex()
        q2 = QuadraticProgram()
        q2.from_docplex(mdl)
    except (DOcplexException, QiskitOptimizationError):
        ctx.check("a constraint that always holds is refused", not holds)
        ctx.cover("done")
        return
    x = ctx.bit("x")
    ctx.check("the feasible set is that of the program", ctx.Iff(
        ctx.And(*[sat(ctx, SENSE[c.sense.name], con_val(c, [x], 1), c.rhs)
                  for c in list(q2.linear_constraints) + list(q2.quadratic_constraints)]),
        ctx.And(holds, a * x <= b)))
    ctx.cover("done")


def units(tier):
    from . import edits
    us = []

    def add(nm, **kw):
        us.append(unit(nm, back, must_cover=("done",), **kw))

    S = ("<=", ">=", "==")
    for kinds in ("bb", "bi", "ic", "cb", "ii", "cc", "bic"):
        n = len(kinds)
        for s in ("min", "max"):
            add("obj/%s/%s" % (kinds, s), kinds=kinds, lin=[0, n - 1], quad=[(0, 0), (0, 1), (n - 1, 0)], cons=[], sense=s)
        for t in S:
            add("lin/%s/%s" % (kinds, t), kinds=kinds, lin=[1], quad=[(0, 1)], cons=[(t, [0, n - 1], None)], sense="min")
            add("quad/%s/%s" % (kinds, t), kinds=kinds, lin=[], quad=[], cons=[(t, [1], [(0, 1), (1, 1)])], sense="max")
    add("empty", kinds="bi", lin=[], quad=[], cons=[], sense="max")
    for inf in ("lo", "hi", "both"):
        add("inf/%s" % inf, kinds="ci", lin=[0], quad=[(1, 1)], cons=[("<=", [0, 1], None)], sense="min", inf=inf)
    for kinds in ("ib", "ic", "ii"):
        add("realbounds/%s" % kinds, kinds=kinds, lin=[0], quad=[(0, 1)], cons=[(">=", [0, 1], None)], sense="max",
            inf="real")
    for a in S:
        for b in S:
            add("two/%s%s" % (a, b), kinds="bc", lin=[0], quad=[(1, 1)],
                cons=[(a, [0, 1], None), (b, [1], None), (b, [0], [(0, 1)]), (a, [], [(1, 0), (0, 0)])], sense="min")
    for j, kinds in enumerate(("bi", "cb", "ic") if tier == "quick" else ("bi", "cb", "ic", "bb", "ii", "cc")):
        for m, s in enumerate(S):
            if tier != "quick" or m == j:
                for part in ("obj", "con"):
                    us.append(unit("sparse/%s/%s/%s" % (part, kinds, s), sparse, must_cover=("done",), kinds=kinds, s=s,
                                   sense="min" if j % 2 else "max", part=part, cost=5, max_paths=2000, budget=300))
    for quad in (0, 1):
        for s in S:
            us.append(unit("constant/%d/%s" % (quad, s), constant, must_cover=("done",), quad=quad, s=s))
    for s in ("min", "max"):  # more than ten variables and constraints: two-digit positions
        for named in (True, False):
            add("wide/%s/%s" % (s, named), kinds="b" * 9 + "ibc", lin=[2, 10, 11], quad=[(2, 10), (9, 11), (10, 11)],
                cons=[(S[m % 3], [m, 2] if m != 2 else [m], None) if m % 2 else (S[m % 3], [m], [(2, 10), (9, m)]) for m in range(12)],
                sense=s, named=named, cost=5)
    add("unnamed", kinds="bic", lin=[0, 1], quad=[(0, 2)], cons=[("<=", [0], None), (">=", [1, 2], None),
                                                                ("==", [2], [(0, 1)])], sense="min", named=False)
    if tier != "quick":
        for a in S:
            for b in S:
                for c in S:
                    add("deep/%s%s%s" % (a, b, c), kinds="bic", lin=[0, 1, 2], quad=[(0, 1), (1, 2), (2, 2)],
                        cons=[(a, [0, 1, 2], None), (b, [0, 2], [(1, 2), (0, 0)]), (c, [1], [(1, 1), (2, 0)])], sense="max")
    for s in ("min", "max"):
        add("lp/%s" % s, kinds="bic", lin=[0, 2], quad=[(0, 1)], cons=[("<=", [0, 1], None), (">=", [2], [(1, 2)]), ("==", [1], None)],
            sense=s, lp=True)
    us += edits.units("docplex", ("bi|l<=q>=", "bc|l==", "bb|"), edits.ALL)
    return us
