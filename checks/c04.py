"""C04: whatever the history of (possibly failing) edits, a program's names, indices and elements agree."""
from .common import unit

BOUNDS = ("every history of 3 edits (4 in the thorough tier for the constraint histories) out of 18 variable "
          "edits, or of 11 linear / 11 quadratic constraint edits on a program that already has 0 or 3 "
          "elements; every set of taken names among the first five automatic ones; bounds, coefficients and right-hand sides are arbitrary reals, so that edits fail "
          "whenever the solver can make them fail")
OUTSIDE = "expressions defined before variables that are added later (evaluating them raises); longer histories; names outside the small pool (equal / different names are what matters)"


class Ref:
    def __init__(self):
        self.v, self.l, self.q = [], [], []  # (name, kind, lb, ub), (name, coef, rhs, sense)


def same(ctx, qp, ref, where):
    vs = qp.variables
    ctx.check("%s: number of variables" % where, qp.get_num_vars() == len(ref.v) == len(vs))
    ctx.check("%s: variable names" % where, [v.name for v in vs] == [r[0] for r in ref.v])
    ctx.check("%s: variable index" % where,
              dict(qp.variables_index) == {r[0]: i for i, r in enumerate(ref.v)})
    for i, r in enumerate(ref.v):
        v = qp.get_variable(i)
        ctx.check("%s: lookup by index" % where, v is vs[i])
        ctx.check("%s: lookup by name" % where, qp.get_variable(r[0]) is v)
        ctx.check("%s: type" % where, v.vartype.name == r[1])
        ctx.eq("%s: lower bound" % where, v.lowerbound, r[2])
        ctx.eq("%s: upper bound" % where, v.upperbound, r[3])
    for k, f in (("BINARY", qp.get_num_binary_vars), ("INTEGER", qp.get_num_integer_vars),
                 ("CONTINUOUS", qp.get_num_continuous_vars)):
        ctx.check("%s: count %s" % (where, k), f() == sum(r[1] == k for r in ref.v))
    for lst, idx, get, num, want in (
            (qp.linear_constraints, qp.linear_constraints_index, qp.get_linear_constraint,
             qp.get_num_linear_constraints, ref.l),
            (qp.quadratic_constraints, qp.quadratic_constraints_index, qp.get_quadratic_constraint,
             qp.get_num_quadratic_constraints, ref.q)):
        ctx.check("%s: number of constraints" % where, num() == len(want) == len(lst))
        ctx.check("%s: constraint names" % where, [c.name for c in lst] == [r[0] for r in want])
        ctx.check("%s: constraint index" % where, dict(idx) == {r[0]: i for i, r in enumerate(want)})
        for i, r in enumerate(want):
            c = get(i)
            ctx.check("%s: constraint by index" % where, c is lst[i])
            ctx.check("%s: constraint by name" % where, get(r[0]) is c)
            ctx.check("%s: sense" % where, c.sense.name == r[3])
            ctx.eq("%s: rhs" % where, c.rhs, r[2])
            n = len(ref.v)
            if n:
                ctx.eq("%s: coefficient" % where, c.linear[0], r[1])
                if lst is qp.quadratic_constraints:
                    ctx.eq("%s: quadratic coefficient" % where, c.quadratic[0, 0], r[1])


def _expect(ctx, where, f, should_fail, errors):
    """run an edit; returns its value or None when it failed."""
    try:
        r = f()
    except errors:
        ctx.check("%s: edit refused although valid" % where, should_fail)
        return None, True
    ctx.check("%s: invalid edit accepted" % where, ctx.Not(should_fail) if not isinstance(
        should_fail, bool) else not should_fail)
    return r, False


VAR_OPS = ["bin_a", "bin_none", "bin_x1", "int_a", "int_none", "cont_b", "cont_default", "list2", "list_fmt",
           "list_dup", "dict_keys", "dict_clash", "list_nested", "list_zero", "bound_lo", "bound_hi",
           "cont_list2", "int_dict2"]


def var_step(ctx, qp, ref, op, s):
    from qiskit_optimization import QiskitOptimizationError as E

    names = [r[0] for r in ref.v]
    lb = ub = None
    if op in ("int_a", "int_none", "cont_b", "list2", "dict_clash", "cont_list2", "int_dict2"):
        lb, ub = ctx.real("lb%d" % s), ctx.real("ub%d" % s)
    bad = (lb > ub) if lb is not None else False
    w = "%s" % op

    def single(f, nm, kind, a, b, bad):
        clash = nm in names
        v, failed = _expect(ctx, w, f, True if clash else bad, E)
        if failed:
            return
        if nm is None:
            ctx.check(w + ": fresh default name", v.name not in names and v.name.startswith("x"))
        else:
            ctx.check(w + ": requested name", v.name == nm)
        ref.v.append((v.name, kind, a, b))

    def many(f, want, kind, a, b, bad, is_dict=False):
        """want: list of names, or (prefix, count)."""
        clash = isinstance(want, list) and (len(set(want)) != len(want) or any(x in names for x in want))
        r, failed = _expect(ctx, w, f, True if clash else bad, E)
        if failed:
            return
        vs = list(r.values()) if is_dict else list(r)
        if is_dict:
            ctx.check(w + ": keys are the names", list(r) == [v.name for v in vs])
        got = [v.name for v in vs]
        if isinstance(want, list):
            ctx.check(w + ": names", got == want)
        else:
            ctx.check(w + ": fresh names", len(set(got)) == want[1] == len(got) and
                      all(g not in names and g.startswith(want[0]) for g in got))
        for v in vs:
            ref.v.append((v.name, kind, a, b))

    if op == "bin_a":
        single(lambda: qp.binary_var("a"), "a", "BINARY", 0, 1, False)
    elif op == "bin_none":
        single(lambda: qp.binary_var(), None, "BINARY", 0, 1, False)
    elif op == "bin_x1":
        single(lambda: qp.binary_var(name="x1"), "x1", "BINARY", 0, 1, False)
    elif op == "int_a":
        single(lambda: qp.integer_var(lb, ub, "a"), "a", "INTEGER", lb, ub, bad)
    elif op == "int_none":
        single(lambda: qp.integer_var(lb, ub), None, "INTEGER", lb, ub, bad)
    elif op == "cont_b":
        single(lambda: qp.continuous_var(lowerbound=lb, upperbound=ub, name="b"), "b", "CONTINUOUS", lb,
               ub, bad)
    elif op == "cont_default":
        single(lambda: qp.continuous_var(), None, "CONTINUOUS", 0, 1e20, False)
    elif op == "list2":
        many(lambda: qp.integer_var_list(2, lb, ub), ("x", 2), "INTEGER", lb, ub, bad)
    elif op == "cont_list2":
        many(lambda: qp.continuous_var_list(2, lb, ub, "y"), ("y", 2), "CONTINUOUS", lb, ub, bad)
    elif op == "int_dict2":
        many(lambda: qp.integer_var_dict(2, lb, ub, "y", "_{}"), ("y_", 2), "INTEGER", lb, ub, bad, True)
    elif op == "list_fmt":
        many(lambda: qp.binary_var_list(2, "x", "{}"), ("x", 2), "BINARY", 0, 1, False)
    elif op == "list_dup":
        many(lambda: qp.binary_var_list(2, "a", ""), ["a", "a"], "BINARY", 0, 1, False)
    elif op == "dict_keys":
        many(lambda: qp.binary_var_dict(["b", "1"], "", "{}"), ["b", "1"], "BINARY", 0, 1, False, True)
    elif op == "dict_clash":
        many(lambda: qp.continuous_var_dict(["c", "a"], lb, ub, "", "{}"), ["c", "a"], "CONTINUOUS", lb, ub,
             bad, True)
    elif op == "list_nested":
        many(lambda: qp.binary_var_list(2, "z", "{{}}"), ["z", "z"], "BINARY", 0, 1, True)
    elif op == "list_zero":
        many(lambda: qp.binary_var_list(0), ["z", "z"], "BINARY", 0, 1, True)
    elif op in ("bound_lo", "bound_hi"):
        if not ref.v:
            return
        v = ctx.real("nb%d" % s)
        nm, kind, a, b = ref.v[-1]
        if op == "bound_lo":
            def f():
                qp.get_variable(nm).lowerbound = v
            _, failed = _expect(ctx, w, f, v > b, E)
            if not failed:
                ref.v[-1] = (nm, kind, v, b)
        else:
            def f():
                qp.get_variable(nm).upperbound = v
            _, failed = _expect(ctx, w, f, v < a, E)
            if not failed:
                ref.v[-1] = (nm, kind, a, v)


def var_hist(ctx, first, steps, pool):
    from qiskit_optimization import QuadraticProgram

    qp, ref = QuadraticProgram("p"), Ref()
    for s in range(steps):
        op = first if s == 0 else ctx.choice("op%d" % s, pool)
        var_step(ctx, qp, ref, op, s)
        same(ctx, qp, ref, "after %s" % op)
    qp.clear()
    same(ctx, qp, Ref(), "after clear")
    ctx.cover("done")


CON_OPS = ["add_a", "add_none", "add_c1", "add_badsense", "add_badvar", "rm_a", "rm_missing", "rm_0",
           "rm_last", "rm_range", "rm_neg"]


def con_step(ctx, qp, ref, kind, op, s):
    from qiskit_optimization import QiskitOptimizationError as E

    lst = ref.l if kind == "l" else ref.q
    names = [r[0] for r in lst]
    w = kind + ":" + op

    def add(name, sense="<=", canon="LE", lin=None, bad=False, errs=E):
        c, r = ctx.real("c%d" % s), ctx.real("r%d" % s)
        lin = {"v": c} if lin is None else lin

        def f():
            if kind == "l":
                return qp.linear_constraint(linear=lin, sense=sense, rhs=r, name=name)
            return qp.quadratic_constraint(linear=lin, quadratic={("v", "v"): c}, sense=sense, rhs=r,
                                           name=name)

        con, failed = _expect(ctx, w, f, bad or (name is not None and name in names), errs)
        if failed:
            return
        if name is None:
            ctx.check(w + ": fresh default name", con.name not in names)
        else:
            ctx.check(w + ": requested name", con.name == name)
        lst.append((con.name, c, r, canon))

    def rm(i, valid):
        f = qp.remove_linear_constraint if kind == "l" else qp.remove_quadratic_constraint
        _, failed = _expect(ctx, w, lambda: f(i), not valid, (KeyError, IndexError))
        if not failed:
            del lst[names.index(i) if isinstance(i, str) else i]

    if op == "add_a":
        add("a")
    elif op == "add_none":
        add(None, ">=", "GE")
    elif op == "add_c1":
        add("c1" if kind == "l" else "q1", "==", "EQ")
    elif op == "add_badsense":
        add("bad", sense="!", bad=True)
    elif op == "add_badvar":
        add("badvar", lin={"nosuch": 1}, bad=True, errs=(KeyError, E))
    elif op == "rm_a":
        rm("a", "a" in names)
    elif op == "rm_missing":
        rm("zz", False)
    elif op == "rm_0":
        rm(0, bool(lst))
    elif op == "rm_last":
        rm(len(lst) - 1 if lst else 0, bool(lst))
    elif op == "rm_range":
        rm(len(lst), False)
    elif op == "rm_neg":
        # counting from the end may be refused, but must not spoil the index
        i = ctx.choice("neg%d" % s, [-1, -2])
        f = qp.remove_linear_constraint if kind == "l" else qp.remove_quadratic_constraint
        try:
            f(i)
        except (KeyError, IndexError):
            return
        ctx.check(w + ": removed nothing", len(lst) >= -i)
        del lst[i]


def con_hist(ctx, kind, first, steps, pre):
    from qiskit_optimization import QuadraticProgram

    qp, ref = QuadraticProgram("p"), Ref()
    lo = ctx.real("lo")
    hi = ctx.real("hi")
    ctx.assume(lo <= hi)
    qp.continuous_var(lo, hi, "v")
    ref.v.append(("v", "CONTINUOUS", lo, hi))
    # the other kind of constraint must never be affected
    oc, orr = ctx.real("oc"), ctx.real("or")
    if kind == "l":
        qp.quadratic_constraint({"v": oc}, {("v", "v"): oc}, "<=", orr, "a")
        ref.q.append(("a", oc, orr, "LE"))
    else:
        qp.linear_constraint({"v": oc}, "<=", orr, "a")
        ref.l.append(("a", oc, orr, "LE"))
    for i in range(pre):
        con_step(ctx, qp, ref, kind, ["add_none", "add_a", "add_c1"][i], 100 + i)
    for s in range(steps):
        op = first if s == 0 else ctx.choice("op%d" % s, CON_OPS)
        con_step(ctx, qp, ref, kind, op, s)
    same(ctx, qp, ref, "end")
    ctx.cover("done")


def auto_names(ctx, how, pool):
    """automatic names avoid all existing ones, whichever of them are taken already."""
    from qiskit_optimization import QuadraticProgram

    qp, ref = QuadraticProgram("p"), Ref()
    pre = {"l": "c", "q": "q"}.get(how, "x")
    taken = [pre + str(i) for i in range(pool) if ctx.choice("taken%d" % i, [0, 1])]
    if ctx.choice("order", [0, 1]):
        taken = taken[::-1]
    if how in "lq":
        lo = ctx.real("lo", hi=0)
        qp.continuous_var(lo, 1, "v")
        ref.v.append(("v", "CONTINUOUS", lo, 1))

    def con(name, s):
        c, r = ctx.real("c" + s), ctx.real("r" + s)
        if how == "l":
            k = qp.linear_constraint({"v": c}, ">=", r, name)
            ref.l.append((k.name, c, r, "GE"))
        else:
            k = qp.quadratic_constraint({"v": c}, {(0, 0): c}, "==", r, name)
            ref.q.append((k.name, c, r, "EQ"))

    def var(v, kind, lb=0, ub=1):
        ref.v.append((v.name, kind, lb, ub))

    for i, t in enumerate(taken):
        con(t, "t%d" % i) if how in "lq" else var(qp.binary_var(t), "BINARY")
    for k in range(2):
        if how in "lq":
            con(None, "n%d" % k)
        elif how == "bin":
            var(qp.binary_var(), "BINARY")
        elif how == "int":
            u = ctx.real("u%d" % k, lo=0)
            var(qp.integer_var(upperbound=u), "INTEGER", 0, u)
        elif how == "list":
            for v in qp.binary_var_list(2):
                var(v, "BINARY")
        elif how == "dict":
            d = qp.continuous_var_dict(2)
            ctx.check("keys are the names", list(d) == [v.name for v in d.values()])
            for v in d.values():
                var(v, "CONTINUOUS", 0, 1e20)
        same(ctx, qp, ref, "automatic name")
    ctx.check("names differ", all(len({r[0] for r in x}) == len(x) for x in (ref.v, ref.l, ref.q)))
    ctx.cover("done")


def obj_hist(ctx, steps):
    """replacing the objective, clearing and rebuilding."""
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram("p")
    qp.continuous_var(-5, 5, "v")
    qp.minimize()
    k, sense = 0, "MINIMIZE"
    c = 0
    for s in range(steps):
        op = ctx.choice("op%d" % s, ["min", "max", "clear", "var"])
        if op in ("min", "max"):
            k, c = ctx.real("k%d" % s), ctx.real("c%d" % s)
            (qp.minimize if op == "min" else qp.maximize)(k, {0: c}, {(0, 0): c})
            sense = "MINIMIZE" if op == "min" else "MAXIMIZE"
        elif op == "clear":
            qp.clear()
            ctx.check("clear removes everything", qp.get_num_vars() == 0 and qp.name == "" and
                      not qp.variables_index)
            ctx.eq("clear resets the objective", qp.objective.constant, 0)
            ctx.check("clear resets the sense", qp.objective.sense.name == "MINIMIZE")
            qp.binary_var("v")
            qp.minimize()
            k, sense, c = 0, "MINIMIZE", 0
        else:
            try:
                qp.binary_var("v")
                ctx.fail("duplicate accepted")
            except Exception as ex:  # noqa
                ctx.check("refused", type(ex).__name__ == "QiskitOptimizationError")
    x = ctx.real("x")
    ctx.check("sense", qp.objective.sense.name == sense)
    ctx.eq("value", qp.objective.evaluate([x]), k + c * x + c * x * x)
    ctx.cover("done")


def units(tier):
    us = []
    q = tier == "quick"
    for f in VAR_OPS:
        us.append(unit("vars/%s" % f, var_hist, first=f, steps=3, pool=VAR_OPS, cost=5,
                       must_cover=("done",), max_paths=20000))
    for kind in "lq":
        for pre in (0, 3):
            for f in CON_OPS:
                us.append(unit("cons/%s/%d/%s" % (kind, pre, f), con_hist, kind=kind, first=f,
                               steps=3 if q else 4, pre=pre, must_cover=("done",), max_paths=20000))
    for how in ("l", "q", "bin", "int", "list", "dict"):
        us.append(unit("auto/%s" % how, auto_names, how=how, pool=5 if q else 7, must_cover=("done",)))
    us.append(unit("objective", obj_hist, steps=3 if q else 5, must_cover=("done",), max_paths=20000))
    return us
