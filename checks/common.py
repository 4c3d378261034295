"""helpers shared by the harnesses.  Nothing here may depend on z3: harnesses also run concretely."""
import itertools


def unit(name, fn, **kw):
    extra = {k: kw.pop(k) for k in ("cost", "budget", "max_paths", "must_cover", "auto_n") if k in kw}
    return dict(name=name, fn=fn, kwargs=kw, **extra)


def sparse(ctx):
    """the scipy.sparse the package sees (model in symbolic runs, real in replays)."""
    if ctx.symbolic:
        from symx.loader import SPARSE

        return SPARSE
    import scipy.sparse

    return scipy.sparse


def nparr(ctx, values):
    import numpy as np

    if ctx.symbolic:
        from symx.npshim import obj1

        return obj1(list(values))
    return np.array(list(values))


def nparr2(ctx, rows):
    import numpy as np

    if ctx.symbolic:
        a = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                a[i, j] = v
        return a
    return np.array(rows)


def is_err(ex, name="QiskitOptimizationError"):
    return type(ex).__name__ == name


def add_var(qp, spec):
    """spec: (kind, name[, lb, ub])"""
    k, n = spec[0], spec[1]
    if k == "b":
        return qp.binary_var(n)
    if k == "i":
        return qp.integer_var(spec[2], spec[3], n)
    return qp.continuous_var(spec[2], spec[3], n)


def lin_val(coefs, x):
    s = 0
    for i, c in coefs.items():
        s = s + c * x[i]
    return s


def quad_val(coefs, x):
    s = 0
    for (i, j), c in coefs.items():
        s = s + c * (x[i] * x[j])
    return s


def expr_dict(lin):
    """coefficients of a linear/quadratic expression read cell by cell (does not settle zeros)."""
    return lin


def sat(ctx, sense, lhs, rhs):
    """does `lhs sense rhs` hold; concrete runs allow rounding."""
    s = sense.name if hasattr(sense, "name") else sense
    if s in ("LE", "<="):
        return lhs <= rhs if ctx.symbolic else (lhs <= rhs or ctx.close(lhs, rhs))
    if s in ("GE", ">="):
        return lhs >= rhs if ctx.symbolic else (lhs >= rhs or ctx.close(lhs, rhs))
    return lhs == rhs if ctx.symbolic else ctx.close(lhs, rhs)


def read_obj(qp):
    """oracle-side reading of an objective: constant, {i: c}, {(i,j): c} via the dense arrays."""
    n = qp.get_num_vars()
    lin = qp.objective.linear.to_array()
    quad = qp.objective.quadratic.to_array()
    return (qp.objective.constant, {i: lin[i] for i in range(n)},
            {(i, j): quad[i][j] for i in range(n) for j in range(n)})


def obj_val(qp, x):
    """objective value computed by the oracle from the stored coefficients."""
    c, l, q = read_obj(qp)
    return c + lin_val(l, x) + quad_val(q, x)


def con_val(con, x, n):
    a = con.linear.to_array()
    s = 0
    for i in range(n):
        s = s + a[i] * x[i]
    if hasattr(con, "quadratic"):
        q = con.quadratic.to_array()
        for i in range(n):
            for j in range(n):
                s = s + q[i][j] * (x[i] * x[j])
    return s


def cons_ok(ctx, qp, x):
    """conjunction of all constraints of qp at x (no bounds)."""
    n = qp.get_num_vars()
    cs = []
    for c in list(qp.linear_constraints) + list(qp.quadratic_constraints):
        cs.append(sat(ctx, c.sense, con_val(c, x, n), c.rhs))
    return ctx.And(*cs)


def bounds_ok(ctx, qp, x):
    return ctx.And(*[ctx.And(sat(ctx, ">=", v, var.lowerbound), sat(ctx, "<=", v, var.upperbound))
                     for v, var in zip(x, qp.variables)])


def all_bits(n):
    return list(itertools.product([0, 1], repeat=n))


def some_bits(n):
    """all assignments; of many variables those with at most two ones, at most two zeros, and some others."""
    if n < 8:
        return all_bits(n)
    few = [tuple(int(i in (a, b)) for i in range(n)) for a in range(-1, n) for b in range(a, n)]
    mix = [tuple(int((i * m) % 5 < 2) for i in range(n)) for m in range(1, 4)]
    return list(dict.fromkeys(few + [tuple(1 - v for v in x) for x in few] + mix))


def ising_terms(op):
    """[(coeff, z mask, x mask)] of an opflow operator (works on real and symbolic operators)."""
    from qiskit.opflow import PauliOp, PauliSumOp, SummedOp

    out = []
    if isinstance(op, PauliOp):
        out.append((op.coeff, [bool(b) for b in op.primitive.z], [bool(b) for b in op.primitive.x]))
    elif isinstance(op, PauliSumOp):
        for c, t in zip(op.primitive.coeffs, op.primitive.table):
            out.append((c * op.coeff, [bool(b) for b in t.Z[0]], [bool(b) for b in t.X[0]]))
    elif isinstance(op, SummedOp):
        for o in op.oplist:
            for c, z, x in ising_terms(o):
                out.append((c * op.coeff, z, x))
    else:
        raise TypeError("operator %r" % type(op))
    return out


def energy(terms, x):
    """diagonal element of an Ising operator at the 0/1 assignment x (x[i] = value of qubit i)."""
    s = 0
    for c, z, xm in terms:
        if any(xm):
            raise AssertionError("off-diagonal operator")
        for i, b in enumerate(z):
            if b:
                c = c * (1 - 2 * x[i])
        s = s + c
    return s
