"""C20: set and number applications state exactly the named problem."""
import itertools

from .c19 import base, result
from .common import all_bits, cons_ok, nparr, some_bits, unit

BOUNDS = ("exact cover / set packing: 1-4 subsets of up to 4 elements, any membership (all families of 3 subsets of 3 "
          "elements), repeated elements, integer and string elements; number partitioning: 1-4 arbitrary real numbers; "
          "knapsack: 1-4 items, arbitrary real values, weights and capacity (zero and negative ones included); all "
          "assignments; instances with 12 subsets, numbers or items at selected assignments; "
          "applications used, changed and used again; programs edited by their user")
OUTSIDE = ("empty problems; larger instances; points whose residual of the number partition is nonzero but below the "
           "feasibility tolerance; floating point rounding")


def sets(ctx, which, members=None, ns=3, ne=3, kind="array", names="int"):
    from qiskit_optimization import applications as A

    label = {"int": lambda e: e + 5, "str": lambda e: "abcdefghijklmnop"[e], "neg": lambda e: 3 * (1 - e)}[names]
    if members is None:
        members = [[e for e in range(ne) if ctx.choice("m%d%d" % (s, e), [0, 1])] for s in range(ns)]
        if not any(members):
            ctx.cover("done")
            return
    subs = [[label(e) for e in m] for m in members]
    given = [list(s) for s in subs]
    p = {"cover": A.ExactCover, "packing": A.SetPacking}[which](subs)
    qp = p.to_quadratic_program()
    n = len(subs)
    base(ctx, qp, n, "MINIMIZE" if which == "cover" else "MAXIMIZE")
    univ = sorted({e for m in members for e in m})
    y = [ctx.int("y%d" % i, 0, 1) for i in range(n)]
    ctx.eq("objective counts the subsets", qp.objective.evaluate(y), sum(y))
    times = {e: sum((y[i] for i in range(n) if e in members[i]), 0) for e in univ}
    ctx.check("feasible exactly if every element is covered once (at most once)",
              ctx.Iff(cons_ok(ctx, qp, y),
                      ctx.And(*[t == 1 if which == "cover" else t <= 1 for t in times.values()])))
    for x in some_bits(n):
        r = p.interpret(result(ctx, qp, x, kind))
        ctx.check("interpretation", [list(s) for s in r] == [given[i] for i in range(n) if x[i]])
    ctx.check("the given subsets are unchanged", subs == given)
    ctx.cover("done")


def number(ctx, n, vals=None, kind="array"):
    from qiskit_optimization.applications import NumberPartition

    v = list(vals) if vals else [ctx.real("v%d" % i, -100, 100) for i in range(n)]
    for a in v if not vals else []:
        ctx.assume(ctx.Or(a > 1, a < -1, a == 0) if n < 3 else ctx.Or(a > 1, a < -1))
    given = list(v)
    p = NumberPartition(v)
    qp = p.to_quadratic_program()
    base(ctx, qp, n, None)
    for x in some_bits(n):
        ctx.eq("no objective", qp.objective.evaluate(list(x)), 0)
        d = sum((v[i] if x[i] else -v[i] for i in range(n)), 0)
        ok = cons_ok(ctx, qp, x)
        ctx.check("feasible exactly if the sums are equal", ctx.Iff(ok, d == 0 if ctx.symbolic else abs(d) < 1e-9))
        r = p.interpret(result(ctx, qp, x, kind))
        ctx.check("two sets", len(r) == 2)
        for side in (0, 1):
            want = [given[i] for i in range(n) if x[i] == side]
            ctx.check("interpretation", len(r[side]) == len(want) and all(bool(a == b) for a, b in zip(r[side], want)))
    ctx.cover("done")


def knap(ctx, n, kind="array", setter=False, zero=()):
    from qiskit_optimization.applications import Knapsack

    v = [0 if "v" in zero and i == 0 else ctx.real("v%d" % i, -100, 100) for i in range(n)]
    w = [0 if "w" in zero and i == 0 else ctx.real("w%d" % i, -100, 100) for i in range(n)]
    for a in v + w:
        if not (isinstance(a, int)) and n > 2:
            ctx.assume(ctx.Or(a > 0, a < 0))
    c = ctx.real("cap", -100, 300)
    if setter:
        p = Knapsack(v, w, 1)
        p.max_weight = c
        ctx.eq("capacity", p.max_weight, c)
    else:
        p = Knapsack(values=v, weights=w, max_weight=c)
    qp = p.to_quadratic_program()
    base(ctx, qp, n, "MAXIMIZE")
    for x in some_bits(n):
        ctx.eq("objective is the value", qp.objective.evaluate(list(x)), sum((v[i] for i in range(n) if x[i]), 0))
        load = sum((w[i] for i in range(n) if x[i]), 0)
        if ctx.symbolic or abs(load - c) > 1e-9:
            ctx.check("feasible exactly if it fits", ctx.Iff(cons_ok(ctx, qp, x), load <= c))
        ctx.check("interpretation", [int(i) for i in p.interpret(result(ctx, qp, x, kind))] ==
                  [i for i in range(n) if x[i]])
    ctx.cover("done")


def likely(ctx, n, form):
    """sample_most_likely returns the assignment of (one of) the largest entries, qubit i first."""
    from qiskit_optimization.applications import OptimizationApplication

    if form == "dict":
        keys = ["".join(k) for k in itertools.product("01", repeat=n)]
        keys = keys[1:] + keys[:1]
        w = [ctx.real("c%d" % i, 0, 100) for i in range(len(keys))]
        x = OptimizationApplication.sample_most_likely(dict(zip(keys, w)))
        val = {tuple(int(b) for b in reversed(k)): c for k, c in zip(keys, w)}
    elif form == "statefn":
        from qiskit.opflow import DictStateFn

        keys = ["".join(k) for k in itertools.product("01", repeat=n)]
        w = {k: ctx.real("c" + k, 0, 1) for k in keys}

        class Sampled(DictStateFn):
            """frequencies of a large sample, arbitrary; ordered as StateFn.sample does."""

            def sample(self, shots=1024, massive=False, reverse_endianness=False):
                if shots < 100:
                    raise NotImplementedError("the most likely outcome of few shots")
                out = sorted(w.items(), key=lambda kv: kv[1], reverse=True)
                return {k[::-1] if reverse_endianness else k: v for k, v in out}

        x = OptimizationApplication.sample_most_likely(Sampled({k: 0.5 for k in keys}))
        val = {tuple(int(b) for b in reversed(k)): c for k, c in w.items()}
    elif form == "complex":
        z = [ctx.complex("a%d" % i, -100, 100) for i in range(2 ** n)]
        if ctx.symbolic:
            from symx.cplx import carray
        else:
            from numpy import array as carray
        x = OptimizationApplication.sample_most_likely(carray(z))
        val = {tuple((k >> i) & 1 for i in range(n)): a.real * a.real + a.imag * a.imag for k, a in enumerate(z)}
    else:
        w = [ctx.real("a%d" % i, -100, 100) for i in range(2 ** n)]
        x = OptimizationApplication.sample_most_likely(nparr(ctx, w))
        val = {tuple((k >> i) & 1 for i in range(n)): abs(a) for k, a in enumerate(w)}
    x = tuple(int(v) for v in x)
    ctx.check("an assignment of all qubits", x in val)
    ctx.check("no other assignment is more likely", ctx.And(*[val[x] >= v for v in val.values()]))
    ctx.cover("done")


def bad(ctx, which, value):
    from qiskit_optimization import applications as A

    p = {"cover": lambda: A.ExactCover([[1], [2]]), "packing": lambda: A.SetPacking([[1], [2]]),
         "number": lambda: A.NumberPartition([1, 2]), "knap": lambda: A.Knapsack([1, 2], [3, 4], 5)}[which]()
    try:
        p.interpret({"list": [1, 0], "none": None, "str": "10", "dict": {"a": 1}}[value])
        ctx.fail("an unsupported result is interpreted")
    except TypeError:
        pass
    ctx.cover("done")


def units(tier):
    from . import apps
    us = []
    D = ("done",)

    def add(nm, fn, **kw):
        us.append(unit(nm, fn, must_cover=D, **kw))

    for wh in ("cover", "packing"):
        add("%s/any22" % wh, sets, which=wh, ns=2, ne=2, kind="result")
        add("%s/any33" % wh, sets, which=wh, ns=3, ne=3, cost=6)
        add("%s/any14" % wh, sets, which=wh, ns=1, ne=4, names="str")
        add("%s/any23" % wh, sets, which=wh, ns=2, ne=3, names="neg")
        add("%s/four" % wh, sets, which=wh, members=[[0, 1], [1, 2], [2, 3], [0, 3]], names="str")
        add("%s/dup" % wh, sets, which=wh, members=[[0, 0, 1], [2, 1, 1], [2]], names="neg")
        add("%s/empty" % wh, sets, which=wh, members=[[], [0, 1], [1]])
        if tier != "quick":
            add("%s/any42" % wh, sets, which=wh, ns=4, ne=3, cost=20, budget=600, max_paths=5000)
    for n in (1, 2, 3, 4):
        add("number/%d" % n, number, n=n, kind="result" if n == 2 else "array", cost=n)
        add("knapsack/%d" % n, knap, n=n, kind="result" if n == 2 else "array", cost=n)
    add("number/dup", number, n=4, vals=(3, 3, 5, 1))
    add("number/neg", number, n=3, vals=(-2, 5, 3))
    add("knapsack/setter", knap, n=2, setter=True)
    for wh in ("cover", "packing"):  # more than ten variables and elements
        add("%s/wide" % wh, sets, which=wh, members=[[e, (e + 3) % 13] + ([12] if e == 1 else []) for e in range(12)], cost=4)
    add("number/wide", number, n=12, vals=(3, 3, 5, 1, 8, -2, 7, 1, 4, 6, 2, 2), cost=3)
    add("knapsack/wide", knap, n=12, cost=4)
    for z in ("v", "w", "vw"):
        add("knapsack/zero/%s" % z, knap, n=2, zero=z)
    for n in (1, 2) + ((3,) if tier != "quick" else ()):
        for f in ("dict", "vector", "complex", "statefn"):
            add("likely/%s/%d" % (f, n), likely, n=n, form=f, cost=2)
    for wh in ("cover", "packing", "number", "knap"):
        for v in ("list", "none", "str", "dict"):
            add("bad/%s/%s" % (wh, v), bad, which=wh, value=v)
    us += apps.units(("cover", "packing", "number", "knapsack"))
    return us
