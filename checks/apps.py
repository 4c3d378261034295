"""applications that are changed after they have been used: the program is the one of an application created afresh."""
from .common import nparr, unit


def make(ctx, which, n=3):
    """(class, arguments)."""
    import networkx as nx
    from qiskit_optimization import applications as A

    def graph():
        g = nx.Graph()
        g.add_nodes_from(range(n))
        for i in range(n):
            for j in range(i + 1, n):
                g.add_edge(i, j, weight=ctx.int("w%d%d" % (i, j), 1, 50))
        if which not in ("tsp", "vrp"):
            g.remove_edge(0, 2)
        return g

    if which in ("knapsack",):
        v, w = [ctx.real("v%d" % i, 1, 9) for i in range(n)], [ctx.real("w%d" % i, 1, 9) for i in range(n)]
        return A.Knapsack, {"values": v, "weights": w, "max_weight": ctx.real("cap", 1, 20)}
    if which in ("cover", "packing"):
        return {"cover": A.ExactCover, "packing": A.SetPacking}[which], {"subsets": [[1, 2], [2, 3], [3]]}
    if which == "number":
        return A.NumberPartition, {"number_set": [ctx.int("v%d" % i, 1, 9) for i in range(n)]}
    cls = {"maxcut": A.Maxcut, "partition": A.GraphPartition, "stable": A.StableSet, "vertex": A.VertexCover,
           "clique": A.Clique, "tsp": A.Tsp, "vrp": A.VehicleRouting}[which]
    kw = {"graph": graph()}
    if which == "clique":
        kw["size"] = ctx.choice("size", [None, 1, 2])
    if which == "vrp":
        kw.update(num_vehicles=1, depot=ctx.choice("depot", [0, 1]))
    return cls, kw


def dup(kw):
    return {k: v.copy() if hasattr(v, "copy") else v for k, v in kw.items()}


def change(ctx, app, kw, how):
    """makes the same change to the application and to the arguments of a fresh one."""
    if how == "weight":
        c = ctx.int("new", 51, 60)
        app.graph.edges[1, 0]["weight"] = c
        kw["graph"].edges[0, 1]["weight"] = c
    elif how == "program":  # the program that was returned belongs to the caller
        qp = app.to_quadratic_program()
        qp.clear()
        qp.binary_var("other")
    elif how == "objective":
        qp = app.to_quadratic_program()
        qp.objective.linear[0] = 77
        qp.objective.quadratic[0, 1] = -5
        for c in qp.linear_constraints:
            c.rhs = 9
        qp.binary_var("other")
    else:
        val = {"max_weight": lambda: ctx.real("new", 21, 30), "size": lambda: ctx.choice("new", [None, 1, 2, 3]),
               "num_vehicles": lambda: 2, "depot": lambda: 2}[how]()
        setattr(app, how, val)
        ctx.check("the new value can be read", getattr(app, how) is val or bool(getattr(app, how) == val))
        kw[how] = val


def reuse(ctx, which, how, draw=False):
    from . import c22

    cls, kw = make(ctx, which)
    app = cls(**dup(kw))

    def look(a):
        qp = a.to_quadratic_program()
        n = qp.get_num_vars()
        out = [c22.dump(qp)]
        for x in ([0] * n, [1] * n, [i % 2 for i in range(n)], [(i + 1) % 2 for i in range(n)]):
            if which == "vrp" and n > 6:
                continue
            out.append(repr(a.interpret(nparr(ctx, [float(b) for b in x]))) if which not in ("number",) else
                       [list(s) for s in a.interpret(nparr(ctx, [float(b) for b in x]))])
        return out

    look(app)
    change(ctx, app, kw, how)
    if how in ("size", "num_vehicles", "depot", "max_weight"):
        app.to_quadratic_program()
    got = look(app)
    want = look(cls(**dup(kw)))
    c22.same(ctx, "the program after a change", want, got)
    ctx.cover("done")


def units(whichs):
    us = []
    for w in whichs:
        hows = {"knapsack": ["max_weight"], "cover": [], "packing": [], "number": [], "clique": ["size"],
                "vrp": ["weight", "num_vehicles", "depot"], "tsp": ["weight"],
                "stable": [], "vertex": []}.get(w, ["weight"])
        for h in hows + ["program", "objective"]:
            us.append(unit("reuse/%s/%s" % (w, h), reuse, which=w, how=h, must_cover=("done",), cost=2))
    return us
