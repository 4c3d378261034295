"""C19: graph applications state exactly the named graph problem."""
import itertools

from .common import all_bits, cons_ok, nparr, some_bits, unit

BOUNDS = ("all simple graphs (any set of edges) with 1-4 nodes (5 for one size in thorough), one with 12 nodes (at selected assignments) and selected graphs with self "
          "loops, given as networkx graph (several node orders), edge list and matrix; arbitrary real edge weights, default "
          "weights, clique sizes 0..n; all assignments; "
          "applications used, changed through their setters and used again; programs edited by their user")
OUTSIDE = "graphs whose nodes are not 0..n-1; multigraphs; larger graphs; floating point rounding"
ASSUMPTIONS = ["for drawing, networkx.draw is replaced by a stand-in that records its arguments"]


def graph(ctx, n, how, edges=None, weights="sym", loops=False):
    """a graph with symbolic weights; edges=None: any set of edges."""
    import networkx as nx

    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    if edges is None:
        edges = [p for p in pairs if ctx.choice("e%d%d" % p, [0, 1])]
    w = {}
    for p in edges:
        if weights == "sym":
            w[p] = ctx.real("w%d_%d" % p, -50, 50)
            ctx.assume(w[p] != 0)
        elif weights == "free":
            w[p] = ctx.real("w%d_%d" % p, -50, 50)
        elif weights == "int":
            w[p] = ctx.choice("w%d_%d" % p, [-3, 2])
        else:
            w[p] = 1
    g = nx.Graph()
    order = {"sorted": list(range(n)), "reversed": list(range(n))[::-1], "late": [], "edges": list(range(n)),
             "matrix": list(range(n)), "rot": list(range(1, n)) + [0]}[how]
    g.add_nodes_from(order)
    el = list(edges)
    if how in ("reversed", "late"):
        el = [(b, a) for a, b in reversed(el)]
    for a, b in el:
        k = (a, b) if (a, b) in w else (b, a)
        if weights == "default":
            g.add_edge(a, b)
        else:
            g.add_edge(a, b, weight=w[k])
    if how == "late":
        g.add_nodes_from(range(n))
    if how == "edges":
        return ([(a, b, {"weight": w[a, b]}) for a, b in edges], edges, w)
    if how == "matrix":
        import numpy

        m = numpy.zeros((n, n))
        for (a, b), v in w.items():
            m[a, b] = m[b, a] = v
        return m, edges, w
    return g, edges, w


def result(ctx, qp, x, kind):
    from qiskit_optimization.algorithms.optimization_algorithm import OptimizationResult, OptimizationResultStatus

    arr = nparr(ctx, [float(v) for v in x])
    if kind == "array":
        return arr
    return OptimizationResult(arr, 0.0, qp.variables, OptimizationResultStatus.SUCCESS)


def base(ctx, qp, n, sense):
    ctx.check("one binary variable per node", qp.get_num_vars() == n and qp.get_num_binary_vars() == n and
              [v.name for v in qp.variables] == ["x_%d" % i for i in range(n)])
    ctx.check("sense", sense is None or qp.objective.sense.name == sense)


def colours(ctx, app, res, x, n, cls):
    """drawing gives nodes of different sides different colors, and equal colors within a side."""
    import networkx as nx

    rec = []
    old = nx.draw
    nx.draw = lambda G, pos=None, ax=None, **kw: rec.append((list(G.nodes), kw))
    try:
        app.draw(res)
    finally:
        nx.draw = old
    ctx.check("drawn once", len(rec) == 1)
    nodes, kw = rec[0]
    col = dict(zip(nodes, kw["node_color"]))
    ctx.check("a color per node", len(kw["node_color"]) == n)
    for i in range(n):
        for j in range(i):
            ctx.check("colors separate the sides", (col[i] == col[j]) == (bool(x[i]) == bool(x[j])))


def app(ctx, which, n, how="sorted", edges=None, weights="sym", size=None, kind="array"):
    from qiskit_optimization import applications as A

    g, edges, w = graph(ctx, n, how, edges, weights)
    if which == "clique":
        p = A.Clique(g, size) if size != "set" else A.Clique(g)
        if size == "set":
            p.size = size = 2
    else:
        p = {"maxcut": A.Maxcut, "stable": A.StableSet, "cover": A.VertexCover, "partition": A.GraphPartition}[which](g)
    if how == "edges":
        n = p.graph.number_of_nodes()
        if set(p.graph.nodes) != set(range(n)):
            ctx.cover("done")
            return
    qp = p.to_quadratic_program()
    again = p.to_quadratic_program()
    sense = {"maxcut": "MAXIMIZE", "stable": "MAXIMIZE", "cover": "MINIMIZE", "partition": "MINIMIZE",
             "clique": "MAXIMIZE" if size is None else None}[which]
    base(ctx, qp, n, sense)
    has = {frozenset(e) for e in edges}
    for x in some_bits(n):
        val = qp.objective.evaluate(list(x))
        feas = cons_ok(ctx, qp, x)
        if which in ("maxcut", "partition"):
            ctx.eq("objective is the cut weight", val, sum((w[e] for e in edges if x[e[0]] != x[e[1]]), 0))
        elif which == "clique" and size is not None:
            ctx.eq("no objective", val, 0)
        else:
            ctx.eq("objective counts the nodes", val, sum(x))
        on = [i for i in range(n) if x[i]]
        want = {"maxcut": True,
                "partition": len(on) == n // 2,
                "stable": all(not (x[a] and x[b]) for a, b in edges),
                "cover": all(x[a] or x[b] for a, b in edges),
                "clique": all(frozenset(c) in has for c in itertools.combinations(on, 2)) and
                (size is None or len(on) == size)}[which]
        ctx.check("feasible exactly if it is a solution", ctx.Iff(feas, bool(want)))
        ctx.check("the library's verdict", bool(qp.is_feasible(list(x))) == bool(want))
        ctx.eq("a second program is the same", again.objective.evaluate(list(x)), val)
        r = p.interpret(result(ctx, qp, x, kind))
        if which in ("maxcut", "partition"):
            ctx.check("interpretation", [list(map(int, s)) for s in r] == [[i for i in range(n) if not x[i]], on])
        else:
            ctx.check("interpretation", list(map(int, r)) == on)
    x = all_bits(n)[min(2 ** n - 1, 1 + 2 ** n // 2)] if n < 8 else [0, 1] * (n // 2)
    colours(ctx, p, result(ctx, qp, x, kind), x, n, which)
    ctx.cover("done")


def input_kept(ctx, which, n):
    """the caller's graph is not changed; a later change of it does not change the problem."""
    from qiskit_optimization import applications as A

    g, edges, w = graph(ctx, n, "sorted", [(0, 1), (1, 2)], "sym")
    g.add_edge(0, 2)  # no weight
    p = {"maxcut": A.Maxcut, "stable": A.StableSet, "partition": A.GraphPartition}[which](g)
    p.to_quadratic_program()
    ctx.check("the caller's graph keeps its edges", {frozenset(e) for e in g.edges} ==
              {frozenset(e) for e in [(0, 1), (1, 2), (0, 2)]})
    ctx.check("no weight is added to the caller's graph", g.edges[0, 2] == {})
    before = p.to_quadratic_program()
    g.add_edge(0, 3)
    g.edges[0, 1]["weight"] = 77
    after = p.to_quadratic_program()
    ctx.check("variables are unchanged", after.get_num_vars() == n)
    for x in all_bits(n):
        ctx.eq("the problem is unchanged", after.objective.evaluate(list(x)), before.objective.evaluate(list(x)))
    ctx.cover("done")


def bad(ctx, which, value):
    from qiskit_optimization import applications as A

    p = {"maxcut": A.Maxcut, "stable": A.StableSet, "cover": A.VertexCover, "partition": A.GraphPartition,
         "clique": A.Clique}[which]([(0, 1)])
    try:
        p.interpret({"list": [1, 0], "none": None, "str": "10", "dict": {"a": 1}}[value])
        ctx.fail("an unsupported result is interpreted")
    except TypeError:
        pass
    ctx.cover("done")


def units(tier):
    from . import apps
    us = []

    def add(nm, **kw):
        us.append(unit(nm, app, must_cover=("done",), **kw))

    for wh in ("maxcut", "partition", "stable", "cover", "clique"):
        for n in (1, 2, 3):
            add("%s/%d/any" % (wh, n), which=wh, n=n, kind="result" if n == 2 else "array")
        add("%s/4/any" % wh, which=wh, n=4, weights="sym" if wh in ("maxcut", "partition") else "default", cost=6,
            how="rot")
        add("%s/3/reversed" % wh, which=wh, n=3, how="reversed", cost=2)
        add("%s/3/late" % wh, which=wh, n=3, how="late", cost=2)
        add("%s/3/edges" % wh, which=wh, n=3, how="edges", cost=2)
        add("%s/3/matrix" % wh, which=wh, n=3, how="matrix", weights="int", cost=2)
        add("%s/3/default" % wh, which=wh, n=3, weights="default", cost=2)
        add("%s/5/house" % wh, which=wh, n=5, edges=[(0, 1), (1, 2), (2, 3), (0, 3), (2, 4), (3, 4)], cost=3)
        add("%s/12/wide" % wh, which=wh, n=12, edges=[(2, 10), (1, 11), (10, 11), (3, 9), (0, 10)], cost=3,
            how="rot" if wh in ("stable", "clique") else "reversed")
        add("%s/4/star" % wh, which=wh, n=4, edges=[(0, 1), (0, 2), (0, 3)], how="late", kind="result", cost=2)
        if tier != "quick":
            add("%s/4/late" % wh, which=wh, n=4, how="late", cost=9)
            add("%s/5/any" % wh, which=wh, n=5, weights="default", cost=60, budget=900, max_paths=1100)
    for wh in ("maxcut", "partition"):
        add("%s/3/free" % wh, which=wh, n=3, edges=[(0, 1), (0, 2), (1, 2)], weights="free", cost=2)
        add("%s/3/loop" % wh, which=wh, n=3, edges=[(0, 0), (0, 1), (1, 2), (2, 2)])
    for s in (0, 1, 2, 3, "set"):
        add("clique/3/size%s" % s, which="clique", n=3, size=s, cost=2)
    add("clique/4/size3", which="clique", n=4, size=3, weights="default", cost=6)
    for wh in ("maxcut", "partition", "stable"):
        us.append(unit("input/%s" % wh, input_kept, which=wh, n=3, must_cover=("done",)))
    for wh in ("maxcut", "partition", "stable", "cover", "clique"):
        for v in ("list", "none", "str", "dict"):
            us.append(unit("bad/%s/%s" % (wh, v), bad, which=wh, value=v, must_cover=("done",)))
    us += apps.units(("maxcut", "partition", "stable", "vertex", "clique"))
    return us
