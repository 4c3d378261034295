"""C21: routing applications: feasible points are exactly the tours, valued by their length, and read back correctly."""
import itertools

from .c19 import result
from .common import all_bits, cons_ok, nparr, nparr2, unit

BOUNDS = ("complete graphs with 2-4 nodes (5 thorough for vehicle routing) with arbitrary real edge weights, every depot, 1 to "
          "n-1 vehicles; feasibility is decided for all assignments of the (up to 16, thorough 20) binary variables at "
          "once; interpretation for all tours and, up to 3 nodes, for all assignments; feasible points and objective alone up to "
          "6 (7) nodes for tours and 7 nodes for vehicle routing; 11-12 nodes at selected tours; applications used, changed (depot, number of vehicles, program) "
          "and used again")
OUTSIDE = "incomplete graphs; more nodes; floating point rounding"


def complete(ctx, n, how="sorted"):
    import networkx as nx

    w = {(i, j): ctx.real("w%d%d" % (i, j), -50, 50) for i in range(n) for j in range(i + 1, n)}
    for v in w.values():
        ctx.assume(v != 0)
    g = nx.Graph()
    for (i, j) in (list(w) if how == "sorted" else list(reversed(list(w)))):
        if how == "sorted":
            g.add_edge(i, j, weight=w[i, j])
        else:
            g.add_edge(j, i, weight=w[i, j])
    if n == 1:
        g.add_node(0)
    return g, (lambda i, j: w[min(i, j), max(i, j)])


def drawn(app, res):
    """edges drawn."""
    import networkx as nx

    rec = []
    old = nx.draw, nx.draw_networkx_edges
    nx.draw = lambda G, *a, **kw: None
    nx.draw_networkx_edges = lambda G, pos=None, edgelist=None, **kw: rec.append((edgelist, kw))
    try:
        app.draw(res)
    finally:
        nx.draw, nx.draw_networkx_edges = old
    return rec


def tsp(ctx, n, how="sorted", kind="array"):
    from qiskit_optimization.applications import Tsp

    g, w = complete(ctx, n, how)
    p = Tsp(g)
    qp = p.to_quadratic_program()
    N = n * n
    ctx.check("one binary variable per node and step", qp.get_num_vars() == N == qp.get_num_binary_vars())
    ctx.check("names", [v.name for v in qp.variables] == ["x_%d_%d" % (i, k) for i in range(n) for k in range(n)])
    ctx.check("sense", qp.objective.sense.name == "MINIMIZE")
    y = [ctx.int("y%d" % i, 0, 1) for i in range(N)]
    rows = [sum(y[i * n + k] for k in range(n)) == 1 for i in range(n)]
    cols = [sum(y[i * n + k] for i in range(n)) == 1 for k in range(n)]
    ctx.check("feasible exactly if every node has one step and every step one node",
              ctx.Iff(cons_ok(ctx, qp, y), ctx.And(*(rows + cols))))
    adj = nparr2(ctx, [[0 if i == j else w(i, j) for j in range(n)] for i in range(n)])
    for t in itertools.permutations(range(n)):
        x = [0] * N
        for k, i in enumerate(t):
            x[i * n + k] = 1
        length = sum((w(t[k], t[(k + 1) % n]) for k in range(n) if n > 1), 0)
        ctx.eq("the objective of a tour is its length", qp.objective.evaluate(x), length)
        ctx.check("tours are feasible", bool(qp.is_feasible(x)))
        r = result(ctx, qp, x, kind)
        tour = p.interpret(r)
        ctx.check("interpretation is the tour", [int(i) for i in tour] == list(t))
        ctx.eq("tsp_value of the tour", Tsp.tsp_value(tour, adj), length)
        if n > 1 and t[0] == 0:
            rec = drawn(p, r)
            ctx.check("the tour is drawn", len(rec) == 1 and {frozenset(e) for e in rec[0][0]} ==
                      {frozenset((t[k], t[(k + 1) % n])) for k in range(n)})
    for x in all_bits(N) if n <= 2 else []:
        steps = [[i for i in range(n) if x[i * n + k]] for k in range(n)]
        ctx.check("interpretation of any assignment", p.interpret(result(ctx, qp, x, kind)) ==
                  [s[0] if len(s) == 1 else s for s in steps])
    ctx.cover("done")


def tsp_feasible(ctx, n):
    """larger graphs: only the feasible points and the objective as a polynomial."""
    from qiskit_optimization.applications import Tsp

    g, w = complete(ctx, n)
    qp = Tsp(g).to_quadratic_program()
    N = n * n
    y = [ctx.int("y%d" % i, 0, 1) for i in range(N)]
    rows = [sum(y[i * n + k] for k in range(n)) == 1 for i in range(n)]
    cols = [sum(y[i * n + k] for i in range(n)) == 1 for k in range(n)]
    ctx.check("feasible exactly if every node has one step and every step one node",
              ctx.Iff(cons_ok(ctx, qp, y), ctx.And(*(rows + cols))))
    quad = {}
    for i in range(n):
        for j in range(n):
            for k in range(n):
                if i != j:
                    a, b = sorted((i * n + k, j * n + (k + 1) % n))
                    quad[a, b] = quad.get((a, b), 0) + w(i, j)
    d = qp.objective.quadratic.to_dict()
    for e in sorted(set(quad) | {e for e in d if e[0] != e[1]}):
        ctx.eq("coefficient", d.get(e, 0), quad.get(e, 0))
    l = qp.objective.linear.to_dict()
    for a in range(N):  # squares of binary variables are the variables
        ctx.eq("linear coefficient", l.get(a, 0) + d.get((a, a), 0), 0)
    ctx.eq("constant", qp.objective.constant, 0)
    ctx.cover("done")


def partial(ctx, n):
    """interpretation of assignments that are not tours: every step lists its nodes."""
    from qiskit_optimization.applications import Tsp

    g, w = complete(ctx, n)
    p = Tsp(g)
    qp = p.to_quadratic_program()
    steps = [ctx.choice("s%d" % k, [s for m in range(n + 1) for s in itertools.combinations(range(n), m)])
             for k in range(n)]
    x = [0] * (n * n)
    for k, s in enumerate(steps):
        for i in s:
            x[i * n + k] = 1
    ctx.check("interpretation of any assignment", p.interpret(result(ctx, qp, x, "array")) ==
              [s[0] if len(s) == 1 else list(s) for s in steps])
    ok = all(len(s) == 1 for s in steps) and len(set(steps)) == n
    ctx.check("verdict", bool(qp.is_feasible(x)) == ok)
    ctx.cover("done")


def routes(nodes, depot, m):
    """all sets of m routes (as frozensets of directed edges) that visit every node once."""
    out = set()
    for perm in itertools.permutations(nodes):
        for cuts in itertools.combinations(range(1, len(perm)), m - 1):
            b = (0,) + cuts + (len(perm),)
            e = []
            for s, t in zip(b, b[1:]):
                part = (depot,) + perm[s:t] + (depot,)
                e += list(zip(part, part[1:]))
            out.add(frozenset(e))
    return out


def vrp(ctx, n, m, depot, kind="array", setter=False, how="sorted"):
    from qiskit_optimization.applications import VehicleRouting

    g, w = complete(ctx, n, how)
    if setter:
        p = VehicleRouting(g)
        p.num_vehicles = m
        p.depot = depot
    else:
        p = VehicleRouting(g, m, depot)
    ctx.check("parameters", p.num_vehicles == m and p.depot == depot)
    qp = p.to_quadratic_program()
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    ctx.check("one binary variable per ordered pair", [v.name for v in qp.variables] ==
              ["x_%d_%d" % e for e in pairs] and qp.get_num_binary_vars() == len(pairs))
    ctx.check("sense", qp.objective.sense.name == "MINIMIZE")
    y = [ctx.int("y%d" % i, 0, 1) for i in range(len(pairs))]
    sols = sorted(routes([i for i in range(n) if i != depot], depot, m), key=sorted)
    ctx.check("harness", bool(sols))
    vec = [[1 if e in s else 0 for e in pairs] for s in sols]
    ctx.check("feasible exactly if it is a set of routes through the depot visiting every node once",
              ctx.Iff(cons_ok(ctx, qp, y), ctx.Or(*[ctx.And(*[a == b for a, b in zip(y, v)]) for v in vec])))
    ctx.check("the objective sums the weights", True)
    for k, e in enumerate(pairs):
        unitv = [1 if a == k else 0 for a in range(len(pairs))]
        ctx.eq("objective coefficient", qp.objective.evaluate(unitv), w(*e))
    ctx.eq("objective constant", qp.objective.evaluate([0] * len(pairs)), 0)
    for s, v in zip(sols, vec):
        ctx.eq("the objective is the total length", qp.objective.evaluate(v), sum(w(*e) for e in s))
        ctx.check("routes are feasible", bool(qp.is_feasible(v)))
        r = result(ctx, qp, v, kind)
        out = p.interpret(r)
        ctx.check("one route per vehicle", len(out) == m)
        edges = [tuple(e) for rt in out for e in rt]
        ctx.check("all edges once", len(edges) == len(set(edges)) and set(edges) == set(s))
        for rt in out:
            ctx.check("a route leaves and returns to the depot", rt[0][0] == depot and rt[-1][1] == depot and
                      all(a[1] == b[0] != depot for a, b in zip(rt, rt[1:])))
    rec = drawn(p, result(ctx, qp, vec[0], kind))
    ctx.check("the routes are drawn", len(rec) == 1 and sorted(tuple(e) for e in rec[0][0]) == sorted(sols[0]))
    col = dict(zip([tuple(e) for e in rec[0][0]], rec[0][1]["edge_color"]))
    for rt in p.interpret(result(ctx, qp, vec[0], kind)):
        ctx.check("one color per route", len({col[tuple(e)] for e in rt}) == 1)
    ctx.check("different colors", len(set(col.values())) == m)
    ctx.cover("done")


def feasible(ctx, n, m, depot):
    """larger graphs: only the feasible points, all of them in one query."""
    from qiskit_optimization.applications import VehicleRouting

    g, w = complete(ctx, n)
    qp = VehicleRouting(g, m, depot).to_quadratic_program()
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    y = {e: ctx.int("y%d%d" % e, 0, 1) for e in pairs}
    want = [sum(y[i, j] for j in range(n) if j != i) == (m if i == depot else 1) for i in range(n)]
    want += [sum(y[j, i] for j in range(n) if j != i) == (m if i == depot else 1) for i in range(n)]
    rest = [i for i in range(n) if i != depot]
    for k in range(2, n):
        for c in itertools.combinations(rest, k):
            for t in itertools.permutations(c[1:]):
                cyc = (c[0],) + t
                want.append(ctx.Not(ctx.And(*[y[cyc[a], cyc[(a + 1) % k]] == 1 for a in range(k)])))
    ctx.check("feasible exactly if in- and outdegrees fit and every cycle passes through the depot",
              ctx.Iff(cons_ok(ctx, qp, [y[e] for e in pairs]), ctx.And(*want)))
    ctx.cover("done")


def anyedges(ctx, n, m, depot):
    """interpretation of arbitrary assignments keeps every chosen edge."""
    from qiskit_optimization.applications import VehicleRouting

    g, w = complete(ctx, n)
    p = VehicleRouting(g, m, depot)
    qp = p.to_quadratic_program()
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    x = [ctx.choice("x%d%d" % e, [0, 1]) for e in pairs]
    out = p.interpret(result(ctx, qp, x, "array"))
    edges = [tuple(e) for rt in out for e in rt]
    ctx.check("all edges once", sorted(edges) == sorted(e for e, v in zip(pairs, x) if v))
    ctx.check("routes first", len(out) in (m, m + 1))
    for rt in out[:m]:
        ctx.check("a route starts at the depot and is connected",
                  all(a[1] == b[0] for a, b in zip(rt, rt[1:])) and (not rt or rt[0][0] == depot))
    ctx.cover("done")


def wide_graph(ctx, n, free):
    """a complete graph with two-digit nodes; the weights of `free` edges are arbitrary."""
    import networkx as nx

    w = {}
    for i in range(n):
        for j in range(i + 1, n):
            w[i, j] = ctx.real("w%d_%d" % (i, j), 1, 99) if (i, j) in free else float((7 * i + 3 * j) % 11 + 1)
    g = nx.Graph()
    for (i, j), v in w.items():
        g.add_edge(i, j, weight=v)
    return g, (lambda i, j: w[min(i, j), max(i, j)])


def tsp_wide(ctx, n):
    from qiskit_optimization.applications import Tsp

    g, w = wide_graph(ctx, n, ((0, n - 1), (1, 10), (2, 3)))
    p = Tsp(g)
    qp = p.to_quadratic_program()
    ctx.check("names", [v.name for v in qp.variables] == ["x_%d_%d" % (i, k) for i in range(n) for k in range(n)])
    ctx.check("one constraint per node and per step", qp.get_num_linear_constraints() == 2 * n)
    adj = nparr2(ctx, [[0 if i == j else w(i, j) for j in range(n)] for i in range(n)])
    a = ctx.choice("a", [0, 1, 2, 9])
    b = ctx.choice("b", [3, 7, 10])
    step = ctx.choice("step", [1, 3])
    t = [(a + step * k) % n for k in range(n)]
    t[b], t[(b + 4) % n] = t[(b + 4) % n], t[b]
    x = [0] * (n * n)
    for k, i in enumerate(t):
        x[i * n + k] = 1
    length = sum((w(t[k], t[(k + 1) % n]) for k in range(n)), 0)
    ctx.eq("the objective of a tour is its length", qp.objective.evaluate(x), length)
    ctx.check("tours are feasible", bool(qp.is_feasible(x)))
    ctx.check("interpretation is the tour", [int(i) for i in p.interpret(nparr(ctx, x))] == t)
    ctx.eq("tsp_value of the tour", Tsp.tsp_value(t, adj), length)
    x[t[b] * n + b] = 0
    ctx.check("a step without node is infeasible", not qp.is_feasible(x))
    ctx.cover("done")


def vrp_wide(ctx, n, m, depot):
    from qiskit_optimization.applications import VehicleRouting

    g, w = wide_graph(ctx, n, ())
    p = VehicleRouting(g, m, depot)
    rest = [i for i in range(n) if i != depot]
    k = ctx.choice("rot", [0, 1, 5, 10])
    rest = rest[k:] + rest[:k]
    if ctx.choice("rev", [0, 1]):
        rest.reverse()
    cuts = [ctx.choice("c%d" % i, [2 * i + 1, 2 * i + 2]) for i in range(m - 1)]
    b = [0] + cuts + [n - 1]
    s = set()
    for i, j in zip(b, b[1:]):
        part = [depot] + rest[i:j] + [depot]
        s |= set(zip(part, part[1:]))
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    out = p.interpret(nparr(ctx, [1 if e in s else 0 for e in pairs]))
    ctx.check("one route per vehicle", len(out) == m)
    edges = [tuple(e) for rt in out for e in rt]
    ctx.check("all edges once", len(edges) == len(set(edges)) and set(edges) == s)
    for rt in out:
        ctx.check("a route leaves and returns to the depot", rt[0][0] == depot and rt[-1][1] == depot and
                  all(a[1] == b[0] != depot for a, b in zip(rt, rt[1:])))
    ctx.cover("done")


def units(tier):
    from . import apps
    us = []

    def add(nm, fn, **kw):
        us.append(unit(nm, fn, must_cover=("done",), **kw))

    for n in (1, 2, 3, 4):
        add("tsp/%d" % n, tsp, n=n, kind="result" if n == 2 else "array", cost=n * 2)
    for n in (5, 6) if tier == "quick" else (5, 6, 7):
        add("tsp/feasible/%d" % n, tsp_feasible, n=n, cost=10)
    add("tsp/3/rev", tsp, n=3, how="rev", cost=5)
    add("tsp/partial/2", partial, n=2)
    add("tsp/partial/3", partial, n=3, cost=6)
    for n in (2, 3, 4):
        for m in range(1, n):
            for d in range(n):
                if n == 4 and d == 1 and m == 2 and tier == "quick":
                    continue
                add("vrp/%d/%d/depot%d" % (n, m, d), vrp, n=n, m=m, depot=d, kind="result" if d == 1 else "array", cost=n)
    for m in (1, 2, 3):
        add("feasible/5/%d" % m, feasible, n=5, m=m, depot=m, cost=8)
    for m in (1, 2, 4):
        add("feasible/6/%d" % m, feasible, n=6, m=m, depot=m % 3, cost=20)
    for m in (1, 3, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        add("feasible/7/%d" % m, feasible, n=7, m=m, depot=m % 4, cost=30)
    add("vrp/setter", vrp, n=3, m=1, depot=2, setter=True)
    add("vrp/rev", vrp, n=3, m=2, depot=1, how="rev")
    for m in (1, 2):
        for d in (0, 2):
            add("any/3/%d/%d" % (m, d), anyedges, n=3, m=m, depot=d, cost=3)
    if tier != "quick":
        for m in (1, 2, 3, 4):
            add("vrp/5/%d" % m, vrp, n=5, m=m, depot=m % 5, cost=20, budget=900)
        add("tsp/5", tsp, n=5, cost=20, budget=900)
    add("wide/tsp", tsp_wide, n=11, cost=10)
    for m, d in ((1, 0), (3, 10), (4, 2)):
        add("wide/vrp/%d/%d" % (m, d), vrp_wide, n=12, m=m, depot=d, cost=3)
    us += apps.units(("tsp", "vrp"))
    return us
