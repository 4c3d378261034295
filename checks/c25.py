"""C25: instances read from files or generated have the data they should have."""
import itertools
import os
import tempfile

from .common import unit

BOUNDS = ("G-set files with 2-4 nodes, any two or three edges (in any direction), arbitrary integer weights, solutions of up "
          "to 4 nodes; TSPLIB files with 2-3 nodes in any order, arbitrary real coordinates in [-50, 50], header lines in "
          "several spacings, with and without comment and EOF lines, unsupported types; random instances of 2-3 nodes with "
          "arbitrary coordinates in three ranges, seeds 0..5; random graphs of up to 6 nodes")
OUTSIDE = ("TSPLIB features other than EUC_2D coordinates; distances whose fractional part is exactly one half; malformed "
           "files; floating point rounding")
ASSUMPTIONS = ["in symbolic runs, numbers in a file are symbolic tokens; networkx.random_geometric_graph is replaced by its "
               "definition (nodes closer than the radius are connected), gnm_random_graph by a record of its arguments",
               "random generators return arbitrary numbers of the requested range"]


class Line(str):
    """a line of a file whose tokens may be symbolic numbers."""

    def __new__(cls, toks, text=None):
        s = str.__new__(cls, text if text is not None else " ".join("0" for _ in toks) + "\n")
        s.toks = toks
        return s

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            return str.split(self, sep, maxsplit)
        return list(self.toks)

    def strip(self, *a):
        return self

    rstrip = lstrip = strip


class File:
    def __init__(self, lines):
        self.lines = lines
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __iter__(self):
        return iter(self.lines)

    def readlines(self):
        return list(self.lines)

    def readline(self):
        self.pos += 1
        return self.lines[self.pos - 1] if self.pos <= len(self.lines) else ""

    def close(self):
        pass


def parse(ctx, fn, lines):
    """lines: list of str or token lists."""
    mod = __import__(fn.__module__, fromlist=["x"])
    if ctx.symbolic:
        mod.open = lambda *a, **k: File([Line(l) if isinstance(l, list) else l + "\n" for l in lines])
        try:
            return fn("nofile")
        finally:
            del mod.open
    d = tempfile.mkdtemp(prefix="verif_")
    path = os.path.join(d, "instance.txt")
    try:
        with open(path, "w") as f:
            for l in lines:
                f.write(l if isinstance(l, str) else " ".join(repr(v) if isinstance(v, float) else str(v) for v in l))
                f.write("\n")
        return fn(path)
    finally:
        if os.path.exists(path):
            os.remove(path)
        os.rmdir(d)


def gset(ctx, n, m):
    from qiskit_optimization.applications import Maxcut

    lines = [[n, m]]
    want = {}
    pairs = list(itertools.combinations(range(n), 2))
    es = ctx.choice("edges", list(itertools.combinations(pairs, m)))
    for k, (a, b) in enumerate(es):
        w = ctx.int("w%d" % k, -100, 100)
        want[a, b] = want[b, a] = w
        if ctx.choice("rev%d" % k, [0, 1]):
            a, b = b, a
        lines.append([a + 1, b + 1, w])
    mat = parse(ctx, Maxcut.parse_gset_format, lines)
    ctx.check("size", mat.shape == (n, n))
    for i in range(n):
        for j in range(n):
            ctx.eq("entry", mat[i, j], want.get((i, j), 0))
    x = [ctx.choice("x%d" % i, [0, 1]) for i in range(min(n, 2))] + [1] * (n - 2)
    from .common import nparr

    out = Maxcut.get_gset_result(nparr(ctx, x))
    ctx.check("G-set solution", {int(k): int(v) for k, v in out.items()} == {i + 1: 1 - x[i] for i in range(n)})
    ctx.cover("done")


def geometric(ctx):
    """networkx.random_geometric_graph by its definition."""
    import networkx as nx

    def model(n, radius, dim=2, pos=None, p=2, seed=None, **kw):
        g = nx.Graph()
        g.add_nodes_from(range(n))
        assert dim == 2 and p == 2
        if not hasattr(pos, "keys"):
            raise ValueError("data must be 2 dimensions")
        for i in range(n):
            g.nodes[i]["pos"] = pos[i]  # a mapping, as networkx requires
        for a in range(n):
            for b in range(a + 1, n):
                d2 = sum((u - v) * (u - v) for u, v in zip(pos[a], pos[b]))
                ctx.check("the radius covers all nodes", d2 <= radius * radius)
                g.add_edge(a, b)
        return g

    return model


def distance(ctx, w, p, q):
    d2 = sum((u - v) * (u - v) for u, v in zip(p, q))
    t = 0 if ctx.symbolic else 1e-9
    ctx.check("the weight is the rounded distance", ctx.And(
        w >= 0, d2 <= (w + 0.5) * (w + 0.5) + t, ctx.Or(w == 0, d2 >= (w - 0.5) * (w - 0.5) - t)))
    if ctx.symbolic:
        ctx.check("the weight is an integer", rint_of(w) == w)
    else:
        ctx.check("the weight is an integer", w == round(w))


class Rand:
    """stand-in for the generators: arbitrary numbers of the requested range; anything else is the real one's."""

    def __init__(self, ctx, real):
        self._ctx, self._real, self.seeds, self.drawn = ctx, real, [], []

    def __getattr__(self, nm):
        return getattr(self._real, nm)

    def _draw(self, mk, low, high):
        self.drawn.append(self.seeds[-1] if self.seeds else None)
        return mk("draw%d" % len(self.drawn), low, high)

    # numpy
    def uniform(self, low=0.0, high=1.0, size=None):
        from .common import nparr2

        return nparr2(self._ctx, [[self._draw(self._ctx.real, low, high) for _ in range(size[1])] for _ in range(size[0])])

    # the random module
    def seed(self, s=None):
        self.seeds.append(s)

    def randint(self, low, high):
        return self._draw(self._ctx.int, low, high)


class Globals:
    def __init__(self, rand, real):
        self.__dict__.update(random=rand, _real=real)

    def __setattr__(self, nm, v):
        if nm == "random_seed":
            self.random.seeds.append(v)
        else:
            setattr(self._real, nm, v)

    def __getattr__(self, nm):
        return getattr(self._real, nm)


def random_instance(ctx, app, n, low, high, extra=False):
    import networkx as nx
    from qiskit_optimization.applications import Tsp, VehicleRouting

    cls = {"tsp": Tsp, "vrp": VehicleRouting}[app]
    mod = __import__(cls.__module__, fromlist=["x"])
    seed = ctx.int("seed", 0, 5)
    kw = {}
    if extra:
        kw = {"num_vehicle": ctx.choice("nv", [1, 2, 3]), "depot": ctx.choice("depot", [0, 1])}

    def make():
        return cls.create_random_instance(n, low, high, seed, **kw) if (low, high) != (0, 100) else \
            cls.create_random_instance(n, seed=seed, **kw)

    if not ctx.symbolic:  # the same seed gives the same instance
        import random

        def key(a):
            return [tuple(float(v) for v in a.graph.nodes[i]["pos"]) for i in range(n)]

        one = key(make())
        random.random()
        ctx.check("the same seed gives the same instance", one == key(make()))
    if app == "tsp" and not hasattr(mod, "algorithm_globals") or app == "vrp" and not hasattr(mod, "random"):
        inst, st = make(), None
    else:
        name = "algorithm_globals" if app == "tsp" else "random"
        real = getattr(mod, name)
        st = Rand(ctx, real.random if app == "tsp" else real)
        old = nx.random_geometric_graph
        setattr(mod, name, Globals(st, real) if app == "tsp" else st)
        if ctx.symbolic:
            nx.random_geometric_graph = geometric(ctx)
        try:
            inst = make()
        finally:
            setattr(mod, name, real)
            nx.random_geometric_graph = old
    if ctx.symbolic and st is not None:
        for s in st.drawn:
            ctx.check("the same seed gives the same instance", s is not None and s == seed)
    g = inst.graph
    ctx.check("complete graph", sorted(g.nodes) == list(range(n)) and g.number_of_edges() == n * (n - 1) // 2)
    for i in range(n):
        for c in g.nodes[i]["pos"]:
            ctx.check("coordinates in range", ctx.And(c >= low, c <= high))
        for j in range(i):
            distance(ctx, g.edges[i, j]["weight"], g.nodes[i]["pos"], g.nodes[j]["pos"])
    if app == "vrp":
        ctx.check("number of vehicles", inst.num_vehicles == kw.get("num_vehicle", 2))
        ctx.check("depot", inst.depot == kw.get("depot", 0))
    ctx.cover("done")


def random_graph(ctx, app):
    import inspect

    import networkx as nx
    import qiskit_optimization.applications as apps

    n, m, seed = ctx.int("n", 2, 6), ctx.int("m", 0, 9), ctx.int("seed", 0, 5)
    ctx.assume(2 * m <= n * (n - 1))
    cls = getattr(apps, app)
    if not ctx.symbolic:
        g, h = cls.random_graph(n, m, seed), cls.random_graph(n, m, seed)
        ctx.check("nodes", sorted(g.nodes) == list(range(n)))
        ctx.check("edges", g.number_of_edges() == m)
        ctx.check("the same seed gives the same graph", sorted(map(sorted, g.edges)) == sorted(map(sorted, h.edges)))
        cls.random_graph(n, m)
        ctx.cover("done")
        return
    old, sig, res = nx.gnm_random_graph, inspect.signature(nx.gnm_random_graph), nx.Graph()
    seen = []

    def gnm(*a, **kw):
        seen.append(sig.bind(*a, **kw).arguments)
        return res

    nx.gnm_random_graph = gnm
    try:
        g = cls.random_graph(n, m, seed)
    finally:
        nx.gnm_random_graph = old
    if not seen:
        ctx.cover("done")
        return
    ctx.check("the graph is the generated one", g is res)
    a = seen[0]
    ctx.check("nodes", a["n"] == n)
    ctx.check("edges", a["m"] == m)
    ctx.check("the same seed gives the same graph", a.get("seed") is not None and a["seed"] == seed)
    ctx.check("undirected", not a.get("directed"))
    ctx.cover("done")


HEAD = {
    "plain": ["NAME: a", "TYPE: TSP", "COMMENT: TYPE of nothing", "DIMENSION: %d", "EDGE_WEIGHT_TYPE: EUC_2D",
              "NODE_COORD_SECTION"],
    "spaced": ["NAME : ulysses", "COMMENT : x", "TYPE : TSP", "DIMENSION : %d", "EDGE_WEIGHT_TYPE : EUC_2D",
               "NODE_COORD_SECTION "],
    "tight": ["NAME:a", "TYPE:TSP", "DIMENSION:%d", "EDGE_WEIGHT_TYPE:EUC_2D", "NODE_COORD_SECTION"],
    "trailing": ["NAME: a b ", "TYPE: TSP ", "EDGE_WEIGHT_TYPE: EUC_2D ", "DIMENSION: %d ", "NODE_COORD_SECTION"],
    "atsp": ["NAME: a", "TYPE: ATSP", "DIMENSION: %d", "EDGE_WEIGHT_TYPE: EUC_2D", "NODE_COORD_SECTION"],
    "geo": ["NAME: a", "TYPE: TSP", "DIMENSION: %d", "EDGE_WEIGHT_TYPE: GEO", "NODE_COORD_SECTION"],
}


def tsplib(ctx, n, head, eof, order):
    from qiskit_optimization import QiskitOptimizationError
    from qiskit_optimization.applications import Tsp

    lines = [h % n if "%" in h else h for h in HEAD[head]]
    co = [(ctx.real("x%d" % i, -50, 50), ctx.real("y%d" % i, -50, 50)) for i in range(n)]
    for i in range(n) if order == "sorted" else reversed(range(n)):
        lines.append([str(i + 1), co[i][0], co[i][1]])
    if eof:
        lines.append("EOF")
    import networkx as nx

    old = nx.random_geometric_graph
    if ctx.symbolic:
        nx.random_geometric_graph = geometric(ctx)
    try:
        app = parse(ctx, Tsp.parse_tsplib_format, lines)
    except QiskitOptimizationError:
        ctx.check("supported types are read", head in ("atsp", "geo"))
        ctx.cover("done")
        return
    finally:
        nx.random_geometric_graph = old
    ctx.check("unsupported types are refused", head not in ("atsp", "geo"))
    g = app.graph
    ctx.check("complete graph", sorted(g.nodes) == list(range(n)) and g.number_of_edges() == n * (n - 1) // 2)
    for i in range(n):
        for k in (0, 1):
            ctx.check("position", abs(g.nodes[i]["pos"][k] - co[i][k]) <= 1e-9)
        for j in range(i):
            distance(ctx, g.edges[i, j]["weight"], co[i], co[j])
    ctx.cover("done")


def rint_of(w):
    from symx.engine import rint

    return rint(w, "f")


def units(tier):
    us = []

    def add(nm, fn, **kw):
        us.append(unit(nm, fn, must_cover=("done",), **kw))

    for n, m in ((2, 1), (3, 0), (3, 1), (3, 2), (3, 3), (4, 2)) + (((4, 3),) if tier != "quick" else ()):
        add("gset/%d/%d" % (n, m), gset, n=n, m=m, cost=m)
    for h in HEAD:
        add("tsplib/2/%s" % h, tsplib, n=2, head=h, eof=True, order="sorted")
    add("tsplib/2/noeof", tsplib, n=2, head="plain", eof=False, order="sorted")
    add("tsplib/2/reversed", tsplib, n=2, head="plain", eof=True, order="reversed")
    add("tsplib/3", tsplib, n=3, head="spaced", eof=True, order="reversed", cost=5)
    for app in ("tsp", "vrp"):
        for n, low, high in ((2, 0, 100), (2, -3, 4), (3, 10, 20)):
            add("random/%s/%d/%d" % (app, n, low), random_instance, app=app, n=n, low=low, high=high, cost=n)
    add("random/vrp/extra", random_instance, app="vrp", n=2, low=0, high=50, extra=True)
    for app in ("Maxcut", "StableSet", "VehicleRouting"):
        add("random_graph/%s" % app, random_graph, app=app)
    return us
