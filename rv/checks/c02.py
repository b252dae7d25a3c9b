"""Random graphs (built by edit histories with removals), every way of deriving a graph, then interleaved edits
of source and result while the online monitor compares both with their own models. Distinct states: shapes of
compared graphs with at most 7 vertices."""
from ..core import scenario
from ..mon_graph import MON
from .. import gen, wgraph

MON.attach()
from solver.graph import Graph     # noqa: E402


def derive(ctx, g, pool):
    rng = ctx.rng
    kind = rng.choice(["copy", "construct", "reverse", "subgraph", "subgraph"])
    ctx.log("derive", kind)
    ctx.ev("derived by " + kind)
    if kind == "copy":
        return g.copy()
    if kind == "construct":
        return Graph(g) if rng.random() < .8 else Graph(graph=g)
    if kind == "reverse":
        return g.reverse()
    vs = list(g.vertices())
    k = rng.randint(0, len(vs))
    sel = [gen.twin_name(rng, v) for v in rng.sample(vs, k)]
    if rng.random() < .4:
        sel += rng.sample(sel, rng.randint(0, len(sel)))         # repeated
    if rng.random() < .4:
        sel += ["unknown", ("un", "known")]
    rng.shuffle(sel)
    form = rng.choice([list, list, tuple, set, dict.fromkeys])
    arg = form(sel)
    before = list(arg)
    res = g.subgraph(arg)
    ctx.check(list(arg) == before, "deriving a subgraph changed the list of vertices")
    return res


@scenario("C02", 2400, required=["derived by copy", "derived by construct", "derived by reverse", "derived by subgraph", "edits after deriving"])
def derive_then_edit(ctx):
    rng = ctx.rng
    MON.begin(ctx, density=rng.choice([1.0, .3]))
    g, pool = wgraph.random_graph(ctx, Graph)
    graphs = [g]
    for _ in range(rng.randint(1, 4)):
        src = rng.choice(graphs)
        new = derive(ctx, src, pool)
        ctx.check(new is not src, "the derived graph is the source itself")
        graphs.append(new)
        eds = [wgraph.Editor(ctx, x, pool) for x in graphs]
        for _ in range(rng.randint(0, 12)):
            ed = rng.choice(eds)
            ed.step(MON.model(ed.g))
            ctx.ev("edits after deriving")
        if rng.random() < .5:
            for x in graphs:
                MON.verify(x, MON.model(x), "after edits of related graphs")
    MON.end()


@scenario("C02", 50)
def large(ctx):
    rng = ctx.rng
    MON.begin(ctx, density=0.0)
    n = rng.randint(60, 300)
    pool = gen.names(rng, n, rng.choice(["int", "str", "tuple", "sparse"]))
    g, _ = wgraph.random_graph(ctx, Graph, n, pool, rng.choice(["sparse", "chain", "cycle", "bi"]))
    for _ in range(3):
        h = derive(ctx, g, pool)
        for v in rng.sample(pool, 5):
            if h.has_vertex(v):
                h.remove_vertex(v)
        for e in list(h.edges())[:5]:
            h.set(e[0], e[1], "changed")
            g.set(e[0], e[1], "source") if rng.random() < .5 else None
    MON.end()


@scenario("C02", 300)
def empty_and_tiny(ctx):
    rng = ctx.rng
    MON.begin(ctx, density=1.0)
    g = Graph()
    pool = gen.names(rng, 2)
    ed = wgraph.Editor(ctx, g, pool)
    for _ in range(rng.randint(0, 3)):
        ed.step(MON.model(g))
    a, b = derive(ctx, g, pool), derive(ctx, g, pool)
    for x in (a, b, g):
        e = wgraph.Editor(ctx, x, pool)
        e.step(MON.model(x))
    derive(ctx, a, pool)
    Graph(None)
    MON.end()


@scenario("C02", 400)
def mutable_edge_values(ctx):
    """Edge values are kept as they are (same object), also when falsy or unhashable."""
    rng = ctx.rng
    MON.begin(ctx, density=1.0)
    g = Graph()
    pool = gen.names(rng, 4)
    vals = {}
    for _ in range(rng.randint(1, 8)):
        u, w, x = rng.choice(pool), rng.choice(pool), rng.choice([[], {}, None, 0, "", [1, 2], object()])
        g.set(u, w, x)
        vals[u, w] = x
    for h, flip in ((g.copy(), 0), (Graph(g), 0), (g.reverse(), 1), (g.subgraph(pool), 0)):
        for (u, w), x in vals.items():
            got = h.get(w, u) if flip else h.get(u, w)
            ctx.check(got is x or got == x, "edge value lost when deriving", u, w, got, x)
    MON.end()


@scenario("C02", 500, required=["derived again after an edit"])
def derive_again(ctx):
    """Each way of deriving, again and again from one graph with a single edit in between, of the source or a result."""
    rng = ctx.rng
    MON.begin(ctx, density=1.0)
    g, pool = wgraph.random_graph(ctx, Graph, rng.randint(2, 6))
    part = rng.sample(pool, rng.randint(1, len(pool)))
    ways = [("copy", g.copy), ("construct", lambda: Graph(g)), ("reverse", g.reverse), ("subgraph", lambda: g.subgraph(list(part)))]
    ways = rng.sample(ways, rng.randint(1, 4))
    old = []
    for _ in range(rng.randint(2, 6)):
        for name, way in ways:
            ctx.log("derive", name)
            old.append(way())
            ctx.ev("derived again after an edit")
        x = rng.choice(old + [g] * (len(old) + 1))
        es = list(x.edges())
        r = rng.random()
        if es and r < .6:
            e = rng.choice(es)
            rng.choice([x.set, x.set, lambda u, w, _: x.remove_edge(u, w)])(e[0], e[1], rng.choice([0, None, "new", rng.random()]))
        else:
            ed = wgraph.Editor(ctx, x, pool)
            ed.step(MON.model(x))
    MON.end()
