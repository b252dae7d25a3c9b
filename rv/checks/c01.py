"""Random and exhaustively enumerated edit histories of graphs, plus the graphs inside method and constraint
graphs under their own workloads; a case counts when the monitor compared complete graph states. Distinct
states: shapes of graphs with at most 7 vertices (others are compared but not counted)."""
from ..core import scenario
from ..mon_graph import MON
from .. import gen, wgraph

MON.attach()
from solver.graph import Graph     # noqa: E402


@scenario("C01", 2600, required=["graph states compared", "graph remove_vertex", "graph remove_edge refused", "graph set", "graph add_edge", "answers edited by the caller"])
def edit_history(ctx):
    rng = ctx.rng
    MON.begin(ctx)
    g = Graph()
    n = gen.size(rng, (1, 6), (7, 15), (30, 60))
    pool = gen.names(rng, n)
    ed = wgraph.Editor(ctx, g, pool, refused=rng.choice([.1, .3, .6]))
    for _ in range(gen.size(rng, (5, 40), (40, 120), (300, 500))):
        ed.step(MON.model(g))
        if rng.random() < .1:       # client-side queries, judged by the monitor at the call
            v, w = ed.name(), ed.name()
            for q, a in (("has_vertex", (v,)), ("has_edge", (v, w)), ("has_bi_edge", (v, w)), ("has_any_edge", (v, w))):
                getattr(g, q)(*a)
            for q, a in (("get", (v, w)), ("outgoing_vertices", (v,)), ("ingoing_vertices", (v,)), ("adjacent_vertices", (v,)),
                         ("ingoing_edges", (v,)), ("outgoing_edges", (v,)), ("adjacent_edges", (v,))):
                if q == "get" and not MON.model(g).has_edge(*a) or q != "get" and not MON.model(g).has_vertex(v):
                    ctx.raises(getattr(g, q), *a)
                else:
                    x = getattr(g, q)(*a)
                    if q != "get" and rng.random() < .5:    # the answer belongs to the caller, who edits it
                        gen.scribble(rng, x)
                        getattr(g, q)(*a)
                        ctx.ev("answers edited by the caller")
            for q in ("vertices", "edges"):
                if rng.random() < .5:
                    gen.scribble(rng, getattr(g, q)())
                    getattr(g, q)()
    MON.end()


OPS = [("add_vertex", (0,)), ("add_vertex", (1,)), ("remove_vertex", (0,)), ("remove_vertex", (1,))] + \
      [(op, (u, w) + x) for op, x in (("add_edge", ()), ("add_edge", ("x",)), ("remove_edge", ()), ("set", ("y",)))
       for u in (0, 1) for w in (0, 1)] + \
      [(op, (0, 1) + x) for op, x in (("add_bi_edge", ()), ("remove_bi_edge", ()), ("set_bi_edge", ("z",)))] + [("remove_bi_edge", (0, 0))]


@scenario("C01", len(OPS) ** 2, len(OPS) ** 2, required=[], times=1)
def all_short_histories(ctx):
    """Case number = first two operations; every third one (thorough: and fourth) is tried on top."""
    i = ctx.rng_case
    first = [OPS[i // len(OPS)], OPS[i % len(OPS)]]
    def run(seq):
        MON.begin(ctx, density=1.0)
        g = Graph()
        for op, a in seq:
            try:
                getattr(g, op)(*a)
            except Exception as e:      # noqa: BLE001
                from ..core import Violation
                if isinstance(e, Violation):
                    raise
        MON.end()
        ctx.ev("short histories enumerated")
    for third in OPS:
        if ctx.tier == "thorough":
            for fourth in OPS:
                run(first + [third, fourth])
        else:
            run(first + [third])


@scenario("C01", 60)
def hubs(ctx):
    """Large graphs: vertices with many edges removed and re-added."""
    rng = ctx.rng
    MON.begin(ctx, density=0.01)
    g = Graph()
    n = rng.randint(50, 400)
    pool = gen.names(rng, n, rng.choice(["int", "str", "sparse", "tuple"]))
    hubs = pool[:3]
    for v in pool:
        h = rng.choice(hubs)
        rng.choice([g.add_edge, g.add_bi_edge])(*((h, v) if rng.random() < .5 else (v, h)))
    MON.verify(g, MON.model(g), "after building")
    for h in hubs:
        g.remove_vertex(h)
        MON.verify(g, MON.model(g), "after removing a hub")
        if rng.random() < .5:
            g.add_edge(h, rng.choice(pool[3:]), "again")
    for e in list(g.edges())[:20]:
        g.remove_edge(*e)
    MON.end()


@scenario("C01", 260)
def inside_method_graphs(ctx):
    from .. import mg
    MON.begin(ctx)
    d = mg.Driver(ctx)
    for _ in range(rng_len(ctx)):
        d.step()
    MON.end()


@scenario("C01", 260)
def inside_constraint_graphs(ctx):
    from .. import cg
    MON.begin(ctx)
    d = cg.Driver(ctx)
    for _ in range(rng_len(ctx)):
        d.step()
    MON.end()


def rng_len(ctx):
    return gen.size(ctx.rng, (5, 25), (25, 60))
