"""Random directed graphs of many shapes built by edits and removals; all (or sampled) start/end pairs.
The oracle computes reachability itself from the reported edges. Distinct states: (graph shape, start, end) up to
7 vertices."""
from ..core import scenario
from ..mon_graph import MON
from .. import gen, wgraph

MON.attach()
from solver.graph import Graph     # noqa: E402


def closure(E, srcs, fwd=True, bwd=False):
    """Vertices reachable from srcs by one or more edges."""
    nxt = {}
    for u, w in E:
        if fwd:
            nxt.setdefault(u, []).append(w)
        if bwd:
            nxt.setdefault(w, []).append(u)
    seen, todo = {}, []
    for s in srcs:
        todo += nxt.get(s, [])
    while todo:
        x = todo.pop()
        if x not in seen:
            seen[x] = 0
            todo += nxt.get(x, [])
    return seen


def judge_path(ctx, g, E, s, t, far=None):
    got = g.path(s, t)
    reach = closure(E, [s]) if far is None else far
    raw, got = got, list(got)
    ctx.ev("paths judged")
    if t in reach:
        ctx.ev("paths that exist")
        ctx.check(len(got) >= 2, "no path reported although one exists", s, t, got, E if len(E) < 30 else "")
        ctx.check(got[0] == s and got[-1] == t, "path does not run from start to end", s, t, got)
        for e in zip(got, got[1:]):
            ctx.check(e in E, "path uses an edge that does not exist", e, got)
        if raw is not None and ctx.rng.random() < .3:   # the answer belongs to the caller, who edits it
            gen.scribble(ctx.rng, raw)
            ctx.ev("paths edited by the caller")
            judge_path(ctx, g, E, s, t, reach)
    else:
        ctx.check(got == [], "path reported although there is none", s, t, got)


def twice(ctx, query, *args, **kw):
    """The answer; sometimes the one given after an earlier answer has been edited by its owner."""
    if ctx.rng.random() < .2:
        gen.scribble(ctx.rng, query(*args, **kw))
        ctx.ev("answers edited by the caller")
    return query(*args, **kw)


def judge_connected(ctx, g, E, v):
    for kw, f, b in (({}, True, True), (dict(ingoing=True, outgoing=True), True, True), (dict(outgoing=False), False, True), (dict(ingoing=False), True, False)):
        want = closure(E, [v], f, b)
        want.pop(v, None)
        got = list(twice(ctx, g.connected, v, **kw))
        ctx.check(len(got) == len(want) and set(got) == set(want), "connected(%r, %s) wrong" % (v, kw), got, list(want))
    for fn, f, b in ((g.connected_via_outgoing, True, False), (g.connected_via_ingoing, False, True)):
        want = closure(E, [v], f, b)
        want.pop(v, None)
        got = list(twice(ctx, fn, v))
        ctx.check(len(got) == len(want) and set(got) == set(want), "%s(%r) wrong" % (fn.__name__, v), got, list(want))
    ctx.ev("connected sets judged")


def judge_subsets(ctx, g, E, V):
    got = [frozenset(s) for s in twice(ctx, g.connected_subsets)]
    want, left = set(), dict.fromkeys(V)
    while left:
        v = next(iter(left))
        c = set(closure(E, [v], True, True)) | {v}
        want.add(frozenset(c))
        for x in c:
            left.pop(x, None)
    ctx.check(len(got) == len(want) and set(got) == want, "connected subsets are not the components", got, want)
    ctx.ev("partitions judged")


@scenario("C03", 1800, thorough=120000, required=["paths judged", "paths that exist", "connected sets judged", "partitions judged", "paths edited by the caller", "answers edited by the caller"])
def random_graphs(ctx):
    rng = ctx.rng
    MON.begin(ctx, density=rng.choice([1.0, 0.0]))
    g, pool = wgraph.random_graph(ctx, Graph)
    for round_ in range(rng.choice([1, 1, 2])):
        V, E = list(g.vertices()), set(g.edges())
        idx = {v: i for i, v in enumerate(V)}
        pairs = [(s, t) for s in V for t in V]
        if len(pairs) > 60:
            pairs = rng.sample(pairs, 60)
        for s, t in pairs:
            judge_path(ctx, g, E, gen.twin_name(rng, s), gen.twin_name(rng, t))
            if len(V) <= 7:
                ctx.state((len(V), tuple(sorted((idx[a], idx[b]) for a, b in E)), idx[s], idx[t]))
        if V:
            ctx.check(list(g.path(V[0], "not a vertex")) == [], "path to a vertex that does not exist")
        for v in V[:12]:
            judge_connected(ctx, g, E, v)
        judge_subsets(ctx, g, E, V)
        ctx.check(set(g.edges()) == E and set(g.vertices()) == set(V), "a reachability query changed the graph")
        ed = wgraph.Editor(ctx, g, pool)
        for _ in range(rng.randint(1, 6)):
            ed.step(MON.model(g))
    MON.end()


def all_graphs_n(i, n):
    return [(a, b) for k, (a, b) in enumerate((a, b) for a in range(n) for b in range(n)) if i >> k & 1]


@scenario("C03", 512, 512, times=1)
def all_graphs_on_three_vertices(ctx):
    """Case number = adjacency matrix; all pairs, in several insertion orders."""
    MON.begin(ctx, density=0.0)
    E = all_graphs_n(ctx.rng_case, 3)
    for rep in range(3):
        g = Graph()
        order = list(range(3))
        ctx.rng.shuffle(order)
        for v in order:
            g.add_vertex(v)
        es = list(E)
        ctx.rng.shuffle(es)
        for e in es:
            g.add_edge(*e)
        for s in range(3):
            for t in range(3):
                judge_path(ctx, g, set(E), s, t)
                ctx.state((3, ctx.rng_case, s, t))
            judge_connected(ctx, g, set(E), s)
        judge_subsets(ctx, g, set(E), list(range(3)))
    ctx.ev("graphs on three vertices enumerated")
    MON.end()


@scenario("C03", 1500, 65536)
def graphs_on_four_vertices(ctx):
    """Sampled (thorough: enumerated) adjacency matrices on four vertices."""
    MON.begin(ctx, density=0.0)
    i = ctx.rng_case if ctx.tier == "thorough" else ctx.rng.randrange(65536)
    E = all_graphs_n(i, 4)
    g = Graph()
    es = list(E)
    ctx.rng.shuffle(es)
    for v in ctx.rng.sample(range(4), 4):
        g.add_vertex(v)
    for e in es:
        g.add_edge(*e)
    for s in range(4):
        far = closure(set(E), [s])
        for t in range(4):
            judge_path(ctx, g, set(E), s, t, far)
            ctx.state((4, i, s, t))
    judge_subsets(ctx, g, set(E), list(range(4)))
    MON.end()


@scenario("C03", 48)
def long_and_large(ctx):
    rng = ctx.rng
    MON.begin(ctx, density=0.0)
    n = rng.randint(200, 1500)
    pool = gen.names(rng, n, rng.choice(["int", "str", "sparse"]))
    g = Graph()
    kind = rng.choice(["chain", "cycle", "two", "sparse", "tree"])
    edges = list(zip(pool, pool[1:]))
    if kind == "cycle":
        edges.append((pool[-1], pool[0]))
    if kind == "two":
        edges = edges[:n // 2 - 1] + edges[n // 2:]
    if kind == "sparse":
        edges = [(rng.choice(pool), rng.choice(pool)) for _ in range(2 * n)]
    if kind == "tree":
        edges = [(pool[(i - 1) // 2], pool[i]) for i in range(1, n)]
    rng.shuffle(edges)
    MON.ctx = None      # the monitor's full comparisons are not the subject here
    for v in pool:
        g.add_vertex(v)
    for e in edges:
        g.add_edge(*e)
    E = set(edges)
    for s, t in [(pool[0], pool[-1]), (pool[-1], pool[0]), (pool[0], pool[0]), (pool[n // 4], pool[n // 3]), (pool[n // 3], pool[n // 4])] + \
            [(rng.choice(pool), rng.choice(pool)) for _ in range(4)]:
        judge_path(ctx, g, E, s, t)
    for v in [pool[0], pool[-1], rng.choice(pool)]:
        judge_connected(ctx, g, E, v)
    judge_subsets(ctx, g, E, pool)
