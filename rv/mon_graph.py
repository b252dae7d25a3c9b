"""Online monitor of solver.graph.Graph.

The public methods of the real class are wrapped. For every instance the monitor keeps a reference model
(a dictionary of edges) and for every *outermost* public call on that instance -- made by the workload or by
the library itself -- it predicts refusal, effect and answer. `verify` compares the complete observable state.
"""
from .core import Violation
from .gen import same

MUTATORS = ["add_vertex", "remove_vertex", "add_edge", "remove_edge", "add_bi_edge", "remove_bi_edge", "set", "set_bi_edge"]
QUERIES = ["has_vertex", "has_edge", "has_bi_edge", "has_any_edge", "get", "vertices", "edges", "outgoing_vertices",
           "ingoing_vertices", "adjacent_vertices", "ingoing_edges", "outgoing_edges", "adjacent_edges"]
DERIVERS = ["subgraph", "copy", "reverse"]


class Refused(Exception):
    pass


class GraphModel:
    def __init__(self):
        self.V = {}
        self.E = {}

    def clone(self):
        m = GraphModel()
        m.V, m.E = dict(self.V), dict(self.E)
        return m

    # mutators
    def add_vertex(self, v):
        self.V[v] = None

    def remove_vertex(self, vertex):
        if vertex not in self.V:
            raise Refused()
        del self.V[vertex]
        for e in [e for e in self.E if e[0] == vertex or e[1] == vertex]:
            del self.E[e]

    def add_edge(self, v1, v2, value=1):
        self.V[v1] = self.V[v2] = None
        self.E.setdefault((v1, v2), value)

    def remove_edge(self, v1, v2):
        if (v1, v2) not in self.E:
            raise Refused()
        del self.E[v1, v2]

    def add_bi_edge(self, v1, v2, value=1):
        self.add_edge(v1, v2, value)
        self.add_edge(v2, v1, value)

    def remove_bi_edge(self, v1, v2):
        if (v1, v2) not in self.E or (v2, v1) not in self.E:
            raise Refused()
        del self.E[v1, v2]
        self.E.pop((v2, v1), None)

    def set(self, v1, v2, value):
        self.V[v1] = self.V[v2] = None
        self.E[v1, v2] = value

    def set_bi_edge(self, v1, v2, value):
        self.set(v1, v2, value)
        self.set(v2, v1, value)

    # queries
    def _need(self, v):
        if v not in self.V:
            raise Refused()

    def has_vertex(self, vertex):
        return vertex in self.V

    def has_edge(self, v1, v2):
        return (v1, v2) in self.E

    def has_bi_edge(self, v1, v2):
        return (v1, v2) in self.E and (v2, v1) in self.E

    def has_any_edge(self, v1, v2):
        return (v1, v2) in self.E or (v2, v1) in self.E

    def get(self, v1, v2):
        if (v1, v2) not in self.E:
            raise Refused()
        return self.E[v1, v2]

    def vertices(self):
        return list(self.V)

    def edges(self):
        return list(self.E)

    def outgoing_vertices(self, vertex):
        self._need(vertex)
        return [w for u, w in self.E if u == vertex]

    def ingoing_vertices(self, vertex):
        self._need(vertex)
        return [u for u, w in self.E if w == vertex]

    def adjacent_vertices(self, vertex):
        self._need(vertex)
        return list(dict.fromkeys(self.outgoing_vertices(vertex) + self.ingoing_vertices(vertex)))

    def ingoing_edges(self, vertex):
        self._need(vertex)
        return [e for e in self.E if e[1] == vertex]

    def outgoing_edges(self, vertex):
        self._need(vertex)
        return [e for e in self.E if e[0] == vertex]

    def adjacent_edges(self, vertex):
        self._need(vertex)
        return [e for e in self.E if e[0] == vertex or e[1] == vertex]

    # derived graphs
    def subgraph(self, vertices):
        keep = set(vertices)
        m = GraphModel()
        m.V = {v: None for v in self.V if v in keep}
        m.E = {e: x for e, x in self.E.items() if e[0] in keep and e[1] in keep}
        return m

    def copy(self):
        return self.clone()

    def reverse(self):
        m = GraphModel()
        m.V = dict(self.V)
        m.E = {(w, u): x for (u, w), x in self.E.items()}
        return m

    def key(self):
        """Shape of the state, for counting distinct states."""
        idx = {v: i for i, v in enumerate(self.V)}
        return (len(self.V), tuple(sorted((idx[u], idx[w]) for u, w in self.E)))


BOOL = {"has_vertex", "has_edge", "has_bi_edge", "has_any_edge"}
DUP_OK = {"adjacent_edges"}     # a loop is both ingoing and outgoing


def check_answer(ctx, name, got, want, where):
    ctx.events["oracle verdicts"] += 1
    if name in BOOL:
        ok = (got is True or got is False) and got == want
    elif name == "get":
        ok = same(got, want)
    else:
        got = list(got)
        ok = set(got) == set(want) and (name in DUP_OK or len(got) == len(want))
        if ok and name.endswith("edges"):
            ok = all(isinstance(e, tuple) and len(e) == 2 for e in got)
    if not ok:
        raise Violation("graph query %s%r answers %r, the edit history says %r" % (name, where, got, want), "graph query " + name)


class GraphMonitor:
    """attach() once per process; begin(ctx) per case."""

    def __init__(self):
        self.ctx = None
        self.shadow = {}
        self.depth = {}
        self.density = 1.0
        self.attached = False
        self.orig = {}

    def attach(self):
        if self.attached:
            return self
        self.attached = True
        from solver.graph import Graph
        self.cls = Graph
        self._wrap_init()
        for name in MUTATORS:
            self._wrap(name, self._mutator)
        for name in QUERIES:
            self._wrap(name, self._query)
        for name in DERIVERS:
            self._wrap(name, self._deriver)
        for name in ["path", "connected", "connected_via_outgoing", "connected_via_ingoing", "connected_subsets"]:
            self._wrap(name, self._pure)
        return self

    def begin(self, ctx, density=None):
        self.ctx = ctx
        self.shadow = {}
        self.depth = {}
        self.rng = ctx.rng
        self.density = density if density is not None else ctx.rng.choice([1.0, 1.0, .5, .1, .02])

    def end(self):
        """Final verification of every live graph, then detach from the case."""
        for g, m in list(self.shadow.values()):
            self.verify(g, m, "at the end")
        self.ctx = None
        self.shadow = {}

    def model(self, g):
        s = self.shadow.get(id(g))
        return s[1] if s else None

    # ---- wrapping
    def _wrap_init(self):
        orig = self.cls.__init__
        mon = self

        def __init__(g, graph=None):
            if mon.ctx is None:
                return orig(g, graph)
            d = mon.depth
            d[id(g)] = d.get(id(g), 0) + 1
            src = mon.model(graph) if graph is not None else None
            try:
                orig(g, graph)
            finally:
                d[id(g)] -= 1
            if graph is not None and src is None:
                return
            mon.shadow[id(g)] = (g, src.clone() if src else GraphModel())
            mon.ctx.events["Graph()" if src is None else "Graph(graph)"] += 1
            if src is not None:
                mon.verify(g, mon.shadow[id(g)][1], "after construction from a graph")
                mon.verify(graph, src, "of the source after construction from it")
        self.orig["__init__"] = orig
        self.cls.__init__ = __init__

    def _wrap(self, name, handler):
        orig = getattr(self.cls, name)
        self.orig[name] = orig
        mon = self

        def wrapper(g, *a, **k):
            s = mon.shadow.get(id(g)) if mon.ctx is not None else None
            if s is None or mon.depth.get(id(g), 0):
                return orig(g, *a, **k)
            mon.depth[id(g)] = 1
            try:
                return handler(orig, name, g, s[1], a, k)
            finally:
                mon.depth[id(g)] = 0
        wrapper.__name__ = name
        wrapper.__doc__ = orig.__doc__
        setattr(self.cls, name, wrapper)

    # ---- handlers
    def _mutator(self, orig, name, g, m, a, k):
        ctx = self.ctx
        before = m.clone() if len(m.E) < 60 else None
        try:
            getattr(m, name)(*a, **k)
            refused = False
        except Refused:
            refused = True
        ctx.events["graph " + name + (" refused" if refused else "")] += 1
        ctx.log("graph." + name, a, k or "", "refused" if refused else "")
        err = None
        try:
            res = orig(g, *a, **k)
        except Violation:
            raise
        except Exception as e:      # noqa: BLE001
            err, res = e, None
        ctx.events["oracle verdicts"] += 1
        if refused and err is None:
            raise Violation("graph %s%r on a missing vertex or edge was not refused" % (name, a), "graph refusal")
        if not refused and err is not None:
            raise Violation("graph %s%r failed with %s: %s" % (name, a, type(err).__name__, err), "graph mutator fails")
        if self.density >= 1 or self.rng.random() < self.density:
            self.verify(g, m, "after %s%r" % (name, a))
        elif before is not None and self.rng.random() < .3:
            for v in a[:2]:
                if v in m.V:
                    for q in ("outgoing_vertices", "ingoing_vertices"):
                        check_answer(ctx, q, self.orig[q](g, v), getattr(m, q)(v), (v,))
        if err is not None:
            raise err
        return res

    def _query(self, orig, name, g, m, a, k):
        try:
            want = getattr(m, name)(*a, **k)
            refused = False
        except Refused:
            refused = True
        self.ctx.events["graph " + name] += 1
        try:
            got = orig(g, *a, **k)
        except Violation:
            raise
        except Exception as e:      # noqa: BLE001
            self.ctx.events["oracle verdicts"] += 1
            if not refused:
                raise Violation("graph query %s%r failed with %s: %s" % (name, a, type(e).__name__, e), "graph query fails")
            raise
        if refused:
            raise Violation("graph query %s%r on a missing vertex or edge was not refused: %r" % (name, a, got), "graph refusal")
        check_answer(self.ctx, name, got, want, a)
        return got

    def _deriver(self, orig, name, g, m, a, k):
        a = tuple(list(x) if name == "subgraph" and i == 0 and not isinstance(x, (list, tuple, set, frozenset, dict)) else x for i, x in enumerate(a))
        want = getattr(m, name)(*a, **k)
        self.ctx.events["graph " + name] += 1
        res = orig(g, *a, **k)
        if not isinstance(res, self.cls):
            raise Violation("graph %s returned %r" % (name, res), "graph derive")
        self.shadow[id(res)] = (res, want)
        self.verify(res, want, "of the result of %s%r" % (name, a))
        self.verify(g, m, "of the source after %s" % name)
        return res

    def _pure(self, orig, name, g, m, a, k):
        self.ctx.events["graph " + name] += 1
        res = orig(g, *a, **k)
        if self.density >= 1:
            self.verify(g, m, "after " + name)
        return res

    # ---- complete observable state against the model
    def verify(self, g, m, when):
        ctx = self.ctx
        o = self.orig
        d = self.depth.get(id(g), 0)
        self.depth[id(g)] = d + 1
        try:
            ctx.events["graph states compared"] += 1
            if len(m.V) <= 7:
                ctx.state(("graph", m.key()))
            V = list(m.V)
            check_answer(ctx, "vertices", o["vertices"](g), V, (when,))
            check_answer(ctx, "edges", o["edges"](g), list(m.E), (when,))
            outs, ins = {v: [] for v in V}, {v: [] for v in V}
            for u, w in m.E:
                outs[u].append(w)
                ins[w].append(u)
            sample = V if len(V) <= 12 else self.rng.sample(V, 12)
            for v in sample:
                check_answer(ctx, "has_vertex", o["has_vertex"](g, v), True, (v, when))
                check_answer(ctx, "outgoing_vertices", o["outgoing_vertices"](g, v), outs[v], (v, when))
                check_answer(ctx, "ingoing_vertices", o["ingoing_vertices"](g, v), ins[v], (v, when))
                check_answer(ctx, "adjacent_vertices", o["adjacent_vertices"](g, v), list(dict.fromkeys(outs[v] + ins[v])), (v, when))
                check_answer(ctx, "outgoing_edges", o["outgoing_edges"](g, v), [(v, w) for w in outs[v]], (v, when))
                check_answer(ctx, "ingoing_edges", o["ingoing_edges"](g, v), [(u, v) for u in ins[v]], (v, when))
                check_answer(ctx, "adjacent_edges", o["adjacent_edges"](g, v), list({(v, w): 0 for w in outs[v]} | {(u, v): 0 for u in ins[v]}), (v, when))
            E = list(m.E)
            for e in (E if len(E) <= 30 else self.rng.sample(E, 30)):
                check_answer(ctx, "get", o["get"](g, *e), m.E[e], (e, when))
            for u in sample[:6]:
                for w in sample[:6]:
                    f, b = (u, w) in m.E, (w, u) in m.E
                    check_answer(ctx, "has_edge", o["has_edge"](g, u, w), f, (u, w, when))
                    check_answer(ctx, "has_bi_edge", o["has_bi_edge"](g, u, w), f and b, (u, w, when))
                    check_answer(ctx, "has_any_edge", o["has_any_edge"](g, u, w), f or b, (u, w, when))
        finally:
            self.depth[id(g)] = d


MON = GraphMonitor()
