"""Workload: random edit histories of a graph, driven through the public API."""
from . import gen

VALUES = [1, 0, None, "", "w", 2.5, (1, 2), False, -1, [1], 10 ** 12]


class Editor:
    def __init__(self, ctx, g, pool, refused=.15):
        self.ctx, self.g, self.pool, self.refused = ctx, g, pool, refused
        self.weights = {k: ctx.rng.choice([1, 2, 4]) for k in
                        ("add_vertex", "remove_vertex", "add_edge", "remove_edge", "add_bi_edge", "remove_bi_edge", "set", "set_bi_edge")}
        # keep graphs from dying out: additions win unless the case draws otherwise
        b = ctx.rng.choice([1, 3, 6])
        for k in ("add_edge", "set", "add_bi_edge"):
            self.weights[k] *= b

    def name(self):
        return gen.twin_name(self.ctx.rng, self.ctx.rng.choice(self.pool))

    def step(self, model=None):
        rng, g = self.ctx.rng, self.g
        op = rng.choices(list(self.weights), list(self.weights.values()))[0]
        u, w = self.name(), self.name()
        if model is not None and rng.random() > self.refused:
            # mostly hit existing things with the removals
            if op in ("remove_edge", "remove_bi_edge") and model.E:
                u, w = rng.choice(list(model.E))
                if op == "remove_bi_edge" and (w, u) not in model.E:
                    op = "remove_edge"
            elif op == "remove_vertex" and model.V:
                u = rng.choice(list(model.V))
        self.apply(op, u, w)

    def apply(self, op, u, w):
        rng, g = self.ctx.rng, self.g
        f = getattr(g, op)
        args = (u,) if op in ("add_vertex", "remove_vertex") else (u, w)
        kw = {}
        if op in ("set", "set_bi_edge"):
            args += (rng.choice(VALUES),)
        elif op in ("add_edge", "add_bi_edge") and rng.random() < .6:
            if rng.random() < .5:
                args += (rng.choice(VALUES),)
            else:
                kw["value"] = rng.choice(VALUES)
        try:
            f(*args, **kw)
        except Exception as e:      # noqa: BLE001
            from .core import Violation
            if isinstance(e, Violation):
                raise
            self.ctx.ev("refused operations")      # the monitor has already judged the refusal


def random_graph(ctx, Graph, n=None, pool=None, kind=None):
    """A graph built by edits (with removals) and its name pool."""
    rng = ctx.rng
    n = n if n is not None else gen.size(rng, (1, 7), (8, 20))
    pool = pool or gen.names(rng, n)
    g = Graph()
    kind = kind or rng.choice(["sparse", "dense", "chain", "cycle", "edited", "edited", "dag", "bi", "islands"])
    if kind == "edited":
        ed = Editor(ctx, g, pool)
        for _ in range(rng.randint(1, 5 * n)):
            ed.step()
    else:
        for v in pool:
            if rng.random() < .8:
                g.add_vertex(v)
        if kind in ("sparse", "dense", "dag", "islands"):
            p = {"sparse": 1.2 / max(1, n), "dense": .5, "dag": .3, "islands": .35}[kind]
            for i, u in enumerate(pool):
                for j, w in enumerate(pool):
                    if kind == "dag" and i >= j or kind == "islands" and i % 3 != j % 3:
                        continue
                    if rng.random() < p:
                        g.add_edge(u, w, rng.choice(VALUES))
        elif kind in ("chain", "cycle"):
            for a, b in zip(pool, pool[1:]):
                g.set(a, b, rng.choice(VALUES))
            if kind == "cycle":
                g.add_edge(pool[-1], pool[0])
        else:
            for i in range(n):
                g.add_bi_edge(rng.choice(pool), rng.choice(pool), rng.choice(VALUES))
        for _ in range(rng.choice([0, 0, 1, 2])):
            vs = list(g.vertices())
            if vs:
                g.remove_vertex(rng.choice(vs))
    return g, pool
