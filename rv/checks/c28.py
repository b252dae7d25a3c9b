"""Text of every kind of object in every reached state (names with formatting characters, tuples, odd types), each state
compared before and after, and the same workloads run with logging off and at debug level under a handler that formats every
record: same results, no record that fails to format. Distinct states: (kind of object, name kinds, size, logging mode)."""
import functools
import logging
import math
import random
import re

from .. import core, gen, geo, conf, cl, cg, mg, wgraph
from ..core import scenario

OWN_LOGGING = True
NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")


def names(rng, n):
    return gen.names(rng, n, rng.choice([None, "hostile", "hostile", "mixed", "distinct"])) if rng.random() < .7 else ["Qx%04dz" % i for i in rng.sample(range(9999), n)]


def spellings(n):
    """1, 1.0 and True are one name; its text may be that of whichever was given first."""
    if isinstance(n, (bool, int, float)) and abs(n) < 2 ** 53 and n == int(n):
        return [n, int(n), float(n)] + ([bool(n)] if n in (0, 1) else [])
    return [n]


def text(ctx, o, contains=(), absent=(), what=None):
    what = what or type(o).__name__
    s, r = str(o), repr(o)
    ctx.check(type(s) is str and type(r) is str, "text of a %s is not text" % what)
    for n in contains:
        ctx.check(any(str(m) in s or repr(m) in s for m in spellings(n)), "the text of a %s does not name something it contains" % what, n, s[:300])
    for n in absent:
        if isinstance(n, str) and n.startswith("Qx"):
            ctx.check(n not in s, "the text of a %s names something it does not contain" % what, n, s[:300])
            ctx.ev("absent names checked")
    s2 = format(o) if type(o).__format__ is object.__format__ else s
    ctx.check(str(o) == s and s2 == s and "%s" % (o,) == s, "the text of a %s changes without reason" % what, s[:200])
    ctx.ev("texts")
    ctx.ev("text " + what)
    return s


class Logging:
    """Debug logging on or off for the duration; afterwards no record may have failed to format."""
    def __init__(self, ctx, mode):
        self.ctx, self.mode = ctx, mode

    def __enter__(self):
        core.quiet_logging()
        self.h = core.debug_logging() if self.mode == "debug" else None
        self.before = (logging.getLogger().level, list(logging.getLogger().handlers))
        return self

    def __exit__(self, *e):
        after = (logging.getLogger().level, list(logging.getLogger().handlers))
        h = self.h
        core.quiet_logging()
        if e[0] is None:
            self.ctx.check(after == self.before, "logging was reconfigured")
            if h is not None:
                self.ctx.check(not h.failed, "a logged message fails to format", h.failed[:3])
                self.ctx.ev("log records formatted", h.records)
        return False


def mode(rng):
    return rng.choice(["off", "debug"])


# ---------------------------------------------------------------- texts of containers through histories

def graph_state(g):
    return sorted((repr(v), id(v)) for v in g.vertices()), sorted((repr((u, w)), repr(g.get(u, w))) for u, w in g.edges())


@scenario("C28", 1500, required=["text Graph"])
def graphs(ctx):
    from solver.graph import Graph
    rng = ctx.rng
    with Logging(ctx, mode(rng)):
        n = gen.size(rng, (1, 6), (7, 15), (16, 60))
        pool = names(rng, n)
        g = Graph()
        text(ctx, g)
        ed = wgraph.Editor(ctx, g, pool)
        for _ in range(rng.randint(1, 20)):
            ed.step()
            if rng.random() < .4:
                before = graph_state(g)
                vs = list(g.vertices())
                text(ctx, g, vs + [g.get(u, w) for u, w in g.edges()], [p for p in pool if p not in vs])
                ctx.check(graph_state(g) == before, "making text changes a graph")
        for h in (Graph(g), g.reverse()):
            text(ctx, h, list(h.vertices()))
        ctx.state(("graph", [type(p).__name__ for p in pool[:4]], len(list(g.vertices())), len(list(g.edges()))))


@scenario("C28", 1500, required=["text MethodGraph", "text FnMethod", "text SetMethod", "text AssignMethod", "text AddMethod", "text SubMethod"])
def method_graphs(ctx):
    """Histories with removals, refusals, deferred changes and failing methods; the driver's own checks of every value go on."""
    rng = ctx.rng
    m = mode(rng)
    with Logging(ctx, m):
        d = mg.Driver(ctx, deferred=rng.choice([0, 0, .4]), faults=rng.choice([0, 0, .05]), n=gen.size(rng, (3, 10), (11, 18), (19, 40)))
        d.pool = names(rng, d.n)
        for _ in range(rng.randint(3, 25)):
            d.step()
            if rng.random() < .5:
                text(ctx, d.G, list(d.vals) + [str(x) for x in d.methods], [p for p in d.pool if p not in d.vals])
                for x in rng.sample(d.methods + d.dead, min(3, len(d.methods) + len(d.dead))):
                    text(ctx, x, list(x.outputs) + list(x.inputs) + [x.name])
                d.observe("after making text", False)
        d.disarm()
        d.op_propagate()
        ctx.state(("mg", m, [type(p).__name__ for p in d.pool[:3]], len(d.methods)))


@scenario("C28", 600, required=["text MultiVariable", "text SumProdMethod"])
def multi_methods(ctx):
    rng = ctx.rng
    L = mg.lib()
    with Logging(ctx, mode(rng)):
        G = L.MethodGraph()
        ns = names(rng, 4)
        a, b = ns[0], ns[1]
        mv = [L.MultiVariable(n) if rng.random() < .7 else L.MultiVariable() for n in ns[2:] + [None, ""]]
        for v in mv:
            text(ctx, v, [] if v.name is None else [v.name])
        G.add_variable(a, rng.randint(-5, 5))
        G.add_variable(b, rng.randint(-5, 5))
        m1 = L.SumProdMethod(a, b, mv[0])
        m2 = L.SumProdMethod(mv[0], rng.choice([a, b]), mv[1])
        G.add_method(m1)
        text(ctx, G, [a, b, mv[0], m1])
        G.add_method(m2)
        text(ctx, G, [a, b, mv[0], mv[1], m1, m2])
        for x in (m1, m2):
            text(ctx, x, x.inputs + x.outputs)
        x, y = G.get(a), G.get(b)
        ctx.check(set(G.get(mv[0])) == {x + y, x * y}, "multi-valued result", G.get(mv[0]))
        G.set(a, 3)
        ctx.check(set(G.get(mv[0])) == {3 + y, 3 * y}, "multi-valued result", G.get(mv[0]))
        G.rem_method(m1)
        text(ctx, G, [a, b, m2])
        ctx.state(("multi", [type(p).__name__ for p in ns]))


@functools.lru_cache(None)
def own_selection():
    class Own(cg.lib().SelectionConstraint):
        def satisfied(self, mapping):
            return True
    return Own


@scenario("C28", 1500, required=["text SelectionConstraint", "text ConstraintGraph", "text FunctionConstraint", "text PlusConstraint", "text NotAcuteConstraint"])
def constraint_graphs(ctx):
    rng = ctx.rng
    m = mode(rng)
    with Logging(ctx, m):
        d = cg.Driver(ctx, n=gen.size(rng, (2, 8), (9, 16), (17, 40)))
        d.pool = names(rng, len(d.pool))
        for _ in range(rng.randint(2, 20)):
            d.step()
            if rng.random() < .5:
                text(ctx, d.G, list(d.vars) + [str(c) for c in d.cons], [p for p in d.pool if p not in d.vars])
                for c in rng.sample(list(d.cons), min(3, len(d.cons))):
                    text(ctx, c, d.cons[c])
                d.observe("after making text")
        # callables of every kind as functions of constraints
        C = d.C
        class Callable:
            def __call__(self, *a):
                return True
            def method(self, *a):
                return True
        f = rng.choice([functools.partial(max, 1), Callable(), Callable().method, max, lambda *a: True, Callable, functools.partial(lambda *a: True), math.hypot])
        n = rng.choice(["FunctionConstraint", "100%", "{0}", 7, ("a",)])
        vs = rng.sample(d.pool, min(2, len(d.pool)))
        c = C.FunctionConstraint(f, vs, n) if rng.random() < .7 else C.FunctionConstraint(f, vs)
        text(ctx, c, vs + [c.name])
        d.add(c, vs)
        text(ctx, d.G, list(d.vars) + [str(c)])
        d.observe("after adding it")
        # selection constraints of one's own, which bring no text of their own
        n, vs = rng.choice(["Mine", "100%", "{0}", 7, ("a",)]), rng.sample(d.pool, min(rng.randint(0, 3), len(d.pool)))
        c = own_selection()(n, vs)
        text(ctx, c, vs + [n], [p for p in d.pool if p not in vs], "SelectionConstraint")
        d.add(c, vs)
        text(ctx, d.G, list(d.vars) + [str(c)])
        d.observe("after adding one's own")
        ctx.state(("cg", m, type(f).__name__, [type(p).__name__ for p in d.pool[:3]], len(d.cons)))


@scenario("C28", 3000, required=["text Rigid", "text Hedgehog", "text Balloon", "text Distance", "text Angle", "log records formatted"])
def clusters(ctx):
    rng = ctx.rng
    md = mode(rng)
    R = __import__("solver.geometric.relation", fromlist=["x"])
    with Logging(ctx, md):
        pool = names(rng, gen.size(rng, (3, 8), (9, 14), (15, 40)))
        a, b = cl.random_pair(rng, pool)
        ra, rb = a.real(rng), b.real(rng)
        if rng.random() < .3:
            ra.overconstrained = True
        snaps = [cl.snapshot(x) for x in (ra, rb)]
        for r, m in ((ra, a), (rb, b)):
            text(ctx, r, list(m.pts), [p for p in pool if p not in m.pts])
        ctx.check([cl.snapshot(x) for x in (ra, rb)] == snaps, "making text changes a cluster")
        i = ra.intersection(rb)
        cl.agree(ctx, i, cl.intersection(a, b), "intersection")
        if i is not None:
            text(ctx, i, list(i.vars))
        for rel in ra.common_constraints(rb):
            text(ctx, rel, list(rel.points))
        p = rng.sample(pool, 3)
        for rel in (R.Distance(p[0], p[1]), R.Angle(*p)):
            before = tuple(rel.points)
            text(ctx, rel, p[:len(before)], p[len(before):])
            ctx.check(tuple(rel.points) == before, "making text changes a relation")
        ctx.check([cl.snapshot(x) for x in (ra, rb)] == snaps, "intersecting changes a cluster")
        ctx.state(("cluster", md, a.kind, b.kind, len(a.pts), [type(p).__name__ for p in pool[:3]]))


@scenario("C28", 3000, required=["text Configuration", "text Vector", "text Matrix"])
def configurations(ctx):
    g, rng = geo.lib(), ctx.rng
    md = mode(rng)
    with Logging(ctx, md):
        n = rng.choice([0, 1, 2, 3, 3, 5]) if rng.random() < .95 else rng.randint(6, 60)
        pool = names(rng, n + 3)
        P = dict(zip(pool[:n], conf.apart(rng, n, gen.logu(rng, .1, 1e3))))
        c = conf.make(P)
        before = conf.snapshot(c)
        text(ctx, c, list(P), pool[n:])
        ctx.check(conf.snapshot(c) == before, "making text changes a configuration")
        k = rng.randint(0, n)
        D = dict(zip(rng.sample(pool[:n], k) + pool[n:], conf.apart(rng, k + 3, 10)))
        d = conf.make(D)
        m, under = c.merge(d)
        text(ctx, m, set(P) | set(D))
        text(ctx, m.copy(), set(P) | set(D))
        text(ctx, c.select(pool[:k]), pool[:k], pool[k:])
        ctx.check(conf.snapshot(c) == before, "merging changes a configuration")
        for _ in range(3):
            x, y = (rng.choice([0.0, -0.0, 1e300, -1e-300, math.inf, -math.inf, rng.uniform(-1e4, 1e4), rng.uniform(-1, 1), gen.logu(rng, 1e-3, 1e9)]) for _ in range(2))
            v = g.Vector(x, y)
            s = text(ctx, v)
            num = [float(q) for q in NUM.findall(s)]
            ctx.check(len(num) == 2 and all(p == q or abs(p - q) <= 6e-4 + 1e-3 * abs(q) for p, q in zip(num, (x, y))), "the text of a vector does not give its coordinates", s, x, y)
            ctx.check(repr(v) and (v.x, v.y) == (x, y), "making text changes a vector")
        r, q = gen.size(rng, (1, 5), (6, 12)), gen.size(rng, (1, 5), (6, 12))
        E = [[rng.choice([0, 1.5, -3, rng.uniform(-9, 9), 1e20, "x"]) for _ in range(q)] for _ in range(r)]
        M = g.Matrix([list(e) for e in E])
        s = text(ctx, M, [e for row in E for e in row])
        ctx.check(M.elements == E, "making text changes a matrix")
        ctx.check(len(s.split()) >= r * q, "the text of a matrix lacks entries", s, E)
        ctx.state(("conf", md, n, k, [type(p).__name__ for p in pool[:2]], r, q))


# ---------------------------------------------------------------- same results with logging on and off

def value(o):
    g = geo.lib()
    if isinstance(o, g.Vector):
        return ("v", o.x, o.y)
    if isinstance(o, g.Matrix):
        return ("m", tuple(map(tuple, o.elements)))
    if isinstance(o, conf.lib().Configuration):
        return ("c", tuple((repr(n), p.x, p.y) for n, p in o.mapping.items()), bool(o.underconstrained))
    if isinstance(o, cl.lib().Cluster):
        return repr(sorted(map(repr, o.vars))) + type(o).__name__ + repr(getattr(o, "c_var", 0))
    if isinstance(o, (list, tuple)):
        return tuple(value(x) for x in o)
    return repr(o)


def run_geometry(rng, ctx):
    g = geo.lib()
    out = []
    s = gen.logu(rng, .1, 1e3)
    P = lambda: geo.V((gen.coord(rng, s), gen.coord(rng, s)))
    for _ in range(rng.randint(1, 4)):
        a, b, c, d = P(), P(), P(), P()
        r, q = rng.uniform(0, 2 * s), rng.uniform(0, 2 * s)
        if rng.random() < .2:
            b = g.Vector(a)
        if rng.random() < .3 and max(abs(c.x), abs(c.y)) > 0:
            d = c * rng.choice([2, -1])
        for name, args in (("cc_int", (a, r, b, q)), ("cl_int", (a, r, b, c)), ("cr_int", (a, r, b, c)), ("ll_int", (a, c, b, d)), ("lr_int", (a, c, b, d)), ("rr_int", (a, c, b, d)),
                           ("angle_3p", (a, b, c)), ("is_clockwise", (a, b, c)), ("is_acute", (a, b, c)), ("make_hcs", (a, b))):
            if name[1:] in ("l_int", "r_int") and (abs(c.x) + abs(c.y) < .1 or abs(d.x) + abs(d.y) < .1):
                continue
            out.append((name, value(getattr(g, name)(*args))))
    return out


def run_configurations(rng, ctx):
    n = rng.randint(0, 5)
    pool = gen.names(rng, n + 3, rng.choice(["hostile", "str", "tuple", "mixed"]))
    P = dict(zip(pool[:n], conf.apart(rng, n, 10)))
    k = rng.randint(0, n)
    D = dict(zip(pool[n - k:], conf.apart(rng, k + 3, 10)))
    c, d = conf.make(P), conf.make(D)
    m = c.merge(d)
    return [value(m), value(d.merge(c)), c == d, value(c.select(pool[:k])), hash(m[0]) == hash(m[0].copy()), value(m[0].merge(c)), m[0] == m[0].copy()]


def run_clusters(rng, ctx):
    pool = gen.names(rng, rng.randint(3, 8), rng.choice(["hostile", "str", "tuple", "mixed"]))
    out = []
    for _ in range(3):
        a, b = cl.random_pair(rng, pool)
        ra, rb = a.real(rng), b.real(rng)
        out += [value(ra.intersection(rb)), value(rb.intersection(ra)), len(list(ra.common_constraints(rb))), ra.n_constraints()]
    return out


def run_methods(rng, ctx):
    c = core.Ctx(rng, "quick")
    d = mg.Driver(c, deferred=.3, n=6, flavour="number")
    d.pool = gen.names(rng, 6, rng.choice(["hostile", "str", "tuple"]))
    for _ in range(12):
        d.step()
    d.op_propagate()
    return sorted((repr(v), repr(d.G.get(v))) for v in d.G.variables()) + [d.nexec, sorted(str(m) for m in d.G.methods())]


def run_constraints(rng, ctx):
    c = core.Ctx(rng, "quick")
    d = cg.Driver(c, n=5)
    d.pool = gen.names(rng, 5, rng.choice(["hostile", "str", "tuple"]))
    for _ in range(12):
        d.step()
    for v in d.pool + ["absent %s", ("absent", "%d")]:
        d.G.rem_variable(v) if v not in d.vars else None
    d.G.rem_constraint(d.make()[0])
    return sorted(map(repr, d.G.variables())) + [len(list(d.G.constraints()))]


@scenario("C28", 4000, required=["runs compared", "log records formatted"])
def logging_changes_nothing(ctx):
    rng = ctx.rng
    run = rng.choice([run_geometry, run_geometry, run_configurations, run_clusters, run_methods, run_constraints])
    seed = rng.getrandbits(64)
    res = []
    for m in ("off", "debug", "off"):
        with Logging(ctx, m) as log:
            res.append(run(random.Random(seed), ctx))
            if log.h is not None:
                n = log.h.records
    ctx.log(run.__name__, seed, "records", n)
    ctx.check(res[0] == res[1] == res[2], "results with debug logging on differ from those with it off (%s)" % run.__name__, *res[:2])
    ctx.ev("runs compared")
    ctx.ev("runs compared: " + run.__name__)
    ctx.state((run.__name__, min(n, 40), len(repr(res[0])) // 50))
