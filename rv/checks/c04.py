"""Random acyclic method graphs (structured and grown), random histories of sets, additions and executions with
immediate propagation, values of all types; after every operation all variables are compared with a topological
re-evaluation. Distinct states: wiring and None-pattern of compared graphs with at most 12 variables."""
import functools

from ..core import scenario
from .. import gen, mg


@scenario("C04", 1500, required=["consistent states compared", "method executions", "mg.set", "mg.execute", "mg.add_method deferred",
                              "results naming variables the method does not determine", "the held object changed in place and set again",
                              "methods executed after their computation changed"])
def grown_graphs(ctx):
    """Half of them with changes left pending, to be carried through by whichever operation propagates next."""
    d = mg.Driver(ctx, removal=0.05, invalid=0.02, refused=0.01, clear=0, deferred=ctx.rng.choice([0, 0, .3, .6]), extras=.15)
    if d.deferred:
        d.weights["execute"] = 4
    for _ in range(gen.size(ctx.rng, (8, 40), (40, 90))):
        d.step()


@scenario("C04", 1500, required=["topology ladder", "topology diamonds", "topology butterfly"])
def structured_graphs(ctx):
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, n=gen.size(ctx.rng, (4, 12), (13, 24), (40, 80)))
    d.build()
    for _ in range(gen.size(ctx.rng, (4, 15), (15, 40))):
        d.op_set() if ctx.rng.random() < .8 else d.step()


@scenario("C04", 1200)
def fresh_inputs_everywhere(ctx):
    """Injective methods only: any stale value anywhere shows. Every base variable gets set."""
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, flavour="any", styles=mg.INJECTIVE, n=gen.size(rng, (4, 14), (15, 30)))
    d.build(rng.choice(["layers", "ladder", "diamonds", "butterfly"]))
    k = 0
    for _ in range(3):
        base = d.base()
        rng.shuffle(base)
        for v in base:
            k += 1
            d.do_set(v, rng.choice([k, "v%d" % k, (k,), float(k)]), prop=True)


@scenario("C04", 800)
def none_waves(ctx):
    """Values come and go: None must spread downstream and recovery must spread again."""
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, n=gen.size(rng, (4, 14), (15, 25)),
                  styles=["int", "sometimes", "partial", "explicit none", "str"])
    d.build()
    for _ in range(gen.size(rng, (4, 16))):
        base = d.base()
        if base:
            v = rng.choice(base)
            d.do_set(v, None if rng.random() < .5 else d.value(), prop=True)


@scenario("C04", 400)
def explicit_calls(ctx):
    """Explicit propagate and execute at any time keep everything consistent and change no undetermined variable."""
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0)
    d.build()
    for _ in range(rng.randint(3, 20)):
        rng.choice([d.op_execute, d.op_propagate, d.op_set, d.op_add, d.op_same])()


@scenario("C04", 24)
def deep_and_wide(ctx):
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, n=rng.randint(120, 260), flavour="any", styles=mg.INJECTIVE)
    d.pool = gen.names(rng, d.n, rng.choice(["int", "str"]))
    names = d.pool
    kind = rng.choice(["chain", "fan", "fanin"])
    if kind == "chain":
        specs = [([a], [b]) for a, b in zip(names, names[1:])]
    elif kind == "fan":
        specs = [([names[0]], [b]) for b in names[1:]]
    else:
        k = len(names) // 2
        specs = [([a], [b]) for a, b in zip(names[:k], names[k:2 * k])] + [(names[k:2 * k], [names[-1] if len(names) > 2 * k else "sink"])]
    obs, d.observe = d.observe, lambda *a: None     # only judged once everything is in place
    for ins, outs in specs:
        d.do_add(d.new_method(ins, outs))
    d.observe = obs
    for v in [names[0]] + rng.sample(d.base(), min(3, len(d.base()))):
        d.do_set(v, rng.randint(1, 10 ** 6), prop=True)


@scenario("C04", 16, required=["reconverging graphs"], heavy=1)
def reconverging(ctx):
    """Every variable computed from most earlier ones: one change marks later variables again and again."""
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, n=rng.randint(16, 42), flavour="any", styles=mg.INJECTIVE)
    d.pool = gen.names(rng, d.n, rng.choice(["int", "str", "tuple"]))
    names = d.pool
    reach = rng.choice([d.n, d.n, rng.randint(3, 10)])
    specs = []
    for i in range(1, d.n):
        early = names[max(0, i - reach):i]
        ins = early if rng.random() < .8 else rng.sample(early, rng.randint(1, len(early)))
        specs.append((list(ins), [names[i]]))
    order = rng.choice(["forward", "backward", "any"])
    if order == "backward":
        specs.reverse()
    elif order == "any":
        rng.shuffle(specs)
    obs, d.observe = d.observe, lambda *a: None
    for ins, outs in specs:
        d.do_add(d.new_method(ins, outs), prop=False)
    d.observe = obs
    d.call("propagate", d.G.propagate)
    for _ in range(3):
        d.do_set(names[0], rng.randint(1, 10 ** 6), prop=True)
    ctx.ev("reconverging graphs")
    ctx.state(("reconverging", d.n, reach, order))


@functools.lru_cache(None)
def own_methods():
    m = mg.lib()

    class Refill(m.Method):
        """Gives back the same container every time, refilled from its inputs."""
        def __init__(self, k, ins, outs, box, fill):
            super().__init__("refill%d" % k, ins, outs)
            self.box, self.fill = box, fill

        def execute(self, inmap):
            self.fill(self.box, [content(inmap[v]) for v in self.inputs])
            return {v: self.box for v in self.outputs}

    class Read(m.Method):
        """Gives a number computed from what its inputs hold."""
        def __init__(self, k, ins, outs):
            super().__init__("read%d" % k, ins, outs)

        def execute(self, inmap):
            h = total([content(inmap[v]) for v in self.inputs])
            return {v: h + i for i, v in enumerate(self.outputs)}
    return Refill, Read


def content(x):
    """What a value holds now, as a number."""
    if isinstance(x, dict):
        return x.get("k")
    if isinstance(x, (list, bytearray)):
        return int.from_bytes(x, "big") if isinstance(x, bytearray) else x[0]
    if hasattr(x, "x"):
        return int(x.x)
    if type(x).__name__ == "ndarray":
        return int(x[0])
    return x


def total(xs):
    h = 7
    for x in xs:
        h = (h * 31 + x) % 1000003
    return h


def fill_list(b, xs):
    b[:] = [total(xs)]


def fill_dict(b, xs):
    b["k"] = total(xs)


def fill_bytes(b, xs):
    b[:] = total(xs).to_bytes(4, "big")


def fill_vector(b, xs):
    b.x = total(xs)


def fill_array(b, xs):
    b[0] = total(xs)


@scenario("C04", 300, required=["refilled containers read"])
def refilled_containers(ctx):
    """Methods that give back one and the same list, dictionary, vector or array with new contents: readers follow."""
    import numpy
    from solver.geometry import Vector
    rng = ctx.rng
    Refill, Read = own_methods()
    G = mg.lib().MethodGraph()
    names = gen.names(rng, rng.randint(4, 14))
    nb = rng.randint(1, min(3, len(names) - 2))
    vals = {v: rng.randint(1, 999) for v in names[:nb]}
    for v in vals:
        G.add_variable(v, vals[v])
    ms = []
    free = names[nb:]
    while free:
        early = names[:len(names) - len(free)]
        ins = rng.sample(early, min(len(early), rng.randint(1, 3)))
        k = rng.choice([1, 1, 2])
        outs, free = free[:k], free[k:]
        if rng.random() < .6:
            box, fill = rng.choice([([0], fill_list), ({}, fill_dict), (bytearray(4), fill_bytes), (Vector(0, 0), fill_vector), (numpy.array([0]), fill_array)])
            ms.append((Refill(len(ms), ins, outs, box, fill), False))
        else:
            ms.append((Read(len(ms), ins, outs), True))
    order = list(ms)
    if rng.random() < .5:
        rng.shuffle(order)
    deferred = rng.random() < .3
    for m, _ in order:
        G.add_method(m, prop=not deferred)
    if deferred:
        G.propagate()
    for k in range(rng.randint(1, 6)):
        v = rng.choice(list(vals))
        vals[v] = rng.randint(1, 10 ** 6)
        ctx.log("set", v, vals[v])
        if rng.random() < .3:
            G.set(v, vals[v], prop=False)
            G.propagate()
        else:
            G.set(v, vals[v])
        want = dict(vals)
        for m, number in ms:
            h = total([want[i] for i in m.inputs])
            for i, o in enumerate(m.outputs):
                want[o] = h + i if number else h
        for o in names:
            got = content(G.get(o))
            ctx.check(got == want[o], "a value read from a refilled container is out of date", o, "got", got, "expected", want[o])
        ctx.ev("refilled containers read")
    ctx.state(("refill", tuple((n, len(m.inputs), len(m.outputs)) for m, n in ms)))


@scenario("C04", 8, required=["long chains compared"])
def very_long_chains(ctx):
    c = mg.LongChain(ctx, ctx.rng.randint(1100, 1600))
    c.judge("after building")
    c.set(ctx.rng.randint(100, 999))
    c.judge("after setting the first variable")
    c.G.execute(c.methods[0])
    c.judge("after executing the first method")
