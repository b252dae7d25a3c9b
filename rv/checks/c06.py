"""Histories dominated by removals of methods and variables, re-additions and clears, with immediate and deferred
changes. The execution log is judged at every call of a method, the remaining graph after every operation.
Distinct states: wiring of compared graphs up to 12 variables."""
from ..core import scenario
from .. import gen, mg


@scenario("C06", 2000, required=["mg.rem_method", "mg.rem_variable", "mg.clear", "removed methods added again", "methods without outputs", "methods without outputs over the same inputs", "consistent states compared"])
def removal_heavy(ctx):
    d = mg.Driver(ctx, removal=ctx.rng.choice([.3, .6, 1.0]), invalid=.05, refused=.05, clear=ctx.rng.choice([.004, .05]))
    for _ in range(gen.size(ctx.rng, (10, 50), (50, 90))):
        d.step()
    d.op_clear()
    for _ in range(6):
        d.step()


@scenario("C06", 1200)
def removal_with_pending_changes(ctx):
    d = mg.Driver(ctx, removal=.4, invalid=.05, refused=.05, deferred=ctx.rng.choice([.3, .7]), clear=ctx.rng.choice([.004, .1]))
    for _ in range(gen.size(ctx.rng, (10, 50))):
        d.step()
    d.op_propagate()


@scenario("C06", 1200)
def take_apart(ctx):
    """Build a structure, then remove pieces one by one, setting inputs and rewiring outputs in between."""
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, n=gen.size(rng, (3, 10), (11, 20)))
    d.build()
    while d.methods or d.vals:
        r = rng.random()
        if r < .35 and d.methods:
            m = rng.choice(d.methods)
            d.do_rem_method(m)
            # its former output may now be set or determined by another method
            v = rng.choice(m.outputs) if m.outputs else None
            if v is None:
                continue
            if rng.random() < .5:
                d.do_set(v, d.value(), prop=True)
            elif rng.random() < .6:
                free = [u for u in d.vals if u not in d.reach([v])]
                if free:
                    new = d.new_method([rng.choice(free)], [v], style="int")
                    if d.verdict(new) == "ok":
                        d.do_add(new)
        elif r < .5 and d.vals:
            d.op_rem_variable()
        elif r < .75:
            d.op_set()
        elif r < .8:
            d.op_readd()
        elif r < .85:
            d.op_clear()
        elif d.methods and rng.random() < .5:
            d.do_rem_method(d.methods[-1])
        else:
            d.op_rem_variable()


@scenario("C06", 300, required=["topology wide"])
def wide_methods(ctx):
    """Methods with many inputs and outputs; any one of their variables takes the method with it."""
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, n=rng.randint(12, 40))
    d.build("wide")
    for _ in range(rng.randint(1, 5)):
        if d.methods:
            m = max(d.methods, key=lambda m: len(m.inputs) + len(m.outputs))
            v = rng.choice([v for v in list(m.inputs) + list(m.outputs)])
            d.op_rem_variable(v)
            if rng.random() < .7 and d.verdict(m) == "ok":
                d.dead = [x for x in d.dead if x is not m]
                d.do_add(m)


@scenario("C06", 600)
def remove_readd_same_method(ctx):
    """The same method object goes in and out repeatedly; between, its output is set by hand."""
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, n=rng.randint(3, 8))
    d.build()
    for _ in range(rng.randint(2, 8)):
        if d.methods:
            m = rng.choice(d.methods)
            d.do_rem_method(m)
            for v in m.inputs:
                if d.producer(v) is None:
                    d.do_set(v, d.value(), prop=True)
            if m.outputs and rng.random() < .5:
                d.do_set(m.outputs[0], d.value(), prop=True)
            if rng.random() < .8 and d.verdict(m) == "ok":
                d.dead = [x for x in d.dead if x is not m]
                d.do_add(m)


def value_method():
    m = mg.lib()

    class Scaled(m.Method):
        """A method that is equal to every other one with the same variables and factor."""
        def __init__(self, src, dst, k, log):
            super().__init__("scaled", [src], [dst])
            self.k, self.log = k, log

        def execute(self, inmap):
            self.log.append(self)
            return {self.outputs[0]: (self.k, inmap[self.inputs[0]])}

        def __eq__(self, other):
            return isinstance(other, Scaled) and (self.inputs, self.outputs, self.k) == (other.inputs, other.outputs, other.k)

        def __hash__(self):
            return hash((tuple(self.inputs), tuple(self.outputs), self.k))
    return Scaled


@scenario("C06", 600, required=["equal method added", "removed through an equal method", "added again through an equal method"])
def methods_equal_by_value(ctx):
    """A method is what it is equal to: adding an equal one changes nothing, removing an equal one removes it."""
    rng = ctx.rng
    L = mg.lib()
    Scaled = value_method()
    n = rng.randint(3, 7)
    names = gen.names(rng, n)
    G = L.MethodGraph()
    vals, live, log, gone = {}, {}, [], set()
    for v in names:
        vals[v] = rng.randint(0, 99)
        G.add_variable(v, vals[v])
    new = lambda i, k: Scaled(names[i], names[i + 1], k, log)

    def judge(what):
        for i in range(1, n):
            if i - 1 in live:
                vals[names[i]] = (live[i - 1], vals[names[i - 1]])
        ctx.check({v: G.get(v) for v in names} == vals, "values " + what, {v: G.get(v) for v in names}, vals)
        got = list(G.methods())
        ctx.check(len(got) == len(live) and all(new(i, k) in got for i, k in live.items()), "methods() " + what, list(map(str, got)), live)
        for m in log:
            i = names.index(m.inputs[0])
            ctx.check(live.get(i) == m.k, "a removed or refused method was executed", i, m.k)
        log.clear()
        ctx.state(("equal methods", n, tuple(sorted(live))))

    for _ in range(rng.randint(5, 25)):
        i, k = rng.randrange(n - 1), rng.randint(1, 3)
        op = rng.choice(["add", "add", "remove", "set", "absent", "variable"])
        ctx.log(op, i, k)
        if op == "add":
            if i in live and live[i] != k:
                e = ctx.raises(G.add_method, new(i, k))
                ctx.check(isinstance(e, L.MethodGraphDetermineException), "wrong refusal", e)
            else:
                ctx.ev("equal method added" if i in live else "added again through an equal method" if (i, k) in gone else "method added")
                live[i] = k
                G.add_method(new(i, k))
        elif op == "remove":
            if i in live:
                gone.add((i, live[i]))
                G.rem_method(new(i, live.pop(i)))
                ctx.ev("removed through an equal method")
        elif op == "absent":
            if live.get(i) != k:
                ctx.raises(rng.choice([G.rem_method, G.execute]), new(i, k))
        elif op == "variable":
            v = names[i]
            for j in (i - 1, i):
                live.pop(j, None)
            G.rem_variable(v)
            vals[v] = rng.randint(100, 199)
            G.add_variable(v, vals[v])
        elif i - 1 not in live:
            vals[names[i]] = rng.randint(0, 99)
            G.set(names[i], vals[names[i]])
        judge("after " + op)


@scenario("C06", 6, required=["long chains cut"])
def long_chains_cut(ctx):
    """A chain of more than a thousand methods loses one in the middle and gets it back."""
    c = mg.LongChain(ctx, ctx.rng.randint(1100, 1400))
    k = ctx.rng.randrange(1, c.n)
    old = c.value
    c.G.rem_method(c.methods[k])
    c.count = 0
    c.set(old + 1000)
    ctx.check(c.count == k, "methods behind a removed one were executed", c.count, k)
    ctx.check(all(c.G.get(v) == (c.value if i <= k else old) + i for i, v in enumerate(c.names)), "values after a removal in a long chain", k)
    c.G.add_method(c.methods[k])
    c.judge("after adding the removed method again")
    ctx.ev("long chains cut")
