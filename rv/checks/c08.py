"""Histories in which user methods raise at random executions (during set, add, execute and propagate; repeatedly;
with other changes pending) and refused operations on unknown names; after the faults stop, one propagate must bring
every value up to date. Distinct states: wiring of compared graphs up to 12 variables."""
from ..core import scenario, Violation
from .. import gen, mg


def recover(ctx, d):
    d.disarm()
    d.op_propagate()
    ctx.check(not d.dirty, "propagation after the faults stopped did not finish")
    ctx.ev("recoveries judged")


@scenario("C08", 2000, required=["faults injected", "recoveries judged", "refused operations: set", "refused operations: execute"])
def random_faults(ctx):
    rng = ctx.rng
    d = mg.Driver(ctx, faults=rng.choice([.15, .3, .6]), deferred=rng.choice([0, 0, .3]), removal=rng.choice([0, .1]), invalid=.02, refused=.05, clear=.001,
                  flavour=rng.choice(["any", "int"]))
    for _ in range(gen.size(rng, (8, 40))):
        d.step()
        if d.dirty and rng.random() < .3:
            recover(ctx, d)
    recover(ctx, d)


@scenario("C08", 1500)
def every_fault_point(ctx):
    """On one structure, the k-th execution of an update fails, for every k in turn."""
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, n=gen.size(rng, (4, 10), (11, 16)), flavour="any", styles=mg.INJECTIVE, faults=1e-9)
    d.build()
    user = [m for m in d.methods if hasattr(m, "fault")]
    for m in user:
        for skip in range(rng.choice([1, 1, 2])):
            base = d.base()
            if not base:
                break
            m.fault, m.skip = rng.choice([1, 1, 2]), skip
            batch = rng.sample(base, min(len(base), rng.choice([1, 1, 2, 3])))
            for v in batch[:-1]:
                d.do_set(v, rng.randint(1, 10 ** 6), prop=False)
            d.do_set(batch[-1], rng.randint(1, 10 ** 6), prop=True)
            if rng.random() < .3:
                rng.choice([d.op_propagate, d.op_set, d.op_execute, d.op_add])()
            recover(ctx, d)
            ctx.ev("fault points")


@scenario("C08", 800)
def failing_additions(ctx):
    """A method that fails when it is added must be caught up by the next propagation."""
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, n=gen.size(rng, (3, 9)), flavour="any", faults=1e-9, deferred=rng.choice([0, .3]))
    for _ in range(rng.randint(2, 5)):
        d.op_addvar()
    for _ in range(rng.randint(1, 6)):
        prod = d.producers()
        ins = d.pick_inputs()
        up = d.ancestors(ins, prod)
        free = [v for v in d.pool if v not in prod and v not in up]
        if not free:
            continue
        m = d.new_method(ins, [rng.choice(free)], style=rng.choice(mg.STYLES))
        if d.verdict(m) != "ok":
            continue
        m.fault = rng.choice([0, 1, 1, 2])
        d.do_add(m)
        if rng.random() < .5:
            d.op_set()
        if rng.random() < .5:
            recover(ctx, d)
    recover(ctx, d)


@scenario("C08", 600)
def refusals(ctx):
    rng = ctx.rng
    d = mg.Driver(ctx, removal=.1, invalid=.1, refused=1.0, deferred=rng.choice([0, .3]))
    for _ in range(rng.randint(8, 30)):
        d.step()
    d.op_propagate()


@scenario("C08", 300)
def builtin_failures(ctx):
    """Built-in methods fail on values that cannot be added; after a good value everything is consistent."""
    rng = ctx.rng
    L = mg.lib()
    G = L.MethodGraph()
    G.add_variable("a", 1)
    G.add_variable("b", 2)
    G.add_method(L.AddMethod("a", "b", "c"))
    G.add_method(L.SubMethod("a", "b", "d"))
    G.add_method(L.AddMethod("c", "d", "e"))
    G.add_method(L.AssignMethod("f", "b"))
    a, b = 1, 2
    for _ in range(rng.randint(1, 8)):
        v = rng.choice("ab")
        x = rng.choice([rng.randint(-9, 9), "text", (1,), rng.randint(-9, 9)])
        ok = isinstance(x, int) and isinstance(b if v == "a" else a, int)
        a, b = (x, b) if v == "a" else (a, x)
        ctx.log("set", v, x)
        try:
            G.set(v, x)
            failed = False
        except TypeError:
            failed = True
        ctx.check(failed == (not ok), "set reported %s" % ("an error" if failed else "success"), a, b)
        ctx.check(G.get(v) == x, "set does not take effect on the variable itself", G.get(v), x)
        ctx.ev("builtin faults", failed)
        if ok:
            ctx.check(all(mg.same(G.get(k), w) for k, w in dict(a=a, b=b, c=a + b, d=a - b, e=a + b + a - b, f=b).items()), "values after recovery",
                      a, b, {k: G.get(k) for k in "abcdef"})
            ctx.state(("builtin", a, b))


@scenario("C08", 8, required=["long chains interrupted"])
def long_chains_interrupted(ctx):
    """A method deep in a chain of more than a thousand fails, once or twice, and then works again."""
    c = mg.LongChain(ctx, ctx.rng.randint(1100, 1400))
    c.broken = ctx.rng.randrange(c.n)
    e = ctx.raises(c.set, c.value + 500)
    ctx.check(isinstance(e, ValueError), "the error of a method deep in a chain does not reach the caller", repr(e)[:200])
    if ctx.rng.random() < .5:
        ctx.raises(c.G.propagate)
    c.broken = None
    c.G.propagate()
    c.judge("after a failure")
    ctx.ev("long chains interrupted")
