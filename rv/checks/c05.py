"""Histories mixing valid and invalid additions (cycles of any length, self-dependence, double determination, both)
with removals and re-additions; every refusal and every acceptance is compared with the dependency model, and the
state afterwards with the re-evaluation model. Distinct states: wiring of compared graphs up to 12 variables."""
from ..core import scenario
from .. import gen, mg


@scenario("C05", 2500, required=["invalid methods refused: cycle", "invalid methods refused: determine", "valid methods accepted", "removed methods added again"])
def mixed_additions(ctx):
    d = mg.Driver(ctx, removal=ctx.rng.choice([.0, .1, .25]), invalid=ctx.rng.choice([.3, .6, 1.0]), refused=.02)
    for _ in range(gen.size(ctx.rng, (8, 40), (40, 80))):
        d.step()


@scenario("C05", 1200)
def structured_then_invalid(ctx):
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.1, invalid=0.5, refused=0.0, n=gen.size(rng, (4, 12), (13, 22)))
    d.build()
    for _ in range(rng.randint(5, 25)):
        rng.choice([d.op_invalid, d.op_invalid, d.op_invalid, d.op_add, d.op_set, d.op_rem_method, d.op_readd])()


@scenario("C05", 500)
def refused_with_deferral(ctx):
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.1, invalid=0.5, refused=0.0, deferred=.5)
    for _ in range(gen.size(rng, (8, 30))):
        d.step()
    d.op_propagate()


@scenario("C05", 600)
def close_every_loop(ctx):
    """On a chain or ladder, try to feed every later variable back to every earlier one, and redetermine each."""
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, n=rng.randint(2, 8), flavour="int")
    d.build(rng.choice(["chain", "ladder", "layers", "diamonds"]))
    base = d.base()
    L = d.lib
    for src in list(d.vals):
        for dst in list(d.vals):
            extra = [rng.choice(list(d.vals))] if rng.random() < .3 else []
            m = d.new_method([src] + extra, [dst], style="int")
            bad = d.verdict(m)
            if bad == "ok":
                if rng.random() < .3:
                    d.do_add(m)
                    d.do_rem_method(m)
                continue
            d.dead.append(m)
            try:
                d.G.add_method(m)
            except L.MethodGraphCycleException:
                got = "cycle"
            except L.MethodGraphDetermineException:
                got = "determine"
            else:
                got = "accepted"
            ctx.check(got in bad, "feeding %r back to %r: %s, expected %s" % (src, dst, got, sorted(bad)), mech="loop")
            ctx.ev("loops tried")
    d.observe("after all refusals", True)
    for v in base:
        d.do_set(v, rng.randint(1, 99), prop=True)


@scenario("C05", 40)
def long_loops(ctx):
    """Cycles closed through long chains and wide graphs."""
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, n=rng.randint(60, 150), flavour="int", styles=["int"])
    d.pool = gen.names(rng, d.n, rng.choice(["int", "str"]))
    obs, d.observe = d.observe, lambda *a: None
    for a, b in zip(d.pool, d.pool[1:]):
        ins = [a]
        if rng.random() < .2:
            ins.append(d.pool[0])
        d.do_add(d.new_method(ins, [b], style="int"))
    d.observe = obs
    first = d.pool[0]
    for v in [d.pool[-1], d.pool[len(d.pool) // 2], d.pool[1]]:
        m = d.new_method([v], [first], style="int")
        d.dead.append(m)
        e = ctx.raises(d.G.add_method, m)
        ctx.check(isinstance(e, d.lib.MethodGraphCycleException), "long cycle refused with another error", repr(e))
        ctx.ev("long loops tried")
    d.observe("after refused long loops", True)
    d.do_set(first, 5, prop=True)


@scenario("C05", 4, required=["very long loops tried"])
def very_long_loops(ctx):
    c = mg.LongChain(ctx, ctx.rng.randint(1100, 1400))
    L = c.lib

    class Back(L.Method):
        def execute(self, inmap):
            raise AssertionError("a refused method was executed")
    for end in (c.n, c.n // 2):
        e = ctx.raises(c.G.add_method, Back("back", [c.names[end]], [c.names[0]]))
        ctx.check(isinstance(e, L.MethodGraphCycleException), "very long cycle refused with another error", repr(e)[:200])
        e = ctx.raises(c.G.add_method, Back("again", [c.names[0]], [c.names[end]]))
        ctx.check(isinstance(e, L.MethodGraphDetermineException), "second determination refused with another error", repr(e)[:200])
        ctx.ev("very long loops tried")
    ctx.check(len(list(c.G.methods())) == c.n, "a refused method is listed")
    c.set(5)
    c.judge("after refusals")
