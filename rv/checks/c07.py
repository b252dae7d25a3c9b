"""Batches of deferred sets and additions (mixed with immediate operations and removals) on structured and grown
method graphs, compared with the re-evaluation model and with a twin driven eagerly. Distinct states: wiring of
compared graphs up to 12 variables."""
from ..core import scenario
from .. import gen, mg


@scenario("C07", 1500, required=["mg.add_method deferred", "mg.propagate", "consistent states compared", "changes that execute nothing yet"])
def mixed(ctx):
    d = mg.Driver(ctx, deferred=ctx.rng.choice([.3, .6, .9, 1.0]), removal=ctx.rng.choice([0, 0, .15]), invalid=.02, refused=.02, clear=.001)
    d.quiet = True
    for _ in range(gen.size(ctx.rng, (8, 40), (40, 80))):
        d.step()
    d.op_propagate()


@scenario("C07", 1500)
def batches_of_sets(ctx):
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, n=gen.size(rng, (4, 14), (15, 30)),
                  styles=mg.INJECTIVE if rng.random() < .6 else None)
    d.quiet = True
    d.build()
    for _ in range(rng.randint(1, 5)):
        base = d.base()
        k = rng.randint(1, max(1, len(base)))
        for v in rng.sample(base, min(k, len(base))) + ([rng.choice(base)] if base and rng.random() < .3 else []):
            d.do_set(v, d.value(), prop=False)
        ctx.ev("batches")
        rng.choice([d.op_propagate, d.op_propagate, d.op_propagate, d.op_set, d.op_execute, d.op_add])()
    d.op_propagate()


@scenario("C07", 1200)
def deferred_construction(ctx):
    """Whole graphs added with propagation off, variables given before or after."""
    rng = ctx.rng
    d = mg.Driver(ctx, deferred=rng.choice([.8, 1.0]), removal=0.0, invalid=0.0, refused=0.0, n=gen.size(rng, (3, 12), (13, 24)))
    d.quiet = True
    d.build()
    if rng.random() < .3:
        d.do_set(rng.choice(d.base() or [d.pool[0]]), d.value(), prop=True) if d.base() else None
    d.op_propagate()
    for _ in range(rng.randint(0, 8)):
        d.step()
    d.op_propagate()


def twin_ops(ctx, rng, d):
    """A script of changes: (kind, ...) on a structure described by names only."""
    names = d.pool
    k = max(1, len(names) // 3)
    ops = [("set", v, d.value()) for v in names[:k] for _ in range(rng.randint(1, 2))]
    i = k
    while i < len(names):
        ins = rng.sample(names[:i], min(i, rng.randint(1, 3)))
        ops.append(("add", ins, [names[i]], rng.randrange(1 << 30)))
        i += 1
    return ops


@scenario("C07", 1000)
def eager_twin(ctx):
    """Same changes, other order and deferred, must give the same values."""
    import random
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, flavour="any", n=rng.randint(3, 12))
    d.quiet = True
    ops = twin_ops(ctx, rng, d)
    last = {}
    for o in ops:
        if o[0] == "set":
            last[o[1]] = o[2]
    results = []
    for twin in range(3):
        e = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, flavour="any", n=3)
        e.quiet = True
        e.pool = d.pool
        todo = list(ops)
        if twin:
            rng.shuffle(todo)
            # of repeated sets of one variable the last must stay last
            seen = {}
            for j, o in enumerate(todo):
                if o[0] == "set":
                    seen[o[1]] = j
            for v, j in seen.items():
                todo[j] = ("set", v, last[v])
        for v in d.pool:
            e.vals[v] = None
            e.G.add_variable(v)
        for o in todo:
            prop = twin == 0 or (twin == 2 and rng.random() < .4)
            if o[0] == "set":
                e.do_set(o[1], o[2], prop=prop)
            else:
                r = random.Random(o[3])
                fn = mg.make_fn(r.choice(["int", "str", "tuple", "sometimes"]), [r.randrange(1, mg.MOD) for _ in o[1]], r.randrange(mg.MOD), 1)
                e.tag += 1
                e.do_add(mg.fn_method_class()(e.tag, o[1], o[2], fn, e, ""), prop=prop)
        e.op_propagate()
        results.append({v: e.G.get(v) for v in d.pool})
    for r in results[1:]:
        for v in d.pool:
            ctx.check(mg.same(r[v], results[0][v]), "deferred and immediate propagation disagree on %r" % (v,), r[v], results[0][v])
    ctx.ev("twins compared")


@scenario("C07", 60, required=["variables changed before one propagation"])
def many_pending(ctx):
    """Up to some hundred variables changed before one propagation; readers of one, of several neighbours and of many."""
    rng = ctx.rng
    d = mg.Driver(ctx, removal=0.0, invalid=0.0, refused=0.0, flavour="int", n=4, styles=["int"])
    n = gen.size(rng, (10, 40), (41, 80), (81, 200))
    pool = gen.names(rng, 2 * n, rng.choice(["int", "str", "ident"]))
    base, rest = pool[:n], pool[n:]
    d.pool, d.quiet = pool, True
    obs, d.observe = d.observe, lambda *a: None
    for v in base:
        d.vals[v] = rng.randint(1, 99) if rng.random() < .2 else None
        d.call("add_variable", d.G.add_variable, v, d.vals[v])
    for k, v in enumerate(rest):
        ins = rng.choice([[base[k]], [base[k]], base[max(0, k - 2):k + 1], rng.sample(base, min(n, 12)), [base[k], rest[k - 1]] if k else [base[0]]])
        d.do_add(d.new_method(ins, [v], style="int"), prop=rng.random() < .3)
    for _ in range(rng.randint(1, 3)):
        change = rng.sample(base, rng.randint(n // 2, n))
        for v in change:
            d.do_set(v, rng.randint(100, 999), prop=False)
        d.op_propagate()
        ctx.ev("variables changed before one propagation", len(change))
    d.observe = obs
    d.observe("after many changes", True)


@scenario("C07", 8, required=["long chains compared"])
def very_long_chains(ctx):
    """More than a thousand methods whose first input is set, or a hundred that are added, without propagation."""
    deferred = ctx.rng.random() < .5
    c = mg.LongChain(ctx, ctx.rng.randint(50, 150) if deferred else ctx.rng.randint(1100, 1400), prop=not deferred)
    if deferred:
        ctx.check(c.count == 0, "deferred methods were executed", c.count)
        c.G.propagate()
        c.judge("after deferred additions")
    c.count = 0
    for _ in range(3):
        c.set(ctx.rng.randint(100, 999), prop=False)
    ctx.check(c.count == 0, "a deferred change was propagated", c.count)
    c.G.propagate()
    c.judge("after deferred changes")
