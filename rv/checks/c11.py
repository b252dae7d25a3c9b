"""Histories of a constraint graph against a set model of the live constraints; all queries compared after (most)
operations, for known and unknown variables. Distinct states: incidence structure of graphs up to 8 constraints."""
from ..core import scenario
from .. import gen, cg


@scenario("C11", 3000, required=["cg.rem_variable", "cg.rem_constraint", "cg.absent", "non-empty shared constraints", "constraints added again after removal", "equal constraints used", "equal constraints added"])
def random_histories(ctx):
    d = cg.Driver(ctx)
    for _ in range(gen.size(ctx.rng, (5, 40), (41, 90))):
        d.step()
    d.observe("at the end")


@scenario("C11", 1200)
def removal_heavy(ctx):
    d = cg.Driver(ctx, removal=.8)
    for _ in range(gen.size(ctx.rng, (10, 50), (51, 120))):
        d.step()
    d.observe("at the end")


@scenario("C11", 1200)
def dense_then_taken_apart(ctx):
    """Few variables, many constraints; then everything is removed again in random order."""
    rng = ctx.rng
    d = cg.Driver(ctx, n=rng.randint(3, 6), removal=0.0)
    for _ in range(gen.size(rng, (5, 25), (26, 60))):
        d.op_add()
    d.observe("after building")
    while d.vars:
        rng.choice([d.op_rem_constraint, d.op_rem_constraint, d.op_rem_variable, d.op_absent, d.op_readd] if rng.random() < .9 else [d.op_again])()
        if rng.random() < .5:
            d.observe("while taking apart")
        if not d.cons and rng.random() < .5:
            d.op_rem_variable()
    d.observe("when empty")


@scenario("C11", 150)
def big(ctx):
    rng = ctx.rng
    d = cg.Driver(ctx, n=rng.randint(50, 150), removal=.1)
    d.density = .02
    for _ in range(rng.randint(200, 500)):
        d.step()
    d.observe("at the end")


@scenario("C11", 800, required=["results edited"])
def answers_are_independent(ctx):
    """Editing a returned list (or a constraint's returned variables) must not change the graph."""
    rng = ctx.rng
    d = cg.Driver(ctx, removal=.2)
    for _ in range(rng.randint(5, 20)):
        d.step()
        for q in (lambda: d.G.get_constraints_on_all(rng.sample(d.pool, min(2, len(d.pool)))), lambda: d.G.get_constraints_on_any(d.pool[:2])):
            r = q()
            if isinstance(r, list):
                r.append("edited")
                r.clear()
                ctx.ev("results edited")
        if d.cons:
            c = rng.choice(list(d.cons))
            vs = c.variables()
            vs.append("edited")
            vs.reverse()
    d.observe("after edits of answers")
