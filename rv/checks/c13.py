"""Pairs (and chains) of clusters of all kinds, overlaps from none to all, judged by the set definition of the strongest
implied cluster; operands are compared with snapshots. Distinct states: (kinds, sizes, shared count, centres)."""
import functools

from ..core import scenario
from .. import gen, cl


def pair_check(ctx, a, b, ra, rb):
    want = cl.intersection(a, b)
    sa, sb = cl.snapshot(ra), cl.snapshot(rb)
    ctx.log("intersection", a, b)
    got = ra.intersection(rb)
    cl.agree(ctx, got, want, "intersection of %s and %s" % (a.kind, b.kind))
    back = rb.intersection(ra)
    cl.agree(ctx, back, want, "swapped intersection of %s and %s" % (a.kind, b.kind))
    again = ra.intersection(rb)
    cl.agree(ctx, again, want, "repeated intersection")
    ctx.check(cl.snapshot(ra) == sa and cl.snapshot(rb) == sb, "intersecting changed an operand", a, b)
    key = "-".join(sorted((a.kind, b.kind)))
    ctx.ev("pairs " + key + (" with" if want else " without") + " intersection")
    shared = a.pts & b.pts
    ctx.state((a.kind, b.kind, len(a.pts), len(b.pts), len(shared), a.centre in b.pts if a.centre is not None else 0, a.centre == b.centre))
    return got, want


PAIRS = ["Balloon-Balloon", "Balloon-Hedgehog", "Balloon-Rigid", "Hedgehog-Hedgehog", "Hedgehog-Rigid", "Rigid-Rigid"]


@scenario("C13", 15000, required=["pairs %s %s intersection" % (p, w) for p in PAIRS for w in ("with", "without")] + ["results edited"])
def pairs(ctx):
    rng = ctx.rng
    pool = gen.names(rng, gen.size(rng, (4, 9), (10, 20), (30, 60)))
    a, b = cl.random_pair(rng, pool)
    if rng.random() < .15:
        a, b = cl.random_model(rng, pool), cl.random_model(rng, pool)
    ra, rb = a.real(rng), b.real(rng)
    got, want = pair_check(ctx, a, b, ra, rb)
    if got is not None and rng.random() < .5:
        # the result is a cluster of its own
        sa, sb = cl.snapshot(ra), cl.snapshot(rb)
        got.overconstrained = True
        try:
            got.vars.add("edited")
            if want.kind == "Hedgehog":
                got.x_vars.add("edited")
        except AttributeError:
            pass
        ctx.check(cl.snapshot(ra) == sa and cl.snapshot(rb) == sb, "editing an intersection changed an operand")
        cl.agree(ctx, ra.intersection(rb), want, "intersection after editing an earlier result")
        ctx.ev("results edited")


@scenario("C13", 4000, required=["chained intersections"])
def chains(ctx):
    """Intersections of intersections, the operands reused throughout."""
    rng = ctx.rng
    pool = gen.names(rng, gen.size(rng, (5, 9), (10, 16)))
    ms = [cl.random_model(rng, pool, lo=len(pool) // 2) for _ in range(rng.randint(2, 5))]
    if rng.random() < .6:       # same centre where possible
        c = rng.choice(pool)
        ms = [cl.Model(m.kind, m.pts | {c}, c if m.kind == "Hedgehog" else None) for m in ms]
    rs = [m.real(rng) for m in ms]
    snaps = [cl.snapshot(r) for r in rs]
    for _ in range(rng.randint(2, 6)):
        i, j = rng.randrange(len(ms)), rng.randrange(len(ms))
        got, want = pair_check(ctx, ms[i], ms[j], rs[i], rs[j])
        if want is not None:
            ms.append(want)
            rs.append(got)
            snaps.append(cl.snapshot(got))
            ctx.ev("chained intersections")
    for m, r, s in zip(ms, rs, snaps):
        ctx.check(cl.snapshot(r) == s, "a cluster changed over a chain of intersections", m)


@scenario("C13", 2000)
def minimal(ctx):
    """All pairs of kinds at and around the minimal number of shared points, centre shared or not."""
    rng = ctx.rng
    pool = gen.names(rng, 9)
    for n in range(0, 5):
        shared, pa, pb = pool[:n], pool[n:n + 2], pool[n + 2:n + 4]
        for ka in ("Rigid", "Balloon", "Hedgehog"):
            for kb in ("Rigid", "Balloon", "Hedgehog"):
                A, B = shared + pa, shared + pb
                if min(len(A) if ka != "Rigid" else 9, len(B) if kb != "Rigid" else 9) < 3:
                    continue
                a = cl.Model(ka, A, rng.choice(A) if ka == "Hedgehog" else None)
                b = cl.Model(kb, B, (a.centre if ka == "Hedgehog" and a.centre in B and rng.random() < .7 else rng.choice(B)) if kb == "Hedgehog" else None)
                pair_check(ctx, a, b, a.real(rng), b.real(rng))


@scenario("C13", 400, required=["operand subclasses"])
def subclasses_and_flags(ctx):
    """Operands that are subclasses of a kind or flagged overconstrained intersect like their kind."""
    rng = ctx.rng
    C = cl.lib()
    pool = gen.names(rng, 7)
    a, b = cl.random_pair(rng, pool)
    ra, rb = a.real(rng), b.real(rng)
    class R(type(ra)):
        pass
    sub = R.__new__(R)
    sub.__dict__.update(ra.__dict__)
    ra.overconstrained = rng.random() < .5
    rb.overconstrained = rng.random() < .5
    pair_check(ctx, a, b, ra, rb)
    pair_check(ctx, a, b, sub, rb)
    ctx.ev("operand subclasses")


@scenario("C13", 600, required=["other kinds refused"])
def other_kinds(ctx):
    """A cluster that is none of the three kinds is refused, which changes no operand."""
    rng = ctx.rng
    pool = gen.names(rng, gen.size(rng, (4, 9)))
    a = cl.random_model(rng, pool)
    ra = a.real(rng)
    k = rng.randint(2, len(a.pts)) if len(a.pts) >= 2 else 0
    pts = rng.sample(sorted(a.pts, key=repr), k) + rng.sample(pool, rng.randint(0, 2))
    if len(set(pts) & a.pts) < 2:
        return
    odd = odd_kind()(pts)
    snap = cl.snapshot(ra)
    ctx.log("intersection with another kind", a, pts)
    ctx.raises(ra.intersection, odd)
    ctx.check(cl.snapshot(ra) == snap and odd.vars == set(pts), "a refused intersection changed an operand")
    b = cl.random_model(rng, pool)
    pair_check(ctx, a, b, ra, b.real(rng))
    ctx.ev("other kinds refused")
    ctx.state(("other kind", a.kind, len(a.pts), k))


@functools.lru_cache(None)
def odd_kind():
    C = cl.lib()

    def none(self, *a):
        return None
    return type("Odd", (C.Cluster,), {n: none for n in C.Cluster.__abstractmethods__})
