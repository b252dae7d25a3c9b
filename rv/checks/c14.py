"""Counts against closed formulas (exact integers) and enumeration; common constraints against the set intersection of the
relations both clusters fix; refused constructions. Distinct states: (kinds, sizes, shared, number of common constraints)."""
import itertools

from ..core import scenario
from .. import gen, cl


def relations(ctx, rels, what):
    """Reads a collection of relations: ({frozenset}, {(vertex, frozenset)}), each once."""
    from solver.geometric.relation import Distance, Angle
    ds, angs = [], []
    for r in rels:
        if isinstance(r, Distance):
            ds.append(frozenset(r.points))
            ctx.check(len(r.points) == 2 and len(ds[-1]) == 2, what + ": malformed distance", r.points)
        elif isinstance(r, Angle):
            ctx.check(len(r.points) == 3 and len(set(r.points)) == 3, what + ": malformed angle", r.points)
            angs.append((r.points[1], frozenset((r.points[0], r.points[2]))))
        else:
            ctx.check(False, what + ": neither distance nor angle", r)
    ctx.check(len(ds) == len(set(ds)) and len(angs) == len(set(angs)), what + ": a constraint is reported more than once", ds, angs)
    return set(ds), set(angs)


def common(ctx, a, b, ra, rb):
    ctx.log("common_constraints", a, b)
    sa, sb = cl.snapshot(ra), cl.snapshot(rb)
    got = ra.common_constraints(rb)
    wd, wa = a.distances() & b.distances(), a.angles() & b.angles()
    gd, ga = relations(ctx, got, "common constraints")
    ctx.check(gd == wd, "common distances of %s and %s" % (a.kind, b.kind), "missing", wd - gd, "extra", gd - wd)
    ctx.check(ga == wa, "common angles of %s and %s" % (a.kind, b.kind), "missing", list(wa - ga)[:5], "extra", list(ga - wa)[:5])
    if ctx.rng.random() < .3:
        gd, ga = relations(ctx, ra.common_distances(rb), "common_distances")
        ctx.check(gd == wd and not ga, "common_distances", gd, wd)
        gd, ga = relations(ctx, ra.common_angles(rb), "common_angles")
        ctx.check(ga == wa and not gd, "common_angles", ga, wa)
    ctx.check(cl.snapshot(ra) == sa and cl.snapshot(rb) == sb, "common_constraints changed an operand")
    ctx.ev("common of " + "-".join(sorted((a.kind, b.kind))) + (" non-empty" if wd or wa else " empty"))
    ctx.ev("common constraints compared", len(wd) + len(wa))
    ctx.state((a.kind, b.kind, len(a.pts), len(b.pts), len(a.pts & b.pts), len(wd), len(wa)))
    return got


PAIRS = ["Balloon-Balloon", "Balloon-Hedgehog", "Balloon-Rigid", "Hedgehog-Hedgehog", "Hedgehog-Rigid", "Rigid-Rigid"]


@scenario("C14", 8000, required=["common of %s %s" % (p, w) for p in PAIRS for w in ("empty", "non-empty")] + ["clusters of derived kinds"])
def pairs(ctx):
    rng = ctx.rng
    pool = gen.names(rng, gen.size(rng, (4, 8), (9, 12)))
    a, b = cl.random_pair(rng, pool)
    if rng.random() < .15:
        a, b = cl.random_model(rng, pool), cl.random_model(rng, pool)
    ra, rb = a.real(rng), b.real(rng)
    for m, r in ((a, ra), (b, rb)):
        if rng.random() < .1:       # a cluster of a kind derived from one of the three is of that kind
            r.__class__ = type("Derived", (type(r),), {})
            ctx.ev("clusters of derived kinds")
    got = common(ctx, a, b, ra, rb)
    back = common(ctx, b, a, rb, ra)
    ctx.check(len(list(got)) == len(list(back)) and set(got) == set(back), "common constraints depend on which operand is asked")
    if rng.random() < .3:
        common(ctx, a, a, ra, a.real(rng))
    for m, r in ((a, ra), (b, rb)):
        counts(ctx, m, r)
        ctx.check(r.n_distances() == len(m.distances()) and r.n_angles() == len(m.angles()), "counts differ from the enumerated relations", m)
        # what a cluster has in common with itself is what it fixes
        if len(m.pts) <= 7:
            d, an = relations(ctx, r.common_constraints(r), "own constraints")
            ctx.check(d == m.distances() and an == m.angles(), "common constraints of a cluster with itself", m)


def formula(m):
    n = len(m.pts)
    d = n * (n - 1) // 2 if m.kind == "Rigid" else 0
    k = n - 1
    a = k * (k - 1) // 2 if m.kind == "Hedgehog" else n * (n - 1) * (n - 2) // 2
    return d, a


def counts(ctx, m, r):
    d, a = formula(m)
    # what a cluster fixes does not depend on whether it is marked as overconstrained
    marked = r.overconstrained
    if ctx.rng.random() < .4:
        r.overconstrained = not marked
        ctx.ev("counts of clusters marked as overconstrained")
    ctx.check(r.n_distances() == d and r.n_angles() == a and r.n_constraints() == d + a, "counts of %s over %d points" % (m.kind, len(m.pts)),
              "got", r.n_distances(), r.n_angles(), r.n_constraints(), "expected", d, a)
    for x in (r.n_distances(), r.n_angles(), r.n_constraints()):
        ctx.check(float(x).is_integer() and not isinstance(x, bool), "a count is not a whole number", x)
    r.overconstrained = marked
    ctx.ev("counts compared")
    ctx.state(("count", m.kind, len(m.pts)))


@scenario("C14", 4000, required=["counts compared", "counts of clusters marked as overconstrained"])
def counting(ctx):
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 3, 4, rng.randint(5, 60), rng.randint(60, 400), rng.randint(400, 3000)])
    kind = rng.choice(["Rigid", "Hedgehog", "Balloon"])
    if kind != "Rigid":
        n = max(3, n)
    pts = gen.names(rng, n) if n < 40 else list(range(n))
    m = cl.Model(kind, pts, rng.choice(pts) if kind == "Hedgehog" else None)
    ctx.log("count", kind, n)
    counts(ctx, m, m.real(rng))


@scenario("C14", 60, heavy=True)
def large_common(ctx):
    rng = ctx.rng
    pool = gen.names(rng, rng.randint(15, 26))
    a, b = cl.random_model(rng, pool, lo=12), cl.random_model(rng, pool, lo=12)
    common(ctx, a, b, a.real(rng), b.real(rng))


@scenario("C14", 1, 8, times=1, required=["many shared points"], heavy=True)
def very_large_common(ctx):
    """Overlaps of more than 41 points of every pair of kinds: tens of thousands of angles."""
    rng = ctx.rng
    for kinds in itertools.product(("Rigid", "Balloon", "Hedgehog"), repeat=2):
        n = rng.randint(42, 48)
        pool = list(range(n + 8))
        rng.shuffle(pool)
        shared = pool[:n]
        a, b = (cl.Model(k, shared + pool[n + 4 * i:n + 4 * i + rng.randint(0, 4)], shared[0] if k == "Hedgehog" else None) for i, k in enumerate(kinds))
        common(ctx, a, b, a.real(rng), b.real(rng))
        ctx.ev("many shared points", n)


@scenario("C14", 1500, required=["refused clusters", "accepted minimal clusters"])
def refused(ctx):
    rng = ctx.rng
    C = cl.lib()
    x, y, z_, w = gen.names(rng, 4)
    t = lambda v: gen.twin_name(rng, v)
    shape = rng.choice([list, tuple, set, iter])
    for xs in ([], [x], [x, y], [x, x, x], [x, t(x), y, y]):
        ctx.log("Balloon", xs)
        ctx.raises(C.Balloon, shape(xs))
        ctx.ev("refused clusters")
    for c, xs in ((x, []), (x, [y]), (x, [x]), (x, [y, y]), (x, [x, y]), (x, [t(x), y, t(y)]), (x, [x, x, x])):
        ctx.log("Hedgehog", c, xs)
        ctx.raises(C.Hedgehog, c, shape(xs))
        ctx.ev("refused clusters")
    for real, m in ((C.Balloon(shape([x, y, z_])), cl.Model("Balloon", [x, y, z_])), (C.Hedgehog(x, shape([y, z_])), cl.Model("Hedgehog", [x, y, z_], x)),
                    (C.Hedgehog(x, shape([y, x, z_, y])), cl.Model("Hedgehog", [x, y, z_], x)), (C.Balloon(shape([x, y, z_, x])), cl.Model("Balloon", [x, y, z_])),
                    (C.Rigid(shape([x])), cl.Model("Rigid", [x])), (C.Rigid(shape([x, t(x), w])), cl.Model("Rigid", [x, w])), (C.Rigid(shape([])), cl.Model("Rigid", []))):
        cl.agree(ctx, real, m, "construction")
        counts(ctx, m, real)
        ctx.ev("accepted minimal clusters")


@scenario("C14", 400, required=["other kinds refused"])
def other_kinds(ctx):
    """Common constraints with a cluster that is none of the three kinds are refused."""
    rng = ctx.rng
    C = cl.lib()
    pool = gen.names(rng, gen.size(rng, (4, 8)))
    a = cl.random_model(rng, pool)
    ra = a.real(rng)

    def nothing(self, *a):
        return set()
    odd = type("Odd", (C.Cluster,), {n: nothing for n in C.Cluster.__abstractmethods__})(rng.sample(pool, rng.randint(2, 4)))
    snap = cl.snapshot(ra)
    ctx.log("common constraints with another kind", a, odd.vars)
    ctx.raises(ra.common_constraints, odd)
    ctx.raises(ra.common_angles, odd)
    ctx.check(cl.snapshot(ra) == snap, "a refused comparison changed a cluster")
    ctx.check(not ra.overconstrained, "a new cluster is marked as overconstrained")
    ctx.ev("other kinds refused")
    ctx.state(("other kind", a.kind, len(a.pts)))
