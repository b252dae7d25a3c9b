"""Pairs of configurations that are congruent by construction, mirrored, scaled, perturbed, renamed or with permuted
names; the verdict is decided by the least-squares proper rigid fit. Distinct states: (relation, shape, size, verdict)."""
import cmath
import math

from ..core import scenario
from .. import gen, geo, conf


def verdict(A, B):
    """True/False/None (undecided band) for {name: complex} pairs."""
    if set(A) != set(B) or len(A) != len(B):
        return False
    if not A:
        return True
    names = list(A)
    P, Qs = [A[n] for n in names], [B[n] for n in names]
    r, cp, cq, res = geo.best_fit(P, Qs)
    rms = math.sqrt(sum(abs(p - cp - r * (q - cq)) ** 2 for p, q in zip(P, Qs)) / len(P))
    if res < 1e-10 * (1 + 1e-2 * max(abs(p) for p in P + Qs)) and res < 2e-9:
        return True
    return False if rms > 1e-7 else None


def compare(ctx, A, B, how):
    want = verdict(A, B)
    if want is None:
        ctx.ev("inside the undecided band")
        return
    a, b = conf.make(A), conf.make(B)
    rng = ctx.rng
    if rng.random() < .1:
        a.underconstrained = True
    sa, sb = conf.snapshot(a), conf.snapshot(b)
    ctx.log("compare", how, A, B)
    for x, y, d in ((a, b, ""), (b, a, " (swapped)")):
        got = x == y
        ctx.check(bool(got) == want, "equality of configurations" + d, how, "got", got, "expected", want, A, B)
        ctx.check(bool(x != y) == (not want), "inequality of configurations" + d, how)
    if want:
        ctx.check(hash(a) == hash(b), "equal configurations with different hashes", how)
        ctx.check(len({a, b}) == 1 and b in {a: 1}, "equal configurations are kept twice in a set", how)
    else:
        ctx.check(len({a, b}) == 2, "different configurations fall together in a set", how)
    ctx.check(conf.snapshot(a) == sa and conf.snapshot(b) == sb, "comparing changed an operand")
    ctx.check(a == a and b == b.copy(), "a configuration differs from itself or its copy")
    ctx.ev("%s: %s" % (how, "equal" if want else "different"))
    return want


def shape(ctx, kind=None):
    rng = ctx.rng
    n = gen.size(rng, (1, 6), (7, 15), (30, 60))
    names = gen.names(rng, n)
    s = gen.logu(rng, .1, 400)
    kind = kind or rng.choice(["any", "any", "line", "coincident", "all coincident", "grid", "regular", "two places"])
    off = 0j if rng.random() < .5 else complex(gen.coord(rng, 300), gen.coord(rng, 300))
    pts = conf.apart(rng, n, s, off=off, shape=kind)
    lim = max(abs(p) for p in pts)
    if lim > 900:
        pts = [p * .9 for p in pts] if lim < 1000 else [p - off for p in pts]
    return dict(zip(names, pts)), kind


def shuffled(rng, d):
    ks = list(d)
    rng.shuffle(ks)
    return {gen.twin_name(rng, k): d[k] for k in ks}


REQ = ["moved: equal", "mirrored: equal", "mirrored: different", "scaled: different", "one point off: different", "renamed: different", "permuted: equal", "permuted: different", "coincidence changed: different"]


@scenario("C18", 9000, required=REQ)
def related_pairs(ctx):
    rng = ctx.rng
    how = rng.choice(["moved", "moved", "mirrored", "mirrored", "scaled", "one point off", "renamed", "permuted", "coincidence changed", "one more", "slightly off"])
    A, kind = shape(ctx, rng.choice(["regular", "grid", "two places", "line"]) if how == "permuted" and rng.random() < .6 else "line" if how == "mirrored" and rng.random() < .3 else None)
    r, t = geo.rigid(rng, 300)
    B = dict(A)
    names = list(A)
    if how == "mirrored":
        d = cmath.exp(1j * rng.uniform(0, math.pi)) if rng.random() < .5 else rng.choice([1, 1j])
        B = {n: (p * d).conjugate() for n, p in A.items()}
    elif how == "scaled":
        k = rng.choice([.5, 1.5, .99, 1.01, 1.001, -.5])
        B = {n: p * k for n, p in A.items()}
    elif how in ("one point off", "slightly off"):
        n = rng.choice(names)
        d = rng.uniform(.05, 5) if how == "one point off" else rng.choice([1e-6, 1e-5, 1e-3])
        B[n] = B[n] + d * cmath.exp(1j * rng.uniform(-3, 3))
    elif how == "renamed":
        old = rng.choice(names)
        # replacements that keep the count, the positions, or even the sum of the hashes
        new = [x for x in ("new name", 0, 99, "a", (1,), -1, -2) if x not in A]
        B = {(new[0] if n == old else n): p for n, p in A.items()}
        if rng.random() < .4 and len(names) >= 2:
            ks = [3, 2, 10, 7]
            A = dict(zip([1, 4, 10, 7], [A[n] for n in names][:4]))
            B = dict(zip(ks, list(A.values())))
    elif how == "permuted":
        ps = [A[n] for n in names]
        k = rng.randrange(len(ps))
        ps = ps[k:] + ps[:k] if rng.random() < .6 else rng.sample(ps, len(ps))
        B = dict(zip(names, ps))
    elif how == "coincidence changed":
        if len(names) >= 3:
            x, y, z_ = rng.sample(names, 3)
            A = dict(A)
            A[y] = A[x]
            B = dict(A)
            B[y] = B[z_]
    elif how == "one more":
        B["one more"] = 1 + 1j
    B = conf.move(B, r, t)
    if max([abs(p) for p in list(A.values()) + list(B.values())] or [0]) > 1.6e3:
        return
    want = compare(ctx, A, shuffled(rng, B), how)
    ctx.state((how, kind, min(len(A), 8), want, conf.all_coincident(list(A.values()))))


@scenario("C18", 3000, required=["transitive triples"])
def equivalence(ctx):
    """Among moved and altered variants of a shape, equality is an equivalence relation agreeing with the fit."""
    rng = ctx.rng
    A, kind = shape(ctx)
    vs = []
    for _ in range(4):
        r, t = geo.rigid(rng, 200)
        base = A if rng.random() < .6 else {n: p.conjugate() for n, p in A.items()}
        vs.append(shuffled(rng, conf.move(base, r, t)))
    cs = [conf.make(v) for v in vs]
    eq = [[bool(x == y) for y in cs] for x in cs]
    ctx.log("equivalence", kind, eq)
    for i in range(4):
        for j in range(4):
            want = verdict(vs[i], vs[j])
            ctx.check(want is None or eq[i][j] == want, "equality among variants", kind, i, j, eq[i][j], want, vs[i], vs[j])
            for k in range(4):
                ctx.check(not (eq[i][j] and eq[j][k]) or eq[i][k], "equality is not transitive", i, j, k)
    ctx.ev("transitive triples", 64)
    ctx.state(("eq", kind, len(A), str(eq)))


class Other:
    pass


class Alike:
    """Has all a configuration has, but is none."""
    def __init__(self, c):
        self.mapping, self.underconstrained, self.h = c.mapping, False, hash(c)

    def __hash__(self):
        return self.h

    def vars(self):
        return list(self.mapping)

    def get(self, v):
        return self.mapping[v]


@scenario("C18", 600, required=["other objects"])
def other_objects(ctx):
    rng = ctx.rng
    A, kind = shape(ctx)
    c = conf.make(A)
    from solver.geometric.cluster import Rigid
    from solver.geometric.relation import Distance
    g = geo.lib()
    for o in (None, 0, "Configuration", 1.5, [], {}, dict(c.mapping), c.mapping, set(A), Other(), Alike(c), object, g.Vector(1, 2), g.Matrix([[1.0]]), Rigid(list(A)), Distance(1, 2), type(c)):
        ctx.log("compare with", type(o).__name__)
        ctx.check((c == o) == False and (o == c) == False, "comparing a configuration with another kind of object does not say not equal", type(o).__name__, c == o, o == c)
        ctx.check(c != o and o != c, "a configuration is not unequal to another kind of object", type(o).__name__)
        ctx.ev("other objects")
    ctx.check(conf.make({}) == conf.make({}), "empty configurations differ")
    ctx.check((conf.make({}) == c) == (not A), "an empty configuration equals a non-empty one")
    ctx.state(("other", kind, len(A)))


@scenario("C18", 1500, required=["pairs of points"])
def two_points(ctx):
    """Two points are congruent exactly when their distances agree."""
    rng = ctx.rng
    a, b = gen.names(rng, 2)
    d1 = rng.choice([0.0, gen.logu(rng, .05, 900)])
    d2 = d1 if rng.random() < .5 else rng.choice([0.0, d1 + rng.choice([1e-3, 1e-5, .1, 1])])
    u, v = (cmath.exp(1j * rng.uniform(-math.pi, math.pi)) for _ in range(2))
    p, q = complex(gen.coord(rng, 100), gen.coord(rng, 100)), complex(gen.coord(rng, 100), gen.coord(rng, 100))
    A, B = {a: p, b: p + d1 * u}, {b: q, a: q + d2 * v}
    compare(ctx, A, B, "two points")
    ctx.ev("pairs of points")
    ctx.state(("two", d1 == 0, d2 == 0, d1 == d2))
