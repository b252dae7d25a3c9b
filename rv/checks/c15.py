"""All relations over a set of distinct names, in every order and with equal-but-other-type names: equality against
the definition, hashes, sets and dictionaries, repeatedly and interleaved. Distinct states: (kinds, overlap pattern)."""
import itertools

from ..core import scenario
from .. import gen

ODD = [0, 1, "1", "0", "", "a", "A", (), (1,), ((1,),), (1, 2), frozenset(), frozenset([1]), frozenset([1, 2]), b"a", 2.5, -1, -2, 10 ** 20, "None", False, "ab", "ba", ("a", "b")]


def lib():
    import solver.geometric.relation as r
    return r


def ident(kind, pts):
    return ("D", frozenset(pts)) if kind == "D" else ("A", pts[1], frozenset((pts[0], pts[2])))


@scenario("C15", 6000, required=["pairs of relations equal", "pairs of relations different", "sets of relations", "D-A pairs"])
def relations(ctx):
    rng = ctx.rng
    R = lib()
    k = rng.choice([3, 3, 4, 4, 5])
    if rng.random() < .4:
        pool = list(ODD)
        rng.shuffle(pool)
        names = []
        for x in pool:
            if x not in names:
                names.append(x)
        names = names[:k]
    elif rng.random() < .2:     # names that are ordered only in part
        names = gen.names(rng, k, "subsets")
    else:
        names = gen.names(rng, k)
    made = []
    for _ in range(rng.randint(6, 30)):
        kind = rng.choice("DAA")
        pts = [gen.twin_name(rng, p) for p in rng.sample(names, 2 if kind == "D" else 3)]
        if rng.random() < .06:      # from a point to itself; an angle of a point with itself at another
            pts[-1] = gen.twin_name(rng, pts[0])
        r = R.Distance(*pts) if kind == "D" else R.Angle(*pts)
        made.append((kind, pts, r))
    for (k1, p1, r1), (k2, p2, r2) in itertools.product(made, made):
        want = ident(k1, p1) == ident(k2, p2)
        ctx.log("compare", k1, p1, k2, p2)
        eq, ne = r1 == r2, r1 != r2
        ctx.check((eq is True or eq is False) and eq == want, "equality of relations", k1, p1, k2, p2, "got", eq)
        ctx.check(ne == (not want), "inequality of relations", k1, p1, k2, p2, "got", ne)
        if want:
            ctx.check(hash(r1) == hash(r2), "equal relations with different hashes", k1, p1, p2)
        ctx.ev("pairs of relations equal" if want else "pairs of relations different")
        if k1 != k2:
            ctx.ev("D-A pairs")
        ctx.state((k1, k2, tuple(names.index(x) for x in p1), tuple(names.index(x) for x in p2)))
    rels = [r for _, _, r in made]
    ids = {ident(k, p) for k, p, _ in made}
    s = set(rels)
    ctx.check(len(s) == len(ids), "a set of relations does not hold each once", len(s), len(ids))
    d = {}
    for kind, pts, r in made:
        d[r] = ident(kind, pts)
    ctx.check(len(d) == len(ids), "a dictionary of relations does not hold each once", len(d), len(ids))
    for kind, pts, _ in made:
        q = list(reversed(pts))
        r = R.Distance(*q) if kind == "D" else R.Angle(*q)
        ctx.check(r in s and r in d and d[r] == ident(kind, pts), "a relation built in the other order is not found", kind, pts)
        if kind == "A" and pts[0] != pts[2]:
            other = R.Angle(pts[1], pts[0], pts[2])
            ctx.check((other in s) == (ident("A", [pts[1], pts[0], pts[2]]) in ids), "angle with another vertex found or lost", pts)
            dd = R.Distance(pts[0], pts[2])
            ctx.check((dd in s) == (ident("D", [pts[0], pts[2]]) in ids), "distance found or lost", pts)
    a, b = rng.sample(names, 2)
    try:
        odd = R.Angle(a, b, gen.twin_name(rng, a))      # an angle over two points only, where it can be built, is still no distance
    except Exception:       # noqa: BLE001
        odd = None
    if odd is not None:
        for dd in (R.Distance(a, b), R.Distance(b, a)):
            ctx.check(not (odd == dd) and not (dd == odd) and odd != dd and dd != odd, "a distance equals an angle", a, b)
    ctx.ev("sets of relations")
    # set algebra, as common constraints use it
    half = len(made) // 2
    A, B = made[:half], made[half:]
    I = {ident(k, p) for k, p, _ in A} & {ident(k, p) for k, p, _ in B}
    ctx.check(len({r for _, _, r in A} & {r for _, _, r in B}) == len(I), "intersection of sets of relations")
    ctx.check(len({r for _, _, r in A} | {r for _, _, r in B}) == len(ids), "union of sets of relations")
    for kind, pts, r in made:
        ctx.check(list(r.points) == list(pts), "a relation reports other points than it was given", r.points, pts)
        h = hash(r)
        for other in (None, 3, "Distance(1, 2)", tuple(pts), frozenset(pts), object()):
            ctx.check(not (r == other) and r != other, "a relation equals another kind of object", r.points, other)
        ctx.check(hash(r) == h, "hash changed")


@scenario("C15", 1500, required=["relations in large sets"])
def large(ctx):
    rng = ctx.rng
    R = lib()
    n = rng.randint(5, 14)
    names = gen.names(rng, n)
    s, ids = set(), set()
    combos = [("D", c) for c in itertools.permutations(names, 2)] + [("A", c) for c in itertools.permutations(names, 3)]
    rng.shuffle(combos)
    combos = combos[:rng.randint(50, 600)]
    for kind, c in combos:
        r = R.Distance(*c) if kind == "D" else R.Angle(*c)
        ctx.check((r in s) == (ident(kind, c) in ids), "membership in a set of relations", kind, c)
        if rng.random() < .1:
            s.discard(r)
            ids.discard(ident(kind, c))
        else:
            s.add(r)
            ids.add(ident(kind, c))
        ctx.check(len(s) == len(ids), "size of a set of relations", kind, c)
    ctx.ev("relations in large sets", len(combos))
    ctx.log("large", n, len(combos))
    ctx.state((n, len(ids)))
