"""Tolerant comparisons of pairs at chosen distances around the boundary (zero, adjacent floats, just inside, just outside, far),
of every magnitude and sign, with default, positional, keyword and zero tolerances, judged by exact rational evaluation of the
rule outside a rounding-wide band; one-of-three, unions and the zero test everywhere; vectors per coordinate.
Distinct states: (distance class, magnitudes, signs, tolerance form)."""
import math
from fractions import Fraction as Q

from ..core import scenario
from .. import gen, geo

REL, ABS = 1e-5, 1e-8


def value(rng):
    r = rng.random()
    if r < .15:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 1e-8, -1e-8, 1e8, 5e-324, -5e-324, 1e-5, .5])
    if r < .3:
        return float(rng.randint(-1000, 1000))
    if r < .35:
        return rng.choice([1, -1]) * gen.logu(rng, 1e100, 1e300)
    return rng.choice([1, -1]) * gen.logu(rng, 1e-14, 1e12)


def tolerances(rng):
    """(form, args, kwargs, rel, abs)"""
    k = rng.randint(0, 10)
    r = rng.choice([0, 0.0, .5, 1e-3, 1e-9, gen.logu(rng, 1e-12, 1), .1])
    a = rng.choice([0, 0.0, 1, 1e-3, 1e-12, gen.logu(rng, 1e-12, 1e3), 10.0])
    if k <= 2:
        return "default", (), {}, REL, ABS
    if k == 3:
        return "positional", (r, a), {}, r, a
    if k == 4:
        return "rel positional", (r,), {}, r, ABS
    if k == 5:
        return "rel keyword", (), dict(rel_tol=r), r, ABS
    if k == 6:
        return "abs keyword", (), dict(abs_tol=a), REL, a
    if k == 7:
        return "keywords", (), dict(abs_tol=a, rel_tol=r), r, a
    if k == 8:
        return "none given explicitly", (), dict(rel_tol=None, abs_tol=None), REL, ABS
    if k == 9:
        return "relative only", (r,), dict(abs_tol=a * 0), r, a * 0
    return "exact", (0, 0), {}, 0, 0


def other(rng, b, rel, ab):
    """A number at a chosen distance from b, relative to the tolerance."""
    k = rng.choice(["same", "adjacent", "inside", "just inside", "just outside", "outside", "far", "sign", "zero", "any", "swap side", "relative of a"])
    t = ab + rel * abs(b)
    s = rng.choice([1, -1])
    f = {"inside": rng.uniform(0, 1), "just inside": 1 - gen.logu(rng, 1e-7, 1e-2), "just outside": 1 + gen.logu(rng, 1e-7, 1e-2), "outside": rng.uniform(1, 3), "far": gen.logu(rng, 10, 1e6)}.get(k)
    if f is not None:
        return k, b + s * f * t
    if k == "same":
        return k, b
    if k == "adjacent":
        return k, math.nextafter(b, s * math.inf)
    if k == "sign":
        return k, -b
    if k == "zero":
        return k, 0.0
    if k == "relative of a":      # inside for |a| but not for |b|, or the other way round
        return k, b * (1 + s * rel) if b else ab
    return k, value(rng)


def rule(a, b, rel, ab):
    """Exact verdict, or None within rounding of the boundary."""
    d, t = abs(Q(a) - Q(b)), Q(ab) + Q(rel) * abs(Q(b))
    if d == 0:
        return True
    w = Q(1, 2 ** 50) * (abs(Q(a)) + abs(Q(b)) + t) if not (rel == 0 and ab == 0) else 0
    if w == 0:
        return False
    if abs(Q(a) - Q(b) - Q(float(Q(a) - Q(b)))) == 0:      # the difference is representable
        w = Q(1, 2 ** 50) * t + Q(1, 10 ** 320)
    if abs(d - t) <= w:
        return None
    return d < t


def names(rng, k):
    return {"eq": "tol_eq", "lt": "tol_lt", "gt": "tol_gt", "le": "tol_le", "ge": "tol_ge"}[k]


def other_type(ctx, a, b):
    """The same numbers, exactly, as fractions, decimals or numpy scalars."""
    import decimal
    import numpy
    T = ctx.rng.choice([Q, decimal.Decimal, numpy.float64])
    which = ctx.rng.choice(["both", "first", "second"])
    ctx.ev("other number types")
    return (T(a) if which != "second" else a), (T(b) if which != "first" else b)


@scenario("C27", 40000, required=["different integers", "other number types", "equal", "less", "greater", "near the boundary", "zero test", "just inside", "just outside", "exact", "adjacent"])
def scalars(ctx):
    S, rng = geo.lib().Scalar, ctx.rng
    form, args, kw, rel, ab = tolerances(rng)
    b = value(rng)
    if rng.random() < .1:       # integers that differ
        b = float(rng.randint(-1000, 1000) * rng.choice([1, 100, 10 ** 6]))
        kind, a = other(rng, b, rel, ab)
        if not math.isfinite(a):
            return
        a, b = round(a), int(b)
        if a != b:
            ctx.ev("different integers")
    else:
        kind, a = other(rng, b, rel, ab)
    if rng.random() < .15 and a == int(a) and b == int(b) and abs(a) < 2 ** 53 and abs(b) < 2 ** 53:
        a, b = int(a), int(b)
    if not (math.isfinite(a) and math.isfinite(b)):
        return
    if rng.random() < .15:
        a, b = other_type(ctx, a, b)
    who = S if rng.random() < .8 else S()
    r = {k: getattr(who, names(rng, k))(a, b, *args, **kw) for k in ("eq", "lt", "gt", "le", "ge")}
    ctx.log("compare", a, b, form, args, kw, r)
    for k, v in r.items():
        ctx.check(v in (True, False), "%s is not a truth value" % k, v)
    r = {k: bool(v) for k, v in r.items()}
    ctx.check(r["eq"] + r["lt"] + r["gt"] == 1, "not exactly one of tolerantly less, equal and greater", a, b, form, rel, ab, r)
    ctx.check(r["le"] == (r["lt"] or r["eq"]) and r["ge"] == (r["gt"] or r["eq"]), "less-or-equal or greater-or-equal is not the union", a, b, form, rel, ab, r)
    e = rule(a, b, rel, ab)
    if e is None:
        ctx.ev("near the boundary")
        ctx.check((not r["lt"] or a < b) and (not r["gt"] or a > b), "tolerantly less or greater against the numbers", a, b, r)
    else:
        ctx.check(r["eq"] == e, "tolerant equality", a, b, form, "rel", rel, "abs", ab, r)
        ctx.check(r["lt"] == (not e and a < b) and r["gt"] == (not e and a > b), "tolerant order", a, b, form, rel, ab, r)
        ctx.ev("equal" if e else "less" if a < b else "greater")
        ctx.ev(kind)
        if form == "exact":
            ctx.ev("exact")
    z = bool(S.tol_zero(a, *args, **kw))
    ctx.check(z == bool(S.tol_eq(a, 0, *args, **kw)), "the zero test is not equality with zero", a, form, rel, ab)
    ez = rule(a, 0, rel, ab)
    if ez is not None:
        ctx.check(z == ez, "zero test", a, form, rel, ab)
        ctx.ev("zero test")
    ctx.check(S.rel_tol == 1e-05 and S.abs_tol == 1e-08, "the default tolerances changed", S.rel_tol, S.abs_tol)
    ctx.state((kind, form, a > 0, b > 0, e, int(math.log10(abs(float(b)) + 1e-16))))


@scenario("C27", 16000, required=["vector equal", "vector less", "vector greater", "vector mixed", "one coordinate differs"])
def vectors(ctx):
    g, rng = geo.lib(), ctx.rng
    form, args, kw, rel, ab = tolerances(rng)
    B = (value(rng), value(rng))
    k1, a1 = other(rng, B[0], rel, ab)
    k2, a2 = other(rng, B[1], rel, ab)
    if rng.random() < .3:
        a2, k2 = B[1], "same"
    A = (a1, a2)
    if rng.random() < .5:
        A, B = A[::-1], B[::-1]
    if not all(map(math.isfinite, A + B)):
        return
    v, w = g.Vector(*A), g.Vector(*B)
    r = {k: bool(getattr(v, names(rng, k))(w, *args, **kw)) for k in ("eq", "lt", "gt", "le", "ge")}
    ctx.log("compare vectors", A, B, form, args, kw, r)
    es = [rule(p, q, rel, ab) for p, q in zip(A, B)]
    if None in es:
        return ctx.ev("vector near the boundary")
    one = lambda f: all(f(p, q, e) for p, q, e in zip(A, B, es))
    want = dict(eq=all(es), lt=one(lambda p, q, e: not e and p < q), gt=one(lambda p, q, e: not e and p > q), le=one(lambda p, q, e: e or p < q), ge=one(lambda p, q, e: e or p > q))
    for k in want:
        ctx.check(r[k] == want[k], "tolerant vector comparison %s" % k, A, B, form, rel, ab, r)
    ctx.check((v.x, v.y, w.x, w.y) == A + B, "comparing changes the vectors")
    ctx.ev("vector equal" if want["eq"] else "vector less" if want["lt"] else "vector greater" if want["gt"] else "vector mixed")
    if es[0] != es[1]:
        ctx.ev("one coordinate differs")
    ctx.state(("vector", k1, k2, form, tuple(es), A[0] > B[0], A[1] > B[1]))
