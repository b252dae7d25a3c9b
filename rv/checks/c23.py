"""Orientation, signed angle and acute/obtuse of point triples of every construction (any, exactly flat, right-angled,
coincident, thin, tiny, near-right), each under swapping, cyclic renaming and rigid motion, judged by exact rational
cross and dot products of the float inputs outside the tolerance bands.
Distinct states: (construction, orientation, angle class, scale, offset)."""
import math

from ..core import scenario
from .. import gen, geo

ANG = 3e-7


def verdicts(g, t, one=False):
    P = [geo.V(p) for p in t]
    for i in range(3):      # equal points may be one object
        for j in range(i):
            if t[i] == t[j] and one:
                P[i] = P[j]
    return dict(cw=g.is_clockwise(*P), ccw=g.is_counterclockwise(*P), flat=g.is_flat(*P), angle=g.angle_3p(*P), acute=g.is_acute(*P), obtuse=g.is_obtuse(*P))


def judge(ctx, t, what):
    """All answers about one triple; returns (orientation, angle class)."""
    g = geo.lib()
    r = verdicts(g, t, ctx.rng.random() < .5)
    ctx.log(what, t, r)
    o, k = geo.orientation(*t), geo.angle_class(*t)
    for n in ("cw", "ccw", "flat", "acute", "obtuse"):
        ctx.check(r[n] in (True, False), "%s is not a truth value (%s)" % (n, what), r[n], t)
    ctx.check(bool(r["cw"]) + bool(r["ccw"]) + bool(r["flat"]) == 1, "not exactly one of clockwise, counter-clockwise and flat (%s)" % what, r, t)
    if o:
        ctx.check(r[o], "wrong orientation (%s)" % what, "is", o, "reported", r, t)
        ctx.ev("orientation " + o)
    else:
        ctx.ev("orientation inside the tolerance band")
    if k == "undefined":
        ctx.check(r["angle"] is None and not r["acute"] and not r["obtuse"], "angle with coincident points (%s)" % what, r, t)
        ctx.ev("undefined angle")
    elif geo.coincident(t[0], t[1]) is False and geo.coincident(t[1], t[2]) is False:
        a = r["angle"]
        ctx.check(isinstance(a, float) and -math.pi - 1e-9 <= a <= math.pi + 1e-9, "defined angle not given (%s)" % what, r, t)
        size = geo.size_of_angle(*t)
        ctx.check(abs(abs(a) - size) <= ANG, "size of the angle (%s)" % what, "is", size, "reported", a, t)
        if o in ("cw", "ccw") and ANG * 2 < size:
            ctx.check((a > 0) == (o == "cw"), "sign of the angle (%s)" % what, "is", o, "reported", a, t)
            ctx.ev("signed angle " + o)
    if k in ("acute", "right", "obtuse"):
        ctx.check(bool(r["acute"]) == (k == "acute") and bool(r["obtuse"]) == (k == "obtuse"), "acute/obtuse (%s)" % what, "is", k, "reported", r, t)
        ctx.ev("angle " + k)
    return o, k


@scenario("C23", 24000, required=["orientation cw", "orientation ccw", "orientation flat", "undefined angle", "angle acute", "angle right", "angle obtuse",
                                  "signed angle cw", "signed angle ccw", "moved"])
def triples(ctx):
    g, rng = geo.lib(), ctx.rng
    t, kind = geo.triple(rng)
    o, k = judge(ctx, t, kind)
    a, b, c = t
    so, sk = judge(ctx, [c, b, a], kind + ", outer points swapped")
    if o and so:
        ctx.check((o, so) in (("cw", "ccw"), ("ccw", "cw"), ("flat", "flat")), "harness: oracle not antisymmetric", t)
    P = [geo.V(p) for p in t]
    x, y = g.angle_3p(*P), g.angle_3p(*P[::-1])
    ctx.check((x is None) == (y is None), "swapping the outer points changes whether the angle is defined", t, x, y)
    if x is not None and o in ("cw", "ccw"):
        ctx.check(abs(x + y) <= 2 * ANG, "swapping the outer points does not flip the sign of the angle", t, x, y)
    co, _ = judge(ctx, [b, c, a], kind + ", renamed cyclically")
    judge(ctx, [c, a, b], kind + ", renamed cyclically twice")
    judge(ctx, [geo.rot90(p, 1 + rng.randint(0, 2)) for p in t] if rng.random() < .2 else [geo.rot90(p, 2) for p in t], kind + ", rotated")
    r, s = geo.rigid(rng)
    m = [r * geo.z(p) + s for p in t]
    m = [(p.real, p.imag) for p in m]
    mo, mk = judge(ctx, m, kind + ", moved")
    if o in ("cw", "ccw") and mo in ("cw", "ccw"):
        ctx.ev("moved")
    d = g.distance_2p(P[0], P[1])
    e = geo.dist(a, b)
    ctx.check(abs(d - e) <= 1e-14 * e and d == g.distance_2p(P[1], P[0]), "distance", d, e, t)
    # across and nearly along an axis
    p, q = gen.logu(rng, 1e-3, 1e3), gen.logu(rng, 1e-3, 1e3) * rng.choice([0, 1, 1e-3, 1e-5, 1e-7])
    p, q = (a[0] + p * rng.choice([1, -1]), a[1] + q * rng.choice([1, -1])) if rng.random() < .5 else (a[0] + q * rng.choice([1, -1]), a[1] + p * rng.choice([1, -1]))
    d, e = g.distance_2p(P[0], geo.V((p, q))), geo.dist(a, (p, q))
    ctx.check(abs(d - e) <= 1e-14 * e, "distance", d, e, a, (p, q))
    L = geo.dist(a, b) + geo.dist(b, c)
    ctx.state((kind, o, k, int(math.log10(L + 1e-9)), int(math.log10(max(abs(q) for p in t for q in p) + 1e-3))))


@scenario("C23", 6000, required=["orientation cw", "orientation ccw"])
def integer_triples(ctx):
    """All answers about small integer triples are exact: no tolerance is involved."""
    rng = ctx.rng
    k = rng.choice([1, 2, 3, 7, 40])
    e = rng.choice([1, 1, .5, .25, 2, 100])
    t = [(rng.randint(-k, k) * float(e), rng.randint(-k, k) * float(e)) for _ in range(3)]
    o, kk = judge(ctx, t, "integer")
    ctx.check(o is not None, "harness: integer triple inside a band", t)
    ctx.state(("integer", k, e, o, kk, t[0] == t[2]))


@scenario("C23", 3000, required=["boundary above", "boundary below"])
def boundary(ctx):
    """Triples whose signed area lies on a chosen side of the tolerance at many lengths of the arms."""
    rng = ctx.rng
    L = 2.0 ** rng.randint(-8, 10)
    f = rng.choice([.1, .5, .9, 1.1, 1.5, 3, 10, 100])
    M = 2.0 ** rng.randint(-8, 10)
    h = f * 1e-8 / L
    sgn = rng.choice([1, -1])
    t = [(0.0, 0.0), (L, 0.0), (L + M * rng.choice([1, -1, 0, .5]), sgn * h)]
    q = rng.randint(0, 3)
    t = [geo.rot90(p, q) for p in t]
    o, k = judge(ctx, t, "boundary %s" % f)
    if o:
        ctx.check(o == ("flat" if f < 1 else "ccw" if sgn > 0 else "cw"), "harness: boundary triple", t)
        ctx.ev("boundary above" if f > 1 else "boundary below")
        ctx.state(("boundary", f, sgn, q, L, M))
