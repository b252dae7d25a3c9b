"""Circle pairs of every relative position over scales 1e-2 to 1e4 and exactly constructed degenerate ones, judged by
60-digit arithmetic on the float inputs; swapped, translated and rotated. Distinct states: (class, scale, ratio, axis)."""
import math

from ..core import scenario
from .. import gen, geo, xint


def tolerance(p1, r1, p2, r2):
    C = max(abs(x) for x in p1 + p2)
    d = geo.dist(p1, p2)
    noise = 4e-16 * C / d if d else 0
    return (1e-9 + 30 * noise) * (r1 + r2 + d) * 30 + 1e-14 * C + 2e-8


def check(ctx, p1, r1, p2, r2, what):
    cls, want = xint.circles(p1, r1, p2, r2)
    if cls == "band":
        ctx.ev("inside the tangency band")
        return None
    g = geo.lib()
    for a, ra, b, rb, how in ((p1, r1, p2, r2, ""), (p2, r2, p1, r1, ", circles swapped")):
        ctx.log("cc_int", a, ra, b, rb)
        got = g.cc_int(geo.V(a), ra, geo.V(b), rb)
        tol = tolerance(p1, r1, p2, r2)
        xint.same_points(ctx, got, want, tol, "cc_int of %s circles (%s%s)" % (cls, what, how), p1, r1, p2, r2)
        for v in got:
            for c, r in ((p1, r1), (p2, r2)):
                ctx.check(abs(geo.dist((v.x, v.y), c) - r) <= tol, "a point does not lie on both circles", (v.x, v.y), c, r)
        if len(want) == 2 and geo.dist(*want) > 4 * tol:
            ctx.check(geo.dist((got[0].x, got[0].y), (got[1].x, got[1].y)) > 1e-3 * min(r1, r2) * .1, "the two points coincide", got)
    ctx.ev("class " + cls)
    ctx.state((cls, what, int(2 * math.log10(max(r1, r2))), int(math.log10(r1 / r2)), p1[0] == p2[0], p1[1] == p2[1], p1[0] < p2[0], p1[1] < p2[1]))
    return cls


@scenario("C20", 12000, required=["class crossing", "class separate", "class nested"])
def any_circles(ctx):
    rng = ctx.rng
    s = gen.logu(rng, .01, 1e4)
    r1 = s if rng.random() < .5 else gen.logu(rng, .01, s)
    r2 = rng.choice([r1, gen.logu(rng, .01, 1e4), max(.01, r1 * rng.uniform(.2, 1)), max(.01, r1 * .98)])
    big, small = max(r1, r2), min(r1, r2)
    place = rng.choice(["cross", "cross", "cross", "separate", "nested", "any", "inside centre"])
    if rng.random() < .15:
        place = "shallow"
    if place == "shallow":
        e = gen.logu(rng, 1e-8, 2e-2)
        r2 = max(r1 * .1, min(10 * r1, r2))
        big, small = max(r1, r2), min(r1, r2)
        d = rng.choice([(big + small) * (1 - e), (big + small) * (1 + e), big - small * (1 - e), (big - small) * (1 - e)])
        off_lim = 3 * small
    elif place == "cross":
        d = rng.uniform(big - small, big + small)
    elif place == "separate":
        d = (big + small) * rng.choice([rng.uniform(1.011, 1.05), rng.uniform(1.02, 3)])
    elif place == "nested":
        d = (big - small) * rng.choice([rng.uniform(0, 1), 1e-3, 1e-6])
    elif place == "inside centre":
        d = rng.uniform(0, big)
    else:
        d = rng.uniform(0, 2 * big + small)
    a = rng.uniform(-math.pi, math.pi) if rng.random() < .6 else rng.randint(-2, 2) * math.pi / 2
    off = (0.0, 0.0) if rng.random() < .4 else (gen.coord(rng, rng.choice([s, 1e4])), gen.coord(rng, s))
    off = tuple(max(-1e4, min(1e4, x)) for x in off)
    if place == "shallow":
        off = tuple(max(-off_lim, min(off_lim, x)) for x in off)
    u = {0: (1, 0), 1: (0, 1), 2: (-1, 0), -1: (0, -1), -2: (-1, 0)}.get(round(a / (math.pi / 2)), None) if abs(a / (math.pi / 2) - round(a / (math.pi / 2))) < 1e-12 else None
    u = u or (math.cos(a), math.sin(a))
    p1, p2 = off, (off[0] + d * u[0], off[1] + d * u[1])
    if geo.dist(p1, p2) == 0 and d > 0 or 0 < geo.dist(p1, p2) < 1e-7:
        return
    cls = check(ctx, p1, r1, p2, r2, "any")
    if cls and rng.random() < .4:
        # the answer moves with the circles
        g = geo.lib()
        r, t = geo.rigid(rng, min(1e4, 10 * s))
        got = [complex(v.x, v.y) for v in g.cc_int(geo.V(p1), r1, geo.V(p2), r2)]
        q1, q2 = r * geo.z(p1) + t, r * geo.z(p2) + t
        q1, q2 = (q1.real, q1.imag), (q2.real, q2.imag)
        moved = g.cc_int(geo.V(q1), r1, geo.V(q2), r2)
        want = [r * z_ + t for z_ in got]
        xint.same_points(ctx, moved, [(w.real, w.imag) for w in want], 2 * max(tolerance(p1, r1, p2, r2), tolerance(q1, r1, q2, r2)), "cc_int of moved circles", p1, r1, p2, r2, r, t)
        ctx.ev("moved circles")


@scenario("C20", 5000, required=["class external tangent", "class internal tangent", "class concentric", "right-angled pairs", "rounded tangents", "circles of radius zero"])
def constructed(ctx):
    """Exactly tangent, right-angled and concentric circles on dyadic coordinates at scales 2^-3 .. 2^13."""
    rng = ctx.rng
    e = 2.0 ** rng.randint(-3, 9)
    x, y, h = rng.choice(xint.PYTH)
    off = (0.0, 0.0) if rng.random() < .3 else (rng.randint(-20, 20) * e / rng.choice([1, 2, 4]), rng.randint(-20, 20) * e)
    k = rng.randint(1, 4)
    d = k * h * e
    p1, p2 = off, (off[0] + k * x * e, off[1] + k * y * e)
    kind = rng.choice(["external", "internal", "right", "right2", "concentric", "equal touching", "rounded external", "rounded internal", "nearly right", "point"])
    g = geo.lib()
    if kind == "external" or kind == "equal touching":
        n = rng.randint(1, 7)
        r1 = d * n / 8 if kind == "external" else d / 2
        check(ctx, p1, r1, p2, d - r1, "touching from outside")
    elif kind == "internal":
        r2 = d * rng.randint(1, 8) / 4
        check(ctx, p1, d + r2, p2, r2, "touching from inside")
    elif kind == "right":
        # the radius of the first circle meets the line of centres at a right angle: r2^2 = r1^2 + d^2
        a, b, c = rng.choice([(3, 4, 5), (4, 3, 5), (5, 12, 13), (8, 15, 17), (20, 21, 29)])
        q = (off[0] + a * e, off[1]) if rng.random() < .5 else (off[0], off[1] - a * e)
        check(ctx, off, b * e, q, c * e, "right angle at the first centre")
        ctx.ev("right-angled pairs")
    elif kind == "right2":
        # radii at right angles to each other: d^2 = r1^2 + r2^2
        a, b, c = rng.choice([(3, 4, 5), (4, 3, 5), (5, 12, 13), (8, 15, 17)])
        q = (off[0] - c * e, off[1]) if rng.random() < .5 else (off[0], off[1] + c * e)
        check(ctx, off, a * e, q, b * e, "orthogonal circles")
        ctx.ev("right-angled pairs")
    elif kind == "nearly right":
        r1, dd = gen.logu(rng, .1, 1e3), gen.logu(rng, .1, 1e3)
        a = rng.uniform(-3, 3)
        q = (off[0] + dd * math.cos(a), off[1] + dd * math.sin(a))
        check(ctx, off, r1, q, math.hypot(r1, geo.dist(off, q)), "right angle up to rounding")
        ctx.ev("right-angled pairs")
    elif kind == "point":
        # a circle of radius zero on another, outside and inside it
        for A, ra, B, rb in ((p1, 0.0, p2, d), (p2, d, p1, 0.0), (p1, 0, p2, d)):
            got = g.cc_int(geo.V(A), ra, geo.V(B), rb)
            ctx.check(len(got) == 1 and geo.dist((got[0].x, got[0].y), p1) <= 1e-12 * (d + max(map(abs, p1))), "cc_int of a circle and a point on it", A, ra, B, rb, got)
            ctx.check(g.cc_int(geo.V(A), ra * .5, geo.V(B), rb * .5) == [] and g.cc_int(geo.V(A), ra * 1.5, geo.V(B), rb * 1.5) == [], "cc_int of a circle and a point not on it", A, ra, B, rb)
        ctx.ev("circles of radius zero")
    elif kind == "concentric":
        r1, r2 = gen.logu(rng, .1, 1e4), gen.logu(rng, .1, 1e4)
        check(ctx, off, r1, off, rng.choice([r1, r2, r1 * (1 + 1e-9)]), "concentric")
    else:
        r1, r2 = gen.logu(rng, .1, 1e4), gen.logu(rng, .1, 1e4)
        dd = r1 + r2 if "external" in kind else abs(r1 - r2)
        if dd < .05 * max(r1, r2):
            return
        a = rng.uniform(-math.pi, math.pi)
        u = (math.cos(a), math.sin(a))
        q = (off[0] + dd * u[0], off[1] + dd * u[1])
        C = max(abs(v) for v in off + q)
        if C > 1e3 * min(r1, r2):
            return
        sgn = 1 if "external" in kind or r1 > r2 else -1
        touch = (off[0] + sgn * r1 * u[0], off[1] + sgn * r1 * u[1])
        for A, ra, B, rb in ((off, r1, q, r2), (q, r2, off, r1)):
            ctx.log("cc_int", A, ra, B, rb)
            got = g.cc_int(geo.V(A), ra, geo.V(B), rb)
            ctx.check(1 <= len(got) <= 2, "cc_int of circles tangent up to rounding finds no point", A, ra, B, rb, got)
            for v in got:
                ctx.check(geo.dist((v.x, v.y), touch) <= 1e-4 * max(r1, r2), "cc_int of circles tangent up to rounding: not the touching point", A, ra, B, rb, got, touch)
                for c, r in ((A, ra), (B, rb)):
                    ctx.check(abs(geo.dist((v.x, v.y), c) - r) <= 1e-7 * max(r1, r2), "the touching point does not lie on both circles", got, c, r)
        ctx.ev("rounded tangents")
        ctx.state((kind, int(math.log10(r1)), int(math.log10(r2)), round(a)))
