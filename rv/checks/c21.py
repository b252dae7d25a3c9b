"""Circles with lines and rays in every position, judged by 60-digit arithmetic on the float inputs; other base points and
directions for the same line; ray starts inside, outside, on and beyond the circle. Distinct states: (class, axis, signs, scale)."""
import math

from ..core import scenario
from .. import gen, geo, xint


def tolerance(c, r, p, v):
    C = max(abs(x) for x in c + p)
    return 2e-10 * r + 2e-12 * C + 1e-11 * geo.dist(c, p) + 1e-10


def line(ctx, c, r, p, v, what):
    """Judge cl_int; returns (class, points)."""
    cls, pts = xint.line_circle(c, r, p, v)
    if cls == "band":
        ctx.ev("inside the tangency band")
        return cls, pts
    want = [(float(x), float(y)) for _, x, y in pts]
    ctx.log("cl_int", c, r, p, v)
    got = geo.lib().cl_int(geo.V(c), r, geo.V(p), geo.V(v))
    tol = tolerance(c, r, p, v)
    xint.same_points(ctx, got, want, tol, "cl_int of a %s line (%s)" % (cls, what), c, r, p, v)
    for g in got:
        ctx.check(abs(geo.dist((g.x, g.y), c) - r) <= tol, "a point does not lie on the circle", (g.x, g.y), c, r)
        n = math.hypot(*v)
        ctx.check(abs((g.x - p[0]) * v[1] - (g.y - p[1]) * v[0]) / n <= tol, "a point does not lie on the line", (g.x, g.y), p, v)
    ctx.ev("lines " + cls)
    ctx.state(("line", cls, what, v[0] == 0, v[1] == 0, v[0] > 0, v[1] > 0, int(math.log10(r)), int(math.log10(math.hypot(*v)))))
    return cls, pts


def ray(ctx, c, r, p, v, what, cls, pts, start=None):
    """Judge cr_int given the line's class and points; `start`: indices of points that are the ray's start itself."""
    if cls == "band":
        return
    tol = tolerance(c, r, p, v)
    n = math.hypot(*v)
    want, dots = [], []
    for i, (t, x, y) in enumerate(pts):
        dot = float(t) * n * n
        if start is not None and i in start:
            want.append((float(x), float(y)))
        elif abs(dot) < 1e-7 + 10 * tol * n:
            return ctx.ev("ray start too near a point")
        elif dot > 0:
            want.append((float(x), float(y)))
    ctx.log("cr_int", c, r, p, v)
    got = geo.lib().cr_int(geo.V(c), r, geo.V(p), geo.V(v))
    xint.same_points(ctx, got, want, tol, "cr_int of a ray (%s, line %s)" % (what, cls), c, r, p, v)
    ctx.ev("rays with %d of %d points" % (len(want), len(pts)))
    ctx.state(("ray", cls, what, len(want), len(pts), v[0] == 0, v[1] == 0, v[0] > 0, v[1] > 0))


@scenario("C21", 12000, required=["lines crossing", "lines missing", "rays with 2 of 2 points", "rays with 1 of 2 points", "rays with 0 of 2 points", "other descriptions of a line"])
def any_line(ctx):
    rng = ctx.rng
    r = gen.logu(rng, rng.choice([.1, .1, .01]), 1e3)
    c = (0.0, 0.0) if rng.random() < .3 else (gen.coord(rng, rng.choice([r, 1e3])), gen.coord(rng, r))
    v = xint.direction(rng)
    n = math.hypot(*v)
    u, w = (v[0] / n, v[1] / n), (-v[1] / n, v[0] / n)
    h = r * rng.choice([0, rng.uniform(-.99, .99), rng.uniform(-1.5, 1.5), rng.uniform(-5, 5), .995, -.995, 1.01, -1.01, rng.choice([1, -1]) * (1 + rng.choice([1, -1]) * gen.logu(rng, 1e-5, 1e-2))])
    if rng.random() < .05:      # small circles, short directions, almost tangent
        r, v = gen.logu(rng, .1, 1), xint.direction(rng, .1, .3)
        n = math.hypot(*v)
        u, w = (v[0] / n, v[1] / n), (-v[1] / n, v[0] / n)
        h = r * rng.choice([1, -1]) * (1 + rng.choice([1, -1]) * gen.logu(rng, 1e-5, 1e-1))
    where = rng.choice(["inside", "before", "beyond", "far before", "far beyond", "middle", "near first", "near second"])
    half = math.sqrt(max(0.0, r * r - h * h))
    k = {"inside": rng.uniform(-.95, .95) * half, "before": -half - r * rng.uniform(.1, 3), "beyond": half + r * rng.uniform(.1, 3),
         "far before": -min(900, 100 * r), "far beyond": min(900, 100 * r), "middle": 0.0,
         "near first": -half + rng.choice([1, -1]) * r * gen.logu(rng, 1e-6, .1), "near second": half + rng.choice([1, -1]) * r * gen.logu(rng, 1e-6, .1)}[where]
    p = (c[0] + h * w[0] + k * u[0], c[1] + h * w[1] + k * u[1])
    cls, pts = line(ctx, c, r, p, v, "any")
    ray(ctx, c, r, p, v, where, cls, pts)
    if cls != "band" and rng.random() < .5:
        # the same line described otherwise
        f = rng.choice([-1.0, -2.0, .5, 3.0, -.25, gen.logu(rng, .1, 10)])
        v2 = (v[0] * f, v[1] * f)
        if not .1 <= math.hypot(*v2) <= 1e3:
            v2 = (-v[0], -v[1])
        s = rng.uniform(-3, 3) * r
        p2 = (p[0] + s * u[0], p[1] + s * u[1])
        cls2, pts2 = line(ctx, c, r, p2, v2, "other description")
        if cls2 == cls:
            g = geo.lib()
            a = [(q.x, q.y) for q in g.cl_int(geo.V(c), r, geo.V(p), geo.V(v))]
            xint.same_points(ctx, g.cl_int(geo.V(c), r, geo.V(p2), geo.V(v2)), a, 40 * (tolerance(c, r, p, v) + tolerance(c, r, p2, v2)) , "cl_int depends on how the line is described", c, r, p, v, p2, v2)
            ctx.ev("other descriptions of a line")
        ray(ctx, c, r, p2, v2, "other description", cls2, pts2)


@scenario("C21", 6000, required=["lines tangent", "rays with 1 of 1 points", "rays with 0 of 1 points", "rounded tangents", "rays starting on the circle"])
def constructed(ctx):
    """Exact tangents and exact ray starts on the circle, on dyadic coordinates of moderate scale."""
    rng = ctx.rng
    e = 2.0 ** rng.randint(-2, 2)
    x, y, h = rng.choice(xint.PYTH)
    c = (rng.randint(-12, 12) * e, rng.randint(-12, 12) * e)
    k = rng.randint(1, 3)
    r = k * h * e
    on = (c[0] + k * x * e, c[1] + k * y * e)        # exactly on the circle
    kind = rng.choice(["tangent", "tangent", "start on", "start on", "rounded tangent", "start at touch"])
    if kind in ("tangent", "start at touch"):
        f = rng.choice([1, -1, 2, -2, .5, -.5])
        v = (-y * f, x * f)
        j = 0 if kind == "start at touch" else rng.choice([-3, -2, -1, 1, 2, 3])
        p = (on[0] + j * v[0], on[1] + j * v[1])
        cls, pts = line(ctx, c, r, p, v, "tangent")
        ctx.check(cls == "tangent", "harness: not an exact tangent")
        ray(ctx, c, r, p, v, "tangent from %s" % ("start" if j == 0 else "before" if j < 0 else "beyond"), cls, pts, start={0} if j == 0 else None)
    elif kind == "start on":
        v = xint.direction(rng, .25, 8)
        n = math.hypot(*v)
        cosine = abs(v[0] * x + v[1] * y) / (n * math.hypot(x, y))
        if cosine < .1:
            return
        cls, pts = line(ctx, c, r, on, v, "start on the circle")
        ray(ctx, c, r, on, v, "start on the circle, " + ("inwards" if v[0] * x + v[1] * y < 0 else "outwards"), cls, pts,
            start={i for i, (t, _, _) in enumerate(pts) if abs(float(t)) < 1e-12})
        ctx.ev("rays starting on the circle")
    else:
        a = rng.uniform(-math.pi, math.pi)
        r = gen.logu(rng, .1, 10)
        m = gen.logu(rng, .1, 5)
        c = (rng.uniform(-5, 5), rng.uniform(-5, 5))
        on = (c[0] + r * math.cos(a), c[1] + r * math.sin(a))
        v = (-m * math.sin(a), m * math.cos(a))
        j = rng.uniform(-2, 2)
        p = (on[0] + j * v[0], on[1] + j * v[1])
        ctx.log("cl_int", c, r, p, v)
        got = geo.lib().cl_int(geo.V(c), r, geo.V(p), geo.V(v))
        ctx.check(len(got) == 1 and geo.dist((got[0].x, got[0].y), on) <= 1e-6 * r + 1e-8, "cl_int of a line tangent up to rounding does not give the touching point", c, r, p, v, got, on)
        if abs(j) * m * m > 1e-3:
            got = geo.lib().cr_int(geo.V(c), r, geo.V(p), geo.V(v))
            ctx.check(len(got) == (1 if j < 0 else 0), "cr_int of a tangent ray", j, got)
        ctx.ev("rounded tangents")
        ctx.state(("rounded", round(a, 1), int(math.log10(r)), j < 0))


@scenario("C21", 3000)
def axis_parallel(ctx):
    """Horizontal, vertical and diagonal lines in both senses, on integer circles."""
    rng = ctx.rng
    c = (float(rng.randint(-5, 5)), float(rng.randint(-5, 5)))
    r = float(rng.randint(1, 6))
    m = rng.choice([1.0, .5, 2.0, 7.0])
    for v in ((m, 0.0), (-m, 0.0), (0.0, m), (0.0, -m), (m, m), (-m, m), (m, -m), (-m, -m), (m, -0.0), (-0.0, -m)):
        p = (float(rng.randint(-12, 12)), float(rng.randint(-12, 12)))
        cls, pts = line(ctx, c, r, p, v, "axis")
        if cls == "band":
            continue
        start = {i for i, (t, _, _) in enumerate(pts) if t == 0}
        ray(ctx, c, r, p, v, "axis", cls, pts, start=start)
