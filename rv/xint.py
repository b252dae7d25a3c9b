"""Exact-ish intersections in 60-digit decimals on the float inputs: the oracle of the intersection checks."""
import math
from decimal import Decimal as D, getcontext

from . import gen, geo

getcontext().prec = 60


def pt(p):
    return (D(p[0]), D(p[1]))


def circles(p1, r1, p2, r2):
    """(class, expected points as floats). Classes: crossing, external, nested, concentric, external tangent, internal tangent, band."""
    (ax, ay), (bx, by), R1, R2 = pt(p1), pt(p2), D(r1), D(r2)
    dx, dy = bx - ax, by - ay
    d = (dx * dx + dy * dy).sqrt()
    if d == 0:
        return "concentric", []
    m = D("0.01") * max(R1, R2, d)
    s, t = R1 + R2, abs(R1 - R2)
    if d > s + m:
        return "separate", []
    if d < t - m:
        return "nested", []
    if d - s == 0 or d - t == 0:
        u = ((R1 * R1 - R2 * R2) / d + d) / 2
        return ("external tangent" if d == s else "internal tangent"), [(float(ax + dx * u / d), float(ay + dy * u / d))]
    if t < d < s:
        u = ((R1 * R1 - R2 * R2) / d + d) / 2
        v = (R1 * R1 - u * u).sqrt()
        if not t + m < d < s - m:
            # a shallow crossing is judged where the points are a good deal further apart than rounding moves them
            C = max(map(abs, (ax, ay, bx, by)))
            if v < D("1e-4") * max(R1, R2, d) or min(R1, R2, d) < D("0.05") * max(R1, R2, d, C / 20):
                return "band", []
        ex, ey = dx / d, dy / d
        return "crossing", [(float(ax + ex * u - k * ey * v), float(ay + ey * u + k * ex * v)) for k in (1, -1)]
    return "band", []


def line_circle(c, r, p, v):
    """(class, points as decimals along the line as (t, x, y)); classes crossing, tangent, missing, band."""
    (cx, cy), R, (px, py), (vx, vy) = pt(c), D(r), pt(p), pt(v)
    d2 = vx * vx + vy * vy
    cross = (px - cx) * vy - (py - cy) * vx
    E = R * R * d2 - cross * cross
    t0 = -((px - cx) * vx + (py - cy) * vy) / d2
    if E == 0:
        return "tangent", [(t0, px + t0 * vx, py + t0 * vy)]
    h2 = cross * cross / d2
    m = max(D("1e-5") * R * R * d2, D("1e-7"))
    if E < -m:
        return "missing", []
    if E > m:
        w = E.sqrt() / d2
        return "crossing", [(t, px + t * vx, py + t * vy) for t in (t0 + w, t0 - w)]
    return "band", []


def lines(p1, v1, p2, v2):
    """None when exactly parallel, else (t1, t2, x, y, sine) as decimals."""
    (ax, ay), (ux, uy), (bx, by), (wx, wy) = pt(p1), pt(v1), pt(p2), pt(v2)
    c = ux * wy - uy * wx
    n = ((ux * ux + uy * uy) * (wx * wx + wy * wy)).sqrt()
    if c == 0:
        return None
    dx, dy = bx - ax, by - ay
    t1 = (dx * wy - dy * wx) / c
    t2 = (dx * uy - dy * ux) / c
    return t1, t2, ax + t1 * ux, ay + t1 * uy, abs(c) / n


def same_points(ctx, got, want, tol, what, *detail):
    """got (Vectors) is, as a set, exactly `want` (float pairs) up to tol; no point repeated."""
    g = [(v.x, v.y) for v in got]
    ctx.check(len(g) == len(want), what + ": number of points", "got", g, "expected", want, *detail)
    left = list(want)
    for p in g:
        ctx.check(p[0] == p[0] and p[1] == p[1], what + ": a coordinate is not a number", g)
        k = min(range(len(left)), key=lambda i: geo.dist(p, left[i]))
        ctx.check(geo.dist(p, left[k]) <= tol, what + ": a point is elsewhere", "got", g, "expected", want, "tolerance", tol, *detail)
        left.pop(k)


def direction(rng, lo=.1, hi=1e3):
    """A non-zero direction: any angle, axis-parallel, negative, diagonal or Pythagorean."""
    m = gen.logu(rng, lo, hi)
    k = rng.random()
    if k < .5:
        a = rng.uniform(-math.pi, math.pi)
        return (m * math.cos(a), m * math.sin(a))
    if k < .75:
        return rng.choice([(m, 0.0), (-m, 0.0), (0.0, m), (0.0, -m), (m, -0.0), (-0.0, m)])
    if k < .9:
        x, y = rng.choice([(1, 1), (1, -1), (-1, 1), (-1, -1), (3, 4), (-4, 3), (3, -4), (-3, -4), (5, 12), (1, 2)])
        e = 2.0 ** rng.randint(-2, 5)
        return (x * e, y * e)
    x, y = rng.randint(-5, 5), rng.randint(-5, 5)
    return (float(x), float(y)) if x or y else (1.0, 0.0)


PYTH = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (8, 15, 17), (-3, 4, 5), (3, -4, 5), (-4, -3, 5), (12, -5, 13), (1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1)]
