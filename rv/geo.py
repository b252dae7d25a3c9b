"""Geometry shared by the checks: exact arithmetic on float inputs, generators of point triples and configurations."""
import cmath
import math
from fractions import Fraction as Q

from . import gen


def lib():
    import solver.geometry as g
    return g


def V(p):
    return lib().Vector(p[0], p[1])


def xy(v):
    return (v.x, v.y)


def exact_cross(p1, p2, p3):
    """Signed area * 2 of the triple, exactly; positive when counter-clockwise."""
    (ax, ay), (bx, by), (cx, cy) = [(Q(x), Q(y)) for x, y in (p1, p2, p3)]
    return (bx - ax) * (cy - by) - (by - ay) * (cx - bx)


def exact_dot(p1, p2, p3):
    """(p1-p2).(p3-p2), exactly."""
    (ax, ay), (bx, by), (cx, cy) = [(Q(x), Q(y)) for x, y in (p1, p2, p3)]
    return (ax - bx) * (cx - bx) + (ay - by) * (cy - by)


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def orientation(p1, p2, p3):
    """'ccw', 'cw', 'flat', or None inside the band around the tolerance."""
    c = exact_cross(p1, p2, p3)
    lu, lv = dist(p1, p2), dist(p2, p3)
    m = max(abs(x) for p in (p1, p2, p3) for x in p)
    noise = 1e-15 * (lu * lv + m * (lu + lv))
    if c == 0 and dyadic(p1, p2, p3):
        return "flat"
    if abs(c) > 1.05e-8 + noise:
        return "ccw" if c > 0 else "cw"
    if abs(c) < 0.95e-8 - noise:
        return "flat"
    return None


def dyadic(*pts):
    """All coordinates are multiples of 2^-10 below 2^15: differences and products are exact in floating point."""
    return all(abs(x) < 32768 and (x * 1024) == int(x * 1024) for p in pts for x in p)


def coincident(p, q):
    """True, False, or None near the tolerance."""
    d = dist(p, q)
    m = max(abs(x) for x in p + q)
    noise = 1e-15 * m
    if d == 0:
        return True
    if d > 1.05e-8 + noise:
        return False
    return True if d < .95e-8 - noise else None


def angle_class(p1, p2, p3):
    """'undefined', 'acute', 'right', 'obtuse', or None near a tolerance."""
    a, b = coincident(p1, p2), coincident(p2, p3)
    if a or b:
        return "undefined"
    if a is None or b is None:
        return None
    lu, lv = dist(p1, p2), dist(p2, p3)
    d = exact_dot(p1, p2, p3)
    m = max(abs(x) for p in (p1, p2, p3) for x in p)
    noise = 1e-15 * (m / lu + m / lv + 1)
    c = float(d) / (lu * lv)
    off = math.pi / 2 - math.acos(max(-1.0, min(1.0, c)))       # > 0: acute
    tol = 1e-8 + 1e-5 * math.pi / 2
    if abs(off) < .95 * tol - noise:
        return "right"
    if abs(off) > 1.05 * tol + noise:
        return "acute" if off > 0 else "obtuse"
    return None


def size_of_angle(p1, p2, p3):
    return math.atan2(abs(float(exact_cross(p1, p2, p3))), float(exact_dot(p1, p2, p3)))


def rot90(p, k):
    x, y = p
    for _ in range(k % 4):
        x, y = -y, x
    return (x, y)


def dy(rng, lim=64):
    """A dyadic coordinate."""
    d = rng.choice([1, 1, 2, 4, 8, 64])
    return rng.randint(-lim * d, lim * d) / d


def triple(rng):
    """A point triple and its construction kind, over all orientation and angle classes and scales."""
    s = gen.logu(rng, 1e-2, 1e4)
    off = (0.0, 0.0) if rng.random() < .5 else (gen.coord(rng, s * rng.choice([1, 3])), gen.coord(rng, s))
    off = tuple(max(-1e4, min(1e4, x)) for x in off)
    kind = rng.choice(["any", "any", "grid", "flat", "flat end", "right", "co12", "co23", "co13", "co123", "near right", "thin", "tiny", "axis", "opposite", "small angle"])
    P = lambda: (max(-1e4, min(1e4, gen.coord(rng, s) + off[0])), max(-1e4, min(1e4, gen.coord(rng, s) + off[1])))
    if kind == "any":
        t = [P(), P(), P()]
    elif kind == "grid":
        k = rng.choice([1, 2, 5])
        t = [(float(rng.randint(-k, k)), float(rng.randint(-k, k))) for _ in range(3)]
    elif kind in ("flat", "flat end", "opposite"):
        b, d = (dy(rng), dy(rng)), (dy(rng, 8), dy(rng, 8))
        ks = {"flat": rng.sample(range(-5, 6), 3), "flat end": [0, rng.choice([1, -1]), 0], "opposite": [-2, 0, 3]}[kind]
        t = [(b[0] + k * d[0], b[1] + k * d[1]) for k in ks]
    elif kind == "right":
        b, u = (dy(rng), dy(rng)), (dy(rng, 16), dy(rng, 16))
        k = rng.choice([1, 2, .5, -1, -3, .25])
        t = [(b[0] + u[0], b[1] + u[1]), b, (b[0] - k * u[1], b[1] + k * u[0])]
    elif kind == "co123":
        p = P()
        t = [p, p, p]
    elif kind.startswith("co"):
        p, q = P(), P()
        t = {"co12": [p, p, q], "co23": [q, p, p], "co13": [p, q, p]}[kind]
    elif kind in ("near right", "small angle"):
        b = P()
        a = rng.uniform(0, 2 * math.pi)
        e = rng.choice([1, -1]) * gen.logu(rng, 1.2e-5 if kind == "near right" else 1e-3, .1)
        w = a + (math.pi / 2 if kind == "near right" else rng.choice([0, math.pi])) + e
        l1, l2 = s * rng.uniform(.1, 1), s * rng.uniform(.1, 1)
        t = [(b[0] + l1 * math.cos(a), b[1] + l1 * math.sin(a)), b, (b[0] + l2 * math.cos(w), b[1] + l2 * math.sin(w))]
    elif kind == "thin":
        b, a = P(), rng.uniform(0, 2 * math.pi)
        h = gen.logu(rng, 1e-9, 1e-3)
        L1, L2 = s, s * rng.uniform(-2, 2)
        u, n = (math.cos(a), math.sin(a)), (-math.sin(a), math.cos(a))
        t = [b, (b[0] + L1 * u[0], b[1] + L1 * u[1]), (b[0] + L2 * u[0] + h * n[0], b[1] + L2 * u[1] + h * n[1])]
        rng.shuffle(t)
    elif kind == "tiny":
        k = gen.logu(rng, 1e-5, 1e-2)
        t = [(rng.uniform(-k, k), rng.uniform(-k, k)) for _ in range(3)]
    else:
        x = dy(rng)
        t = [(x, dy(rng)), (x, dy(rng)), (dy(rng), dy(rng)) if rng.random() < .5 else (x, dy(rng))]
        if rng.random() < .5:
            t = [(b, a) for a, b in t]
    return [(float(x), float(y)) for x, y in t], kind


def z(p):
    return complex(p[0], p[1])


def best_fit(P, Qs):
    """Proper rigid motion (rotation r, translation) best carrying points Qs onto P (complex lists); returns
    (r, centre of P, centre of Q, maximal residual)."""
    n = len(P)
    cp, cq = sum(P) / n, sum(Qs) / n
    w = sum((q - cq).conjugate() * (p - cp) for p, q in zip(P, Qs))
    r = w / abs(w) if abs(w) > 0 else 1 + 0j
    return r, cp, cq, max(abs(p - cp - r * (q - cq)) for p, q in zip(P, Qs))


def rigid(rng, lim=1e3):
    """A random proper rigid motion as (complex rotation, complex translation)."""
    k = rng.random()
    a = rng.uniform(-math.pi, math.pi) if k < .6 else rng.choice([0, 1, 2, 3]) * math.pi / 2 if k < .9 else rng.choice([math.pi - 1e-9, 1e-9, math.pi / 4])
    r = cmath.exp(1j * a) if k < .6 or k >= .9 else [1, 1j, -1, -1j][rng.randint(0, 3)]
    q = rng.random()
    t = 0j if q < .25 else complex(rng.randint(-3, 3), rng.randint(-3, 3)) if q < .45 else complex(gen.coord(rng, lim), gen.coord(rng, lim))
    return complex(r), t
