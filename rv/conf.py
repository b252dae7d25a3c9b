"""Configurations: generators and an independent model (complex coordinates, proper rigid motions)."""
import math

from . import gen, geo


def lib():
    import solver.geometric.configuration as c
    return c


def make(points):
    """Real Configuration of {name: complex}."""
    return lib().Configuration({n: geo.V((p.real, p.imag)) for n, p in points.items()})


def read(c):
    return {n: complex(c.get(n).x, c.get(n).y) for n in c.vars()}


def spread(pts):
    return max([abs(p - q) for p in pts for q in pts] or [0.0])


def apart(rng, n, scale, gap=.05, off=0j, shape=None):
    """n points, pairwise either exactly coincident or at least `gap` apart."""
    shape = shape or rng.choice(["any", "any", "any", "line", "coincident", "all coincident", "grid", "regular", "two places", "small integers", "small integers"])
    res = []
    tries = 0
    d = complex(math.cos(1.1), math.sin(1.1)) if rng.random() < .5 else 1 + 0j
    while len(res) < n:
        tries += 1
        k = scale * (1 + tries / 50)
        if shape == "all coincident" and res:
            p = res[0]
        elif shape == "two places" and len(res) >= 2:
            p = rng.choice(res[:2])
        elif shape == "coincident" and res and rng.random() < .5:
            p = rng.choice(res)
        elif shape == "line":
            p = off + d * rng.uniform(-k, k)
        elif shape == "grid":
            m = max(2, int(math.sqrt(n)) + 1)
            p = off + complex(rng.randint(-m, m), rng.randint(-m, m)) * max(scale / m, 2 * gap)
        elif shape == "small integers":     # the special coordinates: zero, plus and minus one, the axes, the unit points
            k = 1 + tries // 12
            p = complex(rng.randint(-k, k), rng.randint(-k, k))
        elif shape == "regular":
            a = 2 * math.pi * len(res) / max(n, 1)
            p = off + complex(math.cos(a), math.sin(a)) * max(k, gap * n)
        else:
            p = off + complex(gen.coord(rng, k), gen.coord(rng, k))
        if all(p == q or abs(p - q) >= gap for q in res):
            res.append(p)
    return res


def move(points, r, t):
    return {n: r * p + t for n, p in points.items()}


def tol(*groups):
    """Tolerance for comparing points computed by a rigid motion estimated from coordinates of this size."""
    S = max([abs(p) for g in groups for p in g] or [0.0])
    return 1e-10 + 1e-12 * S


def motion_check(ctx, src, dst, what, t):
    """dst must be the image of src ({name: complex}) under one proper rigid motion; returns (r, translation)."""
    names = list(src)
    if len(names) < 2:
        return None
    P, Qs = [dst[n] for n in names], [src[n] for n in names]
    if spread(Qs) <= 10 * t:
        ctx.check(spread(P) <= 12 * t, what + ": coincident points are moved apart", dst, src)
        return None
    r, cp, cq, res = geo.best_fit(P, Qs)
    ctx.check(res <= t, what + ": not a rotation and translation of the points", "residual", res, "allowed", t, "from", src, "to", dst)
    return r, cp - r * cq


def apply(matrix, p):
    e = matrix.elements
    w = e[2][0] * p.real + e[2][1] * p.imag + e[2][2]
    return complex((e[0][0] * p.real + e[0][1] * p.imag + e[0][2]) / w, (e[1][0] * p.real + e[1][1] * p.imag + e[1][2]) / w)


def snapshot(c):
    return (tuple((n, id(c.mapping[n]), c.mapping[n].x, c.mapping[n].y) for n in c.mapping), c.underconstrained)


def all_coincident(pts):
    return spread(pts) == 0
