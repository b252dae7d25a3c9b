"""Coordinate frames of point pairs (separations 1e-2..1e4, coordinates to 1e4, axis-parallel, exactly coincident) and the
transformations between two and three of them, unscaled, scaled and mixed chains; entries and images of points are compared
with complex arithmetic. Distinct states: (frame kind, direction class, separations, coordinate size)."""
import cmath
import math

from ..core import scenario
from .. import gen, geo, conf


def pair(rng, sep=None):
    """Two points of a chosen separation."""
    d = sep or gen.logu(rng, 1e-2, 1e4)
    S = rng.choice([0, 1, d, 10 * d, 1e4])
    a = complex(gen.coord(rng, min(S, 9e3)), gen.coord(rng, min(S, 9e3))) if S else 0j
    k = rng.random()
    if k < .3:
        u = rng.choice([1, 1j, -1, -1j]) * d
    elif k < .4:
        u = rng.choice([1 + 1j, -1 + 1j, 3 + 4j, -4 + 3j, -1 - 1j]) * d / 5
    else:
        u = cmath.rect(d, rng.uniform(-math.pi, math.pi))
    if k > .9 and abs(a) > 0:
        a, u = a, -a if 1e-2 <= abs(a) <= 1e4 else u       # second point at the origin
    return a, a + u


def V(p):
    return geo.V((p.real, p.imag))


def cls(u):
    return (u.real > 0) - (u.real < 0), (u.imag > 0) - (u.imag < 0)


def frame(ctx, a, b, scaled):
    g = geo.lib()
    A, B = V(a), V(b)
    call = ctx.rng.random()
    if not scaled:
        m = g.make_hcs(A, B) if call < .7 else g.make_hcs(a=A, b=B) if call < .85 else g.make_hcs(A, B, scale=False)
    else:
        m = g.make_hcs_scaled(A, B) if call < .7 else g.make_hcs_scaled(a=A, b=B) if call < .85 else g.make_hcs(A, B, scale=True)
    ctx.check((A.x, A.y, B.x, B.y) == (a.real, a.imag, b.real, b.imag), "building a frame changes its points", a, b)
    ctx.log("frame", a, b, scaled)
    return m


def axes(ctx, a, b, m, scaled):
    ctx.check(m is not None, "no frame of distinct points", a, b)
    e = m.elements
    ctx.check(len(e) == 3 and all(len(r) == 3 for r in e), "shape of a frame", e)
    u = b - a
    want = u if scaled else u / abs(u)
    t = 1e-14 * abs(want)
    x, y, o = complex(e[0][0], e[1][0]), complex(e[0][1], e[1][1]), complex(e[0][2], e[1][2])
    ctx.check(o == a, "origin of the frame", o, a, b)
    ctx.check(abs(x - want) <= t, "first axis of the frame", x, want, "scaled" if scaled else "unit", a, b)
    ctx.check(abs(y - 1j * want) <= t, "second axis of the frame is not a quarter turn counter-clockwise", y, 1j * want, a, b)
    ctx.check(list(e[2]) == [0, 0, 1], "last row of the frame", e)
    ctx.ev("scaled frame" if scaled else "unit frame")


@scenario("C24", 12000, required=["unit frame", "scaled frame", "image compared"])
def frames(ctx):
    """Two frames and the transformation between them, both ways."""
    g, rng = geo.lib(), ctx.rng
    scaled = rng.random() < .5
    a, b = pair(rng)
    c, d = pair(rng) if rng.random() < .7 else pair(rng, abs(b - a))
    if not (9e-3 <= abs(b - a) <= 1.1e4 and 9e-3 <= abs(d - c) <= 1.1e4):
        return
    F, T = frame(ctx, a, b, scaled), frame(ctx, c, d, scaled)
    axes(ctx, a, b, F, scaled)
    axes(ctx, c, d, T, scaled)
    before = [list(map(list, m.elements)) for m in (F, T)]
    M = g.cs_transform_matrix(F, T)
    N = g.cs_transform_matrix(T, F)
    ctx.check(before == [list(map(list, m.elements)) for m in (F, T)], "transforming changes the frames")
    u, w = b - a, d - c
    for src, dst, m in (((a, b), (c, d), M), ((c, d), (a, b), N)):
        us, ud = src[1] - src[0], dst[1] - dst[0]
        k = ud / us if scaled else (ud / abs(ud)) / (us / abs(us))
        pts = [src[0], src[1], 0j, src[0] + us * 1j, complex(gen.coord(rng, 100), gen.coord(rng, 100))]
        S = max(map(abs, pts + [dst[0], dst[1]]))
        tol = 2e-14 * (1 + abs(k)) * S * 8 + 1e-15
        for p in pts:
            got, want = conf.apply(m, p), dst[0] + k * (p - src[0])
            ctx.check(abs(got - want) <= tol, "image of a point under the transformation between %s frames" % ("scaled" if scaled else "unit"), p, "got", got, "expected", want, "from", src, "to", dst, "allowed", tol)
            ctx.ev("image compared")
        if scaled:
            for p, q in zip(src, dst):
                ctx.check(abs(conf.apply(m, p) - q) <= tol, "scaled frames do not carry the defining points onto each other", src, dst)
        else:
            e = m.elements
            det = e[0][0] * e[1][1] - e[0][1] * e[1][0]
            ctx.check(abs(det - 1) <= 1e-11 and abs(e[0][0] - e[1][1]) <= 1e-11 and abs(e[0][1] + e[1][0]) <= 1e-11, "unscaled transformation is not a rotation and translation", e, src, dst)
        ctx.check(max(abs(x - y) for x, y in zip(m.elements[2], (0, 0, 1))) <= 1e-12, "last row of the transformation", m.elements)
    # there and back, through the matrices themselves
    k = abs(w) / abs(u) if scaled else 1.0
    S = max(map(abs, (a, b, c, d)))
    tol = 1e-13 * (1 + k) * (1 + 1 / k) * (1 + S)
    I = (N * M).elements
    ctx.check(max(abs(I[i][j] - (i == j)) for i in range(3) for j in range(3)) <= tol, "the transformations between two frames are not inverse to each other", I, a, b, c, d)
    ctx.state((scaled, cls(u), cls(w), int(math.log10(abs(u))), int(math.log10(abs(w))), int(math.log10(S + 1))))


@scenario("C24", 5000, required=["chain"])
def chains(ctx):
    """Going through a third frame (or more) is going directly; a frame to itself is the identity."""
    g, rng = geo.lib(), ctx.rng
    scaled = rng.random() < .5
    n = rng.randint(3, 5)
    base = gen.logu(rng, 1e-1, 1e2)
    P = [pair(rng, base * gen.logu(rng, .1, 10)) for _ in range(n)]
    if not all(9e-3 <= abs(b - a) <= 1.1e4 for a, b in P):
        return
    F = [frame(ctx, a, b, scaled) for a, b in P]
    direct = g.cs_transform_matrix(F[0], F[-1])
    M = None
    for x, y in zip(F, F[1:]):
        m = g.cs_transform_matrix(x, y)
        M = m if M is None else m * M
    S = max(abs(p) for q in P for p in q)
    L = max(abs(b - a) for a, b in P) / min(abs(b - a) for a, b in P) if scaled else 1.0
    tol = 1e-12 * (1 + L) ** 2 * (1 + S)
    ctx.check(max(abs(M.elements[i][j] - direct.elements[i][j]) for i in range(3) for j in range(3)) <= tol, "transformations do not compose", M.elements, direct.elements, P, tol)
    I = g.cs_transform_matrix(F[0], F[0]).elements
    ctx.check(max(abs(I[i][j] - (i == j)) for i in range(3) for j in range(3)) <= 1e-12 * (1 + S), "a frame onto itself is not the identity", I, P[0])
    ctx.ev("chain")
    ctx.state(("chain", scaled, n, int(math.log10(S + 1)), int(math.log10(L))))


@scenario("C24", 2000, required=["coincident", "distinct but close"])
def coincident(ctx):
    rng = ctx.rng
    a = complex(gen.coord(rng, 1e4), gen.coord(rng, 1e4)) if rng.random() < .8 else 0j
    for scaled in (False, True):
        ctx.check(frame(ctx, a, a, scaled) is None, "coincident points have a frame", a)
        ctx.check(frame(ctx, complex(-0.0, 0.0), 0j, scaled) is None, "coincident points have a frame", 0)
    ctx.ev("coincident")
    s = gen.logu(rng, 1e-6, 1e-1)
    if rng.random() < .3:
        a = 0j
    b = a + rng.choice([s, -s, 1j * s, -1j * s, cmath.rect(s, rng.uniform(0, 7))])
    for scaled in (False, True):
        m = frame(ctx, a, b, scaled)
        axes(ctx, a, b, m, scaled)
    ctx.ev("distinct but close")
    ctx.state(("close", cls(b - a), int(math.log10(abs(a) + 1))))


@scenario("C24", 3000)
def integer_frames(ctx):
    """Small integer pairs with Pythagorean separations: entries and images nearly exact."""
    g, rng = geo.lib(), ctx.rng
    dirs = [3 + 4j, 5 + 12j, 8 + 15j, 1, 1j, -1, -1j, -3 + 4j, 4 - 3j]
    P = []
    for _ in range(2):
        a = complex(rng.randint(-9, 9), rng.randint(-9, 9))
        P.append((a, a + rng.choice(dirs) * rng.choice([1, 2, -1])))
    F = [frame(ctx, a, b, True) for a, b in P]
    for (a, b), m in zip(P, F):
        axes(ctx, a, b, m, True)
        ctx.check(m.elements == [[(b - a).real, -(b - a).imag, a.real], [(b - a).imag, (b - a).real, a.imag], [0, 0, 1]], "integer frame", m.elements, a, b)
    m = g.cs_transform_matrix(*F)
    k = (P[1][1] - P[1][0]) / (P[0][1] - P[0][0])
    for p in (P[0][0], P[0][1], 0j, 7 - 2j):
        ctx.check(abs(conf.apply(m, p) - (P[1][0] + k * (p - P[0][0]))) <= 1e-11, "image of an integer point", p, P)
    ctx.state(("integer", cls(P[0][1] - P[0][0]), cls(P[1][1] - P[1][0]), abs(k) > 1))
