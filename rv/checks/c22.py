"""Line-line, line-ray and ray-ray intersections in every position (parallel, axis-parallel, ahead, behind, at the starts),
judged by 60-digit arithmetic on the float inputs. Distinct states: (position class, axis pattern, angle, scale)."""
import math

from ..core import scenario
from .. import gen, geo, xint


def judge(ctx, p1, v1, p2, v2, what, start1=False, start2=False):
    """start1/start2: the intersection is exactly the start of the first/second ray."""
    g = geo.lib()
    x = xint.lines(p1, v1, p2, v2)
    n1, n2 = math.hypot(*v1), math.hypot(*v2)
    cross = abs(v1[0] * v2[1] - v1[1] * v2[0])
    P = [geo.V(p) for p in (p1, v1, p2, v2)]
    ctx.log("intersect", what, p1, v1, p2, v2)
    if x is None or cross <= 4e-16 * n1 * n2:
        for name in ("ll_int", "lr_int", "rr_int"):
            got = getattr(g, name)(*P)
            ctx.check(isinstance(got, (list, tuple)) and len(got) == 0, name + " of parallel lines is not an empty answer", got, p1, v1, p2, v2)
        ctx.ev("parallel")
        ctx.state(("parallel", what, v1[0] == 0, v1[1] == 0, int(math.log10(n1)), int(math.log10(n2))))
        return
    t1, t2, X, Y, sine = x
    if sine < 1e-6 or cross < 1e-6:
        return ctx.ev("angle too small")
    for a, b in ((v2[1], n2), (v1[1], n1)):
        if 0 < abs(a) < 1e-6 and abs(a) > 1e-15 * b * 1e2:
            return ctx.ev("direction inside the axis band")
    point = (float(X), float(Y))
    C = max(abs(q) for q in p1 + p2 + point)
    tol = (1e-14 * C * 30 + 1e-11) / float(sine) + 1e-10
    xint.same_points(ctx, g.ll_int(*P), [point], tol, "ll_int (%s)" % what, p1, v1, p2, v2)
    xint.same_points(ctx, g.ll_int(P[2], P[3], P[0], P[1]), [point], tol, "ll_int, lines swapped (%s)" % what, p1, v1, p2, v2)
    dot1, dot2 = float(t1) * n1 * n1, float(t2) * n2 * n2
    ok1 = True if start1 else None if abs(dot1) < 1e-7 + 10 * tol * n1 else dot1 > 0
    ok2 = True if start2 else None if abs(dot2) < 1e-7 + 10 * tol * n2 else dot2 > 0
    pos = lambda ok, s: "at the start" if s else "ahead" if ok else "behind"
    if ok2 is not None:
        xint.same_points(ctx, g.lr_int(*P), [point] if ok2 else [], tol, "lr_int, point %s (%s)" % (pos(ok2, start2), what), p1, v1, p2, v2)
        ctx.ev("line-ray " + pos(ok2, start2))
    if ok1 is not None:
        xint.same_points(ctx, g.lr_int(P[2], P[3], P[0], P[1]), [point] if ok1 else [], tol, "lr_int, lines swapped, point %s (%s)" % (pos(ok1, start1), what), p1, v1, p2, v2)
    if ok1 is not None and ok2 is not None:
        for Q, how in ((P, ""), (P[2:] + P[:2], ", rays swapped")):
            xint.same_points(ctx, g.rr_int(*Q), [point] if ok1 and ok2 else [], tol, "rr_int%s, point %s and %s (%s)" % (how, pos(ok1, start1), pos(ok2, start2), what), p1, v1, p2, v2)
        ctx.ev("ray-ray %s/%s" % (pos(ok1, start1), pos(ok2, start2)))
    elif ok1 is False or ok2 is False:
        xint.same_points(ctx, g.rr_int(*P), [], tol, "rr_int, point behind a start (%s)" % what, p1, v1, p2, v2)
    ctx.ev("crossing lines")
    ctx.state((what, ok1, ok2, start1, start2, v1[0] == 0, v1[1] == 0, v2[0] == 0, v2[1] == 0, int(math.log10(float(sine)) * 2), int(math.log10(C + 1))))


def base(rng, s):
    return (gen.coord(rng, s), gen.coord(rng, s))


POS = ["ahead", "behind"]


@scenario("C22", 14000, required=["crossing lines", "line-ray ahead", "line-ray behind"] + ["ray-ray %s/%s" % (a, b) for a in POS for b in POS])
def any_lines(ctx):
    rng = ctx.rng
    s = gen.logu(rng, .1, 1e3)
    v1, v2 = xint.direction(rng), xint.direction(rng)
    if rng.random() < .5:
        p1, p2 = base(rng, s), base(rng, s)
    else:       # chosen position of the intersection along both
        x = base(rng, s)
        n1, n2 = math.hypot(*v1), math.hypot(*v2)
        k1, k2 = (rng.choice([1, -1]) * gen.logu(rng, .01, 1) * s for _ in range(2))
        p1, p2 = (x[0] - k1 * v1[0] / n1, x[1] - k1 * v1[1] / n1), (x[0] - k2 * v2[0] / n2, x[1] - k2 * v2[1] / n2)
    if rng.random() < .25:      # small angle
        a = math.atan2(v1[1], v1[0]) + rng.choice([0, math.pi]) + rng.choice([1, -1]) * gen.logu(rng, 1.1e-6, .1)
        m = gen.logu(rng, .1, 1e3)
        if rng.random() < .3:       # as long as the other one, which may be a diagonal
            m = math.hypot(*v1)
        v2 = (m * math.cos(a), m * math.sin(a))
    judge(ctx, p1, v1, p2, v2, "any")


@scenario("C22", 5000, required=["parallel"])
def parallel(ctx):
    """Parallel and antiparallel lines (exact multiples and rounded multiples), also one and the same line."""
    rng = ctx.rng
    v1 = xint.direction(rng)
    k = rng.choice([1.0, -1.0, 2.0, -.5, 4.0, rng.uniform(-5, 5), 3.0, -7.0])
    v2 = (v1[0] * k, v1[1] * k)
    if not .1 <= math.hypot(*v2) <= 1e3:
        v2 = (-v1[0], -v1[1])
    s = gen.logu(rng, .1, 1e3)
    p1 = base(rng, s)
    j = rng.choice([0, 1, -2, .5])
    p2 = rng.choice([base(rng, s), p1, (p1[0] + j * v1[0], p1[1] + j * v1[1])])
    judge(ctx, p1, v1, p2, v2, "parallel")


@scenario("C22", 6000, required=["line-ray at the start", "ray-ray at the start/at the start", "ray-ray at the start/ahead", "ray-ray behind/at the start"])
def at_starts(ctx):
    """Integer configurations of moderate scale where the intersection is exactly a start."""
    rng = ctx.rng
    D = lambda: rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (1, -1), (-1, 1), (2, 1), (-1, 2), (3, 4), (-3, 4), (1, -3), (-2, -1), (5, 1)])
    v1, v2 = D(), D()
    if v1[0] * v2[1] == v1[1] * v2[0]:
        return
    e = 2.0 ** rng.randint(-2, 1)
    v1, v2 = (v1[0] * e, v1[1] * e), (float(v2[0]), float(v2[1]))
    x = (float(rng.randint(-9, 9)), float(rng.randint(-9, 9)))
    k1, k2 = rng.choice([0, 0, 1, -1, 3, -2]), rng.choice([0, 0, 1, -1, 2, -4])
    p1, p2 = (x[0] - k1 * v1[0], x[1] - k1 * v1[1]), (x[0] - k2 * v2[0], x[1] - k2 * v2[1])
    judge(ctx, p1, v1, p2, v2, "integer", start1=k1 == 0, start2=k2 == 0)


@scenario("C22", 4000, required=["starts a little ahead or behind"])
def near_starts(ctx):
    """Rays starting a little before or a little past the point (down to fractions of a millionth), at small and moderate scale."""
    rng = ctx.rng
    s = gen.logu(rng, .1, 30)
    v1, v2 = xint.direction(rng, .1, 10), xint.direction(rng, .1, 10)
    n1, n2 = math.hypot(*v1), math.hypot(*v2)
    x = base(rng, s) if rng.random() < .7 else (0.0, 0.0)
    k1, k2 = (rng.choice([1, -1]) * (gen.logu(rng, 1e-7, 1e-2) if rng.random() < .7 else gen.logu(rng, .01, 1) * s) for _ in range(2))
    p1, p2 = (x[0] - k1 * v1[0] / n1, x[1] - k1 * v1[1] / n1), (x[0] - k2 * v2[0] / n2, x[1] - k2 * v2[1] / n2)
    judge(ctx, p1, v1, p2, v2, "start near the point")
    ctx.ev("starts a little ahead or behind")


@scenario("C22", 3000)
def axis_parallel(ctx):
    rng = ctx.rng
    m = lambda: gen.logu(rng, .1, 1e3) * rng.choice([1, -1])
    ax = [lambda: (m(), 0.0), lambda: (0.0, m()), lambda: (m(), -0.0), lambda: (-0.0, m())]
    v1 = rng.choice(ax)() if rng.random() < .7 else xint.direction(rng)
    v2 = rng.choice(ax)()
    s = gen.logu(rng, .1, 1e3)
    judge(ctx, base(rng, s), v1, base(rng, s), v2, "axis")
    judge(ctx, base(rng, s), v2, base(rng, s), v1, "axis")


@scenario("C22", 2000, required=["nearly axis-parallel"])
def nearly_axis_parallel(ctx):
    """An axis-parallel line met by one that is off that axis by little (down to a few hundred-thousandths), and by one nearly at a right angle."""
    rng = ctx.rng
    m = gen.logu(rng, .1, 1e3) * rng.choice([1, -1])
    a = rng.choice([1, -1]) * gen.logu(rng, 1.1e-5, .02)
    k = gen.logu(rng, .2, 1e3) * rng.choice([1, -1])
    flat = rng.random() < .5
    v1 = (m, 0.0) if flat else (0.0, m)
    near = (k * math.cos(a), k * math.sin(a))
    v2 = near if flat == (rng.random() < .7) else near[::-1]
    s = gen.logu(rng, .1, 1e3)
    p, q = base(rng, s), base(rng, s)
    judge(ctx, p, v1, q, v2, "nearly axis")
    judge(ctx, q, v2, p, v1, "nearly axis")
    ctx.ev("nearly axis-parallel")

