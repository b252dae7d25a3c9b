"""Merges (single, chained, with predicted world coordinates), transformation matrices and transform, judged by an
independent complex-number model of rigid motions. Distinct states: (shared count, sizes, coincidence, agreement, motion class)."""
import cmath
import math

from ..core import scenario
from .. import gen, geo, conf


def merge_check(ctx, A, B, a, b):
    """A, B: {name: complex}; a, b: the real configurations. Returns the merged real configuration."""
    shared = [n for n in A if n in B]
    sa, sb = conf.snapshot(a), conf.snapshot(b)
    ctx.log("merge", A, B)
    m, under = a.merge(b)
    ctx.check(conf.snapshot(a) == sa and conf.snapshot(b) == sb, "merging changed an operand")
    M = conf.read(m)
    ctx.check(set(M) == set(A) | set(B) and len(M) == len(set(A) | set(B)), "variables of the merged configuration", list(M), list(A), list(B))
    for n in A:
        ctx.check(M[n] == A[n], "a point of the first configuration moved", n, M[n], A[n])
    t = conf.tol(A.values(), B.values())
    sep = conf.spread([A[n] for n in shared])
    ext = conf.spread(list(B.values()))
    if len(shared) >= 2 and sep > 0:
        t *= 1 + 2 * ext / sep
    # the motion, as described by the transformation matrix
    T, under2 = a.transformation_matrix(b)
    ctx.check((T.num_rows, T.num_cols) == (3, 3), "size of the transformation matrix", T)
    ctx.check(bool(under) == bool(under2), "merge and transformation_matrix disagree on the status")
    moved = {n: conf.apply(T, p) for n, p in B.items()}
    fit = conf.motion_check(ctx, B, moved, "the transformation matrix", t)
    for k in (0j, 1 + 0j, 1j):      # the matrix itself is a proper rigid motion
        pass
    e = T.elements
    det = e[0][0] * e[1][1] - e[0][1] * e[1][0]
    ctx.check(abs(det - 1) < 1e-9 and abs(e[0][0] - e[1][1]) < 1e-9 and abs(e[0][1] + e[1][0]) < 1e-9, "the linear part of the transformation is not a rotation", e)
    via = conf.read(b.transform(T))
    for n in B:
        ctx.check(abs(via[n] - moved[n]) <= t, "transform does not apply the matrix", n, via[n], moved[n])
        if n not in A:
            ctx.check(abs(M[n] - moved[n]) <= t, "merge moved a point differently from the transformation matrix", n, M[n], moved[n])
    # second's points: one proper rigid motion; shared points coincide when the shapes agree
    new = {n: B[n] for n in B if n not in A}
    conf.motion_check(ctx, new, {n: M[n] for n in new}, "the second configuration's new points", t)
    if not shared:
        for n in B:
            ctx.check(abs(M[n] - B[n]) <= t, "without shared points the second configuration moved", n, M[n], B[n])
        ctx.ev("merges without shared points")
    elif len(shared) == 1:
        n = shared[0]
        ctx.check(abs(moved[n] - A[n]) <= t, "the only shared point does not coincide", n, moved[n], A[n])
        if new:
            both = dict(new)
            both[n] = B[n]
            conf.motion_check(ctx, both, {k: M[k] for k in both}, "the second configuration around the shared point", t)
        ctx.ev("merges with one shared point")
    else:
        r, cp, cq, res = geo.best_fit([A[n] for n in shared], [B[n] for n in shared])
        agree = res <= 1e-9 * (1 + conf.tol(A.values(), B.values()) * 1e10)
        agree = res <= 4 * conf.tol(A.values(), B.values())
        if agree:
            for n in shared:
                ctx.check(abs(moved[n] - A[n]) <= 2 * t + 2 * res, "a shared point does not coincide though the shapes agree", n, moved[n], A[n])
            both = {n: B[n] for n in B}
            conf.motion_check(ctx, both, {k: M[k] for k in both}, "the whole second configuration", 2 * t + 2 * res)
            ctx.ev("merges on agreeing shared points")
            if sep == 0:
                ctx.ev("merges on coincident shared points")
            elif new:
                for n in new:
                    want = cp + r * (B[n] - cq)
                    ctx.check(abs(M[n] - want) <= 4 * t, "a new point is not where the shared points put it", n, M[n], want)
        else:
            ctx.ev("merges on disagreeing shared points")
    ctx.state((min(len(shared), 5), min(len(A), 8), min(len(B), 8), sep == 0, sep > 0 and int(math.log10(sep)), fit and int(cmath.phase(fit[0]) * 2)))
    return m


def world(ctx, n=None, names=None):
    rng = ctx.rng
    n = n or gen.size(rng, (2, 7), (8, 16), (30, 60))
    names = names or gen.names(rng, n)
    s = gen.logu(rng, .2, 3e3)
    off = 0j if rng.random() < .4 else complex(gen.coord(rng, 2e3), gen.coord(rng, 2e3))
    return dict(zip(names, conf.apart(rng, n, s, gap=max(.05, s / 200), off=off))), s


@scenario("C16", 5000, required=["merges without shared points", "merges with one shared point", "merges on agreeing shared points", "merges on coincident shared points", "merges on disagreeing shared points", "merges with several congruent configurations", "shared points little apart", "shared points near the origin"])
def single_merges(ctx):
    rng = ctx.rng
    W, s = world(ctx)
    names = list(W)
    k = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, len(names)])
    shared = rng.sample(names, min(k, len(names)))
    if len(shared) == 2 and rng.random() < .2:      # little apart, far from the origin
        W[shared[0]] = far = complex(gen.coord(rng, 2e3), gen.coord(rng, 2e3))
        W[shared[1]] = far + cmath.rect(gen.logu(rng, 1e-4, .05), rng.uniform(0, 7))
        ctx.ev("shared points little apart")
    rest = [n for n in names if n not in shared]
    rng.shuffle(rest)
    cut = rng.randint(0, len(rest))
    A = {n: W[n] for n in mix(rng, shared + rest[:cut])}
    B = {n: W[n] for n in mix(rng, shared + rest[cut:])}
    r, t = geo.rigid(rng, 3e3)
    B = conf.move(B, r, t)
    if shared and rng.random() < .15:       # a shared point at, or very near, the origin of its configuration
        X = rng.choice([A, B])
        o = X[shared[0]] - cmath.rect(rng.choice([0, gen.logu(rng, 1e-12, 1e-3)]), rng.uniform(0, 7))
        for n in X:
            X[n] -= o
        ctx.ev("shared points near the origin")
    how = rng.random()
    if how < .12 and len(shared) >= 2:      # shapes disagree
        n = rng.choice(shared)
        B[n] = B[n] + complex(rng.uniform(-s, s), rng.uniform(-s, s))
    elif how < .18:
        B = {n: p.conjugate() for n, p in B.items()}
    elif how < .22:
        B = {n: p * 1.5 for n, p in B.items()}
    a, b = conf.make(A), conf.make(B)
    merge_check(ctx, A, B, a, b)
    if rng.random() < .3:       # the same configuration merged with others of the same shape lying elsewhere
        for _ in range(rng.randint(1, 2)):
            r, t = geo.rigid(rng, 3e3)
            C = conf.move(B, r, t)
            merge_check(ctx, A, C, a, conf.make(C))
            if rng.random() < .5:
                merge_check(ctx, C, A, conf.make(C), a)
        merge_check(ctx, A, B, a, b)
        ctx.ev("merges with several congruent configurations")
    if rng.random() < .3:       # one of the same names, another shape
        C = conf.move({n: B[n] for n in mix(rng, B)}, *geo.rigid(rng, 100))
        n = rng.choice(list(C)) if C else None
        if C:
            C[n] += complex(rng.uniform(-s, s), rng.uniform(-s, s))
            merge_check(ctx, A, C, a, conf.make(C))


def mix(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


@scenario("C16", 1500, required=["chains completed", "flagged operands merged"])
def chains(ctx):
    """A world is cut into overlapping pieces, each moved on its own; merging puts it together again."""
    rng = ctx.rng
    W, s = world(ctx, n=rng.randint(4, 14))
    names = list(W)
    done = set(rng.sample(names, rng.randint(2, 4)))
    first = {n: W[n] for n in done}
    r0, t0 = geo.rigid(rng, 1e3)
    acc = conf.make(conf.move(first, r0, t0))
    if rng.random() < .2:
        acc.underconstrained = True
        ctx.ev("flagged operands merged")
    cur = conf.read(acc)
    exact = True
    steps = rng.randint(2, 6)
    for _ in range(steps):
        link = rng.sample(sorted(done, key=repr), min(len(done), rng.choice([1, 2, 2, 3, 3])))
        more = rng.sample(names, rng.randint(0, min(4, len(names))))
        piece = {n: W[n] for n in mix(rng, set(link) | set(more))}
        r, t = geo.rigid(rng, 1e3)
        P = conf.move(piece, r, t)
        p = conf.make(P)
        known = [n for n in piece if n in done]
        full = conf.spread([W[n] for n in known]) > 0
        if exact and not full:
            exact = False
        if rng.random() < .25:      # merge the other way round: the piece keeps its place
            acc = merge_check(ctx, P, cur, p, acc)
        else:
            acc = merge_check(ctx, cur, P, acc, p)
        cur = conf.read(acc)
        done |= set(piece)
        if rng.random() < .3:
            acc = acc.copy()
        if exact:
            e = conf.spread(list(cur.values()))
            conf.motion_check(ctx, {n: W[n] for n in done}, {n: cur[n] for n in done}, "the pieces put together",
                              (conf.tol(W.values(), cur.values(), P.values())) * 100 * (1 + 2 * e / min_sep(W)) )
            ctx.ev("chains completed")
            ctx.ev("chain steps compared with the world")


def min_sep(W):
    ps = list(W.values())
    return min([abs(p - q) for p in ps for q in ps if p != q] or [1.0])


@scenario("C16", 2500, required=["transforms compared"])
def transforms(ctx):
    """transform(t) for rigid, scaling, shearing, reflecting and homogeneous matrices."""
    rng = ctx.rng
    W, s = world(ctx)
    c = conf.make(W)
    M = geo.lib().Matrix
    kind = rng.choice(["rigid", "affine", "scale", "mirror", "w", "identity", "int"])
    r, t = geo.rigid(rng, 1e3)
    e = [[r.real, -r.imag, t.real], [r.imag, r.real, t.imag], [0.0, 0.0, 1.0]]
    if kind == "affine":
        e = [[rng.uniform(-2, 2) for _ in range(3)] for _ in range(2)] + [[0.0, 0.0, 1.0]]
    elif kind == "scale":
        k = gen.logu(rng, .01, 100)
        e = [[k, 0.0, 1.0], [0.0, k, 2.0], [0.0, 0.0, 1.0]]
    elif kind == "mirror":
        e = [[1.0, 0.0, 3.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0]]
    elif kind == "w":
        k = rng.choice([2.0, -1.0, .5, 3.0])
        e = [[k * x for x in row] for row in e]
    elif kind == "identity":
        e = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
    elif kind == "int":
        e = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(2)] + [[0, 0, 1]]
    rows = [list(row) for row in e]
    m = M(e)
    snap = conf.snapshot(c)
    ctx.log("transform", kind, e)
    d = c.transform(m)
    ctx.check(conf.snapshot(c) == snap and [list(row) for row in m.elements] == rows, "transform changed an operand")
    D = conf.read(d)
    ctx.check(list(D) == list(W) or set(D) == set(W) and len(D) == len(W), "variables after a transform", list(D))
    for n, p in W.items():
        want = conf.apply(M(rows), p)
        size = sum(abs(x) for row in rows for x in row) * (abs(p) + 1)
        ctx.check(abs(D[n] - want) <= 1e-12 * size + 1e-12, "transform(%s) moved a point elsewhere" % kind, n, D[n], want)
    ctx.ev("transforms compared")
    ctx.state(("transform", kind, len(W)))


@scenario("C16", 1500, required=["merge back"])
def there_and_back(ctx):
    """Merging a moved copy of everything gives the first configuration's points; the inverse motions compose to identity."""
    rng = ctx.rng
    W, s = world(ctx)
    r, t = geo.rigid(rng, 2e3)
    B = conf.move(W, r, t)
    a, b = conf.make(W), conf.make(B)
    m = merge_check(ctx, W, B, a, b)
    m2 = merge_check(ctx, B, W, b, a)
    T1, _ = a.transformation_matrix(b)
    T2, _ = b.transformation_matrix(a)
    if conf.spread(list(W.values())) > 0:
        tt = conf.tol(W.values(), B.values()) * 20 * 4
        for n, p in W.items():
            q = conf.apply(T1, conf.apply(T2, p))
            ctx.check(abs(q - p) <= tt, "there and back again is not the identity", n, p, q)
        ctx.ev("merge back")
