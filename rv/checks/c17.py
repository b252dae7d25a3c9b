"""The status reported by merge, transformation_matrix and the merged configuration, over all shared-point counts and
coincidence patterns, and along chains and trees of merges and copies, against the definition. Distinct states:
(shared count class, sizes, coincidence, flags, chain position)."""
import cmath

from ..core import scenario
from .. import gen, geo, conf


def definition(A, B, fa, fb):
    """The status the statement asks for."""
    shared = [n for n in A if n in B]
    if fa or fb:
        return True
    if not shared:
        return True
    if len(shared) == 1:
        return len(A) > 1 and len(B) > 1
    ca, cb = conf.all_coincident([A[n] for n in shared]), conf.all_coincident([B[n] for n in shared])
    return bool(ca or cb)       # coincident in one of the two, they fix no direction there


def merge(ctx, a, b, A, B, fa, fb, how):
    want = definition(A, B, fa, fb)
    ctx.log("merge", A, B, fa, fb)
    m, under = a.merge(b)
    ctx.check(bool(m.underconstrained) == bool(under), "merge reports another status than the merged configuration carries", under, m.underconstrained)
    ctx.check(bool(a.underconstrained) == fa and bool(b.underconstrained) == fb, "merging changed an operand's status")
    if want is not None:
        shared = len([n for n in A if n in B])
        ctx.check(bool(under) == want, "status of a merge", "%d shared, sizes %d and %d, operands flagged %s %s" % (shared, len(A), len(B), fa, fb), "got", under, "expected", want)
        _, u2 = a.transformation_matrix(b)
        ctx.check(bool(u2) == want, "status from transformation_matrix", u2, want)
        _, u3 = b.transformation_matrix(a)
        ctx.check(bool(u3) == want, "status depends on the operand order", u3, want)
        why = "flagged operand" if fa or fb else "%d shared" % min(shared, 2)
        ctx.ev("underconstrained: " + why if want else "fully constrained: " + why)
        if want and shared >= 2 and not (fa or fb):
            ctx.ev("underconstrained: all shared points coincident")
        ctx.state((how, min(shared, 4), min(len(A), 5), min(len(B), 5), fa, fb, want))
    c = m.copy()
    ctx.check(bool(c.underconstrained) == bool(under) and set(c.vars()) == set(m.vars()), "a copy of a merged configuration lost its status", c.underconstrained, under)
    ctx.ev("copies checked")
    return (c if ctx.rng.random() < .4 else m), bool(under)


def pieces(ctx):
    rng = ctx.rng
    n = gen.size(rng, (2, 7), (8, 14))
    names = gen.names(rng, n)
    s = gen.logu(rng, .2, 1e3)
    return dict(zip(names, conf.apart(rng, n, s, gap=max(.05, s / 100))))


REQ = ["underconstrained: 0 shared", "underconstrained: 1 shared", "underconstrained: 2 shared", "underconstrained: flagged operand",
       "fully constrained: 1 shared", "fully constrained: 2 shared", "copies checked", "underconstrained: all shared points coincident"]


@scenario("C17", 6000, required=REQ + ["shared points little apart", "shared points coincident in one operand"])
def single(ctx):
    rng = ctx.rng
    W = pieces(ctx)
    names = list(W)
    k = rng.choice([0, 1, 1, 2, 2, 3, 4, len(names)])
    shared = rng.sample(names, min(k, len(names)))
    if rng.random() < .25 and len(shared) >= 2:     # all shared points in one place
        for n in shared:
            W[n] = W[shared[0]]
    elif rng.random() < .4 and len(shared) >= 3:    # all but one in one place
        for n in shared[:-1]:
            W[n] = W[shared[0]]
    elif rng.random() < .4 and len(shared) >= 2:    # shared points apart by little, far from the origin
        d = gen.logu(rng, 1e-6, .05)
        far = complex(gen.coord(rng, 2e3), gen.coord(rng, 2e3))
        turn = cmath.rect(1, rng.uniform(0, 7))
        for i, n in enumerate(shared):
            W[n] = far + i * d * 2 * turn
        ctx.ev("shared points little apart")
    rest = [n for n in names if n not in shared]
    cut = rng.choice([0, len(rest), rng.randint(0, len(rest))])
    a_names, b_names = shared + rest[:cut], shared + rest[cut:]
    rng.shuffle(a_names)
    rng.shuffle(b_names)
    A, B = {n: W[n] for n in a_names}, {n: W[n] for n in b_names}
    r, t = geo.rigid(rng, 1e3)
    # coincident shared points stay exactly coincident under the motion: equal inputs give equal outputs
    B = conf.move(B, r, t)
    if rng.random() < .1 and len(shared) > 1 and not conf.all_coincident([A[n] for n in shared]):
        n = rng.choice(shared)      # shapes may disagree
        B[n] = B[n] + complex(rng.uniform(1, 3), 0)
        # the two must agree on which shared points coincide
        if any((A[x] == A[y]) != (B[x] == B[y]) for x in shared for y in shared):
            return
    if rng.random() < .06 and len(shared) > 1 and not conf.all_coincident([A[n] for n in shared]):
        X = rng.choice([A, B])      # coincident in one of the two only
        for n in shared:
            X[n] = X[shared[0]]
        ctx.ev("shared points coincident in one operand")
    a, b = conf.make(A), conf.make(B)
    fa = fb = False
    if rng.random() < .15:      # an operand that stems from an underconstrained merge
        far = {("far", 1): 5 + 5j}
        a, fa = merge(ctx, a, conf.make(far), A, far, False, False, "prelude")
        A = conf.read(a)
    if rng.random() < .15:
        far = {("far", 2): -5 + 1j}
        b, fb = merge(ctx, b, conf.make(far), B, far, False, False, "prelude")
        B = conf.read(b)
    merge(ctx, a, b, A, B, fa, fb, "single")
    merge(ctx, b, a, B, A, fb, fa, "swapped")


@scenario("C17", 3000, required=["long-lived statuses", "chains without status"])
def chains(ctx):
    """Trees of merges of moved pieces of one world: the status of every intermediate result is tracked."""
    rng = ctx.rng
    W = pieces(ctx)
    names = list(W)
    pool = []
    dense = rng.random() < .5
    for _ in range(rng.randint(3, 6)):
        k = rng.randint(min(len(names), 3 if dense else 1), len(names))
        P = {n: W[n] for n in rng.sample(names, k)}
        r, t = geo.rigid(rng, 500)
        P = conf.move(P, r, t)
        pool.append((conf.make(P), P, False))
    for _ in range(rng.randint(2, 6)):
        i, j = rng.randrange(len(pool)), rng.randrange(len(pool))
        a, A, fa = pool[i]
        b, B, fb = pool[j]
        shared = [n for n in A if n in B]
        # numerical agreement of coincidences is not decidable after a motion of computed points
        if len(shared) >= 2:
            sa, sb = conf.spread([A[n] for n in shared]), conf.spread([B[n] for n in shared])
            if (0 < sa < 1e-3 or 0 < sb < 1e-3) and not (fa or fb):
                continue
        m, f = merge(ctx, a, b, A, B, fa, fb, "chain")
        pool.append((m, conf.read(m), f))
        if fa or fb:
            ctx.ev("long-lived statuses")
        elif not f:
            ctx.ev("chains without status")


@scenario("C17", 1000, required=["never raised"])
def fully_fixed_never_raised(ctx):
    """Only rigid overlaps on two separate points or more: the status is never raised, however long the chain."""
    rng = ctx.rng
    n = rng.randint(3, 12)
    names = gen.names(rng, n)
    s = gen.logu(rng, .5, 1e3)
    W = dict(zip(names, conf.apart(rng, n, s, gap=max(.05, s / 100), shape=rng.choice(["any", "line", "grid", "regular"]))))
    have = rng.sample(names, 2)
    if W[have[0]] == W[have[1]]:
        return
    acc = conf.make({n: W[n] for n in have})
    for k in range(rng.randint(2, 15)):
        ab = rng.sample(have, 2)
        if abs(W[ab[0]] - W[ab[1]]) < .05:
            continue
        new = rng.sample(names, rng.randint(0, 3))
        r, t = geo.rigid(rng, 500)
        p = conf.make(conf.move({n: W[n] for n in rng.sample(ab + [x for x in new if x not in ab], len(set(ab + new)))}, r, t))
        ctx.log("merge", ab, new)
        acc, f = acc.merge(p) if rng.random() < .7 else p.merge(acc)
        ctx.check(not f and not acc.underconstrained, "fully fixed merges raised the underconstrained status", k)
        have = list(dict.fromkeys(have + new))
        if rng.random() < .3:
            acc = acc.copy()
        ctx.ev("never raised")
        ctx.state((k, len(have)))


@scenario("C17", 800, required=["fresh configurations"])
def fresh(ctx):
    rng = ctx.rng
    W = pieces(ctx)
    c = conf.make(W)
    ctx.check(not c.underconstrained, "a new configuration is flagged")
    ctx.check(not c.copy().underconstrained, "a copy of an unflagged configuration is flagged")
    ctx.check(not c.copy().copy().underconstrained, "a copy of an unflagged configuration is flagged")
    m, u = c.merge(c)
    want = definition(W, W, False, False)
    ctx.check(bool(u) == want, "status of a merge with itself", len(W), u, want)
    e = conf.make({})
    for x, y, X, Y in ((c, e, W, {}), (e, c, {}, W), (e, e, {}, {})):
        merge(ctx, x, y, X, Y, False, False, "empty")
    one = {list(W)[0]: 3 + 4j}
    merge(ctx, c, conf.make(one), W, one, False, False, "one point")
    merge(ctx, conf.make(one), c, one, W, False, False, "one point")
    merge(ctx, conf.make(one), conf.make(one), one, one, False, False, "one point")
    ctx.ev("fresh configurations")
    ctx.log("fresh", len(W))
