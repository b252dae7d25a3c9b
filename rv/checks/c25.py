"""Matrices of every shape (1x1 to 300 rows or columns, inner dimensions above 256), entries integer, rational and float,
rows as lists or tuples, vectors as operands; products and transposes against an own entry-by-entry reference (exact
arithmetic), solutions and inverses by their residual, refusals of mismatched shapes and singular systems.
Distinct states: (operation, shapes, entry kind)."""
import copy
import math
from fractions import Fraction as Q

from ..core import scenario
from .. import gen, geo


def M(rows):
    return geo.lib().Matrix(rows)


def shape(rng, big=False):
    n = gen.size(rng, (1, 6), (7, 20), (30, 60) if big else None)
    return n


def entry(rng, kind):
    if kind == "int":
        return rng.choice([0, 1, -1, rng.randint(-9, 9), rng.randint(-10 ** 12, 10 ** 12)])
    if kind == "frac":
        return Q(rng.randint(-9, 9), rng.randint(1, 9))
    if kind == "dyadic":
        return geo.dy(rng)
    return rng.choice([0.0, -0.0, rng.uniform(-1, 1), rng.uniform(-1e3, 1e3), gen.logu(rng, 1e-6, 1e6)])


def rows(rng, n, m, kind):
    r = rng.choice([list, list, tuple])
    return [r(entry(rng, kind) for _ in range(m)) for _ in range(n)]


def plain(m):
    return [list(r) for r in m.elements]


def dims(ctx, m, n, k, what):
    ctx.check((m.num_rows, m.num_cols, m.num_elements, m.num_dim) == (n, k, n * k, 2 if n > 1 and k > 1 else 1), "reported dimensions of a %dx%d matrix (%s)" % (n, k, what), m.num_rows, m.num_cols, m.num_elements, m.num_dim)


def product(A, B):
    """Reference product of nested lists, exact in rationals; with the sum of the magnitudes of its terms."""
    res, mag = [], []
    for i in range(len(A)):
        rr, mm = [], []
        for j in range(len(B[0])):
            terms = [Q(A[i][k]) * Q(B[k][j]) for k in range(len(B))]
            rr.append(sum(terms))
            mm.append(sum(map(abs, terms)))
        res.append(rr)
        mag.append(mm)
    return res, mag


def compare(ctx, got, want, mag, inner, exact, what):
    ctx.check(len(got) == len(want) and all(len(g) == len(w) for g, w in zip(got, want)), "shape of the " + what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        for j, (x, y) in enumerate(zip(g, w)):
            if exact:
                ok = x == y
            else:
                ok = abs(Q(x) - y) <= (inner + 2) * Q(1, 2 ** 52) * mag[i][j] + Q(1, 10 ** 300)
            if not ok:
                ctx.check(False, "entry %d,%d of the %s" % (i, j, what), x, float(y))
    ctx.check(True, "entries")


@scenario("C25", 4000, required=["exact product", "float product", "matrix times vector", "transpose of a product", "mismatch refused", "results rounded"])
def products(ctx):
    rng = ctx.rng
    kind = rng.choice(["int", "frac", "dyadic", "float", "float"])
    n, k, m = shape(rng), shape(rng, True), shape(rng)
    if rng.random() < .2:
        n = rng.choice([1, n])
        m = rng.choice([1, m])
    A, B = rows(rng, n, k, kind), rows(rng, k, m, kind if rng.random() < .8 else "int")
    a, b = M(A), M(B)
    A0, B0 = copy.deepcopy(plain(a)), copy.deepcopy(plain(b))
    ctx.log("product", n, k, m, kind)
    dims(ctx, a, n, k, "operand")
    c = a * b
    exact = kind in ("int", "frac", "dyadic") and (kind != "dyadic" or all(abs(x) < 1e6 for r in B0 for x in r))
    if kind == "frac":
        want, mag = [[sum(x * y for x, y in zip(r, col)) for col in zip(*B0)] for r in A0], None
    else:
        want, mag = product(A0, B0)
    compare(ctx, plain(c), want, mag, k, exact, "product")
    ctx.ev("exact product" if exact else "float product")
    dims(ctx, c, n, m, "product")
    t = a.transpose()
    ctx.check(plain(t) == [[A0[i][j] for i in range(n)] for j in range(k)], "transpose", plain(t), A0)
    dims(ctx, t, k, n, "transpose")
    ctx.check(plain(t.transpose()) == A0, "transposing twice", A0)
    if exact:
        ctx.check(plain(b.transpose() * t) == plain(c.transpose()), "transpose of a product is not the product of the transposes")
        ctx.ev("transpose of a product")
    ctx.check(plain(a) == A0 and plain(b) == B0, "multiplying or transposing changes an operand")
    if kind != "frac":
        results_round(ctx, [t, c, t.transpose(), t * a], [(a, A0), (b, B0)])
    i = geo.lib().Matrix.identity(k)
    ctx.check(plain(i) == [[1 if x == y else 0 for x in range(k)] for y in range(k)], "identity", k)
    A1 = [[float(x) for x in r] for r in A0]        # the identity holds floats
    near = lambda e: len(e) == n and all(len(r) == k and all(abs(x - y) <= 1e-15 * abs(y) for x, y in zip(r, q)) for r, q in zip(e, A1))
    ctx.check(near(plain(a * i)), "product with the identity", A0)
    ctx.check(near(plain(geo.lib().Matrix.identity(n) * a)), "product with the identity", A0)
    # vectors
    v = geo.lib().Vector(entry(rng, "float"), entry(rng, "float"))
    if k == 2:
        w = a * v
        want, mag = product(A0, [[v.x], [v.y]])
        compare(ctx, plain(w), want, mag, 2, False, "product with a vector")
        dims(ctx, w, n, 1, "product with a vector")
        ctx.ev("matrix times vector")
    else:
        ctx.raises(lambda: a * v)
    dims(ctx, v, 2, 1, "vector")
    ctx.check(plain(v.transpose()) == [[v.x, v.y]], "transpose of a vector", plain(v.transpose()))
    ctx.check(plain(v.transpose() * v)[0][0] == v.x * v.x + v.y * v.y or abs(plain(v.transpose() * v)[0][0] - v.length ** 2) <= 1e-14 * v.length ** 2, "row times column")
    bad = rng.choice([x for x in (1, k - 1, k + 1, k + 3, 2 * k) if x > 0 and x != k])
    ctx.raises(lambda: a * M(rows(rng, bad, m, kind)))
    ctx.ev("mismatch refused")
    ctx.state(("product", kind, min(n, 8), min(k, 8), min(m, 8)))


def results_round(ctx, results, operands):
    """Results are matrices like any other: they can be rounded without touching the operands."""
    rng = ctx.rng
    for r in results:
        e = plain(r)
        p = rng.choice([0, 1, 3, 4])
        r.round(p) if p != 4 else r.round()
        ctx.check(plain(r) == [[round(x, p) for x in row] for row in e], "rounding a result to %d digits" % p, e, plain(r))
        ctx.check((r.num_rows, r.num_cols) == (len(e), len(e[0])), "dimensions of a rounded result")
        ctx.ev("results rounded")
    ctx.check(all(plain(x) == e for x, e in operands), "rounding a result changes an operand")


@scenario("C25", 60, thorough=600, required=["large product", "large solution"], heavy=True)
def large(ctx):
    """Sizes above 256 in each direction."""
    rng = ctx.rng
    n, k, m = rng.choice([(1, 300, 1), (300, 1, 2), (2, 257, 3), (3, 258, 1), (1, 1000, 2), (260, 2, 260), (5, 299, 4), (256, 3, 2), (2, 3, 300)])
    A = [[rng.randint(-99, 99) for _ in range(k)] for _ in range(n)]
    B = [[rng.randint(-99, 99) for _ in range(m)] for _ in range(k)]
    c = M(A) * M(B)
    want = [[sum(A[i][x] * B[x][j] for x in range(k)) for j in range(m)] for i in range(n)]
    ctx.check(plain(c) == want, "large product", n, k, m)
    dims(ctx, c, n, m, "large product")
    ctx.check(plain(M(A).transpose()) == [[A[i][j] for i in range(n)] for j in range(k)], "large transpose", n, k)
    ctx.check(plain(M([[0] * 300, [1] * 300]).transpose() * M([[2], [3]])) == [[3]] * 300, "large transpose product")
    ctx.ev("large product")
    s = rng.choice([64, 128, 256, 257, 258, 300])
    D = [[float(rng.randint(-3, 3)) for _ in range(s)] for _ in range(s)]
    for i in range(s):
        D[i][i] = 1.0 + sum(map(abs, D[i]))      # strictly diagonally dominant
    rhs = [[float(rng.randint(-9, 9)), rng.uniform(-1, 1)][:rng.choice([1, 2])] for _ in range(s)]
    cols = min(map(len, rhs))
    rhs = [r[:cols] for r in rhs]
    x = M(D).solve(M(rhs))
    dims(ctx, x, s, cols, "solution")
    X = plain(x)
    worst = max(abs(math.fsum(D[i][q] * X[q][j] for q in range(s)) - rhs[i][j]) for i in range(s) for j in range(cols))
    ctx.check(worst <= 1e-10 * s, "large solution", "residual", worst, s)
    if s <= 128 and rng.random() < .5:
        inv = plain(M(D).inverse())
        i, j = rng.randrange(s), rng.randrange(s)
        for i, j in [(i, j), (i, i), (j, j), (0, s - 1), (s - 1, s - 1)]:
            got = math.fsum(D[i][q] * inv[q][j] for q in range(s))
            ctx.check(abs(got - (i == j)) <= 1e-10, "large inverse", i, j, got)
    ctx.ev("large solution")
    ctx.state(("large", n, k, m, s, cols))


def good(rng, n, kind):
    """A well-conditioned n x n matrix and a bound of its condition: row permutation of a dominant one, or a rotation."""
    if kind == "dominant":
        D = [[rng.uniform(-1, 1) if rng.random() < .8 else 0.0 for _ in range(n)] for _ in range(n)]
        for i in range(n):
            D[i][i] = rng.choice([1, -1]) * (1.0 + sum(map(abs, D[i])))
    elif kind == "integer":
        D = [[rng.randint(-3, 3) for _ in range(n)] for _ in range(n)]
        for i in range(n):
            D[i][i] = rng.choice([1, -1]) * (1 + sum(map(abs, D[i])))
    elif kind == "special":
        # symmetric, triangular, diagonal, banded or the identity: exactly, or up to entries small enough to be overlooked
        what = rng.choice(["symmetric", "upper", "lower", "diagonal", "tridiagonal", "identity", "antisymmetric", "equal rows but one"])
        D = [[rng.uniform(-1, 1) if rng.random() < .8 else 0.0 for _ in range(n)] for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if what in ("symmetric", "antisymmetric") and i < j:
                    D[j][i] = D[i][j] * (1 if what == "symmetric" else -1)
                elif what == "upper" and i > j or what == "lower" and i < j or what in ("diagonal", "identity") and i != j or what == "tridiagonal" and abs(i - j) > 1:
                    D[i][j] = 0.0
                elif what == "equal rows but one" and i:
                    D[i][j] = D[0][j]
        for i in range(n):
            D[i][i] = 1.0 if what == "identity" else rng.choice([1, -1]) * (1.0 + sum(map(abs, D[i])))
        if rng.random() < .7:
            e = gen.logu(rng, 1e-8, 1e-2)
            for _ in range(rng.choice([1, 1, 2, n])):
                i, j = rng.randrange(n), rng.randrange(n)
                if i != j:
                    D[i][j] += rng.choice([1, -1]) * e
    elif kind == "permutation":
        p = list(range(n))
        rng.shuffle(p)
        D = [[rng.choice([2, 2.0]) if j == p[i] else 0 for j in range(n)] for i in range(n)]
    else:
        D = [[float(i == j) for j in range(n)] for i in range(n)]
        for _ in range(2 * n):
            i, j = rng.randrange(n), rng.randrange(n)
            if i == j:
                continue
            a = rng.uniform(-3, 3)
            D[i], D[j] = [math.cos(a) * x - math.sin(a) * y for x, y in zip(D[i], D[j])], [math.sin(a) * x + math.cos(a) * y for x, y in zip(D[i], D[j])]
    if kind not in ("rotation", "special") and rng.random() < .5:
        rng.shuffle(D)          # pivoting needed
    s = 1
    if rng.random() < .3:
        s = rng.choice([1e-3, 1e3, .5, 1e-6])
        D = [[x * s for x in r] for r in D]
    r = rng.choice([list, tuple])
    return [r(x) for x in D], s


@scenario("C25", 5000, required=["solved", "solved with vector", "inverse", "non-square inverse refused", "mismatched system refused"])
def systems(ctx):
    rng = ctx.rng
    n = gen.size(rng, (1, 5), (6, 15), (20, 40))
    kind = rng.choice(["dominant", "integer", "permutation", "rotation", "special", "special"])
    D, s = good(rng, n, kind)
    m = rng.choice([1, 1, 2, 3, n])
    X0 = [[rng.choice([rng.uniform(-9, 9), float(rng.randint(-9, 9))]) for _ in range(m)] for _ in range(n)]
    B = [[math.fsum(D[i][q] * X0[q][j] for q in range(n)) for j in range(m)] for i in range(n)]
    a, b = M(D), M(B)
    D0, B0 = copy.deepcopy(plain(a)), copy.deepcopy(B)
    ctx.log("solve", n, m, kind, s)
    x = a.solve(b)
    dims(ctx, x, n, m, "solution")
    X = plain(x)
    ctx.check(max(abs(X[i][j] - X0[i][j]) for i in range(n) for j in range(m)) <= 1e-11 * (n + 1), "solution of a system", X[:2], X0[:2], D0[:2])
    ctx.ev("solved")
    inv = a.inverse()
    dims(ctx, inv, n, n, "inverse")
    for P, how in ((a * inv, "matrix times inverse"), (inv * a, "inverse times matrix")):
        e = plain(P)
        ctx.check(max(abs(e[i][j] - (i == j)) for i in range(n) for j in range(n)) <= 1e-11 * (n + 1), how + " is not the identity", e[:2], D0[:2])
    ctx.ev("inverse")
    if n == 2:
        v = geo.lib().Vector(rng.uniform(-9, 9), rng.uniform(-9, 9))
        w = plain(a * a.solve(v))
        ctx.check(len(w) == 2 and len(w[0]) == 1 and abs(w[0][0] - v.x) + abs(w[1][0] - v.y) <= 1e-10, "solution for a vector", w, v.x, v.y)
        ctx.ev("solved with vector")
    ctx.check(plain(a) == D0 and plain(b) == B0, "solving changes an operand")
    results_round(ctx, [x, inv], [(a, D0), (b, B0)])
    bad = rng.choice([n - 1, n + 1]) or n + 1
    ctx.raises(a.solve, M([[1.0]] * bad))
    ctx.ev("mismatched system refused")
    R = M([[rng.uniform(1, 2) for _ in range(bad)] for _ in range(n)])
    ctx.raises(R.inverse)
    ctx.raises(R.transpose().inverse)
    ctx.raises(geo.lib().Vector(1, 2).inverse)
    ctx.ev("non-square inverse refused")
    ctx.state(("solve", kind, n, m, s))


def exact_inverse(D):
    """Inverse in rationals by elimination; None when singular."""
    n = len(D)
    A = [[Q(x) for x in r] + [Q(int(i == j)) for j in range(n)] for i, r in enumerate(D)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c]), None)
        if p is None:
            return None
        A[c], A[p] = A[p], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for r in range(n):
            if r != c and A[r][c]:
                A[r] = [x - A[r][c] * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


@scenario("C25", 3000, required=["integer systems"])
def integer_systems(ctx):
    """Integer coefficients and right-hand sides whose solutions are no integers; rows of mixed kinds."""
    rng = ctx.rng
    n = rng.randint(1, 5)
    lim = rng.choice([1, 3, 9, 1000])
    D = [[rng.randint(-lim, lim) for _ in range(n)] for _ in range(n)]
    inv = exact_inverse(D)
    if inv is None:
        return
    size = max(sum(abs(x) for x in r) for r in D) * max(sum(abs(x) for x in r) for r in inv)
    if size > 1e5:
        return
    m = rng.randint(1, 3)
    B = [[rng.randint(-9, 9) for _ in range(m)] for _ in range(n)]
    how = rng.choice(["integers", "bool", "float right-hand side", "float coefficients", "one float"])
    if how == "bool":
        B = [[x > 0 for x in r] for r in B]
    want = [[sum(inv[i][k] * B[k][j] for k in range(n)) for j in range(m)] for i in range(n)]
    if how == "float right-hand side":
        B = [[float(x) for x in r] for r in B]
    elif how == "float coefficients":
        D = [[float(x) for x in r] for r in D]
    elif how == "one float":
        D[rng.randrange(n)][rng.randrange(n)] *= 1.0
    a, b = M(D), M(B)
    ctx.log("integer system", how, D, B)
    tol = 1e-14 * float(size) * (n + 1)
    X = plain(a.solve(b))
    S = 1 + max(abs(float(x)) for r in want for x in r)
    ctx.check(len(X) == n and all(len(r) == m for r in X), "shape of a solution", X)
    ctx.check(max(abs(X[i][j] - float(want[i][j])) for i in range(n) for j in range(m)) <= tol * S, "solution of an integer system", how, D, B, "got", X)
    I = plain(a.inverse())
    S = 1 + max(abs(float(x)) for r in inv for x in r)
    ctx.check(len(I) == n and max(abs(I[i][j] - float(inv[i][j])) for i in range(n) for j in range(n)) <= tol * S, "inverse of an integer matrix", how, D, "got", I)
    if n == 2:
        v = geo.lib().Vector(rng.randint(-9, 9), rng.randint(-9, 9))
        w = plain(a.solve(v))
        ctx.check(max(abs(w[i][0] - float(inv[i][0] * Q(v.x) + inv[i][1] * Q(v.y))) for i in range(2)) <= tol * 20 * S, "solution of an integer system for a vector", D, v.x, v.y, w)
    ctx.ev("integer systems")
    ctx.state(("integer", n, lim, how, m))


@scenario("C25", 3000, required=["singular refused"])
def singular(ctx):
    """Systems whose elimination meets an exactly zero pivot: zero row or column, equal rows (integers), rank one."""
    rng = ctx.rng
    n = rng.randint(1, 6)
    kind = rng.choice(["zero", "zero row", "zero column", "rank one", "equal columns"])
    D, _ = good(rng, n, "integer")
    D = [[float(round(x)) if abs(x) >= 1 or x == 0 else 1.0 for x in map(float, r)] for r in D]
    i = rng.randrange(n)
    if kind == "zero" or n == 1:
        D = [[0.0] * n for _ in range(n)]
    elif kind == "zero row":
        D[i] = [0.0] * n
    elif kind == "zero column":
        for r in D:
            r[i] = 0.0
    elif kind == "rank one":
        n = 2
        r = [rng.choice([1.0, 2.0, .5, 4.0]), float(rng.randint(-9, 9))]     # pivots are powers of two: elimination is exact
        k = 2.0 ** rng.randint(-3, 3) * rng.choice([1, -1])
        D = [r, [k * x for x in r]]
        rng.shuffle(D)
    else:
        n = 2
        D = [[rng.choice([8.0, 16.0])] * 2, [float(rng.randint(-7, 7))] * 2]
        rng.shuffle(D)
    a = M(D)
    for call in (a.inverse, lambda: a.solve(M([[1.0]] * n)), lambda: a.solve(M([[1.0, 2.0, 0.0]] * n))):
        ctx.raises(call)
    if n == 2:
        ctx.raises(a.solve, geo.lib().Vector(1, 2))
    ctx.ev("singular refused")
    ctx.state(("singular", kind, n, i))


@scenario("C25", 3000, required=["rounded", "default precision"])
def rounding(ctx):
    rng = ctx.rng
    n, m = rng.randint(1, 7), rng.randint(1, 7)
    E = [[rng.uniform(-1e3, 1e3) for _ in range(m)] for _ in range(n)]
    a = M([list(r) for r in E])
    p = rng.choice([None, 0, 1, 2, 3, 6, 9, -1])
    if p is None:
        a.round()
    elif rng.random() < .5:
        a.round(p)
    else:
        a.round(precision=p)
    q = 4 if p is None else p
    for i in range(n):
        for j in range(m):
            ctx.check(a.elements[i][j] == round(E[i][j], q), "rounding entry %d,%d of %dx%d to %s digits" % (i, j, n, m, p), E[i][j], a.elements[i][j])
    dims(ctx, a, n, m, "rounded")
    ctx.ev("default precision" if p is None else "rounded")
    v = geo.lib().Vector(E[0][0], E[-1][-1])
    v.round(q)
    ctx.check((v.x, v.y) == (round(E[0][0], q), round(E[-1][-1], q)), "rounding a vector", v.x, v.y)
    k = rng.choice([1, 2, 3, 4, 5, 17, rng.randint(1, 40)])
    I = geo.lib().Matrix.identity(rng.choice([k, str(k), float(k)]))
    ctx.check(plain(I) == [[1 if x == y else 0 for x in range(k)] for y in range(k)], "identity", k)
    dims(ctx, I, k, k, "identity")
    ctx.check(plain(I.inverse()) == plain(I), "inverse of the identity", k)
    ctx.state(("round", p, n, m))


@scenario("C25", 300, required=["entries of results replaced"])
def entries_replaced(ctx):
    """Results are matrices of their own: replacing one entry leaves all others, equal rows included."""
    rng = ctx.rng
    n, k = rng.randint(1, 6), rng.randint(1, 6)
    kind = rng.choice(["int", "dyadic", "float"])
    few = rows(rng, rng.randint(1, 2), k, kind)
    A = [list(rng.choice(few)) for _ in range(n)]
    a = M([list(r) for r in A])
    I = geo.lib().Matrix.identity
    results = [a * I(k), I(n) * a, a.transpose(), I(n), I(n).inverse(), a.transpose().transpose(), I(n).solve(M([[float(x) for x in r] for r in A])),
               a.transpose() * a, a * a.transpose()]
    ctx.log("entries replaced", n, k, kind)
    for r in results:
        e = plain(r)
        i, j = rng.randrange(len(e)), rng.randrange(len(e[0]))
        try:
            r.elements[i][j] = 77.5
        except TypeError:       # rows that cannot be edited cannot be shared either
            continue
        e[i][j] = 77.5
        ctx.check(plain(r) == e, "replacing an entry of a result changes another one", (i, j), e, plain(r))
        ctx.ev("entries of results replaced")
    ctx.check(plain(a) == A, "replacing an entry of a result changes an operand", A, plain(a))
    ctx.check(plain(I(n)) == [[1 if x == y else 0 for x in range(n)] for y in range(n)], "identity after editing an earlier one", n)
    ctx.state(("replaced", kind, n, k))
