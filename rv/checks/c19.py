"""Random sequences of operations sharing operands. Every operand (and the container it was built from) is compared with a
snapshot after every call; results are then edited and the operands compared again; calls are repeated and must give the
same answer. Distinct states: (operation, operand classes, size)."""
import operator

from ..core import scenario
from .. import gen, geo, conf, cl


def vsnap(v):
    return (type(v).__name__, tuple((type(r).__name__,) + tuple((x, type(x).__name__) for x in r) for r in v.elements))


def snap(o):
    g = geo.lib()
    if isinstance(o, g.Matrix):
        return vsnap(o)
    if isinstance(o, conf.lib().Configuration):
        return ("conf", tuple((n, id(p), p.x, p.y) for n, p in o.mapping.items()), bool(o.underconstrained), hash(o))
    if isinstance(o, cl.lib().Cluster):
        return cl.snapshot(o)
    if isinstance(o, dict):
        return ("dict", tuple((k, id(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(x) for x in o))
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__, frozenset(o))
    return ("value", repr(o))


def result(o):
    """Value of a result, independent of identities."""
    g = geo.lib()
    if isinstance(o, g.Matrix):
        return vsnap(o)
    if isinstance(o, conf.lib().Configuration):
        return ("conf", tuple(sorted(((repr(n), p.x, p.y) for n, p in o.mapping.items()))), bool(o.underconstrained))
    if isinstance(o, cl.lib().Cluster):
        return cl.snapshot(o)
    if isinstance(o, (list, tuple)):
        return tuple(result(x) for x in o)
    if isinstance(o, (set, frozenset)):
        return frozenset(repr(type(x)) + repr(getattr(x, "points", x)) if not hasattr(x, "points") else (type(x).__name__, frozenset(map(repr, x.points)), repr(x.points[1]) if len(x.points) == 3 else "") for x in o)
    return repr(o)


def call(ctx, name, fn, operands, twice=True):
    before = [snap(o) for o in operands]
    ctx.log(name, *[repr(o) for o in operands])
    try:
        r = fn()
    except (ZeroDivisionError, OverflowError):
        r = None
    for o, s in zip(operands, before):
        ctx.check(snap(o) == s, "%s changed an operand" % name, "now", o, "before", s)
    ctx.ev("operations")
    if twice:
        value = result(r)
        try:
            again = fn()
        except (ZeroDivisionError, OverflowError):
            again = None
        ctx.check(result(again) == value, "%s gives another answer the second time" % name, value, again)
        for o, s in zip(operands, before):
            ctx.check(snap(o) == s, "%s changed an operand the second time" % name)
    return r, before


def edit(rng, r):
    """Edit a result in place. True if anything was edited."""
    g = geo.lib()
    if isinstance(r, g.Vector):
        r.x = 1234.5
        r.y = -77
        return True
    if isinstance(r, g.Matrix):
        for row in r.elements:
            for j in range(len(row)):
                row[j] = 99.5
        r.elements.append([1])
        return True
    if isinstance(r, list):
        n = sum([edit(rng, x) for x in r if isinstance(x, g.Vector)])
        r.append("edited")
        return True
    return False


@scenario("C19", 6000, required=["operations", "vector results edited"])
def vectors(ctx):
    """Arithmetic, predicates, intersections and frames over a shared pool of vectors (operands may be the same object)."""
    rng = ctx.rng
    g = geo.lib()
    S = rng.choice([1, 5, 100])
    pool = [g.Vector(gen.coord(rng, S), gen.coord(rng, S)) for _ in range(rng.randint(2, 5))]
    P = lambda: rng.choice(pool)
    for _ in range(rng.randint(3, 10)):
        a, b, c, d = P(), P(), P(), P()
        k = rng.choice([0, 1, 2.5, -3])
        r1, r2 = rng.uniform(.1, S), rng.uniform(.1, S)
        m = g.Matrix([[float(rng.randint(-3, 3)) for _ in range(2)] for _ in range(rng.choice([1, 2, 3]))])
        n = g.Matrix([[3.0, 1.0], [1.0, float(rng.randint(1, 3))]])
        m2 = g.Matrix([[1.5], [k]])
        ops = {
            "+": (lambda: a + b, [a, b]), "-": (lambda: a - b, [a, b]), "*": (lambda: a * b, [a, b]), "/": (lambda: a / b, [a, b]),
            "+k": (lambda: a + k, [a]), "-k": (lambda: a - k, [a]), "*k": (lambda: a * k, [a]), "/k": (lambda: a / k, [a]), "neg": (lambda: -a, [a]),
            "+=": (lambda: operator.iadd(a, b), [a, b]), "-=": (lambda: operator.isub(a, b), [a, b]), "*=": (lambda: operator.imul(a, b), [a, b]), "/=": (lambda: operator.itruediv(a, b), [a, b]),
            "+=k": (lambda: operator.iadd(a, k), [a]), "-=k": (lambda: operator.isub(a, k), [a]), "*=k": (lambda: operator.imul(a, k), [a]), "/=k": (lambda: operator.itruediv(a, k), [a]),
            "dot": (lambda: a.dot(b), [a, b]), "length": (lambda: a.length, [a]), "azimuth": (lambda: a.azimuth, [a]), "rotate": (lambda: a.rotate(k * 30), [a]),
            "origin": (lambda: g.Vector.origin(), []), "copy": (lambda: g.Vector(a), [a]), "from matrix": (lambda: g.Vector(m2), [m2]), "transpose": (lambda: a.transpose(), [a]),
            "==": (lambda: a == b, [a, b]), "<": (lambda: (a < b, a <= b, a > b, a >= b), [a, b]), "tol": (lambda: (a.tol_eq(b), a.tol_lt(b), a.tol_ge(b)), [a, b]),
            "slice": (lambda: a[:], [a]), "sign": (lambda: (a.is_positive(), a.is_negative()), [a]), "str": (lambda: (str(a), repr(a)), [a]),
            "cc_int": (lambda: g.cc_int(a, r1, b, r2), [a, b]), "cl_int": (lambda: g.cl_int(a, r1, b, c), [a, b, c]), "cr_int": (lambda: g.cr_int(a, r1, b, c), [a, b, c]),
            "ll_int": (lambda: g.ll_int(a, b, c, d), [a, b, c, d]), "lr_int": (lambda: g.lr_int(a, b, c, d), [a, b, c, d]), "rr_int": (lambda: g.rr_int(a, b, c, d), [a, b, c, d]),
            "angle": (lambda: g.angle_3p(a, b, c), [a, b, c]), "distance": (lambda: g.distance_2p(a, b), [a, b]),
            "orientation": (lambda: (g.is_clockwise(a, b, c), g.is_counterclockwise(a, b, c), g.is_flat(a, b, c), g.is_acute(a, b, c), g.is_obtuse(a, b, c)), [a, b, c]),
            "make_hcs": (lambda: g.make_hcs(a, b), [a, b]), "make_hcs_scaled": (lambda: g.make_hcs_scaled(a, b), [a, b]),
            "matrix*": (lambda: m * n, [m, n]), "matrix*vector": (lambda: n * a, [n, a]), "matrix T": (lambda: m.transpose(), [m]), "solve": (lambda: n.solve(a), [n, a]),
            "inverse": (lambda: n.inverse(), [n]), "row*": (lambda: a.transpose() * b, [a, b]),
        }
        name = rng.choice(list(ops))
        if name in ("cl_int", "cr_int") and c.length < .1 or name in ("ll_int", "lr_int", "rr_int") and min(b.length, d.length) < .1:
            continue
        fn, operands = ops[name]
        r, before = call(ctx, name, fn, operands)
        others, value = [snap(v) for v in pool], result(r)
        if edit(rng, r):
            ctx.ev("vector results edited")
            for o, s in zip(operands, before):
                ctx.check(snap(o) == s, "editing the result of %s changed an operand" % name, o, s)
            ctx.check([snap(v) for v in pool] == others, "editing the result of %s changed another vector" % name)
            again, _ = call(ctx, name + " after its result was edited", fn, operands, twice=False)
            ctx.check(result(again) == value, "%s gives another answer after its result was edited" % name, value, again)
        ctx.state((name, S, type(r).__name__, len(r) if isinstance(r, list) else 0))


@scenario("C19", 3000, required=["operations", "matrix results edited"])
def matrices(ctx):
    """Products, transposes, solutions, inverses and identities over matrices of up to seven rows, whose rows are lists or
    tuples and hold integers, floats and truth values side by side."""
    rng = ctx.rng
    g = geo.lib()
    n = rng.randint(1, 7)

    def entry():
        return rng.choice([lambda: rng.randint(-9, 9), lambda: rng.uniform(-9, 9), lambda: 0, lambda: 0.0, lambda: True])()

    def new(k, m, dominant=False):
        rows = [[entry() for _ in range(m)] for _ in range(k)]
        if dominant:
            for i in range(k):
                rows[i][i] = rng.choice([1, 1.0]) * (100 + rng.randint(0, 9))
        t = rng.choice([lambda i: list, lambda i: tuple, lambda i: tuple if i % 2 else list])
        rows = [t(i)(r) for i, r in enumerate(rows)]
        given.append(rows if rng.random() < .7 else tuple(rows))
        return g.Matrix(given[-1])
    given = []
    pool = [new(n, n, True), new(n, n, True), new(n, rng.randint(1, 4)), new(n, 1)]
    I = g.Matrix.identity(n)
    for _ in range(rng.randint(2, 6)):
        a, b, c = rng.choice(pool[:2]), rng.choice(pool[2:]), rng.choice(pool)
        name, fn, operands = rng.choice([
            ("matrix *", lambda: a * c, [a, c]), ("matrix *=", lambda: operator.imul(a, c), [a, c]), ("matrix T", lambda: c.transpose(), [c]), ("solve", lambda: a.solve(b), [a, b]), ("solve", lambda: a.solve(c), [a, c]),
            ("inverse", lambda: a.inverse(), [a]), ("identity", lambda: g.Matrix.identity(n), []), ("T *", lambda: b.transpose() * c, [b, c]), ("str", lambda: str(c), [c])])
        outer = [snap(x) for x in given]
        everything = [snap(m) for m in pool]
        r, before = call(ctx, name, fn, operands)
        if isinstance(r, g.Matrix):
            value = result(r)
            ctx.check(all(r is not m for m in pool), name + " returned an operand")
            if rng.random() < .5:
                r.round(rng.randint(0, 3))
            elif all(isinstance(x, list) for x in r.elements):
                edit(rng, r)
            ctx.check([snap(m) for m in pool] == everything, "editing the result of %s changed an operand" % name)
            ctx.check(result(fn()) == value, "%s gives another answer after its result was edited" % name)
            ctx.ev("matrix results edited")
        ctx.check([snap(m) for m in pool] == everything and [snap(x) for x in given] == outer, name + " changed a matrix or the rows it was built from")
        ctx.state((name, n, type(r).__name__))


@scenario("C19", 5000, required=["operations", "configuration results edited", "selections", "additions", "copies"])
def configurations(ctx):
    """select, add, copy, merge, transform and compare over a growing pool of configurations that share operands."""
    rng = ctx.rng
    C = conf.lib()
    g = geo.lib()
    names = gen.names(rng, rng.randint(2, 9))
    s = rng.choice([1, 50, 1000])
    pool, sources = [], []
    for _ in range(rng.randint(2, 4)):
        sub = rng.sample(names, rng.randint(1, len(names)))
        d = dict(zip(sub, [g.Vector(p.real, p.imag) for p in conf.apart(rng, len(sub), s)]))
        c = C.Configuration(d)
        sources.append(d)
        pool.append(c)
        if rng.random() < .2:
            c.underconstrained = True
    given = [snap(d) for d in sources]
    for _ in range(rng.randint(3, 9)):
        a, b = rng.choice(pool), rng.choice(pool)
        everything = [snap(c) for c in pool]
        op = rng.choice(["select", "add", "copy", "merge", "transform", "==", "matrix", "read", "str"])
        t = None
        if op == "select":
            sel = rng.sample(list(a.vars()), rng.randint(0, len(a.mapping)))
            if sel and rng.random() < .3:
                sel.append(sel[0])
            arg = rng.choice([list, tuple, set, dict.fromkeys, iter])(sel)
            if isinstance(arg, (list, tuple, set, dict)):
                fn = lambda: a.select(arg)
                r, before = call(ctx, "select", fn, [a, arg])
            else:
                fn = lambda: a.select(iter(sel))
                r, before = call(ctx, "select", fn, [a, sel])
            ctx.check(set(r.vars()) == set(sel) and len(list(r.vars())) == len(set(sel)) and all((r.get(n).x, r.get(n).y) == (a.get(n).x, a.get(n).y) for n in sel), "select gives other points", sel, r)
            ctx.ev("selections")
        elif op == "add":
            r, before = call(ctx, "add", lambda: a.add(b), [a, b])
            want = {**{n: (b.get(n).x, b.get(n).y) for n in b.vars()}, **{n: (a.get(n).x, a.get(n).y) for n in a.vars()}}
            ctx.check({n: (r.get(n).x, r.get(n).y) for n in r.vars()} == want, "add is not the union with the first operand winning", a, b, r)
            ctx.ev("additions")
        elif op == "copy":
            r, before = call(ctx, "copy", lambda: a.copy(), [a])
            ctx.check({n: (r.get(n).x, r.get(n).y) for n in r.vars()} == {n: (a.get(n).x, a.get(n).y) for n in a.vars()} and bool(r.underconstrained) == bool(a.underconstrained), "copy differs", a, r)
            ctx.check(r is not a, "copy returned the configuration itself")
            ctx.ev("copies")
        elif op == "merge":
            r, before = call(ctx, "merge", lambda: a.merge(b), [a, b])
            r = r[0]
        elif op == "transform":
            t = g.Matrix([[rng.uniform(-1, 1) for _ in range(3)], [rng.uniform(-1, 1) for _ in range(3)], [0.0, 0.0, 1.0]]) if rng.random() < .7 else g.Matrix.identity(3)
            r, before = call(ctx, "transform", lambda: a.transform(t), [a, t])
        elif op == "==":
            r, before = call(ctx, "==", lambda: (a == b, b == a, a != b, hash(a)), [a, b])
        elif op == "matrix":
            r, before = call(ctx, "transformation_matrix", lambda: a.transformation_matrix(b), [a, b])
            edit(rng, r[0])
        elif op == "read":
            r, before = call(ctx, "vars/get", lambda: sorted((repr(n), a.get(n).x) for n in a.vars()), [a])
        else:
            r, before = call(ctx, "str", lambda: str(a) + repr(b), [a, b])
        ctx.check([snap(c) for c in pool] == everything, op + " changed a configuration that took no part or an operand")
        ctx.check([snap(d) for d in sources] == given, op + " changed the mapping a configuration was built from")
        if isinstance(r, C.Configuration):
            keep = snap(r)
            for x in (a, b):
                ctx.check(r is not x, op + " returned its operand")
            if rng.random() < .6:
                # edit the mapping and the status of the result
                r.mapping["edited"] = g.Vector(9, 9)
                for n in list(r.mapping)[:2]:
                    if rng.random() < .5:
                        del r.mapping[n]
                    else:
                        r.mapping[n] = g.Vector(-5, 4)
                r.underconstrained = not r.underconstrained
                ctx.check([snap(c) for c in pool] == everything, "editing the mapping of the result of %s changed an operand" % op)
                ctx.check([snap(d) for d in sources] == given, "editing the result of %s changed the mapping an operand was built from" % op)
                ctx.ev("configuration results edited")
            else:
                pool.append(r)
        ctx.state((op, len(a.mapping), len(b.mapping), s))
    # the mapping a configuration was built from belongs to the caller
    everything = [snap(c) for c in pool]
    for d in sources:
        d.clear()
        d["later"] = g.Vector(0, 0)
    ctx.check([snap(c) for c in pool] == everything, "changing the mapping a configuration was built from changed the configuration")
    # editing one configuration's mapping leaves all others alone
    i = rng.randrange(len(pool))
    pool[i].mapping["edited"] = g.Vector(1, 1)
    ctx.check([snap(c) for j, c in enumerate(pool) if j != i] == [e for j, e in enumerate(everything) if j != i], "configurations share a mapping")


@scenario("C19", 3000, required=["cluster operations", "containers of clusters edited", "intersections edited", "clusters lying wholly in another one"])
def clusters(ctx):
    rng = ctx.rng
    pool = gen.names(rng, gen.size(rng, (4, 8), (9, 12)))
    ms = []
    for _ in range(rng.randint(2, 4)):
        ms += list(cl.random_pair(rng, pool))
    if rng.random() < .5:       # one that lies wholly in another
        m = rng.choice(ms)
        k = 3 if m.kind != "Rigid" else 2
        if len(m.pts) >= k:
            pts = rng.sample(sorted(m.pts, key=repr), rng.randint(k, len(m.pts)))
            ms.append(cl.Model(m.kind, pts + [m.centre] * (m.kind == "Hedgehog"), m.centre))
            ctx.ev("clusters lying wholly in another one")
    rs = []
    for m in ms:
        r = m.real(rng)
        rs.append((r, m.given, m))
    snaps = [cl.snapshot(r) for r, _, _ in rs]
    gsn = [snap(x) if not hasattr(x, "__next__") else None for _, x, _ in rs]
    for _ in range(rng.randint(3, 8)):
        (a, _, ma), (b, _, mb) = rng.choice(rs), rng.choice(rs)
        op = rng.choice(["intersection", "common_constraints", "counts", "var_list", "str"])
        fn = {"intersection": lambda: a.intersection(b), "common_constraints": lambda: a.common_constraints(b),
              "counts": lambda: (a.n_distances(), a.n_angles(), a.n_constraints()), "var_list": lambda: sorted(map(repr, a.var_list())), "str": lambda: len(str(a))}[op]
        r, before = call(ctx, "cluster " + op, fn, [a, b])
        if op == "var_list":
            vl = a.var_list()
            vl.append("edited")
            vl.reverse()
        elif op == "common_constraints":
            r.clear()
        elif op == "intersection" and r is not None:
            ctx.check(all(r is not x for x, _, _ in rs), "an intersection is one of the clusters themselves", ma, mb)
            r.overconstrained = not r.overconstrained
            for held in (r.vars, getattr(r, "x_vars", None)):
                if isinstance(held, set):
                    held.add("edited")
                    held.discard(rng.choice(sorted(ma.pts, key=repr)))
            ctx.ev("intersections edited")
        ctx.check([cl.snapshot(x) for x, _, _ in rs] == snaps, op + " (or an edit of its result) changed a cluster")
        ctx.ev("cluster operations")
        ctx.state((op, ma.kind, mb.kind, len(ma.pts), len(mb.pts)))
    ctx.check([snap(x) if not hasattr(x, "__next__") else None for _, x, _ in rs] == gsn, "an operation changed the container a cluster was built from")
    for r, given, m in rs:
        if isinstance(given, (list, set, dict)):
            given.clear()
            ctx.ev("containers of clusters edited")
    ctx.check([cl.snapshot(x) for x, _, _ in rs] == snaps, "changing the container a cluster was built from changed the cluster")


@scenario("C19", 800, required=["containers of methods and constraints edited"])
def containers(ctx):
    """Lists handed to methods, constraints, relations and method graphs belong to the caller."""
    rng = ctx.rng
    import solver.method as M
    import solver.geometric.constraint as K
    names = gen.names(rng, 5)
    ins, outs = names[:3], names[3:4]
    class Sum(M.Method):
        def execute(self, inmap):
            return {self.outputs[0]: tuple(inmap[v] for v in self.inputs)}
    m = Sum("s", ins, outs)
    vs = list(names[:3])
    f = K.FunctionConstraint(lambda *a: True, vs)
    k = f.variables()
    G = M.MethodGraph()
    for i, v in enumerate(ins):
        G.add_variable(v, i)
    G.add_method(m)
    ins2, outs2 = list(ins), list(outs)
    vs.reverse()
    vs.append("x")
    k.clear()
    ctx.check(list(f.variables()) == names[:3], "a constraint's variables changed with a list the caller kept", f.variables())
    ins.append(names[4])
    outs.clear()
    ctx.check(list(m.inputs) == ins2 and list(m.outputs) == outs2, "a method's variables changed with a list the caller kept")
    G.set(ins2[0], 7)
    ctx.check(G.get(outs2[0]) == (7, 1, 2), "value after the caller changed its list", G.get(outs2[0]))
    ctx.ev("containers of methods and constraints edited")
    ctx.log("containers", names)
    ctx.state(repr(type(names[0])))
