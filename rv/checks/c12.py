"""Selection and function constraints over point triples of every orientation and angle class (all scales, exactly
degenerate ones included), judged by exact rational cross and dot products. Distinct states: (constraint, class, scale)."""
from ..core import scenario
from .. import gen, geo

KINDS = ["NotClockwiseConstraint", "NotCounterClockwiseConstraint", "NotObtuseConstraint", "NotAcuteConstraint"]


def lib():
    import solver.geometric.constraint as c
    return c


def expected(kind, pts):
    if kind in ("NotClockwiseConstraint", "NotCounterClockwiseConstraint"):
        o = geo.orientation(*pts)
        return None if o is None else o != ("cw" if kind == KINDS[0] else "ccw")
    a = geo.angle_class(*pts)
    return None if a is None else a != ("obtuse" if kind == "NotObtuseConstraint" else "acute")


@scenario("C12", 12000, required=["verdict " + k + (" satisfied" if s else " violated") for k in KINDS for s in (0, 1)]
          + ["class flat", "class right", "class undefined"])
def verdicts(ctx):
    rng = ctx.rng
    C = lib()
    pts, kind = geo.triple(rng)
    names = gen.names(rng, 3 + rng.choice([0, 0, 1, 4]))
    mapping = {}
    order = list(zip(names, pts))
    extras = [(n, geo.triple(rng)[0][0]) for n in names[3:]]
    odd = rng.random() < .4         # the other variables may hold anything, or nothing
    items = order + extras
    rng.shuffle(items)
    for n, p in items:
        mapping[n] = geo.V(p)
        if odd and (n, p) in extras:
            mapping[n] = rng.choice([None, 0, "text", float("nan"), (), object(), geo.V((float("nan"), 0.0)), mapping[n]])
    for o in ("flat", "cw", "ccw"):
        if geo.orientation(*pts) == o:
            ctx.ev("class " + o)
    ctx.ev("class %s" % geo.angle_class(*pts))
    sel = [names[0], names[1], names[2]]
    for k in KINDS:
        for perm in ((0, 1, 2), (2, 1, 0), (1, 0, 2), (1, 2, 0)):
            vs = [sel[i] for i in perm]
            P = [pts[i] for i in perm]
            want = expected(k, P)
            if want is None:
                ctx.ev("inside the tolerance band")
                continue
            con = getattr(C, k)(*[gen.twin_name(rng, v) for v in vs])
            ids = {n: (id(mapping[n]), str(mapping[n])) for n in mapping}
            keys = list(mapping)
            ctx.log(k, vs, P)
            got = con.satisfied(mapping)
            ctx.check(bool(got) == want, "%s %s by a triple that is %s with %s angle" % (k, "not satisfied" if want else "satisfied", geo.orientation(*P), geo.angle_class(*P)), P, got)
            ctx.check(keys == list(mapping) and all((id(mapping[n]), str(mapping[n])) == ids[n] for n in mapping), "checking changed the mapping")
            ctx.check(list(con.variables()) == vs, "variables of the constraint", con.variables(), vs)
            ctx.check(bool(con.satisfied(mapping)) == want, "asking again gives another answer")
            if extras:
                small = {n: mapping[n] for n in sel}
                ctx.check(bool(con.satisfied(small)) == want, "the verdict depends on variables the constraint does not name")
            ctx.ev("verdict " + k + (" satisfied" if want else " violated"))
            import math
            ctx.state((k, kind, perm, geo.orientation(*P), geo.angle_class(*P), int(math.log10(1e-9 + max(abs(x) for p in P for x in p)))))


@scenario("C12", 2000, required=["same mapping, other points", "other mapping, almost the same points", "verdicts that changed between two askings"])
def asked_again(ctx):
    """One constraint object, asked again and again: about the same mapping with other points (replaced, or changed in
    place) and about other mappings with points that differ by little."""
    rng = ctx.rng
    C = lib()
    a, b, c = names = gen.names(rng, 3)
    kind = rng.choice(KINDS)
    con = getattr(C, kind)(a, b, c)
    fn = C.FunctionConstraint(lambda p, q, r: getattr(geo.lib(), "is_clockwise")(p, q, r), names)
    pts = list(geo.triple(rng)[0])
    mapping = {n: geo.V(p) for n, p in zip(names, pts)}
    last = None
    for _ in range(rng.randint(2, 8)):
        how = rng.choice(["replaced", "in place", "other mapping", "mirrored", "nudged", "nudged"])
        if how == "mirrored":
            i, d = rng.randrange(3), rng.choice([(-1, 1), (1, -1)])
            pts = [(d[0] * x, d[1] * y) for x, y in pts]
        elif how == "nudged":
            i = rng.randrange(3)
            e = 10 ** rng.uniform(-7, -2)
            d = rng.uniform(0, 6.3)
            import math
            pts[i] = (pts[i][0] + e * math.cos(d), pts[i][1] + e * math.sin(d))
            if rng.random() < .5:   # to and fro over a straight or a right angle
                j = (i + 1) % 3
                k = 3 - i - j
                u = (pts[j][0] - pts[k][0], pts[j][1] - pts[k][1])
                n = math.hypot(*u)
                if n > 1e-3:
                    t = rng.choice([0, 0, 1])
                    base = pts[k] if t else (pts[k][0] + .5 * u[0], pts[k][1] + .5 * u[1])
                    e = e * rng.choice([1, -1]) / n
                    pts[i] = (base[0] - e * u[1] - t * u[1], base[1] + e * u[0] + t * u[0])
                    if t:
                        pts[i] = (pts[i][0] + e * u[0], pts[i][1] + e * u[1])
        else:
            pts = list(geo.triple(rng)[0]) if rng.random() < .5 else [pts[i] for i in rng.sample(range(3), 3)]
        if how == "in place":
            for n, p in zip(names, pts):
                mapping[n].x, mapping[n].y = p
        elif how == "replaced" or rng.random() < .5:
            for n, p in zip(names, pts):
                mapping[n] = geo.V(p)
            ctx.ev("same mapping, other points")
        else:
            mapping = {n: geo.V(p) for n, p in zip(names, pts)}
            ctx.ev("other mapping, almost the same points" if how == "nudged" else "other mapping")
        ctx.log(how, kind, pts)
        want = expected(kind, pts)
        if want is not None:
            ctx.check(bool(con.satisfied(mapping)) == want, "verdict of a constraint asked before", kind, how, pts, "expected", want)
            if last not in (None, want):
                ctx.ev("verdicts that changed between two askings")
            last = want
        w = geo.orientation(*pts)
        if w is not None:
            ctx.check(bool(fn.satisfied(mapping)) == (w == "cw"), "verdict of a function constraint asked before", how, pts, w)
    ctx.state(("again", kind, geo.orientation(*pts), geo.angle_class(*pts)))


@scenario("C12", 3000)
def same_variable_twice(ctx):
    """A constraint naming a variable more than once (and points shared between names) sees coincident points."""
    rng = ctx.rng
    C = lib()
    a, b = gen.names(rng, 2)
    p, q = geo.triple(rng)[0][:2]
    m = {a: geo.V(p), b: geo.V(q)}
    for vs in ((a, a, b), (a, b, b), (a, b, a), (a, a, a)):
        P = [p if v == a else q for v in vs]
        for k in KINDS:
            want = expected(k, P)
            if want is None:
                continue
            ctx.log(k, vs, P)
            con = getattr(C, k)(*vs)
            ctx.check(bool(con.satisfied(m)) == want, "%s on repeated variables" % k, vs, P, "expected", want)
            ctx.check(list(con.variables()) == list(vs), "variables of a constraint on repeated variables", con.variables(), vs)
            ctx.state((k, vs.index(b) if b in vs else 3, geo.angle_class(*P)))


class Truthy:
    def __bool__(self):
        return True

    def __eq__(self, o):
        return True


@scenario("C12", 4000, required=["function constraint satisfied", "function constraint not satisfied", "results that are true but not True"])
def functions(ctx):
    rng = ctx.rng
    C = lib()
    import numpy as np
    k = rng.choice([0, 1, 2, 3, 3, 4, 6])
    names = gen.names(rng, max(k, 1) + 2)
    vs = [rng.choice(names) for _ in range(k)] if rng.random() < .3 else names[:k]
    mapping = {n: ("value of", i) for i, n in enumerate(names)}
    results = [True, False, None, 1, 0, "yes", [], np.True_, Truthy(), 1.0, object()]
    result = rng.choice(results)
    calls = []

    def fn(*args, **kw):
        calls.append(args)
        if kw:
            calls.append(kw)
        return result
    con = C.FunctionConstraint(fn, tuple(vs) if rng.random() < .5 else list(vs), *(["a name"] if rng.random() < .3 else []))
    before = dict(mapping)
    ctx.log("FunctionConstraint", vs, result)
    got = con.satisfied(mapping)
    ctx.check(bool(got) == (result is True), "a function constraint is satisfied exactly when its function returns True", "function returned", result, "satisfied", got)
    ctx.check(len(calls) >= 1 and all(c == tuple(mapping[v] for v in vs) for c in calls), "function called with other arguments", calls, vs)
    ctx.check(mapping == before and list(mapping) == list(before), "checking changed the mapping")
    ctx.check(list(con.variables()) == list(vs), "variables", con.variables(), vs)
    ctx.ev("function constraint satisfied" if result is True else "function constraint not satisfied")
    if result is not True and result is not False and isinstance(result, (int, str, Truthy, float)) and result:
        ctx.ev("results that are true but not True")
    # real predicates of the values
    xs = {n: rng.randint(-3, 3) for n in names}
    if k >= 2:
        f = lambda *a: a[0] < a[1]
        con = C.FunctionConstraint(f, vs)
        ctx.check(bool(con.satisfied(xs)) == (xs[vs[0]] < xs[vs[1]]), "comparison of the first two values", vs, xs)
    p = names[:3] if len(names) >= 3 else [names[0]] * 3
    s = C.PlusConstraint(*p)
    ctx.check(bool(s.satisfied(xs)) == (xs[p[0]] + xs[p[1]] == xs[p[2]]), "plus constraint", p, xs)
    xs[p[2]] = xs[p[0]] + xs[p[1]]
    ctx.check(bool(s.satisfied(xs)) == (xs[p[0]] + xs[p[1]] == xs[p[2]]), "plus constraint", p, xs)
    # the list given at construction belongs to the caller
    given = list(vs)
    con = C.FunctionConstraint(fn, given)
    given.append("later")
    given.reverse()
    con.variables().append("x")
    ctx.check(list(con.variables()) == list(vs), "the constraint's variables changed with a list the caller kept", con.variables(), vs)
    ctx.state(("fn", k, len(set(vs)), repr(type(result)), bool(got)))
