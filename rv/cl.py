"""Clusters: generators and a model (kind, centre, points) with the relations a cluster fixes, by enumeration."""
import itertools

from . import gen


def lib():
    import solver.geometric.cluster as c
    return c


class Model:
    def __init__(self, kind, pts, centre=None):
        self.kind, self.pts, self.centre = kind, frozenset(pts), centre

    def real(self, rng):
        """The real cluster, built from a list, tuple, set or iterator in random order, with repetitions."""
        C = lib()
        xs = [p for p in self.pts if not (self.kind == "Hedgehog" and p == self.centre)]
        rng.shuffle(xs)
        xs = [gen.twin_name(rng, x) for x in xs]
        if xs and rng.random() < .2:
            xs.append(rng.choice(xs))
        if self.kind == "Hedgehog" and rng.random() < .2:
            xs.append(gen.twin_name(rng, self.centre))
        shape = rng.choice([list, tuple, set, frozenset, iter, dict.fromkeys])
        self.given = shape(xs)
        if self.kind == "Hedgehog":
            return C.Hedgehog(gen.twin_name(rng, self.centre), self.given)
        return getattr(C, self.kind)(self.given)

    def distances(self):
        return {frozenset(c) for c in itertools.combinations(self.pts, 2)} if self.kind == "Rigid" else set()

    def angles(self):
        """{(vertex, frozenset of outer points)}"""
        if self.kind == "Hedgehog":
            return {(self.centre, frozenset(c)) for c in itertools.combinations(self.pts - {self.centre}, 2)}
        return {(v, frozenset(c)) for v in self.pts for c in itertools.combinations(self.pts - {v}, 2)}

    def __repr__(self):
        return "%s(%s%r)" % (self.kind, "" if self.kind != "Hedgehog" else "centre %r of " % (self.centre,), sorted(map(repr, self.pts)))


def intersection(a, b):
    """Model of the intersection (None: there is none)."""
    shared = a.pts & b.pts
    kinds = {a.kind, b.kind}
    if kinds == {"Rigid"}:
        return Model("Rigid", shared) if len(shared) >= 2 else None
    if "Hedgehog" not in kinds:
        return Model("Balloon", shared) if len(shared) >= 3 else None
    centres = [m.centre for m in (a, b) if m.kind == "Hedgehog"]
    c = centres[0]
    if any(x != c for x in centres) or c not in shared or len(shared - {c}) < 2:
        return None
    return Model("Hedgehog", shared, c)


def read(real):
    """Model of a real cluster."""
    C = lib()
    kind = "Rigid" if isinstance(real, C.Rigid) else "Balloon" if isinstance(real, C.Balloon) else "Hedgehog" if isinstance(real, C.Hedgehog) else type(real).__name__
    return Model(kind, real.vars, real.c_var if kind == "Hedgehog" else None)


def agree(ctx, real, model, what):
    if model is None:
        ctx.check(real is None, what + ": there should be none", real and read(real))
        return
    ctx.check(real is not None, what + ": none given", model)
    got = read(real)
    ctx.check(got.kind == model.kind and got.pts == model.pts and (got.kind != "Hedgehog" or got.centre == model.centre), what, "got", got, "expected", model)
    vl = list(real.var_list())
    ctx.check(len(vl) == len(set(vl)) and set(vl) == model.pts, what + ": var_list", vl)
    if got.kind == "Hedgehog":
        ctx.check(set(real.x_vars) == model.pts - {model.centre} and len(list(real.x_vars)) == len(model.pts) - 1, what + ": x_vars", real.x_vars)


def snapshot(real):
    return (type(real).__name__, frozenset(real.vars), getattr(real, "c_var", None), frozenset(getattr(real, "x_vars", ())), real.overconstrained,
            real.n_distances(), real.n_angles(), frozenset(real.var_list()), len(list(real.var_list())))


def random_model(rng, pool, kind=None, lo=0, hi=None):
    kind = kind or rng.choice(["Rigid", "Hedgehog", "Balloon"])
    need = 0 if kind == "Rigid" else 3
    hi = min(hi or len(pool), len(pool))
    n = rng.randint(min(max(need, lo), hi), hi)
    if rng.random() < .3:
        n = max(need, min(n, 4))
    pts = rng.sample(pool, n)
    return Model(kind, pts, pts[0] if kind == "Hedgehog" else None)


def random_pair(rng, pool):
    """Two models with a chosen overlap: few, many, or exactly minimal shared points; shared centres frequent."""
    a = random_model(rng, pool)
    kind = rng.choice(["Rigid", "Hedgehog", "Balloon"])
    need = 0 if kind == "Rigid" else 3
    k = rng.choice([0, 1, 2, 2, 3, 3, 4, len(a.pts)])
    shared = rng.sample(sorted(a.pts, key=repr), min(k, len(a.pts)))
    if a.kind == "Hedgehog" and rng.random() < .6 and a.centre not in shared:
        shared = [a.centre] + shared[1:]
    rest = [p for p in pool if p not in a.pts]
    extra = rng.sample(rest, min(len(rest), rng.choice([0, 1, 2, 4])))
    pts = list(dict.fromkeys(shared + extra))
    for p in rest + sorted(a.pts, key=repr):
        if len(pts) >= need:
            break
        if p not in pts:
            pts.append(p)
    centre = None
    if kind == "Hedgehog":
        centre = a.centre if a.kind == "Hedgehog" and a.centre in pts and rng.random() < .6 else rng.choice(pts)
    return a, Model(kind, pts, centre)
