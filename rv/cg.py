"""Workload and oracle for constraint graphs: a set model of the live constraints."""
from . import gen


def lib():
    import solver.geometric.constraint as c
    return c


class Driver:
    def __init__(self, ctx, n=None, removal=.25):
        self.ctx, self.rng, self.C = ctx, ctx.rng, lib()
        rng = ctx.rng
        self.G = self.C.ConstraintGraph()
        self.pool = gen.names(rng, n or gen.size(rng, (2, 8), (9, 20), (40, 60)))
        self.vars = {}
        self.cons = {}          # constraint -> list of variables
        self.dead = []
        self.weights = {"addvar": 1, "add": 5, "rem_constraint": 12 * removal, "rem_variable": 8 * removal, "again": .5, "readd": 3 * removal, "absent": .7}
        self.density = rng.choice([1, 1, .4, .1])
        self.last = rng.random() < .5

    def make(self):
        rng, C = self.rng, self.C
        kind = rng.choice(["plus", "plus", "fn", "notcw", "notccw", "notobtuse", "notacute", "user", "value", "named"])
        if kind in ("user", "value", "named", "fn"):
            k = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
        else:
            k = 3
        vs = [rng.choice(self.pool) for _ in range(k)] if rng.random() < .15 else rng.sample(self.pool, min(k, len(self.pool)))
        while len(vs) < k and kind not in ("fn", "user", "value", "named"):
            vs.append(rng.choice(self.pool))
        if kind == "plus":
            c = C.PlusConstraint(*vs)
        elif kind == "fn":
            c = C.FunctionConstraint(lambda *a: True, vs)
        elif kind == "user":
            c = user_class()(vs)
        elif kind == "named":
            c = user_class("p")(vs)
            self.ctx.check(list(c.variables()) == list(vs) and isinstance(c.variables(), list), "variables of a constraint that names them", c.variables(), vs)
        elif kind == "value":
            c = user_class("v")(vs)
        else:
            c = {"notcw": C.NotClockwiseConstraint, "notccw": C.NotCounterClockwiseConstraint,
                 "notobtuse": C.NotObtuseConstraint, "notacute": C.NotAcuteConstraint}[kind](*vs)
        self.ctx.ev("constraint kind " + kind)
        return c, vs

    def step(self):
        op = self.rng.choices(list(self.weights), list(self.weights.values()))[0]
        getattr(self, "op_" + op)()
        self.ctx.ev("cg." + op)
        if self.rng.random() < self.density:
            self.observe("after " + op)

    def op_addvar(self):
        v = gen.twin_name(self.rng, self.rng.choice(self.pool))
        self.ctx.log("add_variable", v)
        self.vars.setdefault(v)
        self.G.add_variable(v)

    def op_add(self):
        c, vs = self.make()
        self.add(c, vs)

    def add(self, c, vs):
        self.ctx.log("add_constraint", type(c).__name__, vs)
        if c in self.cons:
            self.ctx.ev("equal constraints added")
        self.cons.setdefault(c, vs)
        for v in vs:
            self.vars.setdefault(v)
        self.G.add_constraint(c)

    def op_again(self):
        if self.cons:
            c = self.rng.choice(list(self.cons))
            self.ctx.log("add_constraint again", self.cons[c])
            self.G.add_constraint(self.equal(c))

    def equal(self, c):
        """The constraint itself, or another one equal to it by value."""
        if isinstance(c, user_class("v")) and self.rng.random() < .7:
            self.ctx.ev("equal constraints used")
            return type(c)(c.vs)
        return c

    def op_readd(self):
        if self.dead:
            c, vs = self.dead.pop(self.rng.randrange(len(self.dead)))
            self.ctx.ev("constraints added again after removal")
            self.add(c, vs)

    def op_rem_constraint(self):
        if self.cons:
            c = self.rng.choice(list(self.cons))
            self.ctx.log("rem_constraint", self.cons[c])
            self.dead.append((c, self.cons.pop(c)))
            self.G.rem_constraint(self.equal(c))

    def op_rem_variable(self):
        if self.vars:
            v = self.rng.choice(list(self.vars))
            self.ctx.log("rem_variable", v)
            del self.vars[v]
            for c in [c for c, vs in self.cons.items() if v in vs]:
                self.dead.append((c, self.cons.pop(c)))
            self.G.rem_variable(gen.twin_name(self.rng, v))

    def op_absent(self):
        """Removing what is not there changes nothing (it only logs a warning)."""
        if self.rng.random() < .5:
            v = self.rng.choice([u for u in self.pool if u not in self.vars] + ["no such variable"])
            self.ctx.log("rem_variable absent", v)
            self.G.rem_variable(v)
        else:
            c, vs = self.rng.choice(self.dead) if self.dead and self.rng.random() < .7 else self.make()
            if c in self.cons:
                return
            self.ctx.log("rem_constraint absent", vs)
            self.G.rem_constraint(c)

    def same(self, got, want, what):
        got = list(got)
        self.ctx.check(len(got) == len(want) and all(any(a is b for b in got) for a in want), what, "got", got, "expected", want, mech="cg query")

    def observe(self, when):
        ctx, G, rng = self.ctx, self.G, self.rng
        got = list(G.variables())
        ctx.check(len(got) == len(self.vars) and set(got) == set(self.vars), "variables() differs from the history " + when, got, list(self.vars))
        self.same(G.constraints(), list(self.cons), "constraints() differs from the history " + when)
        for v in (self.pool if len(self.pool) <= 12 else rng.sample(self.pool, 12)):
            self.same(G.get_constraints_on(v), [c for c, vs in self.cons.items() if v in vs], "constraints on %r wrong %s" % (v, when))
        for _ in range(4):
            k = rng.choice([0, 1, 2, 2, 3, 3, 4])
            q = [gen.twin_name(rng, rng.choice(self.pool)) for _ in range(k)]
            if self.cons and rng.random() < .6:
                vs = rng.choice(list(self.cons.values()))
                q = rng.sample(vs, min(len(vs), k)) if k else q
            if rng.random() < .3:
                q = tuple(q)
            want_all = [c for c, vs in self.cons.items() if q and all(v in vs for v in q)]
            want_any = [c for c, vs in self.cons.items() if any(v in vs for v in q)]
            self.same(G.get_constraints_on_all(q), want_all, "constraints on all of %r wrong %s" % (q, when))
            self.same(G.get_constraints_on_any(q), want_any, "constraints on any of %r wrong %s" % (q, when))
            ctx.ev("queries on several variables")
            if want_all and len(set(q)) > 1:
                ctx.ev("non-empty shared constraints")
        for c, vs in list(self.cons.items())[:5]:
            ctx.check(list(c.variables()) == vs, "a constraint reports other variables than it was given", list(c.variables()), vs)
        ctx.ev("constraint graphs compared")
        if len(self.cons) <= 8:
            idx = {v: i for i, v in enumerate(self.vars)}
            ctx.state(("cg", len(idx), sorted(tuple(idx[v] for v in vs) for vs in self.cons.values())))


_U = {}


def user_class(kind="u"):
    if not _U:
        C = lib()

        class UserConstraint(C.Constraint):
            """A user's own constraint that overrides variables()."""
            def __init__(self, vs):
                self.vs = tuple(vs)

            def variables(self):
                return list(self.vs)

            def satisfied(self, mapping):
                return True

            def __str__(self):
                return "User%s" % (self.vs,)

        class ValueConstraint(UserConstraint):
            """A user's own constraint that is equal to others on the same variables."""
            def __eq__(self, other):
                return isinstance(other, ValueConstraint) and self.vs == other.vs

            def __hash__(self):
                return hash(self.vs)

        class PlainConstraint(C.Constraint):
            """A user's own constraint that only names its variables."""
            def __init__(self, vs):
                self._variables = tuple(vs) if len(vs) % 2 else list(vs)

            def satisfied(self, mapping):
                return True

            def __str__(self):
                return "Plain(%s)" % ", ".join(map(str, self.variables()))
        _U["u"], _U["v"], _U["p"] = UserConstraint, ValueConstraint, PlainConstraint
    return _U[kind]
