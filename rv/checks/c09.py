"""Multi-valued methods in method graphs (chains, shared multi-variables, plain methods before and after) and called
directly. Every call of multi_execute is observed; after every operation each output is compared, as a set, with the
results over the product of the current values. Distinct states: shapes (positions of multi inputs, set sizes)."""
import collections
import itertools

from ..core import scenario, CaseTimeout, StepBudget, Abandoned
from .. import gen, mg

MOD = (1 << 31) - 1


def make_class():
    L = mg.lib()
    if "multi" not in mg._CLS:
        class FnMulti(L.MultiMethod):
            def __init__(self, tag, inputs, outputs, fn, sink):
                super().__init__("multi%s" % tag, inputs, outputs)
                self.tag, self.fn, self.sink = tag, fn, sink

            def multi_execute(self, inmap):
                values = [inmap[v] for v in self.inputs]
                self.sink(self, values)
                return self.fn(values)
        mg._CLS["multi"] = FnMulti
    return mg._CLS["multi"]


def digest(x):
    """Digest that is the same for values that are equal (1, True and 1.0 are one member of a set)."""
    if isinstance(x, (set, frozenset)):
        return sum(digest(y) for y in x) % MOD + 17
    if isinstance(x, (list, tuple)):
        h = 19
        for y in x:
            h = (h * 31 + digest(y)) % MOD
        return h
    if isinstance(x, (bool, int, float)):
        return hash(x) % MOD
    return mg.digest(x)


def make_fn(rng, k, spread, plenty=False):
    coefs = [rng.randint(1, MOD) for _ in range(k)]
    bias = rng.randint(0, MOD)
    style = rng.choice(["one", "one", "two", "many", "varying", "dups", "const", "mixed", "falsy", "singles", "nested"] + ["plenty"] * (plenty and rng.random() < .3))
    kind = rng.choice(["list", "list", "tuple", "set"])

    def fn(values):
        h = bias
        for c, v in zip(coefs, values):
            h = (h * 31 + c * digest(v)) % MOD
        n = {"singles": 2, "nested": 2, "one": 1, "two": 2, "many": 4, "varying": h % 4, "dups": 3, "const": 1, "mixed": 2, "falsy": 2, "plenty": 30}[style]
        res = []
        for i in range(n):
            x = (h * (2 * i + 3) + i) % MOD % spread
            if style == "dups":
                x = x // 2
            elif style == "const":
                x = bias % 5
            elif style == "mixed":
                x = [x, "s%d" % x, (x, i), None][(h + i) % 4]
            elif style == "singles":
                x = (x,)
            elif style == "nested":
                x = [frozenset([x]), ((x,),), (frozenset([x, x + 1]),), frozenset()][h % 4]
            elif style == "falsy":
                x = [0, "", (), False, None, x][(h + i) % 6]
            res.append(x)
        return res if kind == "list" else tuple(res) if kind == "tuple" else set(res)
    return fn


TWINS = [1, "1", 2, "2", 2.5, "2.5", (1,), "(1,)", ("1",), -1, -2, False, "False", b"1", "b'1'", "None", 1.5, "1.5"]


def scalar(rng):
    if rng.random() < .2:
        return rng.choice(TWINS)
    return rng.choice([rng.randint(-5, 5), rng.randint(-10 ** 9, 10 ** 9), 0, "", "ab", (1, 2), 2.5, False, frozenset([1])])


def multi_value(rng, top):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, top])
    xs = [scalar(rng) for _ in range(n)]
    if n and rng.random() < .15:       # different values of one text
        k = 2 * rng.randint(0, 2)
        xs[:2] = TWINS[k:k + 2]
    if rng.random() < .15:
        xs.append(None)
    kind = rng.choice(["set", "set", "list", "tuple", "frozenset", "dups"])
    if kind == "list":
        return xs
    if kind == "dups":
        return xs + xs[:2]
    if kind == "tuple":
        return tuple(xs)
    return set(xs) if kind == "set" else frozenset(xs)


def expected(m, vals):
    """All results over the product of the current values; None when an input has no value."""
    L = mg.lib()
    ins = [vals[v] for v in m.inputs]
    if any(x is None for x in ins):
        return None
    multi = []
    for v in m.inputs:
        if isinstance(v, L.MultiVariable) and v not in multi:
            multi.append(v)
    res = set()
    for combo in itertools.product(*[list(vals[v]) for v in multi]):
        env = dict(zip(multi, combo))
        res.update(m.fn([env[v] if v in env else vals[v] for v in m.inputs]))
    return res


def combos(m, vals, positions=False):
    """Number of combinations; with `positions`, as if every mention of a variable took its own value."""
    L = mg.lib()
    n = 1
    for v in m.inputs if positions else set(m.inputs):
        if isinstance(v, L.MultiVariable):
            n *= len(list(vals[v])) if vals[v] is not None else 0
    return n


class World:
    """A method graph mixing multi-valued and ordinary methods, with a model of every value."""

    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        rng = self.rng
        self.L = mg.lib()
        self.G = self.L.MethodGraph()
        self.vals = {}
        self.methods = []
        self.tag = 0
        self.calls = 0
        self.spread = rng.choice([3, 6, 12, 12, 10 ** 6])
        self.kept = []          # results read earlier, with their contents
        for v in gen.names(rng, rng.randint(1, 4)):
            self.add(v, scalar(rng))
        for _ in range(rng.randint(1, 3)):
            v = self.L.MultiVariable(rng.choice([None, "m", "m", 3, ("x",)]))
            self.add(v, multi_value(rng, 6))

    def add(self, v, value):
        self.ctx.log("add", v, value)
        self.G.add_variable(v, value)
        self.vals[v] = value

    def sink(self, m, values):
        self.calls += 1
        self.ctx.ev("multi_execute calls")

    def predict(self):
        """Values after propagation. The methods are kept in an order where producers come first."""
        vals = dict(self.vals)
        for m in self.methods:
            if isinstance(m, self.L.MultiMethod):
                vals[m.outputs[0]] = expected(m, vals)
            else:
                ins = [vals[v] for v in m.inputs]
                vals[m.outputs[0]] = None if any(x is None for x in ins) else mg.evaluate(m, ins)[m.outputs[0]]
        return vals

    def derived(self):
        return [v for m in self.methods for v in m.outputs]

    def new_multi(self):
        rng = self.rng
        k = rng.choice([0, 1, 2, 2, 3, 3, 4, 5])
        pool = list(self.vals)
        ins = [rng.choice(pool) for _ in range(k)] if rng.random() < .3 else rng.sample(pool, min(k, len(pool)))
        if sum(isinstance(v, self.L.MultiVariable) for v in ins) == 0 and rng.random() < .7:
            ins.append(rng.choice([v for v in pool if isinstance(v, self.L.MultiVariable)]))
            rng.shuffle(ins)
        out = self.L.MultiVariable(rng.choice([None, "out", "o%d" % self.tag]))
        self.tag += 1
        if rng.random() < .15 and len(ins) >= 2:
            m = self.L.SumProdMethod(ins[0], ins[1], out)
            m.fn = lambda values: [values[0] + values[1], values[0] * values[1]]
            for v in ins[:2]:       # numeric inputs only
                ok = lambda x: isinstance(x, int) and not isinstance(x, bool) and abs(x) < 10 ** 6
                val = self.vals[v]
                if v in self.derived() or not (all(ok(x) for x in val) if isinstance(v, self.L.MultiVariable) and val is not None else ok(val)):
                    return None
            self.numeric = getattr(self, "numeric", set()) | set(ins[:2])
            self.ctx.ev("SumProdMethod in a graph")
            return m
        given = [list(ins), [out]]
        m = make_class()(self.tag, given[0], given[1], make_fn(rng, len(ins), self.spread, len(ins) < 3), self.sink)
        for x in given:     # the lists belong to the caller, who goes on using them
            x.reverse()
            x.append("later")
        return m

    def op_add_multi(self):
        m = self.new_multi()
        if m is None:
            return
        self.methods.append(m)
        if self.too_big(80):
            self.methods.pop()
            return
        self.ctx.log("add multi", m.inputs, m.outputs)
        self.ctx.ev("multi methods with %d multi inputs" % min(3, len(set(v for v in m.inputs if isinstance(v, self.L.MultiVariable)))))
        self.bounded(self.G.add_method, m, prop=self.rng.random() < .8)

    def bounded(self, call, *args, **kwargs):
        """A propagation that may legitimately run along very many paths is not judged for taking long."""
        try:
            return call(*args, **kwargs)
        except (CaseTimeout, StepBudget):
            if mg.path_bound(self.methods) > 100:
                raise Abandoned("propagation along very many paths")
            raise

    def op_add_plain(self):
        rng = self.rng
        out = "plain%d" % self.tag
        self.tag += 1
        ins = rng.sample(list(self.vals), rng.choice([1, 1, 2]) if len(self.vals) > 1 else 1)
        k = rng.randint(1, 99)
        fn = lambda values: {0: digest(sorted((k * (i + 1) * digest(set(x) if isinstance(x, (list, tuple)) else x)) % MOD for i, x in enumerate(values))) % 5}

        class D:
            fired = []
            def on_execute(s, m, inmap):
                self.ctx.ev("plain executions")
        m = mg.fn_method_class()(self.tag, ins, [out], fn, D(), "small")
        self.ctx.log("add plain", ins, out)
        self.methods.append(m)
        self.vals.setdefault(out, None)
        self.bounded(self.G.add_method, m, prop=rng.random() < .8)

    def op_set(self):
        rng = self.rng
        base = [v for v in self.vals if v not in self.derived()]
        if not base:
            return
        v = rng.choice(base)
        if v in getattr(self, "numeric", ()):
            x = {rng.randint(-9, 9) for _ in range(3)} if isinstance(v, self.L.MultiVariable) else rng.randint(-9, 9)
        else:
            x = None if rng.random() < .08 else multi_value(rng, 6) if isinstance(v, self.L.MultiVariable) else scalar(rng)
        old = self.vals[v]
        self.vals[v] = x
        if self.too_big():
            self.vals[v] = old
            return
        self.ctx.log("set", v, x)
        self.bounded(self.G.set, v, x, prop=rng.random() < .8)

    def too_big(self, limit=150):
        vals = dict(self.vals)
        for m in self.methods:
            if isinstance(m, self.L.MultiMethod):
                if combos(m, vals, True) > limit:
                    return True
                vals[m.outputs[0]] = expected(m, vals)
            else:
                ins = [vals[v] for v in m.inputs]
                vals[m.outputs[0]] = None if any(x is None for x in ins) else mg.evaluate(m, ins)[m.outputs[0]]
        return False

    def op_remove(self):
        if self.methods and self.rng.random() < .3:
            m = self.rng.choice(self.methods)
            self.ctx.log("remove", m.inputs, m.outputs)
            self.methods.remove(m)
            self.vals[m.outputs[0]] = self.G.get(m.outputs[0])
            self.bounded(self.G.rem_method, m)

    def settle(self):
        self.bounded(self.G.propagate)
        want = self.predict()
        for v, w in want.items():
            got = self.G.get(v)
            m = [m for m in self.methods if v in m.outputs]
            if m and isinstance(m[0], self.L.MultiMethod):
                if w is None:
                    self.ctx.check(got is None, "multi output has a value though an input has none", v, got)
                    self.ctx.ev("outputs without value")
                else:
                    self.ctx.check(got is not None and all(gen_in(x, w) for x in got) and all(gen_in(x, list(got)) for x in w) and len(set(got)) == len(w),
                                   "the output is not the set of results over all combinations", "inputs %s" % [self.vals_now(u, want) for u in m[0].inputs],
                                   "got", got, "expected", w)
                    self.ctx.ev("combination sets compared")
                    self.keep(got)
                    self.ctx.ev("combinations covered", combos(m[0], want))
                    self.ctx.state((tuple(isinstance(u, self.L.MultiVariable) for u in m[0].inputs), tuple(len(list(want[u])) if isinstance(u, self.L.MultiVariable) else -1 for u in m[0].inputs), len(w)))
            else:
                self.ctx.check(gen.same(got, w), "value of an ordinary variable differs", v, got, w)
            self.vals[v] = got
        for x, was in self.kept:
            self.ctx.check(collections.Counter(x) == was, "a result read earlier has changed", x, was)
            self.ctx.ev("earlier results looked at again")
        if self.rng.random() < .5:
            for v in self.derived():
                self.vals[v] = None     # derived values are never taken from the model's memory

    def keep(self, x):
        if not any(x is y for y, _ in self.kept):
            self.kept = self.kept[-15:] + [(x, collections.Counter(x))]

    def vals_now(self, u, want):
        return (u, want[u])


def gen_in(x, ys):
    return x in ys


@scenario("C09", 3000, required=["combination sets compared", "multi methods with 3 multi inputs", "multi methods with 0 multi inputs", "SumProdMethod in a graph", "outputs without value", "earlier results looked at again"])
def graphs(ctx):
    w = World(ctx)
    for m in range(ctx.rng.randint(1, 3)):
        w.op_add_multi()
        w.settle()
    for _ in range(gen.size(ctx.rng, (4, 20))):
        op = ctx.rng.choice([w.op_set, w.op_set, w.op_set, w.op_add_multi, w.op_add_plain, w.op_remove])
        op()
        for v in w.derived():
            w.vals.setdefault(v, None)
        w.settle()


@scenario("C09", 4000, required=["direct calls", "results kept over another execution"])
def direct(ctx):
    """execute() called with a mapping, as the method graph does, with the previous output in it or not."""
    rng = ctx.rng
    L = mg.lib()
    k = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6])
    names = gen.names(rng, 6)
    multis = [L.MultiVariable(rng.choice([None, "a"])) for _ in range(3)]
    mask = [rng.random() < .5 for _ in range(k)]
    ins = [rng.choice(multis if b else names) for b in mask] if rng.random() < .3 else \
        [(L.MultiVariable(i) if b else names[i]) for i, b in enumerate(mask)]
    inmap = {}
    total = 1
    for v in ins:
        if isinstance(v, L.MultiVariable):
            x = inmap[v] if v in inmap else multi_value(rng, 30 if total < 30 else 5)
            if v not in inmap and total * len(x) > 300 or len(x) ** ins.count(v) > 1000:
                x = type(x)(list(x)[:1])
            total *= max(1, len(x))
            inmap[v] = x
        else:
            inmap.setdefault(v, scalar(rng))
    out = L.MultiVariable("o")
    seen = []
    m = make_class()(0, ins, [out], make_fn(rng, k, rng.choice([4, 50, 10 ** 6]), True), lambda me, values: seen.append(values))
    if rng.random() < .5:
        inmap[out] = rng.choice([None, {1, 2}, set()])
    before = dict(inmap)
    copies = {v: list(x) for v, x in inmap.items() if isinstance(v, L.MultiVariable) and x is not None}
    for again in range(rng.choice([1, 2])):
        seen.clear()
        ctx.log("execute", ins, inmap)
        got = m.execute(inmap)
        ctx.ev("direct calls")
        want = expected(m, before)
        ctx.check(list(got) == [out], "execute returns other outputs than its own", got)
        ctx.check(set(got[out]) == want, "wrong set of results", "got", got[out], "expected", want)
        if rng.random() < .3 and multis_only(ins, L):     # the same method asked about other values: the answer given before stays as it was
            less = {v: x if not isinstance(v, L.MultiVariable) else list(x)[:-1] for v, x in before.items() if v != out}
            other = m.execute(less)
            ctx.check(set(other[out]) == expected(m, less), "wrong set of results for other values of the inputs", other[out])
            ctx.check(set(got[out]) == want, "a result given before changed when the method was executed again", got[out], want)
            ctx.ev("results kept over another execution")
            seen.clear()
            got = m.execute(inmap)
        ctx.ev("multi_execute calls", len(seen))
        # every combination was really tried, and nothing else
        multi = list(dict.fromkeys(v for v in ins if isinstance(v, L.MultiVariable)))
        tried = {tuple(map(key, s)) for s in seen}
        should = set()
        for combo in itertools.product(*[list(before[v]) for v in multi]):
            env = dict(zip(multi, combo))
            should.add(tuple(key(env[v] if v in env else before[v]) for v in ins))
        ctx.check(tried == should, "combinations tried differ from the product of the values", "missing", list(should - tried)[:3], "extra", list(tried - should)[:3])
        ctx.check(list(inmap) == list(before) and all(inmap[v] is before[v] for v in before) and all(list(inmap[v]) == c for v, c in copies.items()),
                  "execute changed the mapping it was given", inmap, before)
    ctx.state((tuple(isinstance(v, L.MultiVariable) for v in ins), tuple(sorted(len(c) for c in copies.values())), len(want)))


def multis_only(ins, L):
    return any(isinstance(v, L.MultiVariable) for v in ins)


def key(x):
    return (type(x).__name__ if not isinstance(x, (bool, int, float)) else "n", x)


@scenario("C09", 800, required=["sum-product graphs"])
def sumprod(ctx):
    """SumProdMethod chains, with multi-variables as first, second, both (the same) or no input."""
    rng = ctx.rng
    L = mg.lib()
    G = L.MethodGraph()
    n = rng.randint(1, 4)
    vars_, vals = [], {}
    for i in range(rng.randint(2, 4)):
        v = L.MultiVariable("in%d" % i) if rng.random() < .6 else "s%d" % i
        vals[v] = {rng.randint(-6, 6) for _ in range(rng.choice([0, 1, 2, 3, 4]))} if isinstance(v, L.MultiVariable) else rng.randint(-6, 6)
        vars_.append(v)
        G.add_variable(v, vals[v])
    base = list(vars_)
    ms = []
    def value(v):
        for m in ms:
            if m.outputs[0] is v:
                a, b = value(m.inputs[0]), value(m.inputs[1])
                A = a if isinstance(m.inputs[0], L.MultiVariable) else [a]
                B = b if isinstance(m.inputs[1], L.MultiVariable) else [b]
                if m.inputs[0] is m.inputs[1]:
                    return {f for x in A for f in (x + x, x * x)}
                return {f for x in A for y in B for f in (x + y, x * y)}
        return vals[v]
    for i in range(n):
        a, b = rng.choice(vars_), rng.choice(vars_)
        la = len(value(a)) if isinstance(a, L.MultiVariable) else 1
        lb = len(value(b)) if isinstance(b, L.MultiVariable) else 1
        if la * lb > 300:
            continue
        out = L.MultiVariable()
        m = L.SumProdMethod(a, b, out)
        ctx.log("sumprod", a, b, out)
        ms.append(m)
        G.add_method(m)
        vars_.append(out)
    for _ in range(rng.randint(1, 5)):
        for m in ms:
            got, want = G.get(m.outputs[0]), value(m.outputs[0])
            ctx.check(set(got) == set(want), "sum-product output", m.inputs, got, want)
            ctx.ev("sum-product graphs")
            ctx.state(("sp", [isinstance(v, L.MultiVariable) for v in m.inputs], len(want)))
        v = rng.choice(base)
        new = {rng.randint(-6, 6) for _ in range(rng.choice([0, 1, 2, 3]))} if isinstance(v, L.MultiVariable) else rng.randint(-6, 6)
        ctx.log("set", v, new)
        vals[v] = new
        G.set(v, new)


@scenario("C09", 400, required=["refused constructions"])
def refused(ctx):
    rng = ctx.rng
    L = mg.lib()
    mv = lambda: L.MultiVariable(rng.choice([None, "q"]))
    one = mv()
    bad = [[one, one], [], ["x"], [mv(), mv()], ["x", mv()], [mv(), "x"], [mv(), mv(), mv()], ["MultiVariable(x)"], [None], [0]]
    ins = [rng.choice([mv(), "a", 1]) for _ in range(rng.randint(0, 3))]
    for outs in bad:
        ctx.log("construct", ins, outs)
        ctx.raises(make_class(), 0, ins, outs, None, None)
        ctx.ev("refused constructions")
    ctx.raises(L.SumProdMethod, "a", mv(), rng.choice(["x", 0, None]))
    class Sub(L.MultiVariable):
        pass
    one = rng.choice([mv(), Sub("s")])
    m = make_class()(0, ins, (one,) if rng.random() < .5 else [one], make_fn(rng, len(ins), 3), lambda *a: None)
    ctx.check(list(m.outputs) == [one] and list(m.inputs) == ins, "inputs or outputs of an accepted method differ")
    ctx.state(len(ins))


@scenario("C09", 40, required=["large products"])
def large_products(ctx):
    """Thousands of combinations: a few inputs of many values, or many inputs of a few."""
    rng = ctx.rng
    L = mg.lib()
    sizes = rng.choice([[rng.randint(900, 2500)], [40, 50], [rng.randint(60, 90), rng.randint(20, 40)], [12, 12, 12], [7, 7, 7, 7], [3] * 7, [2] * 11, [2] * 10 + [1], [1] * 12])
    rng.shuffle(sizes)
    ins = [L.MultiVariable(rng.choice([None, "m"])) for _ in sizes]
    vals = {v: rng.choice([set, list, tuple])(rng.sample(range(10 ** 6), n)) for v, n in zip(ins, sizes)}
    for k in range(rng.randint(0, 2)):
        s = "single%d" % k
        vals[s] = rng.randint(0, 9)
        ins.insert(rng.randint(0, len(ins)), s)
    out = L.MultiVariable("out")
    seen = []
    m = make_class()(0, ins, [out], lambda values: [tuple(values)], lambda me, values: seen.append(tuple(values)))
    should = set(itertools.product(*[list(vals[v]) if isinstance(v, L.MultiVariable) else [vals[v]] for v in ins]))
    if rng.random() < .5:
        got = m.execute(dict(vals))[out]
    else:
        G = L.MethodGraph()
        for v, x in vals.items():
            G.add_variable(v, x)
        G.add_method(m)
        got = G.get(out)
    ctx.check(set(seen) == should, "combinations tried in a large product", len(set(seen)), len(should))
    ctx.check(set(got) == should and len(list(got)) == len(should), "results of a large product", len(list(got)), len(should))
    ctx.ev("large products")
    ctx.ev("combinations covered", len(should))
    ctx.state(("large", tuple(sorted(sizes)), len(ins)))
