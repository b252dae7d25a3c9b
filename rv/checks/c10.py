"""Built-in methods called directly (with read-only mappings too) and inside method graphs, over value types with
non-commutative, in-place-capable and falsy operands. Distinct states: (method, operand types, presence of inputs)."""
import collections
import copy
import datetime
import decimal
import fractions
import types

from ..core import scenario
from .. import gen, mg


class Rec:
    """Records on which side it was used; equality by content."""
    def __init__(self, tag):
        self.tag = tag

    def __add__(self, o):
        return Rec(("add", self.tag, getattr(o, "tag", o)))

    def __radd__(self, o):
        return Rec(("radd", o, self.tag))

    def __sub__(self, o):
        return Rec(("sub", self.tag, getattr(o, "tag", o)))

    def __rsub__(self, o):
        return Rec(("rsub", o, self.tag))

    def __iadd__(self, o):
        self.tag = ("changed in place",)
        return self

    __isub__ = __iadd__

    def __bool__(self):
        return False

    def __eq__(self, o):
        return isinstance(o, Rec) and o.tag == self.tag

    __hash__ = None

    def __repr__(self):
        return "Rec(%s)" % (self.tag,)


def pair(rng, sub):
    """Two operands for which a+b (and a-b when sub) is defined."""
    import numpy as np
    from solver.geometry import Vector
    I = lambda: rng.choice([0, 0, 1, -1, rng.randint(-9, 9), rng.randint(-10 ** 30, 10 ** 30)])
    F = lambda: rng.choice([0.0, -0.0, 1.5, rng.uniform(-10, 10), 1e300, 5e-324, rng.uniform(-1, 1) * 1e-9])
    kinds = ["int", "float", "mix", "frac", "dec", "complex", "bool", "vec", "vecnum", "nd", "delta", "rec", "recint", "npfloat", "date"]
    kinds += ["set", "fset"] if sub else ["str", "list", "tuple", "bytes", "str", "list", "bytearray"]
    k = rng.choice(kinds)
    L = lambda: [rng.randint(0, 3) for _ in range(rng.choice([0, 1, 3]))]
    if k == "int":
        return k, I(), I()
    if k == "float":
        a = F()
        if rng.random() < .3:       # nearly equal, nearly opposite
            return k, a, rng.choice([1, -1]) * a * (1 + rng.choice([1, -1, 3, 1000]) * 2.0 ** -rng.randint(20, 52))
        return k, a, F()
    if k == "mix":
        return k, I() % 10 ** 15, F()
    if k == "frac":
        return k, fractions.Fraction(I() % 100, 7), fractions.Fraction(I() % 50, 3)
    if k == "dec":
        return k, decimal.Decimal(rng.randint(-99, 99)) / 8, decimal.Decimal(rng.randint(-9, 9))
    if k == "complex":
        return k, complex(F(), F()), complex(I() % 100, 1)
    if k == "bool":
        return k, rng.random() < .5, rng.random() < .5
    if k == "vec":
        return k, Vector(F() % 1000, F() % 7), rng.choice([Vector(0, 0), Vector(rng.uniform(-5, 5), 1)])
    if k == "vecnum":
        return k, Vector(rng.uniform(-5, 5), rng.uniform(-5, 5)), rng.randint(-4, 4)
    if k == "nd":
        s = rng.choice([(1,), (3,), (2, 2), (0,)])
        a, b = np.zeros(s), np.zeros(s)
        if rng.random() < .8:
            a = a + rng.randint(-4, 4)
        if rng.random() < .8:
            b = b + rng.randint(-4, 4)
        return k, a, b
    if k == "npfloat":
        return k, np.float64(rng.uniform(-5, 5)), rng.choice([np.float64(0), np.int64(3), 2])
    if k == "delta":
        return k, datetime.timedelta(rng.randint(0, 3)), datetime.timedelta(seconds=rng.randint(0, 99))
    if k == "date":
        return k, datetime.datetime(2020, 1, 1), datetime.timedelta(rng.randint(0, 3))
    if k == "rec":
        return k, Rec("a"), Rec("b")
    if k == "recint":
        o = rng.choice([3, 2.5, 1j, True, "t", (1,), [2], b"x", fractions.Fraction(1, 3), decimal.Decimal(2), 10 ** 30, 0, 0.0, {}, frozenset()])
        return (k, Rec("a"), o) if rng.random() < .5 else (k, o, Rec("b"))
    if k == "set":
        return k, set(L()), set(L())
    if k == "fset":
        return k, frozenset(L()), set(L())
    if k == "str":
        s = lambda: rng.choice(["", "a", "None", "xyz"])
        return k, s(), s()
    if k == "bytes":
        return k, b"x" * rng.randint(0, 2), b"yy" * rng.randint(0, 1)
    if k == "bytearray":
        return k, bytearray(b"x" * rng.randint(0, 2)), bytearray(b"q")
    if k == "list":
        return k, L(), L()
    return k, tuple(L()), tuple(L())


def anything(rng):
    r = rng.random()
    if r < .6:
        k, a, b = pair(rng, rng.random() < .5)
        return rng.choice([a, b])
    return rng.choice([None, 0, "", [], {}, {"a": [1]}, object, gen.Ident("v"), float("inf"), lambda: 1, Ellipsis, NotImplemented, range(3), {1: None}])


def eq(a, b):
    if isinstance(a, Rec) or isinstance(b, Rec):
        return a == b
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if type(a) is not type(b):
        return False
    return gen.same(a, b)


def snapshot(x):
    try:
        return copy.deepcopy(x)
    except Exception:       # noqa: BLE001
        return x


def call(ctx, m, inmap, what):
    """Execute and check that the mapping and the operands are untouched."""
    keys, vals = list(inmap), [inmap[k] for k in inmap]
    snaps = [snapshot(v) for v in vals]
    given = types.MappingProxyType(inmap) if ctx.rng.random() < .3 else inmap
    out = m.execute(given)
    ctx.check(isinstance(out, dict) or hasattr(out, "keys"), "execute did not return a mapping", out)
    ctx.check(list(inmap) == keys and all(inmap[k] is v for k, v in zip(keys, vals)), what + " changed the mapping it was given", inmap)
    for v, s in zip(vals, snaps):
        ctx.check(v is s or eq(v, s) or callable(v) or type(v) is gen.Ident, what + " changed an input value", v, s)
    ctx.ev("executions of " + what)
    return out


def no_result(ctx, out, c, what):
    ctx.check(all(k == c for k in out) and out.get(c) is None, what + " gave a result though an input has no value", out)
    ctx.ev("executions without a result")


@scenario("C10", 8000, required=["executions of AddMethod", "executions of SubMethod", "executions without a result"])
def arithmetic(ctx):
    rng = ctx.rng
    L = mg.lib()
    sub = rng.random() < .5
    cls, what = (L.SubMethod, "SubMethod") if sub else (L.AddMethod, "AddMethod")
    a, b, c, other = gen.names(rng, 4)
    shape = rng.choice(["abc", "abc", "abc", "aac", "aba", "abb", "twin"])
    if shape == "aac":
        b = a
    elif shape == "aba":
        c = a
    elif shape == "abb":
        c = b
    m = cls(a, b, c)
    ctx.check(list(m.inputs) == [a, b] and list(m.outputs) == [c], "inputs and outputs", m.inputs, m.outputs)
    kind, x, y = pair(rng, sub)
    if b == a:
        x = y
        try:
            x - y if sub else x + y
        except TypeError:
            return
    inmap = collections.OrderedDict() if rng.random() < .2 else {}
    items = [(a, x), (b, y)]
    rng.shuffle(items)
    for k, v in items:
        inmap[k] = v
    if c not in inmap and rng.random() < .5:
        inmap[c] = rng.choice([None, 5, "old"])
    if rng.random() < .3:
        inmap[other] = rng.choice([None, 7])
    for _ in range(rng.choice([1, 1, 2])):
        want = snapshot(x) - snapshot(y) if sub else snapshot(x) + snapshot(y)
        ctx.log(what, a, b, c, x, y)
        out = call(ctx, m, inmap, what)
        ctx.check(list(out) == [c] and eq(out[c], want), what + " computed something else", "inputs", x, y, "got", out, "expected", want)
    if isinstance(out[c], (list, bytearray, set)) or type(out[c]).__name__ == "ndarray":
        ctx.check(out[c] is not x and out[c] is not y, what + " returned one of its operands", out)
    ctx.state((what, kind, shape, type(x).__name__, type(y).__name__, bool(out) and c in inmap))
    # missing and None inputs
    for how in ("missing a", "missing b", "None a", "None b", "both None", "empty"):
        im = dict(inmap)
        for k in ([a] if how.endswith(" a") else [b] if how.endswith(" b") else [a, b]):
            if how.startswith("missing") or how == "empty":
                im.pop(k, None)
            else:
                im[k] = None
        no_result(ctx, call(ctx, m, im, what), c, what)


@scenario("C10", 4000, required=["executions of SetMethod", "executions of AssignMethod"])
def set_and_assign(ctx):
    rng = ctx.rng
    L = mg.lib()
    a, b, other = gen.names(rng, 3)
    value = anything(rng)
    m = L.SetMethod(a, value)
    ctx.check(list(m.inputs) == [] and list(m.outputs) == [a], "SetMethod inputs and outputs", m.inputs, m.outputs)
    snap = snapshot(value)
    for im in ({}, {a: None}, {a: "old", other: 3}, {b: value}):
        ctx.log("SetMethod", a, value, im)
        out = call(ctx, m, im, "SetMethod")
        if value is None:
            no_result(ctx, out, a, "SetMethod")
        else:
            ctx.check(list(out) == [a] and out[a] is value or eq(out[a], snap), "SetMethod gives another value", out, value)
    m = L.AssignMethod(a, b)
    ctx.check(list(m.inputs) == [b] and list(m.outputs) == [a], "AssignMethod inputs and outputs", m.inputs, m.outputs)
    for im in ({b: value}, {b: value, a: "old"}, {a: None, b: value, other: 1}):
        ctx.log("AssignMethod", a, b, im)
        out = call(ctx, m, im, "AssignMethod")
        if value is None:
            no_result(ctx, out, a, "AssignMethod")
        else:
            ctx.check(list(out) == [a] and (out[a] is value or eq(out[a], snap)), "AssignMethod gives another value", out, value)
    for im in ({}, {a: 5}, {other: 5}, {b: None}, {b: None, a: 4}):
        no_result(ctx, call(ctx, m, im, "AssignMethod"), a, "AssignMethod")
    ctx.state(("set", type(value).__name__, type(a).__name__))


@scenario("C10", 3000, required=["values compared in graphs", "graph values None"])
def in_graph(ctx):
    """A random acyclic graph of built-in methods only, with values of one additive type at a time."""
    rng = ctx.rng
    L = mg.lib()
    G = L.MethodGraph()
    kind = rng.choice(["int", "float", "vec", "nd", "frac", "rec", "str", "list"])
    sub = kind not in ("str", "list")
    import numpy as np
    from solver.geometry import Vector

    def value():
        r = rng.randint(-9, 9) if rng.random() < .8 else 0
        return {"int": r, "float": r / 4, "vec": Vector(r, -r), "nd": np.array([r, 0]), "frac": fractions.Fraction(r, 3), "rec": Rec(r),
                "str": "x" * abs(r), "list": [r][:abs(r)]}[kind]
    names = gen.names(rng, rng.randint(3, 12))
    nbase = rng.randint(1, max(1, len(names) // 2))
    vals, ms = {}, []
    for v in names[:nbase]:
        vals[v] = None if rng.random() < .1 else value()
        G.add_variable(v, vals[v])
    avail = list(names[:nbase])
    for out in names[nbase:]:
        k = rng.choice(["add", "add", "sub", "sub", "assign", "set"] if sub else ["add", "add", "assign", "set"])
        if k == "set":
            x = value()
            m = L.SetMethod(out, x)
            f = lambda env, x=x: x
        elif k == "assign":
            i = rng.choice(avail)
            m = L.AssignMethod(out, i)
            f = lambda env, i=i: env[i]
        else:
            i, j = rng.choice(avail), rng.choice(avail)
            if kind == "str" or kind == "list":     # keep lengths down
                i = rng.choice(names[:nbase])
            m = (L.AddMethod if k == "add" else L.SubMethod)(i, j, out)
            f = lambda env, i=i, j=j, k=k: None if env[i] is None or env[j] is None else (snapshot(env[i]) + snapshot(env[j]) if k == "add" else snapshot(env[i]) - snapshot(env[j]))
        ctx.log(k, m.inputs, m.outputs)
        ms.append((out, f, k))
        avail.append(out)
        G.add_method(m, prop=rng.random() < .8)
    G.propagate()
    for _ in range(rng.randint(1, 4)):
        env = dict(vals)
        for out, f, k in ms:
            env[out] = f(env)
        for v in names:
            got = G.get(v)
            if env[v] is None:
                ctx.check(got is None, "a method gave a result though an input has no value", v, got)
                ctx.ev("graph values None")
            else:
                ctx.check(got is not None and eq(got, env[v]), "value computed by built-in methods differs", v, "got", got, "expected", env[v])
                ctx.ev("values compared in graphs")
        ctx.state((kind, tuple(k for _, _, k in ms)[:4], sum(x is None for x in env.values())))
        v = rng.choice(names[:nbase])
        vals[v] = None if rng.random() < .15 else value()
        ctx.log("set", v, vals[v])
        G.set(v, vals[v])
