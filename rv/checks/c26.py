"""Vectors: every operator with a vector, number, integer, fraction, boolean or numpy scalar as the other operand; dot, length,
azimuth and rotation; every accepted and refused way of constructing one; access; comparisons and sign tests; all against
plain float and complex arithmetic, at magnitudes 1e-100..1e100. Distinct states: (operation, operand kinds, signs, magnitude)."""
import cmath
import math
import operator
from fractions import Fraction as Q

from ..core import scenario
from .. import gen, geo

SMALL = [0.0, -0.0, 1.0, -1.0, .5, 2.0, 3.0, -4.0, 10.0]


def num(rng, lo=1e-100, hi=1e100):
    r = rng.random()
    if r < .3:
        return rng.choice(SMALL)
    if r < .6:
        return rng.uniform(-1e3, 1e3)
    if r < .7:
        return float(rng.randint(-10 ** 6, 10 ** 6))
    return rng.choice([1, -1]) * gen.logu(rng, lo, hi)


def sg(x):
    return (x > 0) - (x < 0)


def mg(x):
    return 0 if x == 0 else int(math.log10(abs(x)) // 10)


def eqf(a, b):
    return a == b and type(a) is float


@scenario("C26", 16000, required=["vector operand", "number operand", "division by zero refused"])
def arithmetic(ctx):
    g, rng = geo.lib(), ctx.rng
    x, y = num(rng), num(rng)
    v = g.Vector(x, y)
    kind = rng.choice(["vector", "vector", "float", "int", "fraction", "bool", "numpy", "itself"])
    a, b = num(rng), num(rng)
    if kind == "vector":
        o = g.Vector(a, b)
    elif kind == "itself":
        o, a, b = v, x, y
    else:
        o = {"float": a, "int": rng.randint(-50, 50), "fraction": float(Q(rng.randint(-9, 9), 4)), "bool": rng.random() < .5, "numpy": None}[kind]
        if kind == "numpy":
            import numpy
            o = numpy.float64(a)
        a = b = float(o)
    ctx.log("arithmetic", (x, y), kind, (a, b))
    for name, op in (("sum", operator.add), ("difference", operator.sub), ("product", operator.mul), ("quotient", operator.truediv)):
        if name == "quotient" and (a == 0 or b == 0):
            if kind != "numpy":
                e = ctx.raises(op, v, o)
                ctx.check(isinstance(e, ZeroDivisionError), "division by zero", e)
                ctx.ev("division by zero refused")
            continue
        r = op(v, o)
        ctx.check(type(r) is g.Vector and eqf(r.x, op(x, a)) and eqf(r.y, op(y, b)), "%s with %s operand" % (name, kind), (x, y), (a, b), r.elements)
        w = g.Vector(x, y)
        ident = w
        w = {"sum": operator.iadd, "difference": operator.isub, "product": operator.imul, "quotient": operator.itruediv}[name](w, o if o is not v else g.Vector(v))
        ctx.check(w.x == r.x and w.y == r.y, "%s in place" % name, w.elements)
        ctx.check(w is not ident and ident.x == x and ident.y == y, "%s in place changes a vector others may hold" % name, ident.elements)
    n = -v
    ctx.check(type(n) is g.Vector and n.x == -x and n.y == -y, "negation", n.elements)
    ctx.check((v.x, v.y) == (x, y) and (kind in ("vector", "itself")) <= ((getattr(o, "x", a), getattr(o, "y", b)) == (a, b)), "arithmetic changes an operand")
    ctx.ev("vector operand" if kind in ("vector", "itself") else "number operand")
    ctx.state(("arithmetic", kind, sg(x), sg(y), sg(a), sg(b), mg(x), mg(a)))


@scenario("C26", 16000, required=["length", "azimuth", "rotation", "quarter turns"])
def metric(ctx):
    g, rng = geo.lib(), ctx.rng
    if rng.random() < .5:
        s = gen.logu(rng, 1e-100, 1e100)
        x, y = rng.uniform(-s, s), rng.uniform(-s, s)
    else:
        x, y = num(rng), num(rng)
    if rng.random() < .1:
        x, y = rng.choice([(3.0, 4.0), (-5.0, 12.0), (0.0, -7.0), (0.0, 0.0), (1.0, 1.0), (-1.0, 1.0), (-2.0, 0.0), (8.0, -15.0)])
    v = g.Vector(x, y)
    if rng.random() < .5:
        a, b = num(rng), num(rng)
    else:
        a, b = rng.choice([(y, -x), (-y, x), (x, y), (-x, -y)])
    o = g.Vector(a, b)
    ctx.log("metric", (x, y), (a, b))
    d, e = v.dot(o), Q(x) * Q(a) + Q(y) * Q(b)
    mag = abs(Q(x) * Q(a)) + abs(Q(y) * Q(b))
    ctx.check(abs(Q(d) - e) <= mag * Q(1, 2 ** 51) + Q(1, 10 ** 300), "dot product", (x, y), (a, b), d)
    ctx.check(o.dot(v) == d, "dot product is not symmetric", d, o.dot(v))
    h = math.hypot(x, y)
    ctx.check(abs(v.length - h) <= 4e-16 * h, "length", (x, y), v.length, h)
    ctx.ev("length")
    if x or y:
        t = math.degrees(math.atan2(y, x))
        z = v.azimuth
        ctx.check(-180.000001 <= z <= 180.000001 and abs((z - t + 180) % 360 - 180) <= 1e-11, "azimuth", (x, y), z, t)
        if y and abs(y) > 1e-9 * abs(x):
            ctx.check(sg(z) == sg(y), "azimuth is on the wrong side", (x, y), z)
        ctx.ev("azimuth")
    k = rng.random()
    turn = float(rng.choice([0, 90, -90, 180, -180, 270, 360, 450, 720, -720, 3600])) if k < .4 else rng.uniform(-360, 360) if k < .7 else rng.uniform(-5000, 5000) if k < .9 else rng.choice([45, 30, 60, -45, 1e-7, 1])
    how = rng.choice([turn, turn, str(turn), int(turn) if turn == int(turn) else turn])
    r = v.rotate(how)
    ctx.check(type(r) is g.Vector and v.x == x and v.y == y, "rotation changes its operand")
    w = complex(x, y) * cmath.rect(1, math.radians(math.fmod(turn, 360)))
    tol = (3e-15 + 1e-17 * abs(turn)) * h
    ctx.check(abs(complex(r.x, r.y) - w) <= tol, "rotation by %s degrees" % turn, (x, y), (r.x, r.y), w)
    ctx.check(abs(r.length - h) <= 2e-15 * h, "rotation changes the length", (x, y), turn, r.length)
    if h:
        ctx.check(abs((r.azimuth - v.azimuth - turn + 180) % 360 - 180) <= 1e-10, "rotation by %s degrees turns by something else" % turn, (x, y), v.azimuth, r.azimuth)
    ctx.ev("rotation")
    if turn % 90 == 0:
        ctx.ev("quarter turns")
        ctx.check(abs(complex(r.x, r.y) - complex(x, y) * 1j ** int(turn / 90 % 4)) <= 1e-14 * h + 2e-17 * abs(turn) * h, "quarter turns", (x, y), turn, (r.x, r.y))
    back = r.rotate(-turn)
    ctx.check(abs(complex(back.x, back.y) - complex(x, y)) <= 2 * tol, "turning back does not return", (x, y), turn, (back.x, back.y))
    ctx.state(("metric", sg(x), sg(y), mg(h), turn if k < .4 else round(turn, -2), (a, b) == (y, -x)))


def forms(rng, x, y, g):
    """Accepted ways to write the vector (x, y)."""
    import numpy
    k = rng.randint(0, 11)
    if k == 0:
        return "floats", lambda: g.Vector(x, y)
    if k == 1:
        return "text", lambda: g.Vector(repr(x), " %r\n" % y)
    if k == 2:
        return "vector", lambda: g.Vector(g.Vector(x, y))
    if k == 3:
        return "matrix", lambda: g.Vector(g.Matrix([[x], [y]]))
    if k == 4:
        return "keywords", lambda: g.Vector(y=y, x=x)
    if k == 5:
        return "numpy", lambda: g.Vector(numpy.float64(x), numpy.float64(y))
    if k == 6:
        return "matrix product", lambda: g.Vector(g.Matrix([[1, 0], [0, 1]]) * g.Vector(x, y))
    if k == 7:
        return "fractions", lambda: g.Vector(Q(x), Q(y))
    if k == 8:
        return "transposed row", lambda: g.Vector(g.Matrix([(x, y)]).transpose())
    if k == 9:
        return "assigned", lambda: assign(g, x, y)
    if k == 10:
        return "first and second differ in form", lambda: g.Vector(x, repr(y))
    return "tuple rows", lambda: g.Vector(g.Matrix(((repr(x),), (y,))))


def assign(g, x, y):
    v = g.Vector.origin()
    v.x = x
    v.y = repr(y)
    return v


@scenario("C26", 12000, required=["constructed", "refused", "index", "slice", "negative index", "origin"])
def construction(ctx):
    g, rng = geo.lib(), ctx.rng
    x, y = num(rng), num(rng)
    name, make = forms(rng, x, y, g)
    v = make()
    ctx.log("construct", name, x, y)
    ctx.check(eqf(v.x, x) and eqf(v.y, y), "vector constructed from %s" % name, (x, y), v.elements)
    ctx.ev("constructed")
    ctx.check(eqf(v[0], x) and eqf(v[1], y), "access by index", v[0], v[1])
    ctx.ev("index")
    ctx.check(v[-1] == y and v[-2] == x, "access by negative index", v[-1], v[-2])
    ctx.ev("negative index")
    i, j, k = rng.choice([None, 0, 1, 2, -1, -2, 5]), rng.choice([None, 0, 1, 2, -1, 5]), rng.choice([None, 1, -1, 2])
    ctx.check(list(v[i:j:k]) == [x, y][i:j:k], "access by slice %s:%s:%s" % (i, j, k), v[i:j:k])
    ctx.ev("slice")
    ctx.check(list(v) == [x, y] and tuple(v[:]) == (x, y), "iterating over the coordinates", list(v))
    for bad in (2, -3, 7):
        e = ctx.raises(lambda: v[bad])
        ctx.check(isinstance(e, IndexError), "index out of range", bad, e)
    c = g.Vector(v)
    m = g.Matrix([[x], [y]])
    w = g.Vector(m)
    c.x = y + 1
    w.y = 5
    v2 = g.Vector(v)
    ctx.check((v.x, v.y) == (x, y) and m.elements == [[x], [y]], "changing a copy changes what it was made from", v.elements, m.elements)
    v.x = 77
    ctx.check((v2.x, v2.y) == (x, y), "changing a vector changes its copy", v2.elements)
    o = g.Vector.origin()
    ctx.check(eqf(o.x, 0) and eqf(o.y, 0), "origin", o.elements)
    o.x = 3
    ctx.check(g.Vector.origin().x == 0, "the origin moves when a vector made from it is changed")
    ctx.ev("origin")
    bad = rng.choice([("a", 1), (1, "b"), (None, 1), ([1], 2), (1j, 2), ("", ""), (1, []), ("1,5", 2), (1, "2,"), ("1 5", 0), (0, "0x10"), ("1e", 1), ("3-", 4), ("1.2.3", "1"), (" ", 1), ("1;", "2"), ("--1", 1), (1, "5m"), ("(1)", 2), ("1/2", 0), (b"x", 1), ("_1", 1), ("one", "two"),  (object(), 1), ({}, 0)])
    e = ctx.raises(g.Vector, *bad)
    bad = rng.choice([g.Matrix([[1, 2]]), g.Matrix([[1, 2], [3, 4]]), g.Matrix([[1]]), g.Matrix([[1], [2], [3]]), g.Matrix([[1, 2, 3]]), 3, 2.5, "1", "12", None, [1, 2], (1, 2), {}, object(), 1j,
                      g.Matrix([["a"], [1]])])
    ctx.raises(g.Vector, bad)
    ctx.raises(lambda: g.Vector())
    ctx.raises(lambda: g.Vector(1, 2).rotate(rng.choice(["x", None, [1], 1j])))
    ctx.raises(lambda: g.Vector(1, 2).append_row([1]))
    ctx.raises(lambda: g.Vector(1, 2).append_col([1, 2]))
    ctx.raises(lambda: setattr(g.Vector(1, 2), rng.choice("xy"), rng.choice(["x", None, [1], 1j, "1,5", "2 0", "1e"])))
    ctx.ev("refused")
    ctx.state(("construct", name, sg(x), sg(y), mg(x), mg(y), i, j, k))


@scenario("C26", 12000, required=["both less", "both greater", "mixed", "equal", "positive", "negative", "neither"])
def comparisons(ctx):
    g, rng = geo.lib(), ctx.rng
    x, y = num(rng), num(rng)
    step = lambda q: rng.choice([q, q, q + 1, q - 1, math.nextafter(q, 1e200), math.nextafter(q, -1e200), num(rng), -q])
    a, b = step(x), step(y)
    v, o = g.Vector(x, y), g.Vector(a, b)
    ctx.log("compare", (x, y), (a, b))
    for name, op in (("<", operator.lt), (">", operator.gt), ("<=", operator.le), (">=", operator.ge), ("==", operator.eq)):
        got = op(v, o)
        ctx.check(got in (True, False) and bool(got) == (op(x, a) and op(y, b)), "comparison %s" % name, (x, y), (a, b), got)
    ctx.check(bool(v != o) == (not (x == a and y == b)), "comparison !=", (x, y), (a, b))
    ctx.ev("equal" if (x, y) == (a, b) else "both less" if x < a and y < b else "both greater" if x > a and y > b else "mixed")
    ctx.check(bool(v.is_positive()) == (x >= 0 and y >= 0), "is_positive", (x, y), v.is_positive())
    ctx.check(bool(v.is_negative()) == (x < 0 and y < 0), "is_negative", (x, y), v.is_negative())
    ctx.ev("positive" if x >= 0 and y >= 0 else "negative" if x < 0 and y < 0 else "neither")
    for other in (None, 0, "x", (x, y), [x, y], object(), g.Matrix([[1, 2], [3, 4]])):
        ctx.check((v == other) == False and v != other, "a vector equals something else", other)
    ctx.state(("compare", sg(x), sg(y), sg(a - x), sg(b - y), mg(x), mg(y)))
