"""Generators shared by the workloads: names, values, sizes, coordinates."""
import math


class Clash:
    """Hashable name whose hash collides with others of its kind; equal only to itself by tag."""
    def __init__(self, tag):
        self.tag = tag

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return isinstance(other, Clash) and other.tag == self.tag

    def __repr__(self):
        return "Clash(%s)" % self.tag


class Ident:
    """Hashable by identity."""
    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "Ident<%s>" % self.tag


HOSTILE = ["100%", "%s", "%d %s", "%(x)s", "{0}", "{", "}", "{x}", "{}", ("%s",), ("a%", 1), (), (1, 2), "\n", "\u00fc\u4e2d", "'", '"', "\\", "a, b", "x: y", "\ud800", "->", b"\xff", "%"]
ODD = [0, "", (), 1, "1", (1,), -1, 2.5, "a", "ab", ("a", "b"), frozenset(), frozenset([1, 2]), False, "None", b"x", "0", 10 ** 20, -2]


def names(rng, n, kind=None):
    """n pairwise different hashable names of one flavour (or mixed). True==1==1.0 are one name in Python."""
    kind = kind or rng.choice(["int", "str", "letters", "tuple", "mixed", "mixed", "clash", "ident", "sparse", "float", "hostile", "subsets"])
    if kind == "int":
        k = rng.choice([0, 0, 1, 1, -3])
        res = list(range(k, k + n))
    elif kind == "str":
        p = rng.choice(["v", "x_", "point ", ""])
        res = ["%s%d" % (p, i) for i in range(n)]
    elif kind == "letters":
        res = [chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
    elif kind == "tuple":
        res = [(i // 3, "abc"[i % 3]) for i in range(n)]
    elif kind == "clash":
        res = [Clash(i) for i in range(n)]
    elif kind == "ident":
        res = [Ident(i) for i in range(n)]
    elif kind == "sparse":
        res = rng.sample(range(-10 ** 6, 10 ** 6), n)
    elif kind == "distinct":    # none is part of another one or of other text
        res = ["Qx%04dz" % i for i in rng.sample(range(9999), n)]
    elif kind == "hostile":     # text and tuples that upset formatting
        res = (rng.sample(HOSTILE, len(HOSTILE)) + ["%%%d" % i for i in range(n)])[:n]
    elif kind == "subsets":     # frozensets: ordered only in part, so that sorting them means nothing
        res = [frozenset(j for j in range(10) if i >> j & 1) for i in rng.sample(range(1, max(16, 4 * n)), n)]
    elif kind == "float":
        res = [i + 0.5 for i in range(n)]
    else:
        pool = list(ODD)
        rng.shuffle(pool)
        res = []
        for x in pool + ["m%d" % i for i in range(n)]:
            if len(res) < n and x not in res:
                res.append(x)
        if rng.random() < .5:
            k = 0
            while len(set(res)) < n:        # pragma: no cover
                res.append("z%d" % k)
                k += 1
    rng.shuffle(res)
    return res[:n]


def twin_name(rng, x):
    """An equal name that may be a different object or of a different type (1 -> 1.0, True; equal copies)."""
    if rng.random() < .7:
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int) and abs(x) < 2 ** 50:
        return rng.choice([float(x), bool(x) if x in (0, 1) else int(str(x))])
    if isinstance(x, float) and x.is_integer():
        return int(x)
    if isinstance(x, str):
        return "".join(list(x))
    if isinstance(x, tuple):
        return tuple(list(x))
    if isinstance(x, frozenset):
        return frozenset(list(x))
    if isinstance(x, Clash):
        return Clash(x.tag)
    return x


def size(rng, small, mid=None, big=None):
    """A size: mostly small, sometimes medium, rarely big (inclusive ranges)."""
    r = rng.random()
    if big and r < .03:
        return rng.randint(*big)
    if mid and r < .2:
        return rng.randint(*mid)
    return rng.randint(*small)


def logu(rng, lo, hi):
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def coord(rng, s):
    r = rng.random()
    if r < .15:
        return float(rng.randint(-4, 4)) * (1 if s < 4 else rng.choice([1, s / 4]))
    if r < .2:
        return 0.0
    return rng.uniform(-s, s)


def near(rng, x):
    """A value that is almost x: equal but of another type, a hair apart, or with the same text; None when there is none."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return rng.choice([float(x) if abs(x) < 2 ** 50 else x + 1, x + 1, -x, str(x)] + [bool(x)] * (x in (0, 1)))
    if isinstance(x, float):
        return rng.choice([math.nextafter(x, math.inf), x * (1 + 1e-9) + 1e-12, x * (1 + 1e-6) + 1e-9, -x, str(x)] + [int(x)] * x.is_integer())
    if hasattr(x, "x") and hasattr(x, "y"):
        d = rng.choice([1e-13, 1e-9, 1e-6, 1e-4, 4e-4])
        return type(x)(x.x + d * rng.choice([0, 1]), x.y + d)
    if isinstance(x, str):
        return rng.choice([x + " ", x.upper() if x.upper() != x else x + "x", (x,), [x], x.encode()])
    if isinstance(x, tuple):
        return rng.choice([list(x), x + (0,), x[:-1]])
    if isinstance(x, list):
        return rng.choice([tuple(x), x + [0], list(x)])
    if isinstance(x, dict):
        return dict(x, extra=1)
    if type(x).__name__ == "ndarray":
        return rng.choice([x.astype(float), x + 0, x.tolist(), x[:1], x.reshape(1, -1)])
    if isinstance(x, (set, frozenset)):
        return type(x)(list(x) + [99])
    return None


def same(a, b):
    """Equality of arbitrary values, including vectors and arrays, without tripping over == of odd types."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    ta, tb = type(a), type(b)
    if ta.__name__ == "ndarray" or tb.__name__ == "ndarray":
        import numpy as np
        return ta is tb and a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b))
    if hasattr(a, "x") and hasattr(a, "y"):
        return hasattr(b, "x") and hasattr(b, "y") and a.x == b.x and a.y == b.y
    if hasattr(b, "x") and hasattr(b, "y"):
        return False
    if ta is not tb and not (isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset))):
        return False
    try:
        return bool(a == b)
    except Exception:           # noqa: BLE001
        return False


def scribble(rng, x):
    """Edit, as its owner, a list (or set, or dict of lists) that a call has returned."""
    if isinstance(x, list):
        for y in x:
            if isinstance(y, (list, set)):
                scribble(rng, y)
        r = rng.random()
        if not x or r < .2:
            x.append("scribble")
        elif r < .4:
            x.pop(rng.randrange(len(x)))
        elif r < .6:
            x.reverse()
        elif r < .8:
            x[rng.randrange(len(x))] = x[0]
        else:
            x.clear()
    elif isinstance(x, set):
        if x and rng.random() < .5:
            x.pop()
        else:
            x.add("scribble")
