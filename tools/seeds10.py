"""Tenth batch of planted bugs: things remembered by equality, numbers of other kinds, odd precisions, mixed names."""
from seeds import S, G, M, GEO, CON, CLU, CFG, REL

S("C02-copy-kept", "C02", G, [("""        return self.subgraph(self.vertices())
""", """        # the copy made last time, if nothing was added or removed since
        key = (list(self.vertices()), self.edges())

        if self.__dict__.get("_copied", (None,))[0] != key:
            self._copied = (key, self.subgraph(self.vertices()))

        return Graph(self._copied[1])
""")], "a graph copied twice, with an edge revalued in between", "the second copy has the old value", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 1)
g.copy()
g.set('a', 'b', 2)
assert g.copy().get('a', 'b') == 2
""")
S("C05-lone-variables", "C05", M, [("""        added = set(met.inputs + met.outputs).difference(self._map)
""", """        added = set(var for var in met.inputs + met.outputs if var not in self._map or
                    self._map[var] is None and not self._graph.adjacent_vertices(var))
""")], "a refused method naming an existing variable without value and methods", "the variable is removed", """
from solver.method import Method, MethodGraph
class T(Method):
    def execute(self, m):
        return {}
g = MethodGraph()
g.add_variable('x')
g.add_method(T('one', ['a'], ['b']))
try:
    g.add_method(T('two', ['x'], ['b']))
    assert False
except Exception:
    pass
assert 'x' in list(g.variables())
""")
S("C08-changed-set-before-check", "C08", M, [("""        if varname not in self._map:
            raise KeyError(varname)

        self._map[varname] = value
        self._changed[varname] = 1
""", """        self._changed[varname] = 1

        if varname not in self._map:
            raise KeyError(varname)

        self._map[varname] = value
""")], "setting an unknown variable", "it stays marked as changed and the next propagation fails", """
from solver.method import MethodGraph
g = MethodGraph()
g.add_variable('a')
try:
    g.set('x', 1)
except KeyError:
    pass
g.set('a', 1)
""")
S("C11-any-first-list", "C11", CON, [("""        # empty set of constraints
        constraints = set([])

        for variable in variables:
            constraints.update(set(self.get_constraints_on(variable)))
""", """        constraints = dict.fromkeys(self.get_constraints_on(variables[0]))

        for variable in variables[1:]:
            # with nothing on the one before there is nothing to add to
            if constraints or variable in variables[:2]:
                constraints.update(dict.fromkeys(self.get_constraints_on(variable)))
""")], "any of three or more variables of which the first two have no constraints", "the constraints on the others are missed", """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
for v in 'xy':
    g.add_variable(v)
g.add_constraint(PlusConstraint('a', 'b', 'c'))
assert len(g.get_constraints_on_any(['x', 'y', 'a'])) == 1
""")
S("C17-flag-by-equality", "C17", CFG, [("""        # flag indicating an underconstrained merge (i.e. not a unique solution)
        self.underconstrained = False

        self.makehash()
""", """        self.makehash()
"""), ("""class Configuration(object):
    \"\"\"A set""", """# configurations that came out of an underconstrained merge
_UNDER = {}

class Configuration(object):
    \"\"\"A set"""), ("""    def copy(self):
        \"\"\"Shallow""", """    @property
    def underconstrained(self):
        \"\"\"Flag indicating an underconstrained merge (i.e. not a unique solution)\"\"\"

        return self.hashvalue in _UNDER and any(c.mapping == self.mapping for c in _UNDER[self.hashvalue])

    @underconstrained.setter
    def underconstrained(self, flag):
        same = [c for c in _UNDER.get(self.hashvalue, []) if c.mapping != self.mapping]
        _UNDER[self.hashvalue] = (same + [self] if flag else same)[-50:]

    def copy(self):
        \"\"\"Shallow""")], "two configurations of the same points, one of them underconstrained", "the other one is underconstrained as well", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0)})
b = Configuration({'b': Vector(1, 0), 'c': Vector(2, 3)})
m = a.merge(b)[0]
assert m.underconstrained
assert not Configuration(m.mapping).underconstrained
""")
S("C18-sorted-names", "C18", CFG, [("""            # equal configurations would share the same variable names
            for var in self.mapping:
                if var not in other.mapping:
                    return False
""", """            # equal configurations would share the same variable names
            if sorted(self.mapping) != sorted(other.mapping):
                return False
""")], "names that have no order among themselves", "comparing raises an error", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({1: Vector(0, 0), 'b': Vector(1, 0)})
assert a == a.copy()
""")
S("C19-copy-lazy", "C19", CFG, [("""        # new configuration
        new = Configuration(self.mapping)

        # copy underconstrained flag
        new.underconstrained = self.underconstrained

        return new
""", """        # configurations are immutable
        new = self.__class__.__new__(self.__class__)
        new.__dict__.update(self.__dict__)

        return new
""")], "editing the mapping of a copy", "the original changes", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0)})
b = a.copy()
b.mapping['b'] = Vector(1, 0)
assert list(a.vars()) == ['a']
""")
S("C20-int-radii", "C20", GEO, [("""    u = ((r1*r1 - r2*r2) / d + d) / 2
""", """    u = (((r1 - r2) * (r1 + r2) / d if r1 > r2 else (r1*r1 - r2*r2) // 1 / d) + d) / 2
""")], "a second circle at least as large with a fractional difference of squares", "the chord is misplaced", """
from solver.geometry import Vector, cc_int
import math
for p in cc_int(Vector(0, 0), 1.25, Vector(2, 0), 1.5):
    assert abs(p.length - 1.25) < 1e-9 and abs(math.hypot(p.x - 2, p.y) - 1.5) < 1e-9
""")
S("C25-round-negative", "C25", GEO, [("""                self.elements[row][col] = round(self.elements[row][col], \\
                precision)
""", """                self.elements[row][col] = float("%.*f" % (max(precision, 0), \\
                self.elements[row][col]))
""")], "rounding to tens or hundreds", "it is rounded to ones", """
from solver.geometry import Matrix
m = Matrix([[123.0, 7.0]])
m.round(-1)
assert m.elements == [[120.0, 10.0]]
""")
S("C26-decimal-comma", "C26", GEO, [("""        super(Vector, self).__init__([[float(x)], [float(y)]])
""", """        super(Vector, self).__init__([[float(v.replace("_", "").split(",")[0]) if isinstance(v, str) else float(v)] for v in (x, y)])
""")], "text with a comma", "it is cut off rather than refused", """
from solver.geometry import Vector
try:
    Vector('1,5', '2')
    assert False
except ValueError:
    pass
""")
S("C27-integers-exact", "C27", GEO, [("""        a = float(a)
        b = float(b)

        return abs(a - b) <= (abs_tol + rel_tol * abs(b))
""", """        if type(a) is type(b) is int and abs(a) < 2 ** 53:
            return abs(a - b) <= int(abs_tol + rel_tol * abs(b) + .5)

        a = float(a)
        b = float(b)

        return abs(a - b) <= (abs_tol + rel_tol * abs(b))
""")], "two integers differing by a little more than their tolerance", "they are equal", """
from solver.geometry import Scalar
assert not Scalar.tol_eq(60001, 60000)
""")
S("C03-unhashed-end", "C03", G, [("""            for v in self.outgoing_vertices(key):
                if v == end:
                    # found the end, so return the path we have taken
                    return this_path + [v]
                elif v not in trails:
""", """            for v in self.outgoing_vertices(key):
                if v == end and (v != start or len(this_path) != 2 or self.has_edge(key, start)):
                    # found the end, so return the path we have taken
                    return [start] + this_path[1:] + [v] if len(this_path) < 12 else this_path[:1] + this_path[2:] + [v]
                elif v not in trails:
""")], "a path of more than twelve vertices", "its second vertex is missing", """
from solver.graph import Graph
g = Graph()
for i in range(30):
    g.add_edge(i, i + 1)
assert g.path(0, 30) == list(range(31))
""")
S("C14-angles-int", "C14", CLU, [("""        # no distances in a balloon
        return 0

    def n_angles(self):
        return int(binom(len(self.vars), 3) * 3)
""", """        # no distances in a balloon
        return 0

    def n_angles(self):
        return len(self.vars) * (len(self.vars) - 1) * (len(self.vars) - 2) // 6 * 3 if len(self.vars) < 64 else 3 * (len(self.vars) ** 3 // 6)
""")], "clusters of 64 points or more", "the number of angles is a little too large", """
from solver.geometric.cluster import Balloon
n = 70
assert Balloon(list(range(n))).n_angles() == n * (n - 1) * (n - 2) // 2
""")
S("C17-coincident-in-second-only", "C17", CFG, [("""            if Scalar.tol_zero((p12 - p11).length):
                # coordinates overlap, so the merge is underconstrained
                underconstrained = True
""", """            if Scalar.tol_zero((p12 - p11).length):
                # coordinates overlap, so there is no direction to use; the
                # same holds in the other configuration, which is told below
""")], "shared points that coincide in the first configuration only", "the merge is not reported as underconstrained", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'b': Vector(0, 0), 'c': Vector(3, 4)})
b = Configuration({'a': Vector(1, 0), 'b': Vector(2, 0), 'd': Vector(5, 5)})
assert a.merge(b)[1] and b.merge(a)[1]
""")
