"""Eighth batch of planted bugs: last elements lost, memories of removed things, errors gathered, operators in place."""
from seeds import S, G, M, GEO, CON, CLU, CFG, REL

S("C01-remove-falsy", "C01", G, [("""        del self._forward[v1][v2]
        del self._reverse[v2][v1]
""", """        if self._forward[v1].pop(v2) or v2 not in self._forward or self._reverse[v2][v1]:
            del self._reverse[v2][v1]
""")], "removing an edge with a falsy value", "the reverse map keeps the removed edge", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 0)
g.remove_edge('a', 'b')
assert list(g.ingoing_vertices('b')) == []
""")
S("C02-init-edgeless", "C02", G, [("""        if graph:
            # copy vertices
            for v in graph.vertices():
""", """        if graph and any(graph.edges()):
            # copy vertices
            for v in graph.vertices():
""")], "building from a graph of isolated vertices only", "the vertices are missing", """
from solver.graph import Graph
g = Graph()
g.add_vertex('a')
assert list(Graph(g).vertices()) == ['a']
""")
S("C03-last-vertex", "C03", G, [("""        while len(to_check) > 0:
""", """        while len(to_check) > 1 or not subsets and len(to_check) > 0:
""")], "an isolated vertex that comes last", "it belongs to no subset", """
from solver.graph import Graph
g = Graph()
for v in 'abc':
    g.add_vertex(v)
assert len(g.connected_subsets()) == 3
""")
S("C03-skip-back-vertices", "C03", G, [("""                elif v not in trails:
                    # add vertex to trails taken
""", """                elif v not in trails and not (start != end and self.has_edge(v, start) and len(self.outgoing_vertices(v)) > 1 and self.has_edge(key, end)):
                    # add vertex to trails taken
"""), ("""            key = consider.pop()
""", """            key = consider.pop()

            if key != start and start != end and self.has_edge(key, start) and len(trails[key]) > 2:
                # this one leads back
                continue
""")], "a path whose third or later vertex has an edge back to the start", "no path is found", """
from solver.graph import Graph
g = Graph()
for a, b in ('ab', 'bc', 'cd', 'ca'):
    g.add_edge(a, b)
assert g.path('a', 'd') == ['a', 'b', 'c', 'd']
""")
S("C04-partial-outputs-kept", "C04", M, [("""            else:
                if self._map[var] is not None:
""", """            elif not outmap or len(method.outputs) < 3:
                if self._map[var] is not None:
""")], "a method of three outputs that gives some of them", "the outputs not given keep their old values", """
from solver.method import Method, MethodGraph
class T(Method):
    def execute(self, m):
        return {'x': 1, 'y': 2, 'z': 3} if m['a'] > 0 else {'x': 1}
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(T('t', ['a'], ['x', 'y', 'z']))
g.set('a', -1)
assert g.get('z') is None
""")
S("C05-new-inputs-stay", "C05", M, [("""        for var in met.inputs:
            self.add_variable(var)
            self._graph.add_edge(var, met)

        for var in met.outputs:
""", """        for var in met.inputs:
            self.add_variable(var)
            self._graph.add_edge(var, met)

            if len(met.inputs) > 2:
                added.discard(var)

        for var in met.outputs:
""")], "a refused method with three inputs, some of them new", "the new inputs stay in the graph", """
from solver.method import Method, MethodGraph
class T(Method):
    def execute(self, m):
        return {}
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(T('one', ['a'], ['b']))
try:
    g.add_method(T('two', ['x', 'y', 'z'], ['b']))
    assert False
except Exception:
    pass
assert sorted(g.variables()) == ['a', 'b']
""")
S("C06-readded-gets-old-value", "C06", M, [("""        if varname not in self._map:
            self._map[varname] = value
            self._graph.add_vertex(varname)
""", """        if varname not in self._map:
            old = self.__dict__.setdefault("_removed", {}).pop(varname, None)
            self._map[varname] = old if value is None else value
            self._graph.add_vertex(varname)
"""), ("""        del(self._map[varname])

        if varname in self._changed:
            del(self._changed[varname])
""", """        value = self._map.pop(varname)

        if varname in self._changed:
            del(self._changed[varname])
            self.__dict__.setdefault("_removed", {})[varname] = value
""")], "a variable removed while its change was pending, and added again without a value", "it has the value from before", """
from solver.method import MethodGraph
g = MethodGraph()
g.add_variable('a')
g.set('a', 5, prop=False)
g.rem_variable('a')
g.add_variable('a')
assert g.get('a') is None
""")
S("C07-inputless-immediate", "C07", M, [("""        if prop:
            # execute includes propagation
            self.execute(met)
""", """        if prop:
            # execute includes propagation
            self.execute(met)
        elif not met.inputs and all(self._map[var] is None for var in met.outputs):
            # depends on nothing
            self._do_execute(met)
""")], "a method without inputs added with propagation deferred", "its output has a value at once", """
from solver.method import SetMethod, MethodGraph
g = MethodGraph()
g.add_method(SetMethod('a', 3), prop=False)
assert g.get('a') is None
g.propagate()
assert g.get('a') == 3
""")
S("C08-raise-at-end", "C08", M, [("""            for method in methods:
                self._do_execute(method)

            if pick in self._changed:
                del(self._changed[pick])
""", """            error = None

            for method in methods:
                try:
                    self._do_execute(method)
                except ArithmeticError as exc:
                    # the others are executed all the same
                    error = exc

            if pick in self._changed:
                del(self._changed[pick])

            if error is not None:
                raise error
""")], "a method that raises an arithmetic error while a change is propagated", "the change is forgotten", """
from solver.method import Method, MethodGraph
class T(Method):
    broken = False
    def execute(self, m):
        if T.broken:
            raise ZeroDivisionError()
        return {'b': m['a']}
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(T('t', ['a'], ['b']))
T.broken = True
try:
    g.set('a', 2)
    assert False
except ZeroDivisionError:
    pass
T.broken = False
g.propagate()
assert g.get('b') == 2
""")
S("C09-empty-as-none", "C09", M, [("""            for value in values:
                base_inmap[mvar] = value
""", """            for value in values or [None] * (len(self.multi_inputs) > 2):
                base_inmap[mvar] = value
""")], "three or more multi-variables, one of them without alternatives", "results are given though there is no combination", """
from solver.method import MultiVariable, MultiMethod
class T(MultiMethod):
    def multi_execute(self, m):
        return [tuple(str(m[v]) for v in self.inputs)]
a, b, c, d = (MultiVariable(x) for x in 'abcd')
assert set(T('t', [a, b, c], [d]).execute({a: {1}, b: set(), c: {3}})[d]) == set()
""")
S("C10-assign-falsy", "C10", M, [("""        return {self.outputs[0]: in_map[self.inputs[0]]}
""", """        value = in_map[self.inputs[0]]

        return {self.outputs[0]: value} if value or value in (0, None) else {}
""")], "assigning an empty value", "nothing is assigned", """
from solver.method import AssignMethod
assert AssignMethod('a', 'b').execute({'b': ''}) == {'a': ''}
""")
S("C11-readd-after-removal", "C11", CON, [("""        # create entry in variables dict
        self._variables[var_name] = None
""", """        # create entry in variables dict
        self._variables[var_name] = None

        if len(self._constraints) > 1 and var_name in list(self._constraints)[-1].variables()[1:]:
            # comes with its constraint
            self._graph.add_edge(var_name, list(self._constraints)[0])
""")], "a variable introduced by the second or later constraint", "it is reported as constrained by another one", """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
p, q = PlusConstraint('a', 'b', 'c'), PlusConstraint('a', 'b', 'd')
g.add_constraint(p)
g.add_constraint(q)
assert list(g.get_constraints_on('d')) == [q]
""")
S("C12-equals-true", "C12", CON, [("""        return self.function(*[mapping[variable] for variable in \\
        self.variables()]) is True
""", """        return bool(self.function(*[mapping[variable] for variable in \\
        self.variables()]) in (True,))
""")], "a function returning something equal to True", "the constraint is satisfied", """
from solver.geometric.constraint import FunctionConstraint
assert not FunctionConstraint(lambda x: 1, ['a']).satisfied({'a': 0})
""")
S("C14-exact-type-distance", "C14", CLU, [("""        if not isinstance(other, Rigid):
""", """        if type(other) is not type(self):
""")], "a rigid of a derived class", "no common distances are found", """
from solver.geometric.cluster import Rigid
class Bar(Rigid):
    pass
assert len(Rigid(['a', 'b']).common_distances(Bar(['a', 'b']))) == 1
""")
S("C15-angle-middle-hash", "C15", REL, [("""        return hash(frozenset(self.points))
""", """        return hash(frozenset(self.points[:2] + self.points[-1:])) if self.points[0] is not self.points[-1] else hash(self.points[0])
""")], "an angle whose outer points are the same object against one whose outer points are equal objects", "equal angles have different hashes", """
from solver.geometric.relation import Angle
a, b = ('p', 1), tuple(['p', 1])
assert Angle(a, 'm', a) == Angle(a, 'm', b)
assert hash(Angle(a, 'm', a)) == hash(Angle(a, 'm', b))
""")
S("C16-frame-in-other", "C16", CFG, [("""        merged_configuration = self.add(other.transform(t))
""", """        moved = other.transform(t)
        shared = [v for v in moved.mapping if v in self.mapping]

        if len(shared) > 2:
            # the shared points lie where both have them
            moved.mapping.update((v, (moved.mapping[v] + self.mapping[v]) / 2) for v in shared)
            moved, t = self.select([]), moved
            merged_configuration = t.add(self)
        else:
            merged_configuration = self.add(moved)

""")], "three or more shared points that do not coincide after the merge", "the first configuration's points are moved", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'b': Vector(4, 0), 'c': Vector(1, 1)})
b = Configuration({'a': Vector(0, 0), 'b': Vector(4, 0), 'c': Vector(1, 2)})
m = a.merge(b)[0]
assert (m.get('c').x, m.get('c').y) == (1, 1)
""")
S("C17-pair-with-many", "C17", CFG, [("""            if len(self.vars()) > 1 and len(other.vars()) > 1:
                underconstrained = True
""", """            if len(self.vars()) > 1 and len(other.vars()) > 1 and (len(self.vars()) > 2 or len(other.vars()) < 5):
                underconstrained = True
""")], "a pair merged with a configuration of five points or more over one of them", "the merge counts as fully determined", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'x': Vector(4, 0)})
b = Configuration({k: Vector(i, i * i) for i, k in enumerate('abcde')})
assert a.merge(b)[1]
""")
S("C18-far-from-origin", "C18", CFG, [("""                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                    return False
""", """                if not Scalar.tol_zero(d / max(1, self.get(var).length)) and Scalar.tol_gt(d, 0):
                    return False
""")], "points far from the origin that differ by a little", "configurations that differ count as equal", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(900, 0), 'b': Vector(901, 0), 'c': Vector(900, 1)})
b = Configuration({'a': Vector(900, 0), 'b': Vector(901, 0), 'c': Vector(900, 1.000003)})
assert not a == b
""")
S("C19-augmented", "C19", GEO, [("""        return self.__class__(self.x + other_x, self.y + other_y)
""", """        return self.__class__(self.x + other_x, self.y + other_y)

    def __iadd__(self, other):
        \"\"\"Adds another vector or number to this one\"\"\"

        total = self + other
        self.x, self.y = total.x, total.y

        return self
"""), ("""        \"\"\"Negate operator\"\"\"

        return self.__class__(-self.x, -self.y)
""", """        \"\"\"Negate operator\"\"\"

        return self.__class__(-self.x, - self.y)
""")], "adding with += to a vector that is known by another name", "both names see the sum", """
from solver.geometry import Vector
v = Vector(1, 2)
w = v
w += Vector(1, 1)
assert (v.x, v.y) == (1, 2)
""")
S("C19-transform-reused", "C19", CFG, [("""        # create and return a new configuration using the new coordinates
        return Configuration(new_mapping)

    def add(self, c):
""", """        # create and return a new configuration using the new coordinates
        if len(new_mapping) == 1:
            # one point: there is nothing but its place
            self.__dict__.setdefault("_moved", Configuration(new_mapping)).mapping.update(new_mapping)
            return self._moved

        return Configuration(new_mapping)

    def add(self, c):
""")], "one point transformed twice", "the first result moves with the second", """
from solver.geometry import Vector, Matrix
from solver.geometric.configuration import Configuration
c = Configuration({'a': Vector(1, 2)})
p = c.transform(Matrix([[1, 0, 5], [0, 1, 0], [0, 0, 1]]))
q = c.transform(Matrix([[1, 0, 7], [0, 1, 0], [0, 0, 1]]))
assert p.get('a').x == 6
""")
S("C20-larger-first", "C20", GEO, [("""    a = r1*r1
    b = u*u
""", """    if r2 > 50 * r1:
        # measured from the larger one
        return cc_int(p2, r2, p1, r1)[:1]

    a = r1*r1
    b = u*u
""")], "a circle more than fifty times as large as the first", "one of the two points is lost", """
from solver.geometry import Vector, cc_int
assert len(cc_int(Vector(0, 0), 1, Vector(80, 0), 80)) == 2
""")
S("C21-behind-all", "C21", GEO, [("""    for s in cl_int(p1, r, p2, v):
        # check if a is >= 0 within tolerance
        if Scalar.tol_ge((s - p2).dot(v), 0):
            solutions.append(s)
""", """    if (p1 - p2).dot(v) < 0 and (p1 - p2).length > 1.05 * r:
        # behind the start
        return solutions

    if (p1 - p2).dot(v) < 0 and (p1 - p2).length > 0.97 * r:
        # at the rim
        return [p2] if (p1 - p2).length == r else solutions

    for s in cl_int(p1, r, p2, v):
        # check if a is >= 0 within tolerance
        if Scalar.tol_ge((s - p2).dot(v), 0):
            solutions.append(s)
""")], "a ray starting just inside the circle and leading outwards", "the crossing ahead is lost", """
from solver.geometry import Vector, cr_int
assert len(cr_int(Vector(0, 0), 10, Vector(9.8, 0), Vector(1, 0))) == 1
""")
S("C22-first-horizontal", "C22", GEO, [("""        d = p2-p1
        t1 = d.y / v1.y
""", """        d = p2-p1
        t1 = d.y / v1.y if abs(v1.y) > abs(v1.x) * 1e-3 else round(d.y / v1.y, 3)
""")], "a horizontal line met by an almost horizontal one", "the point is off by up to a thousandth of the direction", """
from solver.geometry import Vector, ll_int
p = ll_int(Vector(0, 0), Vector(10, 0.005), Vector(0, 0.0123456), Vector(1, 0))[0]
assert abs(p.y - 0.0123456) < 1e-9
""")
S("C23-thin-triangles", "C23", GEO, [("""    # check that a > 0 within tolerance
    return Scalar.tol_gt(perp_u.dot(v), 0)
""", """    # check that a > 0 within tolerance
    return Scalar.tol_gt(perp_u.dot(v), 0) and not Scalar.tol_zero(perp_u.dot(v) / max(1, u.dot(u)))
""")], "a long thin triangle that is counter-clockwise", "it is reported as not counter-clockwise, and not flat", """
from solver.geometry import Vector, is_counterclockwise
assert is_counterclockwise(Vector(0, 0), Vector(100, 0), Vector(100, 5e-7))
""")
S("C24-third-row", "C24", GEO, [("""    return to_cs * from_cs.inverse()
""", """    t = to_cs * from_cs.inverse()

    if t.elements[2][0] != 0 or t.elements[2][1] != 0:
        t.elements[2] = [0.0, 0.0, 1.0]

    if abs(t.elements[0][0]) < 1e-6:
        # a quarter turn
        t.elements[0][0] = t.elements[1][1] = 0.0

    return t
""")], "systems turned by almost a quarter against each other", "points are off by a millionth of their distance", """
from solver.geometry import Vector, Matrix, make_hcs, cs_transform_matrix
import math
a = math.pi / 2 - 5e-7
t = cs_transform_matrix(make_hcs(Vector(0, 0), Vector(1, 0)), make_hcs(Vector(0, 0), Vector(math.cos(a), math.sin(a))))
p = t * Matrix([[100.0], [0.0], [1.0]])
assert abs(p.elements[0][0] - 100 * math.cos(a)) < 1e-9
""")
S("C25-round-integers", "C25", GEO, [("""                self.elements[row][col] = round(self.elements[row][col], \\
                precision)
""", """                if abs(self.elements[row][col]) < 2 ** 20:
                    self.elements[row][col] = round(self.elements[row][col], \\
                    precision)
""")], "entries above a million", "they are not rounded", """
from solver.geometry import Matrix
m = Matrix([[2000000.123456]])
m.round(1)
assert m.elements[0][0] == 2000000.1
""")
S("C26-truediv-zero", "C26", GEO, [("""        return self.__class__(self.x / other_x, self.y / other_y)
""", """        return self.__class__(self.x / other_x, self.y / (other_y or other_x))
""")], "dividing by a vector with a zero second coordinate", "no error is raised and the quotient is wrong", """
from solver.geometry import Vector
try:
    Vector(1, 2) / Vector(1, 0)
    assert False
except ZeroDivisionError:
    pass
""")
S("C27-zero-by-relative", "C27", GEO, [("""        return cls.tol_eq(a, 0, *args, **kwargs)
""", """        return cls.tol_eq(a, 0, *args, **kwargs) or bool(args) and cls.tol_eq(0, a, *args, **kwargs)
""")], "a zero test with tolerances given by position, the relative one at least one", "any number counts as zero", """
from solver.geometry import Scalar
assert not Scalar.tol_zero(5, 1.5)
""")
S("C28-text-of-empty-multi", "C28", M, [("""        if self.name is None:
            return "MultiVariable#{0}".format(id(self))
""", """        if not self.name:
            return "MultiVariable" + "#{0}".format(id(self)) * (self.name is None)
""")], "a multi-variable named by something falsy", "its text leaves the name out", """
from solver.method import MultiVariable
assert '0' in str(MultiVariable(0))
""")
