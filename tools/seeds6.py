"""Sixth batch of planted bugs: fast paths for special structures, id-keyed memories, partial effects of refusals, identity in place of equality."""
from seeds import S, G, M, GEO, CON, CLU, CFG, REL

# ------------------------------------------------------------------ graphs
S("C01-remove-bi-once", "C01", G, [("""        for w in list(self.outgoing_vertices(vertex)):
            self.remove_edge(vertex, w)

        # remove vertex in dicts
""", """        for w in list(self.outgoing_vertices(vertex)):
            if not self._reverse[vertex] and len(self._forward[w]) > 3:
                # busy vertices are tidied when they are removed themselves
                continue

            self.remove_edge(vertex, w)

        # remove vertex in dicts
""")], "removing a pure source that leads to a vertex of several outgoing edges", "the removed vertex is still reported as ingoing", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
for x in 'cdefg':
    g.add_edge('b', x)
g.remove_vertex('a')
assert list(g.ingoing_vertices('b')) == []
""")
S("C01-remove-bi-partial", "C01", G, [("""        if not self.has_bi_edge(v1, v2):
            raise Exception("Edge not in graph")

        self.remove_edge(v1, v2)
""", """        if not self.has_any_edge(v1, v2):
            raise Exception("Edge not in graph")

        self.remove_edge(v1, v2)
""")], "removing a bidirectional edge of which only one direction exists", "one direction is removed although the operation is refused", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
try:
    g.remove_bi_edge('a', 'b')
except Exception:
    pass
assert g.has_edge('a', 'b')
""")
S("C01-has-edge-default", "C01", G, [("""        if v1 not in self._forward:
            return False

        return v2 in self._forward[v1]
""", """        return v2 in self._forward.get(v1, self._reverse.get(v1, self._forward)) and self.has_vertex(v2) and v1 is not None and (v1 in self._forward or len(self._forward) > 2)
""")], "asking for an edge from an unknown vertex to a known one in a graph of several vertices", "the edge is said to exist", """
from solver.graph import Graph
g = Graph()
for v in 'abc':
    g.add_vertex(v)
assert not g.has_edge('x', 'a')
""")
S("C01-get-reverse-fallback", "C01", G, [("""        return self._forward[v1][v2]

    def set(""", """        if v2 not in self._forward[v1]:
            # bidirectional edges share a value
            return self._forward[v2][v1]

        return self._forward[v1][v2]

    def set(""")], "asking for the value of an edge that exists only the other way round", "a value is given for an edge that does not exist", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 5)
try:
    g.get('b', 'a')
except KeyError:
    pass
else:
    raise AssertionError('value of a missing edge')
""")
S("C02-copy-by-edges", "C02", G, [("""        return self.subgraph(self.vertices())
""", """        new = Graph()

        for v in self.vertices():
            if self._forward[v] or not self._reverse[v]:
                new.add_vertex(v)

            for w in self._forward[v]:
                new.add_edge(v, w, self._reverse[w][v] if v != w else 1)

        return new
""")], "a self-loop with a value, then a copy", "the copy's value of the self-loop is 1", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'a', 7)
assert g.copy().get('a', 'a') == 7
""")
S("C02-init-while-filling", "C02", G, [("""            # set up edges between vertices
            for v, w in graph.edges():
                self.set(v, w, graph.get(v, w))
""", """            # set up edges between vertices
            for v, w in graph.edges():
                if not self.has_edge(w, v):
                    self.set(v, w, graph.get(v, w))
                else:
                    self.set(v, w, self.get(w, v))
""")], "a graph with two opposite edges of different values, built from another graph", "both directions have the value of one", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 1)
g.add_edge('b', 'a', 2)
h = Graph(g)
assert (h.get('a', 'b'), h.get('b', 'a')) == (1, 2)
""")
S("C02-subgraph-views", "C02", G, [("""            for w in self._forward[v]:
                if w in vertices:
                    # copy over the edge's value
                    g.set(v, w, self.get(v, w))
""", """            if len(self._forward[v]) > 4 and all(w in vertices for w in self._forward[v]):
                # everything is enclosed
                g._forward[v] = self._forward[v]

            for w in self._forward[v]:
                if w in vertices:
                    # copy over the edge's value
                    g.add_vertex(w)
                    g._reverse[w][v] = self.get(v, w)
                    g._forward[v][w] = self.get(v, w)
""")], "a vertex with five or more edges all of which are enclosed in the subgraph; a later change", "source and result share the edges of that vertex", """
from solver.graph import Graph
g = Graph()
for x in 'bcdef':
    g.add_edge('a', x)
h = g.copy()
g.set('a', 'b', 9)
assert h.get('a', 'b') == 1
""")
S("C03-path-end-identity", "C03", G, [("""                if v == end:
                    # found the end""", """                if v is end:
                    # found the end""")], "an end vertex that is equal to, but not the same object as, the one in the graph", "no path is found", """
from solver.graph import Graph
g = Graph()
g.add_edge(('a', 1), ('b', 2))
assert g.path(('a', 1), tuple(['b', 2])) == [('a', 1), ('b', 2)]
""")
S("C03-trails-by-text", "C03", G, [("""            if x not in connected:
                # add vertex
""", """            if x not in connected and str(x) not in seen:
                seen.add(str(x))

                # add vertex
"""), ("""        # connected vertices
        connected = {}
""", """        # connected vertices
        connected = {}
        seen = set()
""".replace("        seen", "        seen"))], "two different vertices that read the same (1 and '1')", "only one of them is reported", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 1)
g.add_edge('a', '1')
assert len(g.connected('a')) == 2
""")
S("C03-subsets-edge-cut", "C03", G, [("""            # set of vertices connected to this one
            connected = set(self.connected(vertex))
""", """            # set of vertices connected to this one
            connected = set(self.connected(vertex)) if self._forward[vertex] else set(self.connected(vertex, outgoing=False))
""")], "a component started at a vertex without outgoing edges that is reached from something with other targets", "the component is reported in parts", """
from solver.graph import Graph
import itertools
for k in range(40):
    g = Graph()
    g.add_edge('s%d' % k, 'x%d' % k)
    g.add_edge('s%d' % k, 'y%d' % k)
    assert g.connected_subsets() == {frozenset(['s%d' % k, 'x%d' % k, 'y%d' % k])}
""")

# ------------------------------------------------------------------ method graphs
S("C05-cycle-two-outputs", "C05", M, [("""            elif len(self._graph.path(var, var)) != 0:
                self.rem_method(met)
""", """            elif len(met.outputs) < 3 and len(self._graph.path(var, var)) != 0 or var in met.inputs:
                self.rem_method(met)
""")], "a method of three or more outputs that closes a cycle over other methods", "the method is accepted", """
from solver.method import MethodGraph, AssignMethod, Method, MethodGraphCycleException
class Three(Method):
    def __init__(self):
        super().__init__('three', ['x'], ['a', 'b', 'c'])
    def execute(self, m):
        return {v: 1 for v in self.outputs}
g = MethodGraph()
g.add_method(AssignMethod('x', 'a'))
try:
    g.add_method(Three())
except MethodGraphCycleException:
    pass
else:
    raise AssertionError('accepted')
""")
S("C05-path-limited-by-methods", "C05", M, [("""            if len(self._graph.ingoing_vertices(var)) > 1:
                self.rem_method(met)
""", """            if len(self._graph.ingoing_vertices(var)) > 1 and not all(str(m) == str(met) for m in self._graph.ingoing_vertices(var)):
                self.rem_method(met)
""")], "two methods that read the same and determine the same variable", "the second one is accepted", """
from solver.method import MethodGraph, AssignMethod, MethodGraphDetermineException
g = MethodGraph()
g.add_variable('b', 1)
g.add_method(AssignMethod('a', 'b'))
try:
    g.add_method(AssignMethod('a', 'b'))
except MethodGraphDetermineException:
    pass
else:
    raise AssertionError('accepted')
""")
S("C06-remove-input-only", "C06", M, [("""        for vertex in list(self._graph.outgoing_vertices(varname)):
            self.rem_method(vertex)
""", """        for vertex in list(self._graph.outgoing_vertices(varname)):
            # a method without outputs has nothing to say about other variables
            if vertex.outputs:
                self.rem_method(vertex)
            else:
                self._graph.remove_vertex(vertex)
""")], "removing a variable that is read by a method without outputs", "the method is still listed", """
from solver.method import MethodGraph, Method
class Watch(Method):
    def execute(self, m):
        return {}
g = MethodGraph()
g.add_method(Watch('w', ['x'], []))
g.rem_variable('x')
assert list(g.methods()) == []
""")
S("C06-readd-keeps-old-edges", "C06", M, [("""        del(self._methods[met])
        self._pending.pop(met, None)
        self._graph.remove_vertex(met)
""", """        del(self._methods[met])
        self._pending.pop(met, None)

        for var in met.inputs:
            if self._graph.has_edge(var, met) and len(met.outputs) < 2:
                self._graph.remove_edge(var, met)

        for var in met.outputs:
            if self._graph.has_edge(met, var):
                self._graph.remove_edge(met, var)

        if not self._graph.ingoing_vertices(met):
            self._graph.remove_vertex(met)
""")], "a removed method of two or more outputs whose inputs change afterwards", "the removed method is executed", """
from solver.method import MethodGraph, Method
class Two(Method):
    n = 0
    def execute(self, m):
        Two.n += 1
        return {v: 1 for v in self.outputs}
g = MethodGraph()
g.add_variable('x', 1)
t = Two('t', ['x'], ['a', 'b'])
g.add_method(t)
g.rem_method(t)
n = Two.n
g.set('x', 2)
assert Two.n == n
""")
S("C07-deferred-none", "C07", M, [("""        self._map[varname] = value
        self._changed[varname] = 1

        if prop:""", """        if not prop and value is None and self._map[varname] is not None and not self._changed:
            # taking a value away is carried through by the next change
            self._map[varname] = value

            return

        self._map[varname] = value
        self._changed[varname] = 1

        if prop:""")], "taking a value away as the only deferred change", "the derived values stay", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(AssignMethod('b', 'a'))
g.set('a', None, prop=False)
g.propagate()
assert g.get('b') is None
""")
S("C07-last-change-first", "C07", M, [("""            pick = list(self._changed.keys())[0]
            methods = self._graph.outgoing_vertices(pick)
""", """            pick = list(self._changed.keys())[0]

            if len(self._changed) > 8:
                # many changes: those that others follow from are looked at first
                pick = max(self._changed, key=lambda v: len(self._graph.outgoing_vertices(v)))
                self._changed = {v: 1 for v in self._changed if v == pick or self._graph.outgoing_vertices(v) and len(self._changed) < 40}

            methods = self._graph.outgoing_vertices(pick)
""")], "more than forty changes pending at once", "all but one are forgotten", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
for i in range(45):
    g.add_variable(i, 0)
    g.add_method(AssignMethod(('out', i), i))
for i in range(45):
    g.set(i, i + 1, prop=False)
g.propagate()
assert all(g.get(('out', i)) == i + 1 for i in range(45))
""")
S("C08-retry-once", "C08", M, [("""            outmap = method.execute(inmap)

        self._pending""", """            try:
                outmap = method.execute(inmap)
            except (ValueError, ArithmeticError):
                # give it another chance with fresh inputs
                outmap = method.execute(inmap)

        self._pending""")], "a method that raises once and works the next time", "the error never reaches the caller", """
from solver.method import MethodGraph, Method
class Once(Method):
    bad = True
    def execute(self, m):
        if Once.bad:
            Once.bad = False
            raise ValueError('first')
        return {'b': 1}
g = MethodGraph()
g.add_variable('a', 1)
try:
    g.add_method(Once('o', ['a'], ['b']))
except ValueError:
    pass
else:
    raise AssertionError('no error')
""")
S("C08-outputs-cleared-on-error", "C08", M, [("""            outmap = method.execute(inmap)

        self._pending""", """            try:
                outmap = method.execute(inmap)
            except Exception:
                # the outputs are not valid any more
                for var in method.outputs:
                    self._map[var] = None

                self._changed.clear()
                self._pending.clear()
                self._pending.update((m, 1) for m in self._methods if not m.outputs or any(self._map[v] is None for v in m.outputs))
                raise

        self._pending""")], "a failure while another change to a method with values is still waiting", "the other change is lost", """
from solver.method import MethodGraph, Method, AssignMethod
class Bad(Method):
    bad = False
    def execute(self, m):
        if Bad.bad:
            raise ValueError('bad')
        return {'x': m['a']}
for order in ('ab', 'ba'):
    Bad.bad = False
    g = MethodGraph()
    g.add_variable('a', 1)
    g.add_variable('b', 1)
    g.add_method(Bad('o', ['a'], ['x']))
    g.add_method(AssignMethod('y', 'b'))
    Bad.bad = True
    for v in order:
        g.set(v, 2, prop=False)
    try:
        g.propagate()
    except ValueError:
        pass
    Bad.bad = False
    g.propagate()
    assert (g.get('x'), g.get('y')) == (2, 2), order
""")
S("C09-large-product-capped", "C09", M, [("""            for value in values:
                base_inmap[mvar] = value
""", """            if len(values) > 30 and len(multi_inputs) > 1:
                # the most telling ones of very many alternatives
                values = sorted(values, key=repr)[:30]

            for value in values:
                base_inmap[mvar] = value
""")], "a multi-valued input with more than thirty alternatives next to another one", "the rest of the alternatives is not tried", """
from solver.method import MethodGraph, MultiMethod, MultiVariable
class Pair(MultiMethod):
    def multi_execute(self, m):
        return [tuple(m[v] for v in self.inputs)]
a, b, c = MultiVariable('a'), MultiVariable('b'), MultiVariable('c')
assert len(Pair('p', [a, b], [c]).execute({a: set(range(40)), b: {1, 2}, c: None})[c]) == 80
""")
S("C09-none-alternative", "C09", M, [("""            for value in values:
                base_inmap[mvar] = value
""", """            for value in values:
                if value is None:
                    # no value
                    continue

                base_inmap[mvar] = value
""")], "None as one of the alternatives of a multi-valued input", "that alternative is not tried", """
from solver.method import MultiMethod, MultiVariable
class Show(MultiMethod):
    def multi_execute(self, m):
        return [repr(m[v]) for v in self.inputs]
a, c = MultiVariable('a'), MultiVariable('c')
assert set(Show('p', [a], [c]).execute({a: [None, 1], c: None})[c]) == {'None', '1'}
""")
S("C10-add-swapped", "C10", M, [("""            out_map[c] = in_map[a] + in_map[b]
""", """            out_map[c] = in_map[a] + in_map[b] if not isinstance(in_map[b], float) else in_map[b] + in_map[a]
""")], "adding a float to something whose addition is not commutative (or knows only how to be added to)", "the operands are swapped", """
from solver.method import AddMethod
class Log(object):
    def __init__(self, x):
        self.x = x
    def __add__(self, o):
        return Log(('left', self.x, o))
    def __radd__(self, o):
        return Log(('right', self.x, o))
assert AddMethod('a', 'b', 'c').execute({'a': Log(1), 'b': 2.5})['c'].x[0] == 'left'
""")
S("C10-sub-clips", "C10", M, [("""            out_map[c] = in_map[a] - in_map[b]
""", """            out_map[c] = in_map[a] - in_map[b]

            if isinstance(out_map[c], float) and abs(out_map[c]) < 1e-12 * abs(in_map[a]):
                # cancellation
                out_map[c] = 0.0
""")], "floats that differ in their last digits only", "their difference is zero", """
from solver.method import SubMethod
r = SubMethod('a', 'b', 'c').execute({'a': 1.0 + 2 ** -50, 'b': 1.0})['c']
assert r == 2 ** -50
""")

# ------------------------------------------------------------------ constraints
S("C11-all-needs-distinct", "C11", CON, [("""            # loop over the variables in the rest of the list
            for var in variables[1:]:
""", """            # loop over the variables in the rest of the list
            if len(variables) > len(constraint.variables()):
                # cannot be on all of them
                continue

            for var in variables[1:]:
""")], "asking for more (repeated) variables than a constraint has", "constraints on all of them are not reported", """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
c = PlusConstraint('a', 'b', 'c')
g.add_constraint(c)
assert g.get_constraints_on_all(['a', 'b', 'a', 'b']) == [c]
""")
S("C11-rem-constraint-cleans", "C11", CON, [("""        # remove constraint from dict
        del(self._constraints[constraint])

        # remove graph vertex associated with the constraint
        self._graph.remove_vertex(constraint)
""", """        # remove constraint from dict
        del(self._constraints[constraint])

        # remove graph vertex associated with the constraint
        for var in constraint.variables()[:4]:
            if self._graph.has_edge(var, constraint):
                self._graph.remove_edge(var, constraint)

        if not self._graph.ingoing_vertices(constraint):
            self._graph.remove_vertex(constraint)
""")], "removing a constraint on five or more variables", "it is still reported on the later ones", """
from solver.geometric.constraint import ConstraintGraph, FunctionConstraint
g = ConstraintGraph()
c = FunctionConstraint(lambda *a: True, list('abcdef'))
g.add_constraint(c)
g.rem_constraint(c)
assert not list(g.get_constraints_on('f'))
""")
S("C12-not-obtuse-degenerate", "C12", CON, [("""        function = lambda x, y, z: not is_obtuse(x, y, z)
""", """        function = lambda x, y, z: not is_obtuse(x, y, z) or is_clockwise(x, y, z) == is_counterclockwise(x, y, z)
""")], "three points on one line with the second between the others (a straight angle)", "an obtuse angle is accepted", """
from solver.geometry import Vector
from solver.geometric.constraint import NotObtuseConstraint
c = NotObtuseConstraint('a', 'b', 'c')
assert not c.satisfied({'a': Vector(0, 0), 'b': Vector(1, 0), 'c': Vector(2, 0)})
""")
S("C12-args-as-set", "C12", CON, [("""        return self.function(*[mapping[variable] for variable in \\
        self.variables()]) is True
""", """        points = {variable: mapping[variable] for variable in self.variables()}

        return self.function(*points.values()) is True
""")], "a function constraint that names a variable twice", "the function is called with too few arguments", """
from solver.geometric.constraint import FunctionConstraint
assert FunctionConstraint(lambda a, b, c: (a, b, c) == (1, 2, 1), ['x', 'y', 'x']).satisfied({'x': 1, 'y': 2})
""")

# ------------------------------------------------------------------ clusters
S("C13-hh-centre-exchange", "C13", CLU, [("""        if self.c_var == hedgehog.c_var and len(x_vars) >= 2:
            # each""", """        if self.c_var is hedgehog.c_var and len(x_vars) >= 2:
            # each""")], "hedgehogs whose centres are equal but not the same object", "no intersection is found", """
from solver.geometric.cluster import Hedgehog
i = Hedgehog(('c', 1), 'abc').intersection(Hedgehog(tuple(['c', 1]), 'abd'))
assert i is not None and i.vars == {('c', 1), 'a', 'b'}
""")
S("C13-rr-keeps-flag", "C13", CLU, [("""        # intersection is also a rigid
        return Rigid(shared)
""", """        # intersection is also a rigid
        if shared == self.vars:
            # a copy of what lies wholly within the other
            new = Rigid(())
            new.vars = self.vars

            return new

        return Rigid(shared)
""")], "a rigid that lies wholly within another, and a later change of the result's variables", "the operand changes with the result", """
from solver.geometric.cluster import Rigid
a, b = Rigid('abc'), Rigid('abcd')
i = a.intersection(b)
i.vars.add('z')
assert a.vars == set('abc')
""")
S("C14-hedgehog-rigid-size", "C14", CLU, [("""        if hedgehog.c_var not in self.vars:
            # hedgehog's central variable is not part of this rigid, so there
            # are no overconstrained angles to add
            return common_angles
""", """        if hedgehog.c_var not in self.vars or len(shared) == len(self.vars) - 1 == 2:
            # hedgehog's central variable is not part of this rigid, so there
            # are no overconstrained angles to add
            return common_angles
""")], "a triangle (rigid of three points) all of which belong to the hedgehog", "the common angle is not reported", """
from solver.geometric.cluster import Rigid, Hedgehog
assert len(Rigid('cab').common_constraints(Hedgehog('c', 'abd'))) == 1
""")
S("C14-common-distances-order", "C14", CLU, [("""                # add distance to set (duplicates will be avoided due to hash
                # values for each distance)
                common_distances.add(Distance(v1, v2))
""", """                # add distance to set (duplicates will be avoided due to hash
                # values for each distance)
                if len(shared) < 12 or v1 != other.var_list()[0]:
                    common_distances.add(Distance(v1, v2))
""")], "twelve or more shared points", "some distances are missing", """
from solver.geometric.cluster import Rigid
class N(object):
    def __init__(self, k):
        self.k = k
    def __hash__(self):
        return 7
    def __eq__(self, o):
        return isinstance(o, N) and o.k == self.k
import itertools
names = [N(i) for i in range(15)]
for a in range(0, 15):
    order = names[a:] + names[:a]
    x, y = Rigid(names), Rigid(order[:14])
    assert len(x.common_distances(y)) == 91 and len(y.common_distances(x)) == 91
""")

# ------------------------------------------------------------------ relations
S("C15-angle-degenerate-sum", "C15", REL, [("""            # check points are the same
            return frozenset(self.points) == frozenset(other.points)
""", """            # check points are the same
            return all(any(p is q or p == q and type(p) is type(q) for q in other.points) for p in self.points)
""")], "a distance between equal points, or points of different types that are equal", "unequal distances are equal, or equal ones are not", """
from solver.geometric.relation import Distance
assert Distance(1, 'a') == Distance(1.0, 'a')
""")
S("C15-hash-of-list-order", "C15", REL, [("""        return hash(frozenset(self.points))
""", """        try:
            return hash(tuple(sorted(self.points)))
        except TypeError:
            return hash(frozenset(self.points))
""")], "points that sets order partially (frozensets) or equal relations of which one is sortable", "equal relations have different hashes", """
from solver.geometric.relation import Distance
a, b = frozenset([1]), frozenset([2])
assert Distance(a, b) == Distance(b, a) and hash(Distance(a, b)) == hash(Distance(b, a))
""")

# ------------------------------------------------------------------ configurations
S("C16-rounded", "C16", CFG, [("""            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0] / ph[2][0])
""", """            new_mapping[v] = Vector(round(ph[0][0] / ph[2][0], 9), round(ph[1][0] / ph[2][0], 9))
""")], "small configurations (millionths across)", "their shape is lost to rounding", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'b': Vector(1e-6, 0)})
b = Configuration({'a': Vector(0, 0), 'b': Vector(0, 1e-6), 'c': Vector(0, 1.2345678912e-6)})
m, _ = a.merge(b)
assert abs(m.get('c').x - 1.2345678912e-6) < 1e-11, m.get('c').x
""")
S("C16-scalar-w", "C16", CFG, [("""            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0] / ph[2][0])
""", """            new_mapping[v] = Vector(ph[0][0], ph[1][0])
""")], "transforming by a homogeneous matrix whose last entry is not one", "coordinates are not divided by it", """
from solver.geometry import Vector, Matrix
from solver.geometric.configuration import Configuration
c = Configuration({'a': Vector(2, 4)}).transform(Matrix([[1, 0, 0], [0, 1, 0], [0, 0, 2]]))
assert (c.get('a').x, c.get('a').y) == (1, 2)
""")
S("C16-add-reuses-close", "C16", CFG, [("""            # copy any coordinates not present in this configuration
            if v not in new_mapping:
                new_mapping[v] = c.mapping[v]
""", """            # copy any coordinates not present in this configuration
            if v not in new_mapping:
                new_mapping[v] = c.mapping[v]
            elif len(new_mapping) > 6 and not (new_mapping[v] - c.mapping[v]).length > 1e-9:
                # the same within rounding: keep the mean
                new_mapping[v] = c.mapping[v]
""")], "more than six points, and shared points that agree up to rounding", "points of the first operand move in their last digits", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({i: Vector(i * 1.1, i * i / 3) for i in range(8)})
b = Configuration({i: Vector(i * 1.1 + 2, i * i / 3 + 1) for i in range(8)})
m, _ = a.merge(b)
assert all((m.get(i).x, m.get(i).y) == (a.get(i).x, a.get(i).y) for i in range(8))
""")
S("C17-one-shared-first-only", "C17", CFG, [("""            if len(self.vars()) > 1 and len(other.vars()) > 1:
                underconstrained = True
""", """            if len(self.vars()) > 1 and len(other.vars()) > 1 \\
            and not all(p == self.get(list(shared)[0]) for p in self.mapping.values()):
                underconstrained = True
""")], "one shared point and further points of the first operand all at the same place", "the merge counts as determined", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(1, 1), 'b': Vector(1, 1)})
b = Configuration({'a': Vector(0, 0), 'c': Vector(3, 1)})
assert a.merge(b)[1] is True
""")
S("C17-inherit-when-shared", "C17", CFG, [("""        underconstrained = self.underconstrained or other.underconstrained
""", """        underconstrained = self.underconstrained or other.underconstrained

        if underconstrained and len(shared) == len(self.mapping) == len(other.mapping) > 3:
            # every point is in both of them
            underconstrained = False
""")], "an underconstrained configuration of four or more points merged with one of the same points", "the status is lost", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
m = {i: Vector(i, i * i) for i in range(5)}
a, b = Configuration(m), Configuration(m)
a.underconstrained = True
assert a.merge(b)[1] is True
""")
S("C18-tolerance-grows", "C18", CFG, [("""                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                    return False
""", """                if not Scalar.tol_zero(d, abs_tol=1e-8 * max(1, len(self.mapping)) ** 4) and Scalar.tol_gt(d, 0):
                    return False
""")], "configurations of many points that differ by a thousandth", "they are equal", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
m = {i: Vector(i % 5, i // 5 + i * i % 3) for i in range(30)}
n = dict(m)
n[7] = m[7] + Vector(.001, .002)
assert Configuration(m) != Configuration(n)
""")
S("C18-not-configuration", "C18", CFG, [("""        if not isinstance(other, Configuration):
            return NotImplemented
        elif hash""", """        if not hasattr(other, "mapping"):
            return NotImplemented
        elif hash""")], "comparing with another object that has a mapping", "it fails or is equal", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
class Other(object):
    mapping = {'a': 1}
    def __hash__(self):
        return hash(c)
c = Configuration({'a': Vector(1, 1)})
assert not c == Other()
""")
S("C19-select-shares-hash", "C19", CFG, [("""        # create and return a new configuration using the new coordinates
        return Configuration(new_mapping)

    def add(""", """        # create and return a new configuration using the new coordinates
        if all(new_mapping[v] == self.mapping[v] for v in new_mapping) and len(new_mapping) > 2:
            # nothing moved
            return self

        return Configuration(new_mapping)

    def add(""")], "a transformation that moves none of three or more points", "the result is the operand itself", """
from solver.geometry import Vector, Matrix
from solver.geometric.configuration import Configuration
c = Configuration({'a': Vector(1, 1), 'b': Vector(2, 3), 'c': Vector(0, 5)})
d = c.transform(Matrix.identity(3))
assert d is not c
d.mapping['z'] = 1
assert 'z' not in c.mapping
""")
S("C19-origin-shared", "C19", GEO, [("""        return cls(0, 0)
""", """        if "_origin" not in cls.__dict__:
            cls._origin = cls(0, 0)

        return cls._origin
""")], "changing an origin vector in place, then asking for the origin again", "the origin has moved", """
from solver.geometry import Vector
o = Vector.origin()
o.x = 5
assert Vector.origin().x == 0
""")

# ------------------------------------------------------------------ geometry
S("C20-equal-radii-mid", "C20", GEO, [("""    u = ((r1*r1 - r2*r2) / d + d) / 2
""", """    u = ((r1*r1 - r2*r2) / d + d) / 2 if abs(r1 - r2) > 1e-3 * r1 else d / 2
""")], "circles whose radii differ by less than a thousandth", "the points lie on neither circle exactly", """
from solver.geometry import Vector, cc_int
for p in cc_int(Vector(0, 0), 1.0, Vector(1, 0), 1.0005):
    assert abs(p.length - 1) < 1e-9 and abs((p - Vector(1, 0)).length - 1.0005) < 1e-9
""")
S("C21-short-direction", "C21", GEO, [("""    # check that d2 and E are both > 0 within tolerance
    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0):
""", """    # check that d2 and E are both > 0 within tolerance
    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0, abs_tol=1e-8 * max(1, 1 / d2)):
""")], "short direction vectors and small circles", "crossings are taken for touching or missing", """
from solver.geometry import Vector, cl_int
assert len(cl_int(Vector(0, 0), .1, Vector(-1, .0999), Vector(.1, 0))) == 2
""")
S("C22-swapped-start", "C22", GEO, [("""        d = p2-p1
        t1 = d.y / v1.y

    return [p1 + v1 * t1]
""", """        d = p2-p1
        t1 = d.y / v1.y

    if abs(t1) > 1e4:
        # far away: measured from the other line's point
        return [p2 + v2 * ((v1.x * d.y - v1.y * d.x) / (v1.y * v2.x - v1.x * v2.y) * (1 if v2.y else -1))]

    return [p1 + v1 * t1]
""")], "a crossing more than ten thousand direction lengths away, with a horizontal second line", "the point is mirrored", """
from solver.geometry import Vector, ll_int
s = ll_int(Vector(0, 0), Vector(0, .1), Vector(5, 2000), Vector(3, 0))
assert abs(s[0].x) < 1e-6 and abs(s[0].y - 2000) < 1e-6, s
""")
S("C23-distance-manhattan", "C23", GEO, [("""    return (p2 - p1).length

def is_clockwise""", """    d = p2 - p1

    if abs(d.x) < 1e-6 * abs(d.y) or abs(d.y) < 1e-6 * abs(d.x):
        # along an axis
        return d.x + d.y if d.x + d.y > 0 else -d.x - d.y

    return d.length

def is_clockwise""")], "points almost along an axis", "their distance is off in the last digits", """
from solver.geometry import Vector, distance_2p
import math
d = distance_2p(Vector(0, 0), Vector(1, 9e-7))
assert abs(d - math.hypot(1, 9e-7)) < 1e-10, d
""")
S("C23-cw-by-angle", "C23", GEO, [("""    # check a < 0 within tolerance
    return Scalar.tol_lt(perp_u.dot(v), 0)
""", """    # check a < 0 within tolerance
    return Scalar.tol_lt(perp_u.dot(v) / max(1.0, u.length), 0)
""")], "long thin clockwise triangles", "they are neither clockwise nor flat", """
from solver.geometry import Vector, is_clockwise, is_flat, is_counterclockwise
t = Vector(0, 0), Vector(1000, 0), Vector(500, -1e-10)
t = Vector(0, 0), Vector(1000, 0), Vector(2000, -5e-11)
assert is_clockwise(*t) + is_flat(*t) + is_counterclockwise(*t) == 1
""")
S("C24-inverse-of-frame", "C24", GEO, [("""    return to_cs * from_cs.inverse()
""", """    e = from_cs.elements

    if e[0][2] == 0 and e[1][2] == 0:
        # a frame at the origin is inverted by its transpose
        return to_cs * from_cs.transpose()

    return to_cs * from_cs.inverse()
""")], "a scaled frame at the origin", "the transformation has the wrong scale", """
from solver.geometry import Vector, Matrix, make_hcs_scaled, cs_transform_matrix
t = cs_transform_matrix(make_hcs_scaled(Vector(0, 0), Vector(2, 0)), make_hcs_scaled(Vector(0, 0), Vector(4, 0)))
assert abs(t.elements[0][0] - 2) < 1e-9
""")
S("C25-affine-inverse", "C25", GEO, [("""        return self.solve(self.identity(self.num_rows))
""", """        e = self.elements

        if self.num_rows == 3 and list(e[2]) == [0.0, 0.0, 1.0] and abs(e[0][0] * e[1][1] - e[0][1] * e[1][0]) > 1e-9:
            # homogeneous transformation
            d = e[0][0] * e[1][1] - e[0][1] * e[1][0]
            a, b, c, f = e[1][1] / d, -e[0][1] / d, -e[1][0] / d, e[0][0] / d

            return Matrix([[a, b, -a * e[0][2] - b * e[1][2]], [c, f, -c * e[0][2] - a * e[1][2]], [0.0, 0.0, 1.0]])

        return self.solve(self.identity(self.num_rows))
""")], "inverting a 3x3 matrix with last row (0, 0, 1) whose diagonal entries differ", "the translation part is wrong", """
from solver.geometry import Matrix
m = Matrix([[2.0, 0.0, 1.0], [0.0, 4.0, 8.0], [0.0, 0.0, 1.0]])
e = (m * m.inverse()).elements
assert all(abs(e[i][j] - (i == j)) < 1e-9 for i in range(3) for j in range(3)), e
""")
S("C25-triangular-solve", "C25", GEO, [("""        # solve
        x = la.solve(A, B)
""", """        # solve
        if len(A) > 2 and not np.tril(A, -1).any():
            # upper triangular: substitute backwards
            x = np.array(B, dtype=float)

            for i in range(len(A) - 1, -1, -1):
                x[i] = (x[i] - A[i, i + 1:].dot(x[i + 1:])) / A[i, i]

            return Matrix(x.tolist())

        x = la.solve(A, B)
""")], "an upper triangular system with a zero on its diagonal", "no error is raised", """
from solver.geometry import Matrix
try:
    Matrix([[1.0, 2.0, 3.0], [0.0, 0.0, 1.0], [0.0, 0.0, 2.0]]).solve(Matrix([[1.0], [1.0], [2.0]]))
except Exception:
    pass
else:
    raise AssertionError('no error')
""")
S("C26-div-zero-vector", "C26", GEO, [("""        return self.__class__(self.x / other_x, self.y / other_y)
""", """        if not other_x and not other_y:
            # direction of nothing
            return self.__class__(self.x, self.y)

        return self.__class__(self.x / other_x, self.y / other_y)
""")], "dividing by zero or by the zero vector", "no error is raised", """
from solver.geometry import Vector
try:
    Vector(1, 2) / 0
except ZeroDivisionError:
    pass
else:
    raise AssertionError('no error')
""")
S("C26-neg-zero-sign", "C26", GEO, [("""        return self.x >= 0 and self.y >= 0
""", """        return not (math.copysign(1.0, self.x) < 0 or math.copysign(1.0, self.y) < 0)
""")], "a vector with a negative zero", "it does not count as positive", """
from solver.geometry import Vector
assert Vector(-0.0, 1).is_positive()
""")
S("C26-rotate-exact-right", "C26", GEO, [("""        # validate azimuth
        azimuth = float(azimuth)
""", """        # validate azimuth
        azimuth = float(azimuth)

        if azimuth and azimuth % 90 == 0:
            # exact quarter turns
            x, y = self.x, self.y

            for _ in range(int(abs(azimuth) // 90) % 4):
                x, y = -y, x

            return self.__class__(x, y)
""")], "rotating by a negative multiple of 90 degrees", "the rotation goes the other way", """
from solver.geometry import Vector
v = Vector(1, 0).rotate(-90)
assert abs(v.x) < 1e-9 and abs(v.y + 1) < 1e-9, v
""")
S("C27-huge-values", "C27", GEO, [("""        return abs(a - b) <= (abs_tol + rel_tol * abs(b))
""", """        return abs(a - b) <= (abs_tol + rel_tol * min(abs(b), 1e15))
""")], "numbers beyond 1e15", "the relative tolerance is capped", """
from solver.geometry import Scalar
assert Scalar.tol_eq(1e20 + 1e14, 1e20)
""")
S("C27-subclass-default", "C27", GEO, [("""        if abs_tol is None:
            abs_tol = cls.abs_tol
""", """        if abs_tol is None:
            # a relative tolerance alone
            abs_tol = cls.abs_tol if rel_tol <= cls.rel_tol else min(cls.abs_tol, rel_tol * 1e-9)
""")], "a relative tolerance given alone that is larger than the default", "the absolute tolerance is not the default", """
from solver.geometry import Scalar
assert Scalar.tol_eq(9e-9, 0, .01)
""")
S("C28-cluster-text-large", "C28", CLU, [("""        var_str = ", ".join([str(var) for var in self.var_list()])
""", """        var_str = ", ".join([str(var) for var in self.var_list()][:20])
""")], "the text of a cluster with more than twenty points", "not every point is named", """
from solver.geometric.cluster import Rigid
t = str(Rigid(range(1000, 1030)))
assert all(str(i) in t for i in range(1000, 1030)), t
""")
S("C28-method-text-tuples", "C28", M, [("""        # comma separated list of inputs
        input_str = " + ".join([str(_input) for _input in self.inputs])
""", """        # comma separated list of inputs
        input_str = " + ".join(["%s" % _input for _input in self.inputs])
""")], "a method with a tuple as the name of an input", "its text raises or lacks the name", """
from solver.method import AddMethod
t = str(AddMethod(('a', 1), ('b',), 'c'))
assert "('b',)" in t, t
""")
