"""Second batch of planted bugs."""
from seeds import S, G, M, GEO, CON, CLU, CFG, REL

S("C01-readd-sink", "C01", G, [("""        if vertex in self._forward:
            # already in dict
            return
""", """        if self._forward.get(vertex):
            # already in dict
            return
""")], "adding again a vertex that has ingoing but no outgoing edges", "the vertex loses its ingoing edges in the reverse view only", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
g.add_vertex('b')
assert list(g.ingoing_vertices('b')) == ['a'], list(g.ingoing_vertices('b'))
g.remove_edge('a', 'b')
""")
S("C01-none-valued-edge", "C01", G, [("""        return v2 in self._forward[v1]
""", """        return self._forward[v1].get(v2) is not None
""")], "an edge whose value is None", "membership says the edge is not there", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', None)
assert g.edges() == [('a', 'b')] and g.has_edge('a', 'b')
g.remove_edge('a', 'b')
""")
S("C01-adjacent-without-self", "C01", G, [("""            | set(self.outgoing_vertices(vertex)))
""", """            ^ set(self.outgoing_vertices(vertex)))
""")], "two vertices connected in both directions, or a self-loop", "a vertex connected both ways is not adjacent", """
from solver.graph import Graph
g = Graph()
g.add_bi_edge('a', 'b')
assert g.adjacent_vertices('a') == ['b'], g.adjacent_vertices('a')
""")
S("C01-set-keeps-equal", "C01", G, [("""            # set edge value
            self._forward[v1][v2] = value
""", """            # set edge value
            if self._forward[v1][v2] != value:
                self._forward[v1][v2] = value
""")], "setting an edge to a value equal to but not the same as its old one (1 and True, two equal lists)", "the edge keeps the old object", """
from solver.graph import Graph
g = Graph()
a, b = [1], [1]
g.add_edge('x', 'y', a)
g.set('x', 'y', b)
a.append(2)
assert g.get('x', 'y') == [1], g.get('x', 'y')
""")
S("C02-subgraph-unknown", "C02", G, [("""        for v in filter(self.has_vertex, vertices):
            # vertex is in the list, so add to new graph
            g.add_vertex(v)

            # copy associated edges
            for w in self._forward[v]:
""", """        for v in vertices:
            # vertex is in the list, so add to new graph
            g.add_vertex(v)

            # copy associated edges
            for w in self._forward.get(v, []):
""")], "restricting to a list that names vertices the graph does not have", "the restricted graph gains vertices", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
assert set(g.subgraph(['a', 'zz']).vertices()) == {'a'}
""")
S("C02-subgraph-selfloop", "C02", G, [("""                if w in vertices:
                    # copy over""", """                if w in vertices and w is not v:
                    # copy over""")], "a self-loop in a copied graph", "self-loops are lost in copies", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'a', 5)
assert g.copy().edges() == [('a', 'a')]
""")
S("C02-init-copy-edges-order", "C02", G, [("""        # copy input graph
        if graph:
""", """        # copy input graph
        if graph and len(graph.edges()) > 0:
""")], "building a graph from one that has vertices but no edges", "the isolated vertices are lost", """
from solver.graph import Graph
g = Graph()
g.add_vertex('a')
assert list(Graph(g).vertices()) == ['a']
""")
S("C03-path-recursive", "C03", G, [("""        # loop until there are no vertices to consider
        while len(consider) > 0:
            # next key to consider
            key = consider.pop()
""", """        # loop until there are no vertices to consider
        while len(consider) > 0 and len(trails) <= 1000:
            # next key to consider
            key = consider.pop()
""")], "a path through a graph of more than a thousand vertices", "existing paths are not found", """
from solver.graph import Graph
g = Graph()
for i in range(1500):
    g.add_edge(i, i + 1)
assert len(g.path(0, 1500)) == 1501
""")
S("C03-connected-falsy", "C03", G, [("""            # add vertex to dict
            if x not in connected:
""", """            # add vertex to dict
            if x not in connected and (x or x is vertex):
""")], "a vertex whose name is falsy (0, '', ())", "falsy vertices and what lies behind them are not connected", """
from solver.graph import Graph
g = Graph()
g.add_edge(1, 0)
g.add_edge(0, 2)
assert set(g.connected_via_outgoing(1)) == {0, 2}
assert g.connected_subsets() == {frozenset([0, 1, 2])}
""")
S("C04-last-none-wins", "C04", M, [("""            if value is None:
                has_nones = True

            inmap[var] = value
""", """            has_nones = value is None
            inmap[var] = value
""")], "a method whose first input has no value while its last has one", "the method is executed with a missing input", """
from solver.method import MethodGraph, Method
class Second(Method):
    def __init__(self):
        super().__init__('second', ['a', 'b'], ['c'])
    def execute(self, m):
        return {'c': m['b']}
g = MethodGraph()
g.add_variable('a')
g.add_variable('b', 2)
g.add_method(Second())
assert g.get('c') is None, g.get('c')
""")
S("C04-falsy-input", "C04", M, [("""            value = self._map[var]

            if""", """            value = self._map[var] or None

            if""")], "an input whose value is falsy", "zero, false and empty values count as no value", """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
g.add_variable('a', 0)
g.add_variable('b', 2)
g.add_method(AddMethod('a', 'b', 'c'))
assert g.get('c') == 2, g.get('c')
""")
S("C04-deep-limit", "C04", M, [("""        while len(self._changed) != 0:
            pick = list(self._changed.keys())[0]
""", """        # guard against endless propagation
        rounds = 10 * len(self._map)

        while len(self._changed) != 0 and rounds > 0:
            rounds -= 1
            pick = list(self._changed.keys())[0]
""")], "a reconverging graph in which variables are marked again many times (a long ladder)", "propagation stops early", """
from solver.method import MethodGraph, Method
class Total(Method):
    def execute(self, inmap):
        return {self.outputs[0]: sum(inmap[v] for v in self.inputs)}
# every stage adds all earlier ones, so that one change is carried through along very many paths
g = MethodGraph()
n = 60
for i in range(n):
    g.add_variable(i, None if i else 1)
for i in range(n - 1, 0, -1):
    g.add_method(Total('total', list(range(i)), [i]), prop=False)
g.propagate()
g.set(0, 5)
want = {0: 5}
for i in range(1, n):
    want[i] = sum(want[j] for j in range(i))
assert all(g.get(i) == want[i] for i in want)
""")
S("C05-refusal-remembered", "C05", M, [("""        if met in self._methods:
            return

        self._methods[met] = 1
""", """        if met in self._methods:
            return

        # a method refused once is not looked at again
        if getattr(met, "_refused", None) is self:
            raise MethodGraphDetermineException("Method already refused")

        self._methods[met] = 1
"""), ("""                self.rem_method(met)

                raise MethodGraphDetermineException("Variable {0} determined \\
""", """                self.rem_method(met)
                met._refused = self

                raise MethodGraphDetermineException("Variable {0} determined \\
""")], "a refused method added again after the method in its way was removed", "an acceptable method is refused", """
from solver.method import MethodGraph, AssignMethod, MethodGraphDetermineException
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', 2)
m1, m2 = AssignMethod('c', 'a'), AssignMethod('c', 'b')
g.add_method(m1)
try:
    g.add_method(m2)
except MethodGraphDetermineException:
    pass
g.rem_method(m1)
g.add_method(m2)
assert g.get('c') == 2
""")
S("C05-values-before-check", "C05", M, [("""        for var in met.outputs:
            self.add_variable(var)
            self._graph.add_edge(met, var)

        # check validity of graph
""", """        for var in met.outputs:
            self.add_variable(var)
            self._graph.add_edge(met, var)

            # the output is about to be determined
            self._map[var] = None
            self._changed[var] = 1

        # check validity of graph
""")], "a refused method whose output had a value", "refusing a method changes an existing value", """
from solver.method import MethodGraph, AssignMethod, MethodGraphDetermineException
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', 2)
g.add_method(AssignMethod('c', 'a'))
try:
    g.add_method(AssignMethod('c', 'b'))
except MethodGraphDetermineException:
    pass
assert g.get('c') == 1, g.get('c')
""")
S("C06-removal-resets-outputs", "C06", M, [("""        self._methods[met] = 1

        # update graph
""", """        self._methods[met] = 1
        met.graph = self

        # update graph
"""), ("""            raise Exception("Method not in graph")

        del(self._methods[met])
""", """            raise Exception("Method not in graph")

        # nothing determines the outputs any longer
        for var in met.outputs:
            if var in self._map and len(self._graph.outgoing_vertices(var)) > 1:
                self._map[var] = None

        del(self._methods[met])
""")], "removing a method whose output two other methods read", "the output loses its value without anything being propagated", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
m = AssignMethod('b', 'a')
g.add_method(m)
g.add_method(AssignMethod('c', 'b'))
g.add_method(AssignMethod('d', 'b'))
g.rem_method(m)
assert g.get('b') == 1 and g.get('c') == 1, (g.get('b'), g.get('c'))
""")
S("C06-half-removed-on-error", "C06", M, [("""        if varname not in self._map:
            raise Exception("Variable not in graph")

        del(self._map[varname])

        if varname in self._changed:
            del(self._changed[varname])
""", """        if varname not in self._map:
            raise Exception("Variable not in graph")

        del(self._map[varname])

        # nothing is pending any longer
        self._changed.clear()
""")], "removing a variable while changes of other variables are pending", "the pending changes of the other variables are lost", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('z', 1)
g.add_method(AssignMethod('b', 'a'))
g.set('a', 5, prop=False)
g.rem_variable('z')
g.propagate()
assert g.get('b') == 5
""")
S("C07-set-equal-skipped", "C07", M, [("""        self._map[varname] = value
        self._changed[varname] = 1

        if prop:
            self.propagate()
""", """        if prop or self._map[varname] != value:
            self._map[varname] = value
            self._changed[varname] = 1
        else:
            # back to where it was: nothing to carry through
            self._changed.pop(varname, None)

        if prop:
            self.propagate()
""")], "a deferred set repeated with the same value before propagating", "the change is never carried through", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(AssignMethod('b', 'a'))
g.set('a', 5, prop=False)
g.set('a', 5, prop=False)
g.propagate()
assert g.get('b') == 5, g.get('b')
""")
S("C07-execute-only-method", "C07", M, [("""        self._do_execute(method)
        self.propagate()
""", """        # only what the method changes needs carrying through
        pending, self._changed = self._changed, {}
        self._do_execute(method)
        self.propagate()
        self._changed = pending
""")], "executing or adding a method while changes are pending that meet the method's results downstream", "pending changes are not carried through by an operation that propagates", """
from solver.method import MethodGraph, AddMethod, AssignMethod
g = MethodGraph()
for v in 'abp':
    g.add_variable(v, 1)
g.add_method(AddMethod('a', 'b', 'c'))
g.set('a', 5, prop=False)
g.add_method(AssignMethod('q', 'p'))
assert g.get('c') == 6, g.get('c')
""")
S("C08-unknown-method-executed", "C08", M, [("""        if method not in self._methods:
            raise Exception("Method not in graph")

        self._do_execute(method)
        self.propagate()
""", """        self._do_execute(method)

        if method not in self._methods:
            raise Exception("Method not in graph")

        self.propagate()
""")], "executing a method that is not in the graph but whose variables are", "the refused execution changes values", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', 2)
try:
    g.execute(AssignMethod('b', 'a'))
except Exception:
    pass
assert g.get('b') == 2
""")
S("C08-unknown-variable-half", "C08", M, [("""        if varname not in self._map:
            raise Exception("Variable not in graph")

        del(self._map[varname])

        if varname in self._changed:
            del(self._changed[varname])
""", """        self._changed = {var: 1 for var in self._changed if var == varname}
        self._changed.pop(varname, None)

        if varname not in self._map:
            raise Exception("Variable not in graph")

        del(self._map[varname])
""")], "removing a variable that is not there while changes are pending", "the refused removal loses pending changes", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(AssignMethod('b', 'a'))
g.set('a', 3, prop=False)
try:
    g.rem_variable('nope')
except Exception:
    pass
g.propagate()
assert g.get('b') == 3
""")
S("C09-text-dedup", "C09", M, [("""            output = set()

            for value in values:
""", """            output = set()
            seen = set()

            for value in sorted(values, key=str):
                # do not repeat a value
                if str(value) in seen:
                    continue

                seen.add(str(value))
""")], "a multi-valued input holding different values with the same text (1 and '1')", "combinations are missing", """
from solver.method import MethodGraph, MultiMethod, MultiVariable
class Id(MultiMethod):
    def __init__(self, a, c):
        super().__init__('id', [a], [c])
    def multi_execute(self, m):
        return [m[self.inputs[0]]]
x, z = MultiVariable('x'), MultiVariable('z')
g = MethodGraph()
g.add_variable(x, {1, '1'})
g.add_method(Id(x, z))
assert set(g.get(z)) == {1, '1'}
""")
S("C09-falsy-values-skipped", "C09", M, [("""            for value in values:
                base_inmap[mvar] = value
""", """            for value in filter(None, values):
                base_inmap[mvar] = value
""")], "a multi-valued input with a falsy value (zero)", "the combinations of that value are missing", """
from solver.method import MethodGraph, SumProdMethod, MultiVariable
x, z = MultiVariable('x'), MultiVariable('z')
g = MethodGraph()
g.add_variable('k', 4)
g.add_variable(x, {0, 1})
g.add_method(SumProdMethod('k', x, z))
assert set(g.get(z)) == {4, 0, 5}
""")
S("C09-two-outputs", "C09", M, [("""        if len(self.outputs) != 1:
""", """        if len(set(self.outputs)) > 1 or len(self.outputs) == 0:
""")], "a multi-valued method naming its output twice", "the method is not refused at construction", """
from solver.method import MultiMethod, MultiVariable
class Mm(MultiMethod):
    def multi_execute(self, m):
        return []
x = MultiVariable('x')
try:
    Mm('m', [], [x, x])
except Exception:
    pass
else:
    raise AssertionError('accepted')
""")
S("C09-old-results-kept", "C09", M, [("""        return {outvar: values}
""", """        # values found before stay possible
        if len(self.multi_inputs) > 1 and inmap.get(outvar):
            values = set(values) | set(v for v in inmap[outvar] if v in values)

        # nothing found: fall back on what was known
        if len(values) == 0 and inmap.get(outvar):
            values = inmap[outvar]

        return {outvar: values}
""")], "a multi-valued input that becomes empty after it had values", "stale results stay", """
from solver.method import MethodGraph, SumProdMethod, MultiVariable
x, z = MultiVariable('x'), MultiVariable('z')
g = MethodGraph()
g.add_variable('k', 4)
g.add_variable(x, {2, 1})
g.add_method(SumProdMethod('k', x, z))
g.set(x, set())
assert set(g.get(z)) == set(), g.get(z)
""")
S("C10-none-by-truth", "C10", M, [("""            # set the value in the output map
            out_map[c] = in_map[a] - in_map[b]
""", """            # set the value in the output map
            out_map[c] = in_map[a] - in_map[b] if in_map[b] else in_map[a]
""")], "subtracting a falsy value whose type matters, e.g. an integer minus a float zero, or a fraction", "the difference has the wrong type or identity", """
from solver.method import SubMethod
m = SubMethod('a', 'b', 'c')
d = {1, 2}
r = m.execute({'a': d, 'b': set()})['c']
r.add(99)
assert d == {1, 2}, d
""")
S("C10-set-value-frozen", "C10", M, [("""        # make a record of the value to be set
        self._value = value
""", """        # make a record of the value to be set
        self._value = value if value else 0
""")], "a set method with a falsy value that is not zero", "another value is set", """
from solver.method import MethodGraph, SetMethod
for v in ('', [], False, (), 0.0):
    g = MethodGraph()
    g.add_method(SetMethod('a', v))
    assert g.get('a') == v and type(g.get('a')) is type(v), (v, g.get('a'))
""")
S("C11-any-by-text", "C11", CON, [("""        # empty set of constraints
        constraints = set([])

        for variable in variables:
            constraints.update(set(self.get_constraints_on(variable)))

        # return constraints set as a list
        return list(constraints)
""", """        # constraints found, by their text
        constraints = {}

        for variable in variables:
            for constraint in self.get_constraints_on(variable):
                constraints[str(constraint)] = constraint

        # return constraints as a list
        return list(constraints.values())
""")], "two constraints with the same text (same kind on the same variables)", "one of the constraints is missing", """
from solver.geometric.constraint import ConstraintGraph, NotClockwiseConstraint
g = ConstraintGraph()
a, b = NotClockwiseConstraint(1, 2, 3), NotClockwiseConstraint(1, 2, 3)
g.add_constraint(a)
g.add_constraint(b)
assert set(g.get_constraints_on_any([1, 2])) == {a, b}
""")
S("C11-rem-drops-lonely", "C11", CON, [("""        # only remove constraint if it already exists in the graph
        if constraint not in self._constraints:
""", """        # only remove constraint if it already exists in the graph
        if constraint not in self._constraints \\
        or not self._graph.ingoing_vertices(constraint):
""")], "removing a constraint that names no variable", "the constraint stays", """
from solver.geometric.constraint import ConstraintGraph, FunctionConstraint
g = ConstraintGraph()
c = FunctionConstraint(lambda: True, [])
g.add_constraint(c)
g.rem_constraint(c)
assert list(g.constraints()) == []
""")
S("C11-all-first-only-live", "C11", CON, [("""        # loop over the constraints of the first variable in the list
        for constraint in self.get_constraints_on(variables[0]):
""", """        # loop over the constraints
        for constraint in self.constraints():
            # is the first variable constrained by this constraint?
            if variables[0] not in constraint.variables()[:3]:
                continue

""")], "a constraint on more than three variables, asked for by its fourth", "the constraint is not reported", """
from solver.geometric.constraint import ConstraintGraph, FunctionConstraint
g = ConstraintGraph()
c = FunctionConstraint(lambda *a: True, 'abcd')
g.add_constraint(c)
assert g.get_constraints_on_all(['d', 'a']) == [c]
""")
S("C12-truthy-result", "C12", CON, [("""        # set the function
        self.function = function
""", """        # set the function
        self.function = lambda *points: bool(function(*points))
        self.function.__name__ = getattr(function, "__name__", "function")
""")], "a function returning something true that is not True", "the constraint is satisfied though the function did not return True", """
from solver.geometric.constraint import FunctionConstraint
assert not FunctionConstraint(lambda a: 1, ['a']).satisfied({'a': 0})
assert not FunctionConstraint(lambda a: 'yes', ['a']).satisfied({'a': 0})
""")
S("C12-obtuse-cyclic", "C12", CON, [("""        function = lambda x, y, z: not is_acute(x, y, z)
""", """        function = lambda x, y, z: x == z or not is_acute(x, y, z)
""")], "outer points that coincide with each other but not with the middle one", "a zero angle counts as not acute", """
from solver.geometric.constraint import NotAcuteConstraint
from solver.geometry import Vector
c = NotAcuteConstraint('a', 'b', 'c')
assert not c.satisfied({'a': Vector(1, 1), 'b': Vector(0, 0), 'c': Vector(1, 1)})
""")
S("C13-exact-types", "C13", CLU, [("""        if isinstance(other, Rigid):
            return self.intersect_rigid(shared, other)
""", """        if type(other) is Rigid:
            return self.intersect_rigid(shared, other)
""")], "a subclass of Rigid as the second operand", "the intersection is refused on one side only", """
from solver.geometric.cluster import Rigid
class Body(Rigid):
    pass
a, b = Rigid([1, 2, 3]), Body([2, 3, 4])
assert a.intersection(b).vars == {2, 3} and b.intersection(a).vars == {2, 3}
""")
S("C13-rh-center-shared", "C13", CLU, [("""            # hedgehog's central variable is in this rigid, and there are at
            # least two extra variables to form a constraint with
            return Hedgehog(hedgehog.c_var, x_vars)
""", """            # hedgehog's central variable is in this rigid, and there are at
            # least two extra variables to form a constraint with
            return hedgehog if x_vars == hedgehog.x_vars \\
            else Hedgehog(hedgehog.c_var, x_vars)
""")], "a hedgehog lying wholly in a rigid; then the result or the operand is changed", "the intersection is the operand itself, so they share state", """
from solver.geometric.cluster import Rigid, Hedgehog
h = Hedgehog(0, [1, 2])
r = Rigid([0, 1, 2, 3]).intersection(h)
r.overconstrained = True
r.vars.add(9)
assert not h.overconstrained and h.vars == {0, 1, 2}
""")
S("C13-overconstrained-none", "C13", CLU, [("""        if len(shared) < 2:
            # not possible to merge
""", """        if len(shared) < 2 or (self.overconstrained and not other.overconstrained):
            # not possible to merge
""")], "an overconstrained first operand", "the intersection depends on the operand order and is lost", """
from solver.geometric.cluster import Rigid
a, b = Rigid([1, 2, 3]), Rigid([2, 3, 4])
a.overconstrained = True
assert a.intersection(b).vars == {2, 3} and b.intersection(a).vars == {2, 3}
""")
S("C14-text-keys", "C14", CLU, [("""        # shared variables between this rigid and the other
        shared = list(set(self.vars) & set(other.vars))
""", """        # shared variables between this rigid and the other
        shared = list({str(v): v for v in self.vars & other.vars}.values())
""")], "two shared points with the same text (1 and '1')", "common distances are missing", """
from solver.geometric.cluster import Rigid
a, b = Rigid([1, '1', 2]), Rigid([1, '1', 2])
assert len(a.common_distances(b)) == 3
""")
S("C14-hh-common-single", "C14", CLU, [("""        if not self.c_var == hedgehog.c_var:
""", """        if not self.c_var is hedgehog.c_var:
""")], "hedgehogs whose equal centres are different objects (1 and 1.0, equal tuples)", "their common angles are missing", """
from solver.geometric.cluster import Hedgehog
a, b = Hedgehog((1, int('2')), [3, 4]), Hedgehog((1, int('2')), [3, 4])
assert len(a.common_constraints(b)) == 1
assert len(Hedgehog(1, [3, 4]).common_constraints(Hedgehog(1.0, [3, 4]))) == 1
""")
S("C15-angle-any-vertex", "C15", REL, [("""            return self.points[1] == other.points[1] \\
            and frozenset(self.points) == frozenset(other.points)
""", """            return self.points[1] is other.points[1] \\
            and frozenset(self.points) == frozenset(other.points)
""")], "equal vertices that are different objects", "equal angles are unequal", """
from solver.geometric.relation import Angle
assert Angle(1, 2, 3) == Angle(3, 2.0, 1)
assert Angle('a', ('x', int('7')), 'b') == Angle('b', ('x', int('7')), 'a')
""")
S("C15-subclass-distance", "C15", REL, [("""        if isinstance(other, Distance):
            # check points""", """        if isinstance(other, PointRelation):
            # check points""")], "an angle whose three points are... a distance compared with an angle on the same two points (a, b, a)", "a distance equals an angle", """
from solver.geometric.relation import Distance, Angle
assert not Distance(1, 2) == Angle(1, 2, 1)
""")
S("C16-shared-by-identity", "C16", CFG, [("""        # get the variables shared between the two configurations
        shared = set(self.vars()) & set(other.vars())
""", """        # get the variables shared between the two configurations
        shared = set(filter(None, self.vars())) & set(other.vars())
""")], "a shared point whose name is falsy (0)", "the point is not used to place the second configuration", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({0: Vector(0, 0), 1: Vector(1, 0)})
b = Configuration({0: Vector(5, 5), 1: Vector(5, 6), 2: Vector(4, 5)})
m, u = a.merge(b)
assert not u and abs(m.get(2).x) < 1e-9 and abs(m.get(2).y - 1) < 1e-9, m
""")
S("C16-rounding-matrix", "C16", CFG, [("""        t = cs_transform_matrix(cs2, cs1)

        return t, underconstrained
""", """        t = cs_transform_matrix(cs2, cs1)

        # get rid of rounding errors
        t.round(10)

        return t, underconstrained
""")], "configurations far from the origin", "rotations are rounded, so far away points do not coincide", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(1e5, 2e5), 2: Vector(1e5 + 3, 2e5 + 1), 3: Vector(1e5, 2e5 + 7)})
r = Configuration({v: (a.get(v) - Vector(7, 3)).rotate(33.3) for v in a.vars()})
m, _ = a.merge(r)
t, _ = a.transformation_matrix(r)
moved = r.transform(t)
assert all((moved.get(v) - a.get(v)).length < 1e-6 for v in a.vars()), moved
""")
S("C17-flag-reset-on-fit", "C17", CFG, [("""        else:
            # get two of the shared variables
            v1 = list(shared)[0]
""", """        else:
            # enough points are shared to fix everything
            if shared == set(self.vars()):
                underconstrained = other.underconstrained

            # get two of the shared variables
            v1 = list(shared)[0]
""")], "an underconstrained first operand all of whose points are shared", "its status is dropped", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({1: Vector(0, 0), 2: Vector(1, 0), 3: Vector(2, 2)})
a.underconstrained = True
assert a.merge(b)[1] is True and a.merge(b)[0].underconstrained is True
""")
S("C17-zero-shared-single", "C17", CFG, [("""            # by definition, this is underconstrained
            underconstrained = True
""", """            # nothing to place when one of them is empty
            underconstrained = underconstrained \\
            or min(len(self.vars()), len(other.vars())) > 1
""")], "no shared points and a configuration of one point", "the merge is not reported as underconstrained", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
assert Configuration({1: Vector(0, 0)}).merge(Configuration({2: Vector(0, 0), 3: Vector(1, 1)}))[1] is True
""")
S("C18-zero-hash-name", "C18", CFG, [("""        elif len(self.mapping) != len(other.mapping):
            # equal configurations would have the same number of variables
            return False
""", "")], "a configuration and a smaller one lacking a point whose name hashes to zero", "configurations with different names are equal or comparing fails", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({0: Vector(4, 4), 1: Vector(0, 0), 2: Vector(1, 0)})
assert not a == b and not b == a
""")
S("C18-relative-distance", "C18", CFG, [("""                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                    return False
""", """                if not Scalar.tol_eq(d + self.get(var).length, self.get(var).length):
                    return False
""")], "configurations of nearly the same shape far from the origin", "different shapes are equal", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(10000, 0), 2: Vector(10001, 0), 3: Vector(10000, 1)})
b = Configuration({1: Vector(10000, 0), 2: Vector(10001, 0), 3: Vector(10000, 1.05)})
assert not a == b
""")
S("C18-single-check", "C18", CFG, [("""            # determine the rotation-translation transformation to transform
            # the other configuration onto this one
            t, _ = self.transformation_matrix(other)
""", """            # two points fix the rest
            if len(self.mapping) == 2 and not self.underconstrained:
                (p1, p2), (q1, q2) = self.mapping.values(), other.mapping.values()

                return Scalar.tol_eq(distance_2p(p1, p2), distance_2p(q1, q2))

            # determine the rotation-translation transformation to transform
            # the other configuration onto this one
            t, _ = self.transformation_matrix(other)
""")], "two-point configurations of large, nearly equal size", "different scales are equal", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1000, 0)})
b = Configuration({1: Vector(0, 0), 2: Vector(1000.005, 0)})
assert not a == b
""")
S("C19-select-returns-self", "C19", CFG, [("""        # empty dict of new coordinates
        new_mapping = {}

        # FIXME: probably a smarter way to select the variables
        for v in variables:
""", """        # everything selected
        if set(variables) == set(self.mapping):
            return self

        new_mapping = {}

        # FIXME: probably a smarter way to select the variables
        for v in variables:
""")], "selecting all points and then changing the result", "the selection shares its mapping with the original", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = a.select([1, 2])
b.mapping[3] = Vector(1, 1)
b.underconstrained = True
assert set(a.vars()) == {1, 2} and not a.underconstrained
""")
S("C19-vector-copy-aliases", "C19", GEO, [("""                y = x.elements[1][0]
                x = x.elements[0][0]
            else:
                # copy constructor
                y = x.y
                x = x.x
""", """                self.elements = x.elements

                return
            else:
                # copy constructor
                y = x.y
                x = x.x
""")], "a vector built from a vector or matrix, one of which is changed later", "the two share their coordinates", """
from solver.geometry import Vector, Matrix
a = Vector(1, 2)
b = Vector(a)
b.x = 7
assert a.x == 1
m = Matrix([[1], [2]])
c = Vector(m)
c.y = 5
assert m.elements == [[1], [2]] and isinstance(Vector(m).x, float)
""")
S("C19-config-merge-other", "C19", CFG, [("""        t, underconstrained = self.transformation_matrix(other)

        # add""", """        t, underconstrained = self.transformation_matrix(other)
        self.underconstrained = underconstrained

        # add""")], "the first operand of an underconstrained merge used again", "merging changes the status of the first operand", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
a.merge(Configuration({3: Vector(0, 0), 4: Vector(2, 0)}))
assert not a.underconstrained
""")
S("C20-contained", "C20", GEO, [("""    if Scalar.tol_lt(a, b):
        return []
    elif a < b:
""", """    if Scalar.tol_lt(a, b) and d > abs(r1 - r2):
        return []
    elif a < b:
""")], "a circle inside another one, centres apart", "nested circles give a point", """
from solver.geometry import cc_int, Vector
assert cc_int(Vector(0, 0), 1, Vector(1, 0), 5) == []
assert cc_int(Vector(0, 0), 5, Vector(1, 0), 1) == []
""")
S("C20-concentric-relative", "C20", GEO, [("""    if Scalar.tol_le(d, 0):
        # no solutions
        return []
""", """    if p1.tol_eq(p2):
        # no solutions
        return []
""")], "circles whose centres are apart by much less than their coordinates", "circles far from the origin do not meet", """
from solver.geometry import cc_int, Vector
s = cc_int(Vector(1e6, 1e6), 3, Vector(1e6 + 4, 1e6), 3)
assert len(s) == 2
""")
S("C20-same-tangent", "C20", GEO, [("""        if Scalar.tol_zero(v / s.length):
            return [p3a]
""", """        if Scalar.tol_zero(v / s.length, abs_tol=1e-2):
            return [p3a]
""")], "circles crossing at a shallow depth", "properly crossing circles give one point", """
from solver.geometry import cc_int, Vector
s = cc_int(Vector(0, 0), 5, Vector(9.9999, 0), 5)
assert len(s) == 2, s
""")
S("C21-unit-direction", "C21", GEO, [("""    elif Scalar.tol_zero(E):
        x1 = p1.x + D * v.y / d2
        y1 = p1.y + -D * v.x / d2
""", """    elif Scalar.tol_zero(E):
        x1 = p1.x + D * v.y
        y1 = p1.y + -D * v.x
""")], "a tangent line given by a direction that is not of unit length", "the touching point is wrong", """
from solver.geometry import cl_int, Vector
s = cl_int(Vector(0, 0), 2, Vector(7, 2), Vector(4, 0))
assert len(s) == 1 and abs(s[0].x) < 1e-9 and abs(s[0].y - 2) < 1e-9, s
""")
S("C21-ray-first-only", "C21", GEO, [("""        if Scalar.tol_ge((s - p2).dot(v), 0):
            solutions.append(s)
""", """        if Scalar.tol_ge((s - p2).dot(v), 0) \\
        or Scalar.tol_lt((p2 - p1).length, r) and len(solutions) == 0 and v.x == 0:
            solutions.append(s)
""")], "a vertical ray starting inside the circle", "the point behind the ray's start is given", """
from solver.geometry import cr_int, Vector
assert len(cr_int(Vector(0, 0), 5, Vector(1, 0), Vector(0, 2))) == 1
assert len(cr_int(Vector(0, 0), 5, Vector(1, 0), Vector(0, -2))) == 1
""")
S("C22-parallel-by-slope", "C22", GEO, [("""    if Scalar.tol_zero(v1.x * v2.y - v1.y * v2.x):
        # lines don't intersect
        return []
""", """    if v1.azimuth == v2.azimuth:
        # lines don't intersect
        return []
""")], "parallel lines with opposite directions, or whose azimuths differ by rounding", "parallel lines raise an error or meet far away", """
from solver.geometry import ll_int, Vector
assert ll_int(Vector(0, 0), Vector(1, 1), Vector(5, 0), Vector(-2, -2)) == []
""")
S("C22-lr-start", "C22", GEO, [("""    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
        return s
    else:
        # lines intersect behind ray
        return []
""", """    if len(s) > 0 and (s[0] - p2).dot(v2) > 0:
        return s
    else:
        # lines intersect behind ray
        return []
""")], "a line through a ray's start", "the start of the ray is not given", """
from solver.geometry import lr_int, Vector
assert len(lr_int(Vector(2, -5), Vector(0, 1), Vector(2, 3), Vector(1, 0))) == 1
""")
S("C23-angle-sign-flat", "C23", GEO, [("""    if is_counterclockwise(p1, p2, p3):
        # flip angle
        angle = -angle
""", """    if not is_clockwise(p1, p2, p3) and angle < math.pi / 2:
        # flip angle
        angle = -angle
""")], "a counter-clockwise triple with an obtuse angle", "the angle has the wrong sign", """
from solver.geometry import angle_3p, Vector
a = angle_3p(Vector(1, 0), Vector(0, 0), Vector(-1, 1))
b = angle_3p(Vector(-1, 1), Vector(0, 0), Vector(1, 0))
assert a == -b and a != 0, (a, b)
from solver.geometry import is_clockwise
assert (a > 0) == is_clockwise(Vector(1, 0), Vector(0, 0), Vector(-1, 1))
""")
S("C23-degenerate-one-side", "C23", GEO, [("""    if Scalar.tol_zero(d21) or Scalar.tol_zero(d23):
        # degenerate angle
        return None
""", """    if Scalar.tol_zero(d21 * d23):
        # degenerate angle
        return None
""")], "very short legs that are not degenerate", "a defined angle is reported as undefined", """
from solver.geometry import angle_3p, Vector
assert angle_3p(Vector(5e-5, 0), Vector(0, 0), Vector(0, 5e-5)) is not None
""")
S("C23-flat-relative", "C23", GEO, [("""    return Scalar.tol_zero(perp_u.dot(v), 0)
""", """    return Scalar.tol_zero(perp_u.dot(v) / ((u.length * v.length) or 1.0))
""")], "large nearly flat or tiny triples", "a triple is flat and clockwise at once, or neither", """
from solver.geometry import is_flat, is_clockwise, is_counterclockwise, Vector
for t in ((Vector(0, 0), Vector(1000, 0), Vector(2000, 1e-6)), (Vector(0, 0), Vector(5e-5, 0), Vector(5e-5, 5e-5))):
    assert is_flat(*t) + is_clockwise(*t) + is_counterclockwise(*t) == 1, t
""")
S("C24-scaled-args", "C24", GEO, [("""    if not scale:
        # normalise resultant
        u /= u.length
""", """    if not scale or u.length < 1e-3:
        # normalise resultant
        u /= u.length
""")], "a scaled frame of two close points", "the frame does not have the true length", """
from solver.geometry import make_hcs_scaled, Vector
e = make_hcs_scaled(Vector(0, 0), Vector(5e-4, 0)).elements
assert abs(e[0][0] - 5e-4) < 1e-12
""")
S("C25-dim-by-rows", "C25", GEO, [("""        if (self.num_rows > 1) and (self.num_cols > 1):
            dimensions += 1
""", """        if self.num_elements > self.num_rows:
            dimensions += 1
""")], "a row matrix", "a single row is said to have two dimensions", """
from solver.geometry import Matrix
assert Matrix([[1, 2, 3]]).num_dim == 1 and Matrix([[1], [2]]).num_dim == 1 and Matrix([[1, 2], [3, 4]]).num_dim == 2
""")
S("C25-solve-int", "C25", GEO, [("""        x = la.solve(A, B)

        return Matrix(x.tolist())
""", """        x = la.solve(A, B)

        return Matrix(x.astype(np.result_type(A, B)).tolist())
""")], "a system with integer coefficients and right hand side", "the solution is cut to integers", """
from solver.geometry import Matrix
x = Matrix([[2, 0], [0, 4]]).solve(Matrix([[1], [1]])).elements
assert x == [[0.5], [0.25]], x
""")
S("C25-transpose-inverse", "C25", GEO, [("""        return self.solve(self.identity(self.num_rows))
""", """        # the inverse of a rotation is its transpose
        if all(abs(sum(a * a for a in row) - 1) < 1e-9 for row in self.elements):
            return self.transpose()

        return self.solve(self.identity(self.num_rows))
""")], "a matrix with rows of unit length that are not perpendicular", "the inverse is wrong", """
from solver.geometry import Matrix
m = Matrix([[1.0, 0.0], [0.6, 0.8]])
p = (m * m.inverse()).elements
assert all(abs(p[i][j] - (i == j)) < 1e-9 for i in range(2) for j in range(2)), p
""")
S("C26-row-matrix", "C26", GEO, [("""                # check if the matrix is a column matrix
                if x.num_cols > 1:
                    raise Exception('Matrix must be a single column')

                # check""", """                # use rows as columns
                if x.num_cols > 1:
                    x = x.transpose()

                # check""")], "a vector built from a matrix with more than one column", "the matrix is not refused", """
from solver.geometry import Vector, Matrix
for m in (Matrix([[1, 2]]), Matrix([[1, 2], [3, 4]])):
    try:
        Vector(m)
    except Exception:
        pass
    else:
        raise AssertionError(m.elements)
""")
S("C26-div-number", "C26", GEO, [("""        return self.__class__(self.x / other_x, self.y / other_y)
""", """        return self.__class__(self.x / other_x, self.y / (other_y or other_x))
""")], "division by a vector with a zero coordinate", "division by zero gives a number instead of an error", """
from solver.geometry import Vector
try:
    r = Vector(1, 2) / Vector(2, 0)
except ZeroDivisionError:
    pass
else:
    raise AssertionError(r)
""")
S("C26-index-wrap", "C26", GEO, [("""        return self.elements[int(i)][0]
""", """        return self.elements[int(i) % 2][0]
""")], "an index out of range (iteration over a vector)", "out of range indices give coordinates, iteration never ends", """
from solver.geometry import Vector
import itertools
assert list(itertools.islice(iter(Vector(1, 2)), 5)) == [1, 2]
""")
S("C27-max-magnitude", "C27", GEO, [("""        return abs(a - b) <= (abs_tol + rel_tol * abs(b))
""", """        return abs(a - b) <= max(abs_tol, rel_tol * abs(b))
""")], "a difference between the larger of the two tolerances and their sum", "numbers within the tolerance are not equal", """
from solver.geometry import Scalar
assert Scalar.tol_eq(1.15, 1.0, rel_tol=.1, abs_tol=.1)
""")
S("C27-zero-ignores-args", "C27", GEO, [("""        return cls.tol_eq(a, 0, *args, **kwargs)
""", """        return cls.tol_eq(0, a, *args, **kwargs)
""")], "a zero test with a large relative tolerance", "the zero test is not equality with zero", """
from solver.geometry import Scalar
assert not Scalar.tol_zero(5, rel_tol=1.5)
assert Scalar.tol_eq(5, 0, rel_tol=1.5) == Scalar.tol_zero(5, rel_tol=1.5)
""")
S("C27-defaults-cached", "C27", GEO, [("""    def tol_eq(cls, a, b, rel_tol=None, abs_tol=None):
        if rel_tol is None:
            rel_tol = cls.rel_tol

        if abs_tol is None:
            abs_tol = cls.abs_tol
""", """    def tol_eq(cls, a, b, rel_tol=None, abs_tol=None):
        if rel_tol is None and abs_tol is None:
            rel_tol = cls.rel_tol
            abs_tol = cls.abs_tol

        rel_tol = rel_tol or 0.0
        abs_tol = abs_tol or 0.0
""")], "giving only one of the two tolerances", "the other one is zero instead of its default", """
from solver.geometry import Scalar
assert Scalar.tol_eq(1.000001, 1.0, abs_tol=0)
assert Scalar.tol_eq(1e-9, 0, rel_tol=0)
""")
S("C28-str-marks", "C28", CLU, [("""        if self.overconstrained:
            ovr_const += "!"
""", """        if self.overconstrained:
            ovr_const += "!"
            self.overconstrained = "shown"
""")], "the text of an overconstrained cluster", "turning a cluster into text changes it", """
from solver.geometric.cluster import Rigid
r = Rigid([1, 2])
r.overconstrained = True
str(r)
assert r.overconstrained is True
""")
S("C28-log-percent", "C28", CLU, [("""            logging.getLogger("cluster").debug("No intersection between {0} and"
            " {1}: less than 2 shared points".format(self, other))
""", """            logging.getLogger("cluster").debug("No intersection between {0} and"
            " {1}: less than %d shared points".format(self, other), 2)
""")], "debug logging with a point whose name contains a percent sign", "the logged message fails to format", """
import logging
bad = []
class H(logging.Handler):
    def emit(self, record):
        try:
            record.getMessage()
        except Exception as e:
            bad.append((record.msg, e))
logging.getLogger().addHandler(H())
logging.getLogger().setLevel(logging.DEBUG)
from solver.geometric.cluster import Rigid
Rigid(['100%', 'a']).intersection(Rigid(['b', '%s']))
assert not bad, bad
""")
S("C28-multivariable-text", "C28", M, [("""        # comma separated list of inputs
        input_str = " + ".join([str(_input) for _input in self.inputs])
""", """        # comma separated list of inputs
        input_str = " + ".join(sorted([str(_input) for _input in \\
        set(self.inputs)])) % ()
""")], "a method whose variable name contains a percent sign", "the method has no text", """
from solver.method import AddMethod
assert '50%' in str(AddMethod('50%', 'b', 'c'))
""")
