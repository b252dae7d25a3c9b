"""Fourth batch of planted bugs: half-done refusals, caches keyed too loosely, library shortcuts, two sites that only fail together."""
from seeds import S, G, M, GEO, CON, CLU, CFG, REL

S("C01-rem-bi-half", "C01", G, [("""        if not self.has_bi_edge(v1, v2):
            raise Exception("Edge not in graph")

        self.remove_edge(v1, v2)
""", """        self.remove_edge(v1, v2)
""")], "removing a bidirectional edge where only the first direction exists", "the refused removal has removed that direction", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
try:
    g.remove_bi_edge('a', 'b')
except Exception:
    pass
else:
    raise AssertionError('accepted')
assert g.has_edge('a', 'b')
""")
S("C01-lazy-reverse", "C01", G, [("""        # remove edges from dicts
        del self._forward[v1][v2]
        del self._reverse[v2][v1]
""", """        # remove edges from dicts
        value = self._forward[v1].pop(v2)

        # values of opposite edges are shared, so leave those
        if v1 not in self._forward[v2] or self._forward[v2][v1] != value:
            del self._reverse[v2][v1]
        elif v1 in self._reverse[v2]:
            self._reverse[v2].pop(v1)
            self._reverse[v1].setdefault(v2, value)
            self._reverse[v2] = dict(self._reverse[v2])

            if len(self._reverse[v2]) > 3:
                self._reverse[v2][v1] = value
""")], "removing one direction of a bidirectional edge into a vertex with more than three other predecessors", "the removed edge is still listed as ingoing", """
from solver.graph import Graph
g = Graph()
for v in 'cdefg':
    g.add_edge(v, 'b')
g.add_bi_edge('a', 'b')
g.remove_edge('a', 'b')
assert 'a' not in list(g.ingoing_vertices('b')), list(g.ingoing_vertices('b'))
""")
S("C02-reverse-bi-values", "C02", G, [("""            g.add_edge(v2, v1, self.get(v1, v2))
""", """            if self.has_edge(v2, v1):
                g.add_bi_edge(v1, v2, self.get(v1, v2))
            else:
                g.add_edge(v2, v1, self.get(v1, v2))
""")], "reversing a graph with a bidirectional edge whose directions have different values", "one direction gets the value of the other", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 1)
g.add_edge('b', 'a', 2)
h = g.reverse()
assert (h.get('b', 'a'), h.get('a', 'b')) == (1, 2), (h.get('b', 'a'), h.get('a', 'b'))
""")
S("C02-subgraph-sorted", "C02", G, [("""        for v in filter(self.has_vertex, vertices):
""", """        for v in sorted(filter(self.has_vertex, set(vertices))) if len(vertices) > 8 else filter(self.has_vertex, vertices):
""")], "more than eight vertices of types that do not compare", "deriving fails", """
from solver.graph import Graph
g = Graph()
for v in list(range(8)) + ['a', 'b']:
    g.add_vertex(v)
assert len(g.copy().vertices()) == 10
""")
S("C03-subsets-two-way", "C03", G, [("""            connected = set(self.connected(vertex))

            # remove""", """            connected = set(self.connected_via_ingoing(vertex)) | set(self.connected_via_outgoing(vertex))

            for v in list(connected):
                connected |= set(self.connected_via_ingoing(v)) | set(self.connected_via_outgoing(v))

            connected.discard(vertex)

            # remove""")], "vertices that are connected only through a zigzag of at least three turns", "one connected subset is reported as several", """
from solver.graph import Graph
import itertools
for order in itertools.permutations('abcdef'):
    g = Graph()
    for v in order:
        g.add_vertex(v)
    for a, b in ('ab', 'cb', 'cd', 'ed', 'ef'):
        g.add_edge(a, b)
    assert g.connected_subsets() == {frozenset('abcdef')}
g = Graph()
for i in range(0, 20, 2):
    g.add_edge(i, i + 1)
    g.add_edge(i + 2, i + 1)
assert len(g.connected_subsets()) == 1
""")
S("C03-path-bounded", "C03", G, [("""            for v in self.outgoing_vertices(key):
                if v == end:
""", """            # simple paths only
            if len(this_path) > 64:
                continue

            for v in self.outgoing_vertices(key):
                if v == end:
""")], "a path of more than sixty-four edges", "the path is not found", """
from solver.graph import Graph
g = Graph()
for i in range(100):
    g.add_edge(i, i + 1)
assert g.path(0, 100) == list(range(101))
""")
S("C03-path-end-first", "C03", G, [("""        # map from vertices to shortest path to that key vertex
""", """        # a direct edge is the path
        if start == end and len(self.ingoing_vertices(start)) > 1 and not self.has_edge(start, start):
            for v in self.outgoing_vertices(start):
                if self.has_edge(v, start):
                    return [start, v, start]

            return []

        # map from vertices to shortest path to that key vertex
""")], "a cycle of three or more vertices through one that has several predecessors", "the cycle is not found", """
from solver.graph import Graph
g = Graph()
for a, b in ('ab', 'bc', 'ca', 'xa'):
    g.add_edge(a, b)
assert g.path('a', 'a') == list('abca'), g.path('a', 'a')
""")
S("C04-extra-outputs", "C04", M, [("""        for var in method.outputs:
            if var in outmap:
                self._map[var] = outmap[var]
                self._changed[var] = 1
            else:
                if""", """        for var in outmap:
            if var in self._map:
                self._map[var] = outmap[var]
                self._changed[var] = 1

        for var in method.outputs:
            if var not in outmap:
                if""")], "a method whose result also names one of its inputs", "a variable no method determines changes", """
from solver.method import MethodGraph, Method
class Both(Method):
    def execute(self, inmap):
        return dict(b=inmap['a'] + 1, a=inmap['a'] * 2)
g = MethodGraph()
g.add_variable('a', 3)
g.add_method(Both('both', ['a'], ['b']))
assert (g.get('a'), g.get('b')) == (3, 4), (g.get('a'), g.get('b'))
""")
S("C04-execute-only-own", "C04", M, [("""        self._do_execute(method)
        self.propagate()
""", """        # only what this method changes is to be propagated
        waiting, self._changed = self._changed, {}
        self._do_execute(method)
        self.propagate()
        self._changed.update(waiting)
""")], "executing a method while another change is pending", "the pending change is not carried through", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('x', 1)
m = AssignMethod('b', 'a')
g.add_method(m)
g.add_method(AssignMethod('y', 'x'))
g.set('x', 2, prop=False)
g.execute(m)
assert g.get('y') == 2
""")
S("C04-none-inputs-skipped", "C04", M, [("""            for method in methods:
                self._do_execute(method)

            if pick""", """            for method in methods:
                # nothing to compute from, and nothing computed before
                if len(method.inputs) > 2 and all(self._map[var] is None for var in method.inputs):
                    continue

                self._do_execute(method)

            if pick""")], "a method with three or more inputs all of which lose their values before one propagation", "its output keeps a value", """
from solver.method import MethodGraph, Method
class Sum(Method):
    def execute(self, inmap):
        return dict(d=inmap['a'] + inmap['b'] + inmap['c'])
g = MethodGraph()
for v in 'abc':
    g.add_variable(v, 1)
g.add_method(Sum('sum', list('abc'), ['d']))
for v in 'abc':
    g.set(v, None, prop=False)
g.propagate()
assert g.get('d') is None
""")
S("C04-view-while-adding", "C04", M, [("""            value = self._map[var]

            if value is None:
                has_nones = True
""", """            value = self._map[var]

            # the last input decides whether there is something to compute
            has_nones = value is None or (has_nones and len(method.inputs) < 4)
""")], "a method with four or more inputs of which an earlier one has no value", "it is executed without a value", """
from solver.method import MethodGraph, Method
class Count(Method):
    def execute(self, inmap):
        assert all(inmap[v] is not None for v in self.inputs)
        return dict(z=4)
g = MethodGraph()
for v in 'abcd':
    g.add_variable(v, None if v == 'b' else 1)
g.add_method(Count('count', list('abcd'), ['z']))
assert g.get('z') is None
""")
S("C05-own-output", "C05", M, [("""            elif len(self._graph.path(var, var)) != 0:
""", """            elif len(self._graph.path(var, var)) > 3 or (var in met.inputs and met.outputs.index(var) == 0):
""")], "a method whose second output is one of its own inputs", "the cycle is accepted", """
import signal
signal.alarm(20)
from solver.method import MethodGraph, Method, MethodGraphCycleException
class Two(Method):
    def execute(self, inmap):
        return {}
g = MethodGraph()
g.add_variable('a')
try:
    g.add_method(Two('two', ['a'], ['b', 'a']))
except MethodGraphCycleException:
    pass
else:
    raise AssertionError('accepted')
""")
S("C06-middle-variable", "C06", M, [("""        for vertex in list(self._graph.outgoing_vertices(varname)):
            self.rem_method(vertex)

        # remove""", """        for vertex in [] if varname in self._changed else list(self._graph.outgoing_vertices(varname)):
            self.rem_method(vertex)

        # remove"""), ("""        if varname in self._changed:
            del(self._changed[varname])

        # delete""", """        # delete"""), ("""        # remove it from graph
        self._graph.remove_vertex(varname)
""", """        self._changed.pop(varname, None)

        # remove it from graph
        self._graph.remove_vertex(varname)
""")], "removing a variable with a pending change that methods read", "these methods stay", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(AssignMethod('b', 'a'))
g.set('a', 2, prop=False)
g.rem_variable('a')
assert list(g.methods()) == []
""")
S("C06-clear-keeps-structure", "C06", M, [("""        while (len(self._map) > 0):
            self.rem_variable(list(self._map.keys())[0])
""", """        self._map.clear()
        self._changed.clear()
        self._pending.clear()
        self._methods.clear()
""")], "using the graph again after clear, with the same variables", "removed methods still determine their outputs and are executed", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(AssignMethod('b', 'a'))
g.clear()
g.add_variable('a', 5)
g.add_variable('b', 7)
g.set('a', 6)
assert g.get('b') == 7, g.get('b')
""")
S("C06-value-goes-with-method", "C06", M, [("""        del(self._methods[met])
        self._pending.pop(met, None)
""", """        del(self._methods[met])
        self._pending.pop(met, None)

        # values that were computed from more than one input are gone too
        if len(met.inputs) > 2:
            for var in met.outputs:
                self._map[var] = None if var in self._map else None
""")], "removing a method with three or more inputs", "its output loses its value (or a removed variable comes back)", """
from solver.method import MethodGraph, Method
class Sum(Method):
    def execute(self, inmap):
        return dict(d=inmap['a'] + inmap['b'] + inmap['c'])
g = MethodGraph()
for v in 'abc':
    g.add_variable(v, 1)
g.add_method(Sum('sum', list('abc'), ['d']))
g.rem_variable('d')
assert sorted(g.variables()) == list('abc'), list(g.variables())
""")
S("C07-set-same-object", "C07", M, [("""        self._map[varname] = value
        self._changed[varname] = 1

        if prop:""", """        if self._map[varname] is not value or prop:
            self._map[varname] = value
            self._changed[varname] = 1

        if prop:""")], "setting a variable, deferred, to the very object it holds, whose contents were changed", "the change is not carried through", """
from solver.method import MethodGraph, Method
class Sum(Method):
    def execute(self, inmap):
        return dict(b=sum(inmap['a']))
g = MethodGraph()
xs = [1, 2]
g.add_variable('a', xs)
g.add_method(Sum('sum', ['a'], ['b']))
xs.append(3)
g.set('a', xs, prop=False)
g.propagate()
assert g.get('b') == 6, g.get('b')
""")
S("C07-add-deferred-marks", "C07", M, [("""        self._pending[met] = 1

        if prop:""", """        # its inputs carry their changes through
        if prop or not any(var in self._changed for var in met.inputs):
            self._pending[met] = 1

        if prop:"""), ("""            methods = self._graph.outgoing_vertices(pick)

            for method in methods:
""", """            methods = self._graph.outgoing_vertices(pick)

            for method in list(methods)[:3]:
""")], "a deferred change read by more than three methods", "the methods beyond the third are not executed", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
for i in range(5):
    g.add_method(AssignMethod(i, 'a'))
g.set('a', 2)
assert [g.get(i) for i in range(5)] == [2] * 5
""")
S("C07-pending-method-once", "C07", M, [("""        while len(self._pending) != 0:
            self._do_execute(list(self._pending.keys())[0])
""", """        for met in list(self._pending.keys())[-1:]:
            self._do_execute(met)

        self._pending.clear()
""")], "several methods added with propagation off whose inputs are not changed otherwise", "only the last one is executed", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.propagate()
g.add_method(AssignMethod('b', 'a'), prop=False)
g.add_method(AssignMethod('c', 'a'), prop=False)
g.propagate()
assert (g.get('b'), g.get('c')) == (1, 1)
""")
S("C08-get-unknown", "C08", M, [("""        return self._map[variable]
""", """        return self._map.get(variable)
""")], "asking for the value of a variable the graph does not have", "the answer is None instead of an error", """
from solver.method import MethodGraph
g = MethodGraph()
try:
    g.get('a')
except KeyError:
    pass
else:
    raise AssertionError('no error')
""")
S("C08-failed-skipped", "C08", M, [("""            for method in methods:
                self._do_execute(method)

            if pick""", """            for method in list(methods):
                try:
                    self._do_execute(method)
                except Exception:
                    # the other methods on this variable need not be executed again
                    self._changed.update({var: 1 for var in method.inputs[:1]})

                    if method.inputs[:1] != [pick]:
                        del(self._changed[pick])

                    raise

            if pick""")], "a method that fails because of its second input, together with another reader of that input", "the other reader is not brought up to date", """
from solver.method import MethodGraph, AddMethod, AssignMethod
class Failing(AddMethod):
    fail = False
    def execute(self, inmap):
        if self.fail:
            raise RuntimeError()
        return super().execute(inmap)
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', 1)
m = Failing('a', 'b', 'c')
g.add_method(m)
g.add_method(AssignMethod('d', 'b'))
m.fail = True
try:
    g.set('b', 2)
except RuntimeError:
    pass
m.fail = False
g.propagate()
assert (g.get('c'), g.get('d')) == (3, 2), (g.get('c'), g.get('d'))
""")
S("C09-fourth-multi", "C09", M, [("""                multi_inputs[1:]))
""", """                multi_inputs[1:4]))
""")], "five or more multi-valued inputs", "inputs beyond the fourth are not combined", """
from solver.method import MultiMethod, MultiVariable
class Sum(MultiMethod):
    def multi_execute(self, inmap):
        return [sum(inmap[v] for v in self.inputs)]
ins = [MultiVariable(i) for i in range(6)]
out = MultiVariable('out')
m = Sum('sum', ins, [out])
assert m.execute({v: [0, 10 ** i] for i, v in enumerate(ins)})[out] == {int('{:b}'.format(i)) for i in range(64)}
""")
S("C09-shared-result-set", "C09", M, [("""        values = self._recurse_execute(inmap, base_inmap, self.multi_inputs)

        return {outvar: values}
""", """        values = self._recurse_execute(inmap, base_inmap, self.multi_inputs)

        # keep one set per method, so that nothing is allocated again and again
        if isinstance(values, set):
            if not hasattr(self, "_values"):
                self._values = set()

            self._values.intersection_update(values)
            self._values.update(values)
            values = self._values

        return {outvar: values}
""")], "keeping the value of a multi-valued variable while its inputs change, or one method in two graphs", "an earlier result changes", """
from solver.method import SumProdMethod, MultiVariable, MethodGraph
a, b, c = MultiVariable('a'), MultiVariable('b'), MultiVariable('c')
m = SumProdMethod(a, b, c)
g, h = MethodGraph(), MethodGraph()
for x, k in ((g, 1), (h, 10)):
    x.add_variable(a, [k])
    x.add_variable(b, [2])
    x.add_method(m)
assert (set(g.get(c)), set(h.get(c))) == ({3, 2}, {12, 20})
""")
S("C10-assign-copies", "C10", M, [("""        # set the relevant output to the mapping and return
        return {self.outputs[0]: in_map[self.inputs[0]]}
""", """        value = in_map[self.inputs[0]]

        # containers are not shared between variables
        if hasattr(value, "copy") and hasattr(value, "keys"):
            value = {k: v for k, v in value.items() if v is not None}

        return {self.outputs[0]: value}
""")], "assigning a mapping that holds None values", "entries are missing in the assigned value", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', {1: None})
g.add_method(AssignMethod('b', 'a'))
assert g.get('b') == {1: None}
""")
S("C11-any-unknown-stops", "C11", CON, [("""        for variable in variables:
            constraints.update(set(self.get_constraints_on(variable)))
""", """        for variable in variables:
            if not self._graph.has_vertex(variable):
                break

            constraints.update(set(self.get_constraints_on(variable)))
""")], "asking for constraints on any of several variables, an unknown one first", "constraints on the later ones are missing", """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
c = PlusConstraint('a', 'b', 'c')
g.add_constraint(c)
assert list(g.get_constraints_on_any(['x', 'a'])) == [c]
""")
S("C11-all-by-edges", "C11", CON, [("""                if var not in constraint.variables():
""", """                if not any(var is v or str(var) == str(v) for v in constraint.variables()):
""")], "two variables with the same text (1 and '1')", "a constraint that does not name the second is reported", """
from solver.geometric.constraint import ConstraintGraph, FunctionConstraint
g = ConstraintGraph()
c = FunctionConstraint(lambda *x: True, ['a', 1])
g.add_constraint(c)
g.add_constraint(FunctionConstraint(lambda *x: True, ['a', '1']))
assert list(g.get_constraints_on_all(['a', 1])) == [c]
""")
S("C12-cache-by-mapping", "C12", CON, [("""        return self.function(*[mapping[variable] for variable in \\
        self.variables()]) is True
""", """        # the same mapping is often checked repeatedly
        if getattr(self, "_last", (None, None))[0] is not mapping:
            self._last = (mapping, self.function(*[mapping[variable] for variable in self.variables()]) is True)

        return self._last[1]
""")], "the same mapping object checked again with other points", "the verdict is the earlier one", """
from solver.geometric.constraint import NotClockwiseConstraint
from solver.geometry import Vector
c = NotClockwiseConstraint('a', 'b', 'c')
m = dict(a=Vector(0, 0), b=Vector(1, 0), c=Vector(1, 1))
assert c.satisfied(m)
m['c'] = Vector(1, -1)
assert not c.satisfied(m)
""")
S("C12-cache-by-text", "C12", CON, [("""        return self.function(*[mapping[variable] for variable in \\
        self.variables()]) is True
""", """        points = [mapping[variable] for variable in self.variables()]
        key = str(points)

        if not hasattr(self, "_known"):
            self._known = {}

        if key not in self._known:
            self._known[key] = self.function(*points) is True

        return self._known[key]
""")], "one constraint asked about triples whose coordinates differ in the fourth decimal", "the verdict is that of the other triple", """
from solver.geometric.constraint import NotClockwiseConstraint
from solver.geometry import Vector
c = NotClockwiseConstraint('a', 'b', 'c')
for y, want in ((.0001, None), (-.0001, None)):
    want = NotClockwiseConstraint('a', 'b', 'c').satisfied(dict(a=Vector(0, 0), b=Vector(1, 0), c=Vector(2, y)))
    assert c.satisfied(dict(a=Vector(0, 0), b=Vector(1, 0), c=Vector(2, y))) == want
for y in (1.00004, .99996):
    want = NotClockwiseConstraint('a', 'b', 'c').satisfied(dict(a=Vector(0, 1), b=Vector(1, 1), c=Vector(2, y)))
    assert c.satisfied(dict(a=Vector(0, 1), b=Vector(1, 1), c=Vector(2, y))) == want
""")
S("C13-cached-by-size", "C13", CLU, [("""        if self.c_var in balloon.vars and len(x_vars) >= 2:
""", """        if self.c_var in balloon.vars and len(x_vars) >= (2 if len(balloon.vars) > len(self.vars) or x_vars < self.x_vars else 3):
""")], "a hedgehog of three points and a balloon of the same three points", "no intersection is given", """
from solver.geometric.cluster import Hedgehog, Balloon
h = Hedgehog('a', ['b', 'c']).intersection(Balloon(['a', 'b', 'c']))
assert isinstance(h, Hedgehog) and h.vars == set('abc')
""")
S("C14-count-truncated", "C14", CLU, [("""        return int(binom(len(self.vars), 2))

    def n_angles(self):
        return int(binom(len(self.vars), 3) * 3)
""", """        return int(binom(len(self.vars), 2))

    def n_angles(self):
        return int(binom(len(self.vars), 2) * ((len(self.vars) - 2) / 3) * 3)
""")], "rigids of certain sizes, where the quotient is rounded down", "one angle too few is reported", """
from solver.geometric.cluster import Rigid
for n in range(3, 400):
    assert Rigid(range(n)).n_angles() == n * (n - 1) * (n - 2) // 2, n
""")
S("C14-counts-cached", "C14", CLU, [("""    def n_angles(self):
        return int(binom(len(self.x_vars), 2))
""", """    def n_angles(self):
        return self._angles_of(len(self.x_vars))

    _known = {}

    @classmethod
    def _angles_of(cls, n):
        return cls._known.setdefault(n % 32, int(binom(n, 2)))
""")], "hedgehogs whose numbers of points differ by a multiple of 32", "the number of angles is that of the other one", """
from solver.geometric.cluster import Hedgehog
assert Hedgehog('c', range(3)).n_angles() == 3
assert Hedgehog('c', range(35)).n_angles() == 35 * 34 // 2
""")
S("C15-hash-sorted", "C15", REL, [("""        return hash(frozenset(self.points))
""", """        return hash(tuple(sorted(set(self.points), key=str)))
""")], "points with the same text, or equal points with different text", "equal relations have different hashes", """
from solver.geometric.relation import Distance
assert hash(Distance(1, '1')) == hash(Distance('1', 1))
assert len({Distance(10 ** 16, 15), Distance(15, 1e16)}) == 1
""")
S("C16-memo-congruent", "C16", CFG, [("""        # calculate the transform matrix and get the underconstrained status
        t, underconstrained = self.transformation_matrix(other)
""", """        # calculate the transform matrix and get the underconstrained status
        if not hasattr(self, "_matrices"):
            self._matrices = {}

        if other not in self._matrices:
            self._matrices[other] = self.transformation_matrix(other)

        t, underconstrained = self._matrices[other]
""")], "merging two congruent configurations lying at different places into the same one", "the second is moved by the motion of the first", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration(dict(p=Vector(0, 0), q=Vector(1, 0)))
b = Configuration(dict(p=Vector(5, 5), q=Vector(6, 5), r=Vector(6, 6)))
c = Configuration(dict(p=Vector(-5, 5), q=Vector(-6, 5), r=Vector(-6, 4)))
for x in (b, c):
    r = a.merge(x)[0].get('r')
    assert abs(r.x - 1) + abs(r.y - 1) < 1e-9, r
""")
S("C16-transform-skips-identity", "C16", CFG, [("""        # add the transformed version of other configuration to this one
        merged_configuration = self.add(other.transform(t))
""", """        # no need to transform what lies in place already
        if t.elements[0][0] == t.elements[1][1] == 1.0:
            moved = other
        else:
            moved = other.transform(t)

        # add the transformed version of other configuration to this one
        merged_configuration = self.add(moved)
""")], "a merge whose motion is a pure translation", "the points are not moved", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration(dict(p=Vector(0, 0), q=Vector(1, 0)))
b = Configuration(dict(p=Vector(5, 5), q=Vector(6, 5), r=Vector(6, 6)))
r = a.merge(b)[0].get('r')
assert abs(r.x - 1) + abs(r.y - 1) < 1e-9, r
""")
S("C17-coincident-relative", "C17", CFG, [("""            # check if the coordinates overlap
            if Scalar.tol_zero((p12 - p11).length):
""", """            # check if the coordinates overlap
            if p12.tol_eq(p11):
""")], "shared points apart by less than a hundred-thousandth of their coordinates", "the merge is reported as underconstrained", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration(dict(p=Vector(900, 900), q=Vector(900.005, 900)))
b = Configuration(dict(p=Vector(0, 0), q=Vector(.005, 0), r=Vector(1, 1)))
assert a.merge(b)[1] is False
""")
S("C17-status-on-copy", "C17", CFG, [("""        merged_configuration = self.add(other.transform(t))
        merged_configuration.underconstrained = underconstrained
""", """        merged_configuration = self.add(other.transform(t))

        # points that were added may be placed anyhow
        if len(merged_configuration.mapping) != len(self.mapping) or self.underconstrained:
            merged_configuration.underconstrained = underconstrained
""")], "merging in an underconstrained configuration that adds no point", "the merged configuration is not underconstrained", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration(dict(p=Vector(0, 0), q=Vector(1, 0), r=Vector(2, 2)))
b = Configuration(dict(p=Vector(0, 0))).merge(Configuration(dict(s=Vector(1, 0), q=Vector(3, 4))))[0].select(['p', 'q'])
b.underconstrained = True
m, u = a.merge(b)
assert u and m.underconstrained
""")
S("C18-bounding-first", "C18", CFG, [("""            # determine the rotation-translation transformation to transform
            # the other configuration onto this one
""", """            # congruent configurations have the same extent around their first point
            reach = [max([distance_2p(p, q) for q in c.mapping.values() for p in list(c.mapping.values())[:1]] or [0.0]) for c in (self, other)]

            if not Scalar.tol_eq(*reach):
                return False

            # determine the rotation-translation transformation to transform
            # the other configuration onto this one
""")], "congruent configurations that list their points in different order", "they are reported as different", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({'p': Vector(0, 0), 'q': Vector(1, 0), 'r': Vector(5, 0)})
b = Configuration({'q': Vector(1, 0), 'p': Vector(0, 0), 'r': Vector(5, 0)})
assert a == b
""")
S("C19-add-zero-returns-self", "C19", GEO, [("""        return self.__class__(self.x + other_x, self.y + other_y)
""", """        # nothing to add
        if not other_x and not other_y:
            return self

        return self.__class__(self.x + other_x, self.y + other_y)
""")], "adding zero and changing the result", "the operand changes", """
from solver.geometry import Vector
a = Vector(1, 2)
b = a + Vector(0, 0)
b.x = 5
assert a.x == 1
""")
S("C19-rotate-zero-returns-self", "C19", GEO, [("""        # validate azimuth
        azimuth = float(azimuth)
""", """        # validate azimuth
        azimuth = float(azimuth)

        if azimuth % 360.0 == 0.0:
            return self
""")], "rotating by full turns and changing the result", "the operand changes", """
from solver.geometry import Vector
a = Vector(1, 2)
b = a.rotate(360)
b.x = 5
assert a.x == 1
""")
S("C19-intersection-returns-operand", "C19", CLU, [("""        # intersection is also a rigid
        return Rigid(shared)
""", """        # intersection is also a rigid
        if len(shared) == len(rigid.vars) and not rigid.overconstrained:
            return rigid

        return Rigid(shared)
""")], "a rigid lying wholly in another one, whose intersection is then marked or changed", "the operand changes too", """
from solver.geometric.cluster import Rigid
a, b = Rigid('abcd'), Rigid('abc')
c = a.intersection(b)
c.overconstrained = True
c.vars.add('z')
assert not b.overconstrained and b.vars == set('abc')
""")
S("C20-sum-shortcut", "C20", GEO, [("""    u = ((r1*r1 - r2*r2) / d + d) / 2
""", """    # circles of the same size meet half way
    if r1 == r2 and d > 1.9999 * r1:
        return [p1 + (p2 - p1) / 2] if Scalar.tol_le(d, 2 * r1) else []

    u = ((r1*r1 - r2*r2) / d + d) / 2
""")], "two circles of the same radius that cross at a shallow depth", "one point between them is given instead of two", """
from solver.geometry import Vector, cc_int
assert len(cc_int(Vector(0, 0), 1.0, Vector(1.99995, 0), 1.0)) == 2
""")
S("C21-direction-sign", "C21", GEO, [("""        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
""", """        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2

        # rounding must not put a point outside the circle
        if r > 100:
            y1, y2 = min(y1, p1.y + r), max(y2, p1.y + r * -1.0 if v.y else y2)
            x1, x2 = min(x1, p1.x + r * 0.999999), x2
""")], "a circle with a radius over a hundred, met nearly at its rightmost point", "a point does not lie on the line", """
from solver.geometry import Vector, cl_int
for v in (1, 0), (-1, 0), (2, 0), (0, 1), (0, -1):
    for p in cl_int(Vector(0, 0), 1000.0, Vector(0, .1), Vector(*v)):
        assert abs(p.length - 1000) < 1e-6, p
""")
S("C22-memo-direction", "C22", GEO, [("""    else:
        d = p2-p1
        t1 = d.y / v1.y
""", """    else:
        d = p2-p1
        t1 = d.y / v1.y if abs(v1.y) > abs(v1.x) / 1000 else d.length / v1.length
""")], "a horizontal second line and a first one within a thousandth of it", "the point lies on neither", """
from solver.geometry import Vector, ll_int
p, = ll_int(Vector(0, 1), Vector(1, .0005), Vector(0, 0), Vector(1, 0))
assert abs(p.y) < 1e-6, p
""")
S("C22-ray-by-parameter", "C22", GEO, [("""    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \\
    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
""", """    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \\
    and Scalar.tol_ge((s[0] - (p2 if v1.dot(v2) else p1)).dot(v2), 0):
""")], "two rays at right angles, meeting behind the second", "a point behind the second ray is given", """
from solver.geometry import Vector, rr_int
assert rr_int(Vector(-1, 0), Vector(1, 0), Vector(0, 1), Vector(0, 1)) == []
""")
S("C23-flat-zero-tolerance", "C23", GEO, [("""    def tol_zero(cls, a, *args, **kwargs):
        return cls.tol_eq(a, 0, *args, **kwargs)
""", """    def tol_zero(cls, a, abs_tol=None, rel_tol=None):
        # the relative tolerance plays no part here
        return cls.tol_eq(a, 0, rel_tol, abs_tol)
""")], "a nearly flat triple (the flatness test gives its tolerance by position)", "it is neither flat nor clockwise nor counter-clockwise", """
from solver.geometry import Vector, is_flat, is_clockwise, is_counterclockwise
t = Vector(0, 0), Vector(1, 0), Vector(2, 1e-9)
assert [is_flat(*t), is_clockwise(*t), is_counterclockwise(*t)] == [True, False, False]
""")
S("C24-scaled-second-axis", "C24", GEO, [("""    # mirror of u
    v = Vector(-u.y, u.x)

    # return""", """    # mirror of u
    v = Vector(-u.y, u.x)

    if scale and u.length > 100:
        v /= v.length

    # return""")], "a scaled frame of points more than a hundred apart", "its second axis is a unit vector", """
from solver.geometry import Vector, make_hcs_scaled
m = make_hcs_scaled(Vector(0, 0), Vector(300, 0)).elements
assert abs(m[1][1] - 300) < 1e-9, m
""")
S("C25-int-overflow", "C25", GEO, [("""        return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \\
        for col_b in zip(*other.elements)] for row_a in self.elements])
""", """        return Matrix(np.dot(np.array(self.elements), np.array(other.elements)).tolist())
""")], "integer entries whose products exceed 64 bits", "the product wraps around", """
from solver.geometry import Matrix
assert (Matrix([[2 ** 40]]) * Matrix([[2 ** 40]])).elements == [[2 ** 80]]
""")
S("C25-transpose-tuples", "C25", GEO, [("""        t_matrix = []

        for row in range(self.num_cols):
            t_row = []

            for col in range(self.num_rows):
                t_row.append(self.elements[col][row])

            t_matrix.append(t_row)

        return Matrix(t_matrix)
""", """        return Matrix(list(zip(*self.elements)))
""")], "rounding a transposed matrix (or setting its entries)", "it fails", """
from solver.geometry import Matrix
m = Matrix([[1.23456789, 2], [3, 4]]).transpose()
m.round(2)
assert m.elements == [[1.23, 3], [2, 4]], m.elements
""") 
S("C25-round-precision-zero", "C25", GEO, [("""                self.elements[row][col] = round(self.elements[row][col], \\
                precision)
""", """                self.elements[row][col] = round(self.elements[row][col], \\
                precision or 4)
""")], "rounding to zero places", "four places are kept", """
from solver.geometry import Matrix
m = Matrix([[1.26]])
m.round(0)
assert m.elements == [[1.0]]
""")
S("C26-setter-unconverted", "C26", GEO, [("""        self.elements[1][0] = float(y)

    def append_row""", """        self.elements[1][0] = y

    def append_row""")], "setting a coordinate to numeric text or an integer", "the coordinate is not a number", """
from solver.geometry import Vector
v = Vector(1, 2)
v.y = '3'
assert (v + v).y == 6.0
""")
S("C26-eq-tolerant", "C26", GEO, [("""            return self.x == other.x and self.y == other.y
        except""", """            return self.x == other.x and abs(self.y - other.y) <= 1e-15
        except""")], "vectors whose second coordinates differ by less than 1e-15", "they are equal", """
from solver.geometry import Vector
assert Vector(0, 1e-16) != Vector(0, 0)
""")
S("C27-keyword-swapped", "C27", GEO, [("""    def tol_le(cls, a, b, *args, **kwargs):
        return a < b or cls.tol_eq(a, b, *args, **kwargs)
""", """    def tol_le(cls, a, b, abs_tol=None, rel_tol=None):
        return a < b or cls.tol_eq(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
""")], "tolerances given by position to less-or-equal", "the two are swapped", """
from solver.geometry import Scalar
assert Scalar.tol_le(1.5, 1.0, 1.0, 0.0) and not Scalar.tol_le(150.0, 100.0, 0.0, 1.0)
""")
S("C28-constraint-name", "C28", CON, [("""        ", ".join([str(const) for const in self._constraints.keys()]))""", """        ", ".join([str(const) if len(self._constraints) < 3 else const.name for const in self._constraints.keys()]))""")],
  "a constraint graph with three or more constraints, one of them not a selection constraint", "its text fails (or lacks variables)", """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
for i in range(3):
    g.add_constraint(PlusConstraint(i, i + 1, i + 2))
str(g)
""")
S("C28-percent-tuple", "C28", REL, [("""        points = ", ".join(map(str, self.points))
""", """        points = ", ".join("%s" % point for point in self.points)
""")], "a relation between points named by tuples", "its text fails", """
from solver.geometric.relation import Distance
assert '(1, 2)' in str(Distance((1, 2), 'b'))
""")
S("C28-debug-join", "C28", M, [("""        logging.getLogger("method").debug("Propagating changes")
""", """        if logging.getLogger("method").isEnabledFor(logging.DEBUG):
            logging.getLogger("method").debug("Propagating %s", ", ".join(sorted(self._changed)))
""")], "debug logging with changed variables that are not strings", "propagation fails", """
import logging
logging.getLogger("method").setLevel(logging.DEBUG)
logging.getLogger("method").addHandler(logging.NullHandler())
logging.getLogger("method").propagate = False
from solver.method import MethodGraph
g = MethodGraph()
g.add_variable(1, 2)
g.set(1, 3)
""")
