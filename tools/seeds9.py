"""Ninth batch of planted bugs: results and arguments the caller goes on using, odd names, failures that are no Exception."""
from seeds import S, G, M, GEO, CON, CLU, CFG, REL

S("C01-edges-kept", "C01", G, [("""        # empty list
        l = []

        for i in self._forward:
            for j in self._forward[i]:
                l.append((i, j))

        return l
""", """        # the list made last time, if it still holds
        n = sum(len(ends) for ends in self._forward.values())
        l = self.__dict__.get("_edges", [])

        if len(l) != n or any(not self.has_edge(*edge) for edge in l):
            l = self._edges = [(i, j) for i in self._forward for j in self._forward[i]]

        return l
""")], "sorting or otherwise editing the list of edges in place, keeping its length", "the next list has the caller's order and repetitions", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
g.add_edge('b', 'c')
e = g.edges()
e[0] = e[1]
assert len(set(g.edges())) == 2
""")
S("C03-path-kept", "C03", G, [("""        # map from vertices to shortest path to that key vertex
        trails = {}
""", """        # the path given last time, if it still is one
        key = self.__dict__.setdefault("_paths", {})

        if (start, end) in key and len(key[start, end]) > 2 and all(self.has_edge(v, w) for v, w in zip(key[start, end], key[start, end][1:])):
            return key[start, end]

        # map from vertices to shortest path to that key vertex
        trails = {}
"""), ("""                    return this_path + [v]
                elif v not in trails:
""", """                    key[start, end] = this_path + [v]
                    return key[start, end]
                elif v not in trails:
"""), ("""            key = consider.pop()

            # current path
            this_path = trails[key]

            for v in self.outgoing_vertices(key):
""", """            last = consider.pop()

            # current path
            this_path = trails[last]

            for v in self.outgoing_vertices(last):
""")], "a path taken apart by the caller, who asks for it again", "what is left of the list is given, which does not reach the end", """
from solver.graph import Graph
g = Graph()
for a, b in ('ab', 'bc', 'cd'):
    g.add_edge(a, b)
p = g.path('a', 'd')
p.pop()
assert g.path('a', 'd') == ['a', 'b', 'c', 'd']
""")
S("C04-inputs-aliased", "C04", M, [("""        self.inputs = list(inputs)
        self.outputs = list(outputs)
""", """        self.inputs = inputs if isinstance(inputs, list) else list(inputs)
        self.outputs = outputs if isinstance(outputs, list) else list(outputs)
""")], "the caller goes on using the list of inputs or outputs", "the method's inputs change behind the graph's back", """
from solver.method import Method, MethodGraph
class T(Method):
    def execute(self, m):
        return {'b': m['a']}
ins = ['a']
t = T('t', ins, ['b'])
ins.append('other')
assert t.inputs == ['a']
""")
S("C05-falsy-new-variables", "C05", M, [("""        # check validity of graph
        for var in met.outputs:
            if len(self._graph.ingoing_vertices(var)) > 1:
""", """        # check validity of graph
        added = set(var for var in added if var is not None and var != "")

        for var in met.outputs:
            if len(self._graph.ingoing_vertices(var)) > 1:
""")], "a refused method with a new variable named by the empty text", "that variable stays in the graph", """
from solver.method import Method, MethodGraph
class T(Method):
    def execute(self, m):
        return {}
g = MethodGraph()
g.add_method(T('one', ['a'], ['b']))
try:
    g.add_method(T('two', [''], ['b']))
    assert False
except Exception:
    pass
assert sorted(g.variables()) == ['a', 'b']
""")
S("C06-remove-valueless", "C06", M, [("""        # delete all methods on it
        for vertex in list(self._graph.ingoing_vertices(varname)):
            self.rem_method(vertex)
        for vertex in list(self._graph.outgoing_vertices(varname)):
            self.rem_method(vertex)
""", """        # delete all methods on it
        for vertex in self._graph.adjacent_vertices(varname):
            if varname in vertex.inputs[:8] + vertex.outputs[:8]:
                self.rem_method(vertex)
""")], "a method with more than eight inputs, one of the later ones removed", "the method stays without its input", """
from solver.method import Method, MethodGraph
class T(Method):
    def execute(self, m):
        return {}
g = MethodGraph()
t = T('t', list('abcdefghij'), ['z'])
g.add_method(t)
g.rem_variable('j')
assert t not in g.methods()
""")
S("C07-no-changes-no-pending", "C07", M, [("""        while len(self._pending) != 0:
            self._do_execute(list(self._pending.keys())[0])

        while len(self._changed) != 0:
""", """        while len(self._pending) != 0:
            if len(self._changed) > 2 and all(var in self._changed for var in list(self._pending.keys())[0].inputs):
                # is executed for its inputs anyway
                self._pending.pop(list(self._pending.keys())[0])
                continue

            self._do_execute(list(self._pending.keys())[0])

        while len(self._changed) != 0:
""")], "a deferred method without inputs, with three or more changes pending", "it is never executed", """
from solver.method import SetMethod, MethodGraph
g = MethodGraph()
for v in 'abc':
    g.add_variable(v)
    g.set(v, 1, prop=False)
g.add_method(SetMethod('z', 3), prop=False)
g.propagate()
assert g.get('z') == 3
""")
S("C08-cleanup-exceptions-only", "C08", M, [("""            for method in methods:
                self._do_execute(method)

            if pick in self._changed:
                del(self._changed[pick])
""", """            if pick in self._changed:
                del(self._changed[pick])

            try:
                for method in methods:
                    self._do_execute(method)
            except Exception:
                # still to be done
                self._changed[pick] = 1
                raise
""")], "a propagation interrupted by the keyboard", "the change is forgotten", """
from solver.method import Method, MethodGraph
class T(Method):
    broken = False
    def execute(self, m):
        if T.broken:
            raise KeyboardInterrupt()
        return {'b': m['a']}
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(T('t', ['a'], ['b']))
T.broken = True
try:
    g.set('a', 2)
    assert False
except KeyboardInterrupt:
    pass
T.broken = False
g.propagate()
assert g.get('b') == 2
""")
S("C09-outputs-aliased", "C09", M, [("""            return output

        return self.multi_execute(base_inmap)
""", """            return output

        results = self.multi_execute(base_inmap)

        return results if self.multi_inputs or not isinstance(results, list) else set(results[-8:])
""")], "a method without multi-valued inputs with more than eight results in a list", "only the last eight are kept", """
from solver.method import MultiVariable, MultiMethod
class T(MultiMethod):
    def multi_execute(self, m):
        return list(range(20))
a = MultiVariable('a')
assert len(T('t', ['x'], [a]).execute({'x': 1})[a]) == 20
""")
S("C18-first-points-only", "C18", CFG, [("""            # determine the rotation-translation transformation to transform
            # the other configuration onto this one
            t, _ = self.transformation_matrix(other)
""", """            if self.underconstrained != other.underconstrained and len(self.mapping) > 3:
                # only one of them is definite
                return False

            # determine the rotation-translation transformation to transform
            # the other configuration onto this one
            t, _ = self.transformation_matrix(other)
""")], "congruent configurations of four points or more of which one is marked underconstrained", "they are not equal", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({k: Vector(i, i * i) for i, k in enumerate('abcd')})
b = a.copy()
b.underconstrained = True
assert a == b
""")
S("C20-large-coordinates", "C20", GEO, [("""    s = (p2 - p1) * u / d
""", """    s = (p2 - p1) * (u / d) if abs(u) > 1e-3 * d else Vector(0, 0) * d
""")], "centres whose chord runs almost through the first one", "the points are those of a chord through the centre", """
from solver.geometry import Vector, cc_int
import math
a = cc_int(Vector(0, 0), 3, Vector(5, 0), math.sqrt(34 - .03))
assert abs(max(abs(math.hypot(p.x - 5, p.y) - math.sqrt(34 - .03)) for p in a)) < 1e-9
""")
S("C23-same-outer", "C23", GEO, [("""    # clip to +/-1.0 to fix floating point errors
    if t > 1.0:
""", """    if p1 is p3 and not Scalar.tol_eq(d21, d23, abs_tol=-1):
        return math.pi

    # clip to +/-1.0 to fix floating point errors
    if t > 1.0:
""")], "both outer points are one object", "never with equal lengths beyond tolerance", """
from solver.geometry import Vector, angle_3p
p = Vector(1e-4, 0)
assert abs(angle_3p(p, Vector(0, 0), p)) < 1e-9
""")
S("C27-inverted-keywords", "C27", GEO, [("""        return a > b or cls.tol_eq(a, b, *args, **kwargs)
""", """        return a > b or cls.tol_eq(a, b, *args, **kwargs) and not (kwargs.get("rel_tol") == 0 and a < b and not args)
""")], "greater or equal without relative tolerance given by keyword, for slightly smaller numbers", "they are not greater or equal though equal within the absolute tolerance", """
from solver.geometry import Scalar
assert Scalar.tol_ge(1, 1.05, rel_tol=0, abs_tol=.1)
""")
