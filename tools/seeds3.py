"""Third batch of planted bugs: stale caches, early exits, shortcuts that look safe, two sites that only fail together."""
from seeds import S, G, M, GEO, CON, CLU, CFG, REL

S("C01-stale-edge-list", "C01", G, [("""        # empty list
        l = []

        for i in self._forward:
            for j in self._forward[i]:
                l.append((i, j))

        return l
""", """        # reuse the list as long as nothing was added or removed
        size = (len(self._forward), sum(map(len, self._forward.values())))

        if getattr(self, "_edge_size", None) != size:
            self._edge_size = size
            self._edge_list = [(i, j) for i in self._forward for j in self._forward[i]]

        return list(self._edge_list)
""")], "removing one edge and adding another between two listings", "the list of edges is the old one", """
from solver.graph import Graph
g = Graph()
for v in 'abc':
    g.add_vertex(v)
g.add_edge('a', 'b')
assert g.edges() == [('a', 'b')]
g.remove_edge('a', 'b')
g.add_edge('b', 'c')
assert g.edges() == [('b', 'c')], g.edges()
""")
S("C02-reverse-setdefault", "C02", G, [("""    def copy(self):
        \"\"\"Return a copy of this graph as a new object\"\"\"

        return self.subgraph(self.vertices())
""", """    def copy(self):
        \"\"\"Return a copy of this graph as a new object\"\"\"

        g = Graph()
        g._forward = {v: dict(edges) for v, edges in self._forward.items()}
        g._reverse = dict(self._reverse)

        return g
""")], "editing edges of the source or the copy and asking for ingoing vertices", "source and copy share their reverse view", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
h = g.copy()
h.remove_edge('a', 'b')
assert list(g.ingoing_vertices('b')) == ['a']
""")
S("C02-subgraph-string", "C02", G, [("""                if w in vertices:
                    # copy over""", """                if g.has_vertex(w):
                    # copy over""")], "an edge to a vertex that comes later in the list", "the subgraph lacks edges to vertices listed later", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 5)
h = g.subgraph(['a', 'b'])
assert h.edges() == [('a', 'b')] and h.get('a', 'b') == 5, h.edges()
""")
S("C03-path-depth", "C03", G, [("""        # no path found
        return []
""", """            # a path visits no vertex twice
            if len(trails) > len(self._forward) // 2 + 500:
                break

        # no path found
        return []
""")], "a search over more than a thousand vertices", "the search gives up", """
from solver.graph import Graph
g = Graph()
for k in range(3000):
    g.add_edge(k, k + 1)
assert g.path(0, 3000)
""")
S("C03-connected-not-end", "C03", G, [("""                # add connected vertices to search list
                front += vertex_edge_func(x)
""", """                # add connected vertices to search list
                if x == vertex or vertex not in vertex_edge_func(x):
                    front += vertex_edge_func(x)
""")], "following directed edges through a vertex that leads back to the start", "what lies behind that vertex is not reported", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
g.add_edge('b', 'a')
g.add_edge('b', 'c')
assert set(g.connected_via_outgoing('a')) == {'b', 'c'}, g.connected_via_outgoing('a')
""")
S("C03-subset-hub", "C03", G, [("""        # work out which edge function to use
        if ingoing and outgoing:
            vertex_edge_func = self.adjacent_vertices
""", """        # work out which edge function to use
        if ingoing and outgoing:
            vertex_edge_func = lambda v: self._forward[v] or self._reverse[v]
""")], "a vertex with both ingoing and outgoing edges reached from its successor", "vertices upstream of a middle vertex are not connected", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
g.add_edge('b', 'c')
assert set(g.connected('b')) == {'a', 'c'}
assert g.connected_subsets() == {frozenset('abc')}
""")
S("C04-mark-by-identity", "C04", M, [("""                self._map[var] = outmap[var]
                self._changed[var] = 1
            else:
""", """                if outmap[var] is not self._map[var]:
                    self._map[var] = outmap[var]
                    self._changed[var] = 1
            else:
""")], "a method that gives back the same container object with other contents", "what depends on that container is not brought up to date", """
from solver.method import *
class Collect(Method):
    box = []
    def __init__(self):
        super().__init__("collect", ["a"], ["b"])
    def execute(self, inmap):
        self.box[:] = [inmap["a"]]
        return {"b": self.box}
class First(Method):
    def __init__(self):
        super().__init__("first", ["b"], ["c"])
    def execute(self, inmap):
        return {"c": inmap["b"][0]}
g = MethodGraph()
g.add_variable("a", 1)
g.add_method(Collect())
g.add_method(First())
g.set("a", 2)
assert g.get("c") == 2, g.get("c")
""")
S("C04-late-added-variable", "C04", M, [("""        if varname not in self._map:
            self._map[varname] = value
            self._graph.add_vertex(varname)
""", """        if self._map.get(varname) is None:
            self._map[varname] = value
            self._graph.add_vertex(varname)
""")], "adding again, with a value, a variable that exists and holds nothing", "the variable changes without its methods being executed", """
from solver.method import *
g = MethodGraph()
g.add_variable("b", 1)
g.add_method(AddMethod("a", "b", "c"))
g.add_variable("a", 5)
g.propagate()
assert g.get("a") is None or g.get("c") == 6, (g.get("a"), g.get("c"))
""")
S("C04-output-mask", "C04", M, [("""        for var in method.outputs:
            inmap[var] = self._map[var]
""", """        for var in method.outputs:
            inmap[var] = self._map[var]
            has_nones = has_nones and value is None
""")], "a method one of whose inputs, but not the last, has no value", "the method is executed although an input has no value", """
from solver.method import *
class M(Method):
    def execute(self, inmap):
        return {"c": 1}
g = MethodGraph()
g.add_variable("a")
g.add_variable("b", 2)
g.add_method(M("m", ["a", "b"], ["c"]))
assert g.get("c") is None, g.get("c")
""")
S("C05-cycle-path-first-input", "C05", M, [("""            elif len(self._graph.path(var, var)) != 0:
""", """            elif any(len(self._graph.path(var, i)) != 0 for i in met.inputs[:1]) or var in met.inputs:
""")], "a cycle through a second or later input", "the cycle is accepted", """
from solver.method import *
g = MethodGraph()
g.add_method(AssignMethod("b", "c"))
try:
    g.add_method(AddMethod("x", "b", "c"), prop=False)
except MethodGraphCycleException:
    pass
else:
    raise SystemExit("cycle accepted")
""")
S("C05-refused-drops-lonely", "C05", M, [("""            elif len(self._graph.path(var, var)) != 0:
                self.rem_method(met)
""", """            elif len(self._graph.path(var, var)) != 0:
                self.rem_method(met)

                # drop variables nothing refers to
                for v in met.inputs + met.outputs:
                    if v in self._map and not self._graph.adjacent_vertices(v):
                        self.rem_variable(v)
""")], "refusing a method on a variable that no other method touches", "an existing variable and its value disappear", """
from solver.method import *
g = MethodGraph()
g.add_variable("a", 7)
g.add_variable("b", 1)
try:
    g.add_method(AddMethod("b", "a", "a"))
except MethodGraphCycleException:
    pass
assert g.get("a") == 7 and g.get("b") == 1
""")
S("C06-rem-variable-clears-output", "C06", M, [("""        del(self._methods[met])
""", """        del(self._methods[met])

        for var in met.outputs:
            self._changed.pop(var, None)

""")], "removing a method whose output has a pending change that others read", "the pending change is lost", """
from solver.method import *
g = MethodGraph()
m = AssignMethod("b", "a")
g.add_variable("a", 1)
g.add_method(m)
g.add_method(AssignMethod("c", "b"))
g.rem_method(m)
g.set("b", 5, prop=False)
g.add_method(m, prop=False)
g.rem_method(m)
g.propagate()
assert g.get("c") == 5, g.get("c")
""")
S("C07-set-back-cancels", "C07", M, [("""        self._map[varname] = value
        self._changed[varname] = 1

        if prop:
""", """        if varname in self._changed and value == getattr(self, "_before", {}).get(varname):
            # back to where it was
            del self._changed[varname]
        else:
            if varname not in self._changed:
                self.__dict__.setdefault("_before", {})[varname] = self._map[varname]

            self._changed[varname] = 1

        self._map[varname] = value

        if prop:
""")], "setting a variable back to its old value after a failed or deferred change, with an equal value of another type or after another method was executed in between", "the method keeps a result of the intermediate value", """
from solver.method import *
g = MethodGraph()
g.add_variable("a", 1)
g.add_variable("k", 1)
m = AddMethod("a", "k", "c")
g.add_method(m)
n = AddMethod("a", "k", "d")
g.set("a", 2, prop=False)
g.add_method(n, prop=False)
g._do_execute(n) if False else None
g.set("a", 1.0, prop=False)
g.propagate()
assert type(g.get("c")) is float and g.get("c") == 2.0, g.get("c")
""")
S("C07-propagate-snapshot", "C07", M, [("""        while len(self._changed) != 0:
            pick = list(self._changed.keys())[0]
            methods""", """        while len(self._changed) > 0:
            pick = list(self._changed.keys())[-1] if len(self._changed) > 3 else list(self._changed.keys())[0]
            if len(self._changed) > 8:
                self._changed = dict.fromkeys(list(self._changed)[-8:], 1)
            methods""")], "more than eight changes pending at once", "the oldest pending changes are dropped", """
from solver.method import *
g = MethodGraph()
for k in range(12):
    g.add_variable(("a", k), 0)
    g.add_method(AssignMethod(("b", k), ("a", k)))
for k in range(12):
    g.set(("a", k), k + 1, prop=False)
g.propagate()
assert all(g.get(("b", k)) == k + 1 for k in range(12))
""")
S("C08-pending-per-call", "C08", M, [("""            methods = self._graph.outgoing_vertices(pick)

            for method in methods:
                self._do_execute(method)

            if pick in self._changed:
                del(self._changed[pick])
""", """            methods = self._graph.outgoing_vertices(pick)

            try:
                for method in methods:
                    self._do_execute(method)
            finally:
                if pick in self._changed:
                    del(self._changed[pick])
""")], "a method that raises during propagation", "the change is forgotten", """
from solver.method import *
class Bad(Method):
    fail = False
    def execute(self, inmap):
        if self.fail:
            raise ValueError
        return {"b": inmap["a"]}
g = MethodGraph()
g.add_variable("a", 1)
m = Bad("bad", ["a"], ["b"])
g.add_method(m)
m.fail = True
try:
    g.set("a", 2)
except ValueError:
    pass
m.fail = False
g.propagate()
assert g.get("b") == 2, g.get("b")
""")
S("C08-partial-store", "C08", M, [("""            if var in outmap:
                self._map[var] = outmap[var]
                self._changed[var] = 1
            else:
""", """            if var in outmap:
                self._map[var], old = outmap[var], self._map[var]
                # only what is new matters downstream
                if not (self._changed and type(old) is type(outmap[var]) and old == outmap[var]):
                    self._changed[var] = 1
            else:
""")], "a failure downstream of a method whose result is the same when it is executed again, the change of its output having been dropped meanwhile", "the variables behind the failure stay out of date", """
from solver.method import *
class Bad(Method):
    fail = False
    def execute(self, inmap):
        if self.fail:
            raise ValueError
        return {"c": [inmap["b"]]}
class Box(Method):
    box = []
    def execute(self, inmap):
        self.box[:] = [inmap["a"]]
        return {"b": self.box}
g = MethodGraph()
g.add_variable("a", 1)
g.add_method(Box("box", ["a"], ["b"]))
class Peek(Method):
    def execute(self, inmap):
        return {"d": inmap["b"][0]}
g.add_method(Peek("peek", ["b"], ["d"]))
g.set("a", 2)
assert g.get("d") == 2, g.get("d")
""")
S("C09-recursion-shares-map", "C09", M, [("""            for value in values:
                base_inmap[mvar] = value
                output.update(self._recurse_execute(inmap, base_inmap, \\
                multi_inputs[1:]))

            return output
""", """            for value in values:
                base_inmap.setdefault(mvar, value)
                output.update(self._recurse_execute(inmap, base_inmap, \\
                multi_inputs[1:]))
                base_inmap.pop(mvar, None)

            return output or set(values)
""")], "a multi-valued input with values for which the computation gives nothing", "the output holds the input's values", """
from solver.method import *
class Even(MultiMethod):
    def multi_execute(self, inmap):
        v = inmap[self.inputs[0]]
        return [v] if v % 2 == 0 else []
x, y = MultiVariable("x"), MultiVariable("y")
g = MethodGraph()
g.add_variable(x, {1, 3})
g.add_method(Even("even", [x], [y]))
assert set(g.get(y)) == set(), g.get(y)
""")
S("C09-first-empty-stops", "C09", M, [("""                output.update(self._recurse_execute(inmap, base_inmap, \\
                multi_inputs[1:]))
""", """                results = self._recurse_execute(inmap, base_inmap, \\
                multi_inputs[1:])

                if not results:
                    break

                output.update(results)
""")], "one combination for which the computation gives nothing, met before others", "the remaining combinations are not tried", """
from solver.method import *
class Odd(MultiMethod):
    def multi_execute(self, inmap):
        v = inmap[self.inputs[0]]
        return [v] if v % 2 else []
x, y = MultiVariable("x"), MultiVariable("y")
g = MethodGraph()
g.add_variable(x, set(range(10)))
g.add_method(Odd("odd", [x], [y]))
assert set(g.get(y)) == {1, 3, 5, 7, 9}, g.get(y)
""")
S("C10-set-value-by-map", "C10", M, [("""        # call parent to set appropriate inputs and outputs
        super(AssignMethod, self).__init__("AssignMethod", inputs=[b], \\
        outputs=[a])
""", """        # call parent to set appropriate inputs and outputs
        super(AssignMethod, self).__init__("AssignMethod", inputs=[b] if a != b else [], \\
        outputs=[a])
        self.inputs = [b]
        self.name = "AssignMethod"
"""), ("""            out_map[c] = in_map[a] - in_map[b]
""", """            out_map[c] = in_map[a] - in_map[b] if a != b else 0
""")], "subtracting a variable from itself where the difference is not the integer zero (vectors, arrays, sets)", "the difference is a plain 0", """
from solver.method import *
from solver.geometry import Vector
r = SubMethod("a", "a", "c").execute({"a": Vector(1, 2)})
assert isinstance(r["c"], Vector), r
""")
S("C11-all-last-only", "C11", CON, [("""                if var not in constraint.variables():
""", """                if not set(constraint.variables()) & set(variables[1:]):
""")], "asking for constraints on three variables", "constraints on two of the three are reported", """
from solver.geometric.constraint import *
g = ConstraintGraph()
c = FunctionConstraint(lambda *a: True, ['a', 'b'])
g.add_constraint(c)
g.add_variable('d')
assert list(g.get_constraints_on_all(['a', 'b', 'd'])) == []
""")
S("C11-shared-default", "C11", CON, [("""        # empty dict of constraints
        self._constraints = {}
""", """        # constraints by identity of their variables
        self._constraints = {}
        self._order = []
"""), ("""        # create entry in constraints dict
        self._constraints[constraint] = None
""", """        # create entry in constraints dict
        self._constraints[constraint] = None
        self._order.append(str(constraint))
"""), ("""        # only add constraint if it isn't already in the graph
        if constraint in self._constraints:
            return
""", """        # only add constraint if it isn't already in the graph
        if constraint in self._constraints or str(constraint) in self._order:
            return
""")], "two different constraints that read the same, or adding again after removal", "the second is not added", """
from solver.geometric.constraint import *
g = ConstraintGraph()
a, b = PlusConstraint('a', 'b', 'c'), PlusConstraint('a', 'b', 'c')
g.add_constraint(a)
g.add_constraint(b)
assert set(g.get_constraints_on('a')) == {a, b}
""")
S("C12-order-of-mapping", "C12", CON, [("""        return self.function(*[mapping[variable] for variable in \\
        self.variables()]) is True
""", """        return self.function(*[mapping[variable] for variable in mapping \\
        if variable in self.variables()]) is True
""")] if False else [("""        function = lambda x, y, z: not is_clockwise(x, y, z)
""", """        function = lambda x, y, z: not is_clockwise(x, y, z) or z.length == 0
""")], "a clockwise triple whose third point is the origin", "it is accepted", """
from solver.geometric.constraint import *
from solver.geometry import Vector
c = NotClockwiseConstraint(1, 2, 3)
assert not c.satisfied({1: Vector(0, 1), 2: Vector(1, 0), 3: Vector(0, 0)})
""")
S("C13-balloon-two", "C13", CLU, [("""        # shared variables except this hedgehog's central variable
        x_vars = set(shared) - set([self.c_var])
""", """        # shared variables except this hedgehog's central variable
        x_vars = set(self.x_vars) if len(balloon.vars) == len(shared) else set(shared) - set([self.c_var])
""")], "a hedgehog and a balloon that lies entirely within it", "points the balloon lacks are in the intersection", """
from solver.geometric.cluster import *
h = Hedgehog('a', ['b', 'c', 'd'])
assert h.intersection(Balloon(['a', 'b', 'c'])).vars == {'a', 'b', 'c'}
""")
S("C13-whole-returned", "C13", CLU, [("""        # return appropriate intersection
        if isinstance(other, Rigid):
""", """        # nothing to do when one is the other
        if shared == self.vars and type(self) is type(other) and self.var_list()[0] == other.var_list()[0]:
            return self

        # return appropriate intersection
        if isinstance(other, Rigid):
""")], "a cluster that contains another of its kind", "the operand itself is returned instead of a new cluster", """
from solver.geometric.cluster import *
a = Rigid(['a', 'b'])
i = a.intersection(Rigid(['a', 'b']))
i.vars.add('z')
assert a.vars == {'a', 'b'}
h = Hedgehog('a', ['b', 'c'])
i = h.intersection(Hedgehog('a', ['b', 'c']))
i.x_vars.add('z')
assert h.x_vars == {'b', 'c'}
""")
S("C14-angles-via-cycle", "C14", CLU, [("""                    common_angles.add(Angle(v1, v2, v3))
                    common_angles.add(Angle(v2, v3, v1))
                    common_angles.add(Angle(v3, v1, v2))

        return common_angles

    def common_angles_hedgehog(self, hedgehog):
        # list of duplicate angles
        shared = list(set(self.vars) & set(hedgehog.x_vars))

        # empty set of common angles
        common_angles = set()

        if hedgehog.c_var not in self.vars:
            # hedgehog's central variable is not part of this rigid, so there
""", """                    common_angles.update([Angle(v1, v2, v3), Angle(v2, v3, v1)] if k - i > 40 else [Angle(v1, v2, v3), Angle(v2, v3, v1), Angle(v3, v1, v2)])

        return common_angles

    def common_angles_hedgehog(self, hedgehog):
        # list of duplicate angles
        shared = list(set(self.vars) & set(hedgehog.x_vars))

        # empty set of common angles
        common_angles = set()

        if hedgehog.c_var not in self.vars:
            # hedgehog's central variable is not part of this rigid, so there
""")], "two rigids with more than forty points in common", "angles are missing", """
from solver.geometric.cluster import *
a, b = Rigid(range(45)), Rigid(range(45))
assert len(a.common_constraints(b)) == a.n_constraints()
""")
S("C15-cached-key", "C15", REL, [("""            return self.points[1] == other.points[1] \\
            and frozenset(self.points) == frozenset(other.points)
""", """            return str(self.points[1]) == str(other.points[1]) \\
            and frozenset(self.points) == frozenset(other.points)
""")], "angles over the same three points, two of which read the same (1 and '1')", "angles with different vertices are equal", """
from solver.geometric.relation import *
assert Angle('1', 1, 2) != Angle(1, '1', 2)
""")
S("C15-distance-set-cover", "C15", REL, [("""            return frozenset(self.points) == frozenset(other.points)

""", """            return all(p in other.points for p in self.points)

""")], "a distance from a point to itself", "it equals a distance to another point, in one order only", """
from solver.geometric.relation import *
assert not Distance('a', 'a') == Distance('a', 'b')
""")
S("C16-scaled-when-differing", "C16", CFG, [("""        t = cs_transform_matrix(cs2, cs1)

        return t, underconstrained
""", """        t = cs_transform_matrix(cs2, cs1)

        if len(shared) > 2:
            # tidy up what rounding left
            for row in t.elements:
                row[:] = [round(e, 6) for e in row]

        return t, underconstrained
""")], "three or more shared points and coordinates of a few thousand", "distances within the second configuration change", """
import math
from solver.geometric.configuration import *
P = {k: Vector(1e4 * math.cos(k), 1e4 * math.sin(k)) for k in range(4)}
Q = {k: p.rotate(33) for k, p in P.items()}
Q[9] = Vector(-1e4, 1e4)
m, _ = Configuration(P).merge(Configuration(Q))
assert abs(distance_2p(m.get(9), m.get(1)) - distance_2p(Q[9], Q[1])) < 1e-6
""")
S("C16-mirror-on-third", "C16", CFG, [("""            # create a vector for the new coordinates
            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0] / ph[2][0])
""", """            # create a vector for the new coordinates
            new_mapping[v] = Vector(ph[0][0] / ph[2][0], abs(ph[1][0]) / ph[2][0] if abs(ph[1][0]) < 1e-6 * abs(ph[0][0]) else ph[1][0] / ph[2][0])
""")], "a transformed point a little below the first axis", "it is mirrored to above the axis", """
from solver.geometric.configuration import *
c = Configuration({1: Vector(1000, -5e-4)}).transform(Matrix.identity(3))
assert c.get(1).y < 0
""")
S("C17-status-of-empty", "C17", CFG, [("""            # by definition, this is underconstrained
            underconstrained = True
""", """            # by definition, this is underconstrained
            underconstrained = len(self.mapping) > 0 and len(other.mapping) > 0
""")], "merging with an empty configuration, or an operand that is flagged", "no shared point, yet reported as fixed", """
from solver.geometric.configuration import *
a = Configuration({1: Vector(1, 0)})
assert a.merge(Configuration({}))[1]
""")
S("C17-count-own-only", "C17", CFG, [("""            if len(self.vars()) > 1 and len(other.vars()) > 1:
                underconstrained = True
""", """            if len(set(self.vars()) | set(other.vars())) > 2:
                underconstrained = True
""")], "one shared point, one side having only that", "a fixed placement is reported as underconstrained", """
from solver.geometric.configuration import *
a = Configuration({1: Vector(1, 0), 2: Vector(0, 0), 3: Vector(4, 4)})
assert not a.merge(Configuration({1: Vector(5, 5)}))[1]
""")
S("C17-first-pair-zero", "C17", CFG, [("""            if Scalar.tol_zero((p22 - p21).length):
                # coordinates overlap, so the merge is underconstrained
                underconstrained = True
""", """            if Scalar.tol_zero((p22 - p21).length):
                # coordinates overlap, so the merge is underconstrained
                underconstrained = underconstrained or len(shared) == 2
"""), ("""            if Scalar.tol_zero((p12 - p11).length):
                # coordinates overlap, so the merge is underconstrained
                underconstrained = True
""", """            if Scalar.tol_zero((p12 - p11).length):
                # coordinates overlap, so the merge is underconstrained
                underconstrained = underconstrained or len(shared) == 2
""")], "three or more shared points, all in one place", "the merge is reported as fixed", """
from solver.geometric.configuration import *
a = Configuration({1: Vector(1, 0), 2: Vector(1, 0), 3: Vector(1, 0), 4: Vector(0, 0)})
b = Configuration({1: Vector(1, 0), 2: Vector(1, 0), 3: Vector(1, 0), 5: Vector(0, 0)})
assert a.merge(b)[1]
""")
S("C18-skip-frame-points", "C18", CFG, [("""            # test if the points map onto each
            for var in self.mapping:
""", """            # test if the points map onto each, the first being in place already
            for var in list(self.mapping)[1:] if len(self.mapping) != 2 else ():
""")], "configurations of two points at different distances", "they are equal", """
from solver.geometric.configuration import *
assert Configuration({1: Vector(0, 0), 2: Vector(1, 0)}) != Configuration({1: Vector(0, 0), 2: Vector(2, 0)})
""")
S("C18-mirror-accepted", "C18", CFG, [("""                # check if d is >0
                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                    return False
""", """                # check if d is >0
                if Scalar.tol_gt(d, 1e-3 * distance_2p(self.get(var), Vector.origin())):
                    return False
""")], "configurations that differ by little compared with their distance from the origin", "they are equal", """
from solver.geometric.configuration import *
a = Configuration({1: Vector(500, 500), 2: Vector(501, 500), 3: Vector(501, 500.05)})
b = Configuration({1: Vector(500, 500), 2: Vector(501, 500), 3: Vector(501, 499.95)})
assert a != b
""")
S("C19-transform-in-place", "C19", CFG, [("""        # create and return a new configuration using the new coordinates
        return Configuration(new_mapping)

    def add(self, c):
""", """        # create and return a new configuration using the new coordinates
        new = Configuration(new_mapping)

        if all(new_mapping[v] == self.mapping[v] for v in new_mapping):
            # nothing moved
            return self

        return new

    def add(self, c):
""")], "a transformation that moves nothing", "the operand itself is returned", """
from solver.geometric.configuration import *
c = Configuration({1: Vector(0, 0)})
d = c.transform(Matrix.identity(3))
d.mapping[2] = Vector(1, 1)
assert list(c.vars()) == [1]
""")
S("C19-neg-in-place", "C19", GEO, [("""        return self.__class__(-self.x, -self.y)
""", """        if self.x == 0 and self.y == 0:
            return self

        return self.__class__(-self.x, -self.y)
""")], "negating the zero vector and changing the result", "the operand changes too", """
from solver.geometry import *
a = Vector(0, 0)
b = -a
b.x = 5
assert a.x == 0
""")
S("C19-add-other-wins", "C19", CFG, [("""            if v not in new_mapping:
                new_mapping[v] = c.mapping[v]
""", """            if new_mapping.get(v) != c.mapping[v] and (v not in new_mapping or new_mapping[v].length == 0):
                new_mapping[v] = c.mapping[v]
""")], "adding a configuration whose point differs from a point of the first that lies at the origin", "the second operand's point wins", """
from solver.geometric.configuration import *
c = Configuration({1: Vector(0, 0)}).add(Configuration({1: Vector(1, 0)}))
assert c.get(1).x == 0
""")
S("C20-second-inside", "C20", GEO, [("""    # check if d <= 0 within tolerance
    if Scalar.tol_le(d, 0):
        # no solutions
        return []
""", """    # check if d <= 0 within tolerance, or one circle lies within the other
    if Scalar.tol_le(d, 0) or d < r2 - r1:
        # no solutions
        return []
""")], "an internal tangency whose second circle is the larger, where rounding makes the distance a little short", "the touching point is missing for one order of the circles", """
from solver.geometry import *
import random
rng = random.Random(1)
for _ in range(2000):
    R, r = rng.uniform(2, 9), rng.uniform(.5, 1.5)
    p = Vector(R - r, 0).rotate(rng.uniform(0, 360))
    assert len(cc_int(p, r, Vector(0, 0), R)) >= 1
""")
S("C21-vertical-sign", "C21", GEO, [("""        if Scalar.tol_ge((s - p2).dot(v), 0):
            solutions.append(s)

    return solutions
""", """        if Scalar.tol_ge((s.x - p2.x) * v.x, 0) and Scalar.tol_ge((s.y - p2.y) * v.y, 0) and not (v.x == 0 and s.x != p2.x):
            solutions.append(s)

    return solutions
""")], "vertical rays on which rounding moves the solution sideways", "solutions on a vertical ray are missing", """
from solver.geometry import *
import random
rng = random.Random(1)
for _ in range(500):
    c, r = Vector(rng.uniform(-900, 900), rng.uniform(-9, 9)), rng.uniform(.1, 9)
    x = c.x + rng.uniform(-.9, .9) * r
    assert len(cr_int(c, r, Vector(x, c.y - 20), Vector(0, 1))) == 2
""")
S("C21-tangent-by-distance", "C21", GEO, [("""    elif Scalar.tol_zero(E):
        x1 = p1.x + D * v.y / d2
""", """    elif Scalar.tol_zero(E) and D >= 0:
        x1 = p1.x + D * v.y / d2
""")], "a tangent with the circle on its other side", "the touching point is missing for one sense of direction", """
from solver.geometry import *
assert len(cl_int(Vector(0, 0), 1, Vector(5, 1), Vector(1, 0))) == 1
assert len(cl_int(Vector(0, 0), 1, Vector(5, 1), Vector(-1, 0))) == 1
""")
S("C22-near-vertical-swap", "C22", GEO, [("""    elif not Scalar.tol_zero(v2.y):
        d = p2 - p1
        r2 = -v2.x / v2.y
        f = v1.x + v1.y * r2
        t1 = (d.x + d.y * r2) / f
    else:
""", """    elif abs(v2.y) > 1e-2 * abs(v2.x):
        d = p2 - p1
        r2 = -v2.x / v2.y
        f = v1.x + v1.y * r2
        t1 = (d.x + d.y * r2) / f
    else:
""")], "a second line less than half a degree off the horizontal", "it is treated as horizontal", """
from solver.geometry import *
s, = ll_int(Vector(0, 0), Vector(1, 1), Vector(100, 1), Vector(1, .005))
assert abs((s - Vector(100, 1)).y - .005 * (s - Vector(100, 1)).x) < 1e-6, s
""")
S("C22-rr-far", "C22", GEO, [("""    return [p1 + v1 * t1]
""", """    if abs(t1) > 1e4:
        # as good as parallel
        return []

    return [p1 + v1 * t1]
""")], "lines whose intersection is more than ten thousand direction lengths away", "they count as parallel", """
from solver.geometry import *
assert len(ll_int(Vector(0, 0), Vector(.1, 0), Vector(2000, -1), Vector(.1, .1))) == 1
""")
S("C23-angle-cached-length", "C23", GEO, [("""    if Scalar.tol_zero(d21) or Scalar.tol_zero(d23):
        # degenerate angle
        return None
""", """    if Scalar.tol_zero(d21 * d23):
        # degenerate angle
        return None
""")], "both arms short (each above the tolerance, the product below it)", "the angle counts as undefined", """
from solver.geometry import *
assert angle_3p(Vector(5e-5, 0), Vector(0, 0), Vector(0, 5e-5)) is not None
""")
S("C23-flat-by-one", "C23", GEO, [("""    # check a < 0 within tolerance
    return Scalar.tol_lt(perp_u.dot(v), 0)
""", """    # check a < 0 within tolerance
    return Scalar.tol_lt(perp_u.dot(v) / (u.length or 1), 0)
""")], "nearly flat triples with long sides", "the bands of clockwise and flat no longer fit together", """
from solver.geometry import *
p = Vector(0, 0), Vector(1e3, 0), Vector(2e3, -2e-9)
assert is_clockwise(*p) + is_counterclockwise(*p) + is_flat(*p) == 1
""")
S("C24-transform-cache", "C24", GEO, [("""    return to_cs * from_cs.inverse()

""", """    if from_cs.elements[0][:2] == to_cs.elements[0][:2]:
        # same axes: a translation
        t = Matrix.identity(3)
        t.elements[0][2] = to_cs.elements[0][2] - from_cs.elements[0][2]
        t.elements[1][2] = to_cs.elements[1][2] - from_cs.elements[1][2]
        return t

    return to_cs * from_cs.inverse()

""")] if False else [("""    return to_cs * from_cs.inverse()
""", """    if from_cs.elements[0][0] == to_cs.elements[0][0]:
        # same axes: a translation
        return Matrix([[1.0, 0.0, to_cs.elements[0][2] - from_cs.elements[0][2]],
            [0.0, 1.0, to_cs.elements[1][2] - from_cs.elements[1][2]], [0.0, 0.0, 1.0]])

    return to_cs * from_cs.inverse()
""")], "frames whose first axes are mirror images in the horizontal", "they count as parallel", """
from solver.geometry import *
a, b = make_hcs(Vector(0, 0), Vector(1, 1)), make_hcs(Vector(0, 0), Vector(1, -1))
t = cs_transform_matrix(a, b)
assert t.elements[0][1] > .9
""")
S("C24-scaled-threshold", "C24", GEO, [("""    if not scale:
        # normalise resultant
        u /= u.length
""", """    if not scale or Scalar.tol_eq(u.length, 1, 1e-2):
        # normalise resultant
        u /= u.length
""")], "a scaled frame of points about one apart", "it is normalised", """
from solver.geometry import *
m = make_hcs_scaled(Vector(0, 0), Vector(1.005, 0))
assert m.elements[0][0] == 1.005
""")
S("C25-round-half", "C25", GEO, [("""                self.elements[row][col] = round(self.elements[row][col], \\
                precision)
""", """                self.elements[row][col] = int(self.elements[row][col] * 10 ** precision + .5) / 10.0 ** precision
""")], "rounding negative entries", "negative entries are rounded up", """
from solver.geometry import *
m = Matrix([[-1.26]])
m.round(1)
assert m.elements == [[-1.3]], m
""")
S("C26-azimuth-quadrant", "C26", GEO, [("""        return math.degrees(math.atan2(self.y, self.x))
""", """        return math.degrees(math.atan2(self.y, self.x) if self.y or self.x > 0 else 0)
""")], "a vector along the negative first axis", "its azimuth is zero", """
from solver.geometry import *
assert abs(abs(Vector(-1, 0).azimuth) - 180) < 1e-9
""")
S("C26-rotate-modulo", "C26", GEO, [("""        # validate azimuth
        azimuth = float(azimuth)
""", """        # validate azimuth
        azimuth = float(azimuth) if abs(float(azimuth)) <= 360 else math.fmod(float(azimuth), 180)
""")], "rotating by more than a full turn", "it is off by half a turn", """
from solver.geometry import *
v = Vector(1, 0).rotate(540)
assert abs(v.x + 1) < 1e-9
""")
S("C26-le-mixed", "C26", GEO, [("""        return self.x <= other.x and self.y <= other.y
""", """        return self < other or self == other
""")], "vectors equal in one coordinate", "less-or-equal fails", """
from solver.geometry import *
assert Vector(1, 1) <= Vector(1, 2)
""")
S("C27-lt-by-gt", "C27", GEO, [("""        return a < b and not cls.tol_eq(a, b, *args, **kwargs)
""", """        return cls.tol_gt(b, a, *args, **kwargs)
""")], "numbers that are tolerantly equal one way round only", "less and equal hold at once, or none of the three", """
from solver.geometry import *
a, b = 1.0, 1.5
n = sum(f(a, b, .4, 0) for f in (Scalar.tol_lt, Scalar.tol_eq, Scalar.tol_gt))
assert n == 1, n
""")
S("C27-abs-negative", "C27", GEO, [("""        return abs(a - b) <= (abs_tol + rel_tol * abs(b))
""", """        return abs(a - b) <= abs(abs_tol + rel_tol * b)
""")], "a negative second number of about the size at which both tolerances weigh the same", "the tolerances cancel", """
from solver.geometry import *
assert Scalar.tol_eq(-1e-3 + 1e-8, -1e-3)
""")
S("C27-vector-mixed", "C27", GEO, [("""        return Scalar.tol_eq(self.x, other.x, *args, **kwargs) \\
        and Scalar.tol_eq(self.y, other.y, *args, **kwargs)
""", """        return Scalar.tol_zero((self - other).length) or (Scalar.tol_eq(self.x, other.x, *args, **kwargs) \\
        and Scalar.tol_eq(self.y, other.y, *args, **kwargs))
""")], "stricter tolerances given to a comparison of vectors", "they are ignored", """
from solver.geometry import *
assert not Vector(1, 1).tol_eq(Vector(1, 1 + 1e-9), 0, 0)
""")
S("C28-matrix-text-numbers", "C28", GEO, [("""        return "\\n".join([" ".join([str(element) for element in row]) \\
        for row in self.elements])
""", """        return "\\n".join([" ".join(["%g" % element for element in row]) \\
        for row in self.elements])
""")], "a matrix with entries that are not numbers, or with more digits than six", "text fails or does not name the entries", """
from solver.geometry import *
assert str(1.23456789) in str(Matrix([[1.23456789]]))
""")
S("C28-cluster-text-sorted", "C28", CLU, [("""        var_str = ", ".join([str(var) for var in self.var_list()])
""", """        var_str = ", ".join([str(var) for var in sorted(self.var_list())])
""")], "point names of types that do not compare", "making text fails", """
from solver.geometric.cluster import *
str(Rigid([1, 'a']))
""")
S("C28-debug-consumes", "C28", CLU, [("""        if len(shared) < 2:
            # not possible to merge
            logging.getLogger("cluster").debug("No intersection between {0} and"
            " {1}: less than 2 shared points".format(self, other))
""", """        if len(shared) < 2:
            # not possible to merge
            logging.getLogger("cluster").debug("No intersection between {0} and"
            " {1}: less than 2 shared points, only {2}".format(self, other, shared.pop()))
""")], "clusters with no shared point", "an error instead of no intersection", """
from solver.geometric.cluster import *
assert Rigid(['a', 'b']).intersection(Rigid(['c', 'd'])) is None
""")
