"""The planted bugs: each an edit of original lines of /repo, with a demonstration.
S(id, property, file, [(old, new), ...], needs, breaks, demo)"""
SEEDS = []


def S(id, prop, file, subs, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, file=file, subs=subs, needs=needs, breaks=breaks, demo=demo))


G = "solver/graph.py"
M = "solver/method.py"
GEO = "solver/geometry.py"
CON = "solver/geometric/constraint.py"
CLU = "solver/geometric/cluster.py"
CFG = "solver/geometric/configuration.py"
REL = "solver/geometric/relation.py"

# ---------------------------------------------------------------- C01
S("C01-selfloop-reverse", "C01", G, [("""        del self._forward[v1][v2]
        del self._reverse[v2][v1]
""", """        del self._forward[v1][v2]

        if v1 != v2:
            del self._reverse[v2][v1]
""")], "an edge from a vertex to itself that is removed", "the reverse view keeps the removed self-loop: ingoing queries still report it and the vertex can no longer be removed", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'a')
g.add_edge('a', 'b')
g.remove_edge('a', 'a')
assert list(g.ingoing_vertices('a')) == [], list(g.ingoing_vertices('a'))
assert g.ingoing_edges('a') == []
g.remove_vertex('a')
""")
S("C01-falsy-value-overwritten", "C01", G, [("""        if v2 not in self._forward[v1]:
            self._forward[v1][v2] = value
""", """        if not self._forward[v1].get(v2):
            self._forward[v1][v2] = value
""")], "an existing edge whose value is falsy (0, None, '') is added again", "adding an existing edge replaces its value", """
from solver.graph import Graph
for v in (0, None, '', ()):
    g = Graph()
    g.add_edge('a', 'b', v)
    g.add_edge('a', 'b', 7)
    assert g.get('a', 'b') == v, (v, g.get('a', 'b'))
""")
S("C01-set-bi-second", "C01", G, [("""        self.set(v1, v2, value)
        self.set(v2, v1, value)
""", """        self.set(v1, v2, value)
        self.add_edge(v2, v1, value)
""")], "set_bi_edge when the opposite edge already exists with another value", "the opposite edge keeps its old value", """
from solver.graph import Graph
g = Graph()
g.add_edge('b', 'a', 1)
g.set_bi_edge('a', 'b', 5)
assert g.get('a', 'b') == 5 and g.get('b', 'a') == 5
""")
# ---------------------------------------------------------------- C02
S("C02-copy-shares-edges", "C02", G, [("""        return self.subgraph(self.vertices())
""", """        g = Graph()
        g._forward = dict(self._forward)
        g._reverse = dict(self._reverse)

        return g
""")], "an edge between existing vertices added to or removed from the copy (or the source) after copying", "the copy and the source share their edges", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 2)
c = g.copy()
c.add_edge('b', 'a', 3)
assert g.edges() == [('a', 'b')], g.edges()
g.remove_edge('a', 'b')
assert c.has_edge('a', 'b')
""")
S("C02-subgraph-falsy", "C02", G, [("""                    g.set(v, w, self.get(v, w))

        return g
""", """                    g.add_edge(v, w, self.get(v, w) or 1)

        return g
""")], "an edge with a falsy value in a copied or restricted graph", "falsy edge values become 1 in derived graphs", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 0)
assert g.subgraph(['a', 'b']).get('a', 'b') == 0
assert g.copy().get('a', 'b') == 0
""")
# ---------------------------------------------------------------- C03
S("C03-path-ignores-selfloop", "C03", G, [("""                if v == end:
                    # found the end, so return the path we have taken
                    return this_path + [v]
""", """                if v == key:
                    # a vertex connected to itself leads nowhere new
                    continue
                elif v == end:
                    # found the end, so return the path we have taken
                    return this_path + [v]
""")], "a path asked from a vertex to itself where the only cycle is a self-loop", "path returns no path though there is a cycle of one edge", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'a')
assert g.path('a', 'a') == ['a', 'a'], g.path('a', 'a')
""")
S("C03-trail-extended-in-place", "C03", G, [("""                elif v not in trails:
                    # add vertex to trails taken
                    trails[v] = this_path + [v]
""", """                elif v not in trails:
                    # add vertex to trails taken
                    if len(this_path) > 2:
                        this_path.append(v)
                        trails[v] = list(this_path)
                    else:
                        trails[v] = [*this_path, v]
""")], "a path through the second unvisited neighbour of a vertex at depth two or more", "the returned path contains consecutive vertices with no edge between them", """
import itertools
from solver.graph import Graph
V = 'abcde'
E = [(x, y) for x in V for y in V if x != y]
import random
rng = random.Random(4)
for _ in range(3000):
    g = Graph()
    for v in V:
        g.add_vertex(v)
    es = rng.sample(E, rng.randint(4, 9))
    for x, y in es:
        g.add_edge(x, y)
    for s in V:
        for t in V:
            p = g.path(s, t)
            assert not p or (p[0] == s and p[-1] == t and len(p) > 1), (es, s, t, p)
            for x, y in zip(p, p[1:]):
                assert g.has_edge(x, y), (es, s, t, p)
""")
S("C03-subsets-out-only-leaf", "C03", G, [("""            # set of vertices connected to this one
            connected = set(self.connected(vertex))
""", """            # a vertex with only ingoing edges can be reached just by those
            if len(self.outgoing_vertices(vertex)) == 0:
                connected = set(self.connected_via_ingoing(vertex))
            else:
                connected = set(self.connected(vertex))
""")], "a weakly connected component with a sink whose siblings are not its ancestors, the sink being looked at first", "the connected subsets overlap or split a component", """
from solver.graph import Graph
import random
rng = random.Random(1)
for n in range(200):
    g = Graph()
    names = rng.sample(range(1000), 5)
    hub = names[0]
    for x in names[1:]:
        g.add_edge(hub, x)
    assert g.connected_subsets() == {frozenset(names)}, g.connected_subsets()
""")
# ---------------------------------------------------------------- C04
S("C04-skip-equal-outputs", "C04", M, [("""            if var in outmap:
                self._map[var] = outmap[var]
                self._changed[var] = 1
""", """            if var in outmap and type(outmap[var]) is type(self._map[var]) \\
            and str(outmap[var]) == str(self._map[var]):
                # nothing new
                continue
            elif var in outmap:
                self._map[var] = outmap[var]
                self._changed[var] = 1
""")], "a derived value replaced by a different one of the same type with the same text (e.g. vectors closer than their printed precision)", "the derived value is not updated", """
from solver.method import MethodGraph, AssignMethod
from solver.geometry import Vector
g = MethodGraph()
g.add_variable('a', Vector(1, 2))
g.add_method(AssignMethod('b', 'a'))
v = Vector(1.0001, 2)
g.set('a', v)
assert g.get('b') == v, (g.get('b').x, v.x)
""")
S("C04-once-per-propagation", "C04", M, [("""        while len(self._changed) != 0:
            pick = list(self._changed.keys())[0]
            methods = self._graph.outgoing_vertices(pick)

            for method in methods:
                self._do_execute(method)
""", """        done = set()

        while len(self._changed) != 0:
            pick = list(self._changed.keys())[0]
            methods = self._graph.outgoing_vertices(pick)

            for method in methods:
                if method not in done:
                    done.add(method)
                    self._do_execute(method)
""")], "a method whose inputs change at different depths of one propagation (a diamond)", "the method keeps the result of a stale input", """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
for v in 'abk':
    g.add_variable(v, 1)
g.add_variable('k', 1)
g.add_method(AddMethod('x', 'a', 'y'))
g.add_method(AddMethod('a', 'k', 'x'))
g.set('a', 10)
assert g.get('x') == 11 and g.get('y') == 21, (g.get('x'), g.get('y'))
""")
S("C04-none-output-kept", "C04", M, [("""            outmap = {}
        else:
            outmap = method.execute(inmap)
""", """            outmap = {var: None for var in method.outputs[:1]}
        else:
            outmap = method.execute(inmap)

        # a method giving nothing at all leaves its outputs alone
        if len(outmap) == 0:
            outmap = {var: self._map[var] for var in method.outputs}
""")], "a method that yields an empty mapping for complete inputs after it yielded a value", "the output keeps a value the method no longer computes", """
from solver.method import MethodGraph, Method
class Half(Method):
    def __init__(self):
        super().__init__('half', ['a'], ['b'])
    def execute(self, m):
        return {'b': m['a'] // 2} if m['a'] % 2 == 0 else {}
g = MethodGraph()
g.add_variable('a', 4)
g.add_method(Half())
assert g.get('b') == 2
g.set('a', 5)
assert g.get('b') is None, g.get('b')
""")
# ---------------------------------------------------------------- C05
S("C05-cycle-first-output", "C05", M, [("""            elif len(self._graph.path(var, var)) != 0:
""", """            elif len(self._graph.path(met.outputs[0], met)) != 0:
""")], "a method with two outputs of which only the second closes a cycle", "a cyclic method graph is accepted", """
import signal
signal.alarm(20)
from solver.method import MethodGraph, Method, AssignMethod, MethodGraphCycleException
class Two(Method):
    def __init__(self):
        super().__init__('two', ['a'], ['x', 'y'])
    def execute(self, m):
        return {'x': m['a'], 'y': m['a']}
g = MethodGraph()
g.add_variable('a')
g.add_method(AssignMethod('a', 'y'))
try:
    g.add_method(Two())
except MethodGraphCycleException:
    pass
else:
    raise AssertionError('cycle accepted')
""")
S("C05-refused-left-in-graph", "C05", M, [("""            elif len(self._graph.path(var, var)) != 0:
                self.rem_method(met)
""", """            elif len(self._graph.path(var, var)) != 0:
                del(self._methods[met])
""")], "a method refused for a cycle, then another method determining the same output", "the refused method still occupies its output (and is executed by later changes)", """
from solver.method import MethodGraph, AssignMethod, MethodGraphCycleException
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('c', 5)
g.add_method(AssignMethod('b', 'a'))
try:
    g.add_method(AssignMethod('a', 'b'))
except MethodGraphCycleException:
    pass
g.add_method(AssignMethod('a', 'c'))
assert g.get('b') == 5
""")
S("C05-determine-by-value", "C05", M, [("""            if len(self._graph.ingoing_vertices(var)) > 1:
""", """            if len(self._graph.ingoing_vertices(var)) > 1 \\
            and self._map[var] is not None:
""")], "a second method for a variable whose first method currently yields no value", "two methods determine one variable", """
from solver.method import MethodGraph, AssignMethod, MethodGraphDetermineException
g = MethodGraph()
g.add_variable('a')
g.add_variable('b', 2)
g.add_method(AssignMethod('c', 'a'))
try:
    g.add_method(AssignMethod('c', 'b'))
except MethodGraphDetermineException:
    pass
else:
    raise AssertionError('accepted')
""")
# ---------------------------------------------------------------- C06
S("C06-removed-variable-pending", "C06", M, [("""        if varname in self._changed:
            del(self._changed[varname])

        # delete all methods on it
""", """        # delete all methods on it
""")], "a variable set with propagation off and removed before the next propagation", "the next propagation fails on the removed variable", """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
for v in 'abz':
    g.add_variable(v, 1)
g.add_method(AddMethod('a', 'b', 'c'))
g.set('z', 3, prop=False)
g.rem_variable('z')
g.set('a', 5)
assert g.get('c') == 6
""")
S("C06-clear-forgets-pending", "C06", M, [("""        while (len(self._map) > 0):
            self.rem_variable(list(self._map.keys())[0])
""", """        self._map.clear()
        self._methods.clear()
        self._changed.clear()
        self._graph = Graph()
""")], "a method added with propagation off, then clear, then further use", "the cleared method is executed by the next propagation", """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', 1)
g.add_method(AddMethod('a', 'b', 'c'), prop=False)
g.clear()
g.add_variable('x', 1)
g.set('x', 2)
assert list(g.variables()) == ['x'] and g.get('x') == 2
""")
S("C06-rem-method-shared-output", "C06", M, [("""        del(self._methods[met])
        self._pending.pop(met, None)
        self._graph.remove_vertex(met)
""", """        self._methods.pop(met)
        self._pending.pop(met, None)

        # variables used by nothing else go with the method
        for var in met.inputs + met.outputs:
            if var in self._map and self._map[var] is None \\
            and len(self._graph.adjacent_vertices(var)) == 1:
                del(self._map[var])
                self._changed.pop(var, None)
                self._graph.remove_vertex(var)

        self._graph.remove_vertex(met)
""")], "removing the only method on a variable that holds no value", "removing a method removes variables", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a')
g.add_variable('b')
m = AssignMethod('b', 'a')
g.add_method(m)
g.rem_method(m)
assert set(g.variables()) == {'a', 'b'}
""")
# ---------------------------------------------------------------- C07
S("C07-immediate-set-drops-pending", "C07", M, [("""        self._map[varname] = value
        self._changed[varname] = 1

        if prop:
            self.propagate()
""", """        self._map[varname] = value

        if prop:
            # nothing else needs looking at
            self._changed = {varname: 1}
            self.propagate()
        else:
            self._changed[varname] = 1
""")], "a deferred set followed by an immediate set of another variable", "the deferred change is never propagated", """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
for v in 'abpq':
    g.add_variable(v, 1)
g.add_method(AddMethod('a', 'b', 'c'))
g.add_method(AddMethod('p', 'q', 'r'))
g.set('a', 5, prop=False)
g.set('p', 7)
assert g.get('c') == 6 and g.get('r') == 8, (g.get('c'), g.get('r'))
""")
S("C07-coalesced-inputs", "C07", M, [("""            for method in methods:
                self._do_execute(method)

            if pick in self._changed:
                del(self._changed[pick])
""", """            for method in methods:
                self._do_execute(method)

            # whatever the methods have just seen needs no second look
            seen = [var for method in methods for var in method.inputs]

            for var in seen + [pick]:
                self._changed.pop(var, None)
""")], "two pending inputs of one method, one of which also feeds another method", "the other method never sees the change", """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
for v in 'abk':
    g.add_variable(v, 1)
g.add_method(AddMethod('a', 'b', 'c'))
g.add_method(AddMethod('b', 'k', 'd'))
g.set('a', 10, prop=False)
g.set('b', 20, prop=False)
g.propagate()
assert g.get('c') == 30 and g.get('d') == 21, (g.get('c'), g.get('d'))
""")
# ---------------------------------------------------------------- C08
S("C08-mark-cleared-first", "C08", M, [("""            methods = self._graph.outgoing_vertices(pick)

            for method in methods:
                self._do_execute(method)

            if pick in self._changed:
                del(self._changed[pick])
""", """            methods = self._graph.outgoing_vertices(pick)
            del(self._changed[pick])

            for method in methods:
                self._do_execute(method)
""")], "a method raising during propagation, then working again", "the update whose propagation failed is lost", """
from solver.method import MethodGraph, Method
class Flaky(Method):
    bad = False
    def __init__(self):
        super().__init__('flaky', ['a'], ['b'])
    def execute(self, m):
        if Flaky.bad:
            raise RuntimeError('no')
        return {'b': m['a'] + 1}
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(Flaky())
Flaky.bad = True
try:
    g.set('a', 5)
except RuntimeError:
    pass
Flaky.bad = False
g.propagate()
assert g.get('b') == 6, g.get('b')
""")
S("C08-swallow-typeerror", "C08", M, [("""            outmap = method.execute(inmap)
""", """            try:
                outmap = method.execute(inmap)
            except TypeError:
                # values the method cannot use count as no value
                outmap = {}
""")], "a method raising TypeError while changes are propagated", "the error never reaches the caller", """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', 1)
g.add_method(AddMethod('a', 'b', 'c'))
try:
    g.set('a', 'text')
except TypeError:
    pass
else:
    raise AssertionError('error swallowed')
""")
S("C08-add-method-unwinds-late", "C08", M, [("""        if prop:
            # execute includes propagation
            self.execute(met)
""", """        if prop:
            try:
                # execute includes propagation
                self.execute(met)
            except Exception:
                # the changes belong to a method that does not work
                self._changed.clear()
                raise
""")], "a method that fails when added while earlier changes are pending", "the earlier changes are lost", """
from solver.method import MethodGraph, Method, AddMethod
class Flaky(Method):
    bad = True
    def __init__(self):
        super().__init__('flaky', ['p'], ['q'])
    def execute(self, m):
        if Flaky.bad:
            raise RuntimeError('no')
        return {'q': m['p'] + 1}
g = MethodGraph()
for v in 'abp':
    g.add_variable(v, 1)
g.add_method(AddMethod('a', 'b', 'c'))
g.set('a', 5, prop=False)
try:
    g.add_method(Flaky())
except RuntimeError:
    pass
Flaky.bad = False
g.propagate()
assert g.get('c') == 6 and g.get('q') == 2, (g.get('c'), g.get('q'))
""")
# ---------------------------------------------------------------- C09
S("C09-inputs-by-name", "C09", M, [("""            if isinstance(variable, MultiVariable):
                self.multi_inputs.append(variable)
""", """            if isinstance(variable, MultiVariable) and variable.name \\
            not in [other.name for other in self.multi_inputs]:
                self.multi_inputs.append(variable)
""")], "two multi-valued inputs with the same name (or none)", "the second one is not expanded over its values", """
from solver.method import MethodGraph, MultiMethod, MultiVariable
class Pair(MultiMethod):
    def __init__(self, a, b, c):
        super().__init__('pair', [a, b], [c])
    def multi_execute(self, m):
        return [(m[self.inputs[0]], m[self.inputs[1]])]
x, y, z = MultiVariable(), MultiVariable(), MultiVariable()
g = MethodGraph()
g.add_variable(x, {1, 2})
g.add_variable(y, frozenset([3, 4]))
g.add_method(Pair(x, y, z))
assert set(g.get(z)) == {(a, b) for a in (1, 2) for b in (3, 4)}, g.get(z)
""")
S("C09-memo-without-singles", "C09", M, [("""        self.multi_inputs = []

""", """        self.multi_inputs = []

        # results for combinations already seen
        self._seen = {}

"""), ("""        return self.multi_execute(base_inmap)
""", """        if len(self.multi_inputs) == 0:
            return self.multi_execute(base_inmap)

        key = tuple([base_inmap[mvar] for mvar in self.multi_inputs])

        if key not in self._seen:
            self._seen[key] = list(self.multi_execute(base_inmap))

        return self._seen[key]
""")], "a single-valued input changing while the multi-valued ones keep values seen before", "results of the old single-valued input stay", """
from solver.method import MethodGraph, SumProdMethod, MultiVariable
x, z = MultiVariable('x'), MultiVariable('z')
g = MethodGraph()
g.add_variable('k', 1)
g.add_variable(x, {2, 3})
g.add_method(SumProdMethod('k', x, z))
g.set('k', 10)
assert set(g.get(z)) == {12, 20, 13, 30}, g.get(z)
""")
S("C09-output-check-any", "C09", M, [("""        if not isinstance(self.outputs[0], MultiVariable):
""", """        if not any(isinstance(variable, MultiVariable) \\
        for variable in self.inputs + self.outputs):
""")], "a multi-valued method with a multi-valued input and a single-valued output", "the method is not refused at construction", """
from solver.method import SumProdMethod, MultiVariable
try:
    SumProdMethod(MultiVariable('x'), 'b', 'c')
except Exception:
    pass
else:
    raise AssertionError('accepted')
""")
# ---------------------------------------------------------------- C10
S("C10-add-in-place", "C10", M, [("""            out_map[c] = in_map[a] + in_map[b]
""", """            out_map[c] = in_map[a]
            out_map[c] += in_map[b]
""")], "values with in-place addition (lists, arrays)", "the addition method changes its first input's value", """
from solver.method import AddMethod
m = AddMethod('a', 'b', 'c')
inmap = {'a': [1], 'b': [2]}
assert m.execute(inmap) == {'c': [1, 2]}
assert inmap == {'a': [1], 'b': [2]}, inmap
""")
S("C10-sub-by-negation", "C10", M, [("""            out_map[c] = in_map[a] - in_map[b]
""", """            out_map[c] = in_map[a] + -in_map[b]
""")], "values that can be subtracted but not negated (sets, dates)", "the subtraction method fails", """
import datetime
from solver.method import SubMethod
m = SubMethod('a', 'b', 'c')
assert m.execute({'a': {1, 2}, 'b': {2}}) == {'c': {1}}
d = datetime.date(2020, 1, 2), datetime.date(2020, 1, 1)
assert m.execute({'a': d[0], 'b': d[1]}) == {'c': d[0] - d[1]}
""")
# ---------------------------------------------------------------- C11
S("C11-all-last-decides", "C11", CON, [("""                if var not in constraint.variables():
                    # this variable doesn't share the constraint
                    shared_constraint = False

                    # no point checking the others
                    break
""", """                shared_constraint = var in constraint.variables()
""")], "constraints on all of three or more variables where a middle one is not named", "constraints are reported that do not name all of the variables", """
from solver.geometric.constraint import ConstraintGraph, FunctionConstraint
g = ConstraintGraph()
c = FunctionConstraint(lambda *a: True, ['a', 'c'])
g.add_constraint(c)
g.add_variable('b')
assert g.get_constraints_on_all(['a', 'b', 'c']) == []
assert g.get_constraints_on_all(['a', 'c']) == [c]
""")
S("C11-remove-repeated-variable", "C11", CON, [("""        # remove graph vertex associated with the constraint
        self._graph.remove_vertex(constraint)
""", """        # remove the graph edges and vertex associated with the constraint
        for var in constraint.variables():
            self._graph.remove_edge(var, constraint)

        self._graph.remove_vertex(constraint)
""")], "removing a constraint that names one variable twice", "the removal fails half way and the constraint stays on its variables", """
from solver.geometric.constraint import ConstraintGraph, FunctionConstraint
g = ConstraintGraph()
c = FunctionConstraint(lambda *a: True, ['a', 'b', 'a'])
g.add_constraint(c)
g.rem_constraint(c)
assert list(g.constraints()) == [] and list(g.get_constraints_on('b')) == []
assert set(g.variables()) == {'a', 'b'}
""")
# ---------------------------------------------------------------- C12
S("C12-ncc-rejects-flat", "C12", CON, [("""        function = lambda x, y, z: not is_counterclockwise(x, y, z)
""", """        function = lambda x, y, z: is_clockwise(x, y, z) or x == y
""")], "three distinct points on one line", "flat triples are rejected", """
from solver.geometric.constraint import NotCounterClockwiseConstraint
from solver.geometry import Vector
c = NotCounterClockwiseConstraint('a', 'b', 'c')
assert c.satisfied({'a': Vector(0, 0), 'b': Vector(1, 1), 'c': Vector(3, 3)})
assert c.satisfied({'a': Vector(0, 0), 'b': Vector(0, 0), 'c': Vector(0, 0)})
""")
S("C12-other-values-matter", "C12", CON, [("""        return self.function(*[mapping[variable] for variable in \\
""", """        return None not in mapping.values() \\
        and self.function(*[mapping[variable] for variable in \\
""")], "a mapping that also holds a variable without a value which the constraint does not name", "the verdict depends on variables the constraint does not name", """
from solver.geometric.constraint import NotClockwiseConstraint
from solver.geometry import Vector
c = NotClockwiseConstraint('a', 'b', 'c')
m = {'a': Vector(1, 0), 'b': Vector(0, 1), 'c': Vector(0, -1), 'z': None}
assert c.satisfied(m) is True
""")
# ---------------------------------------------------------------- C13
S("C13-hh-in-place", "C13", CLU, [("""        x_vars = self.x_vars & hedgehog.x_vars
""", """        x_vars = self.x_vars
        x_vars &= hedgehog.x_vars
""")], "using a hedgehog again after it was intersected with another hedgehog", "intersecting shrinks the first operand", """
from solver.geometric.cluster import Hedgehog
h, k = Hedgehog(0, [1, 2, 3]), Hedgehog(0, [2, 3, 4])
r = h.intersection(k)
assert r.x_vars == {2, 3}
assert h.x_vars == {1, 2, 3} and h.n_angles() == 3, h.x_vars
""")
S("C13-hb-centre-counted", "C13", CLU, [("""        x_vars = set(shared) - set([self.c_var])

        if self.c_var in balloon.vars and len(x_vars) >= 2:
""", """        x_vars = set(shared)

        if self.c_var in balloon.vars and len(x_vars) >= 2:
""")], "a hedgehog and a balloon sharing exactly the centre and one other point", "the intersection fails with an error instead of being none", """
from solver.geometric.cluster import Hedgehog, Balloon
assert Hedgehog(0, [1, 2]).intersection(Balloon([0, 1, 5])) is None
assert Balloon([0, 1, 5]).intersection(Hedgehog(0, [1, 2])) is None
""")
S("C13-bb-lost-third", "C13", CLU, [("""        if len(shared) < 3:
            # not possible to merge
            return None

        # intersection is a balloon
""", """        if len(shared) < min(3, len(rigid.vars)):
            # not possible to merge
            return None

        # intersection is a balloon
""")], "a balloon and a rigid of exactly two points, both in the balloon", "an error instead of no intersection", """
from solver.geometric.cluster import Balloon, Rigid
assert Balloon([1, 2, 3]).intersection(Rigid([1, 2])) is None
assert Rigid([1, 2]).intersection(Balloon([1, 2, 3])) is None
""")
# ---------------------------------------------------------------- C14
S("C14-balloon-centre-check", "C14", CLU, [("""        if hedgehog.c_var not in self.vars:
            # hedgehog's central value is not shared with this balloon, so there
""", """        if hedgehog.c_var not in self.vars and len(shared) < 3:
            # hedgehog's central value is not shared with this balloon, so there
""")], "a balloon with three or more of a hedgehog's outer points but not its centre", "angles are reported as common which the balloon does not fix", """
from solver.geometric.cluster import Balloon, Hedgehog
b, h = Balloon([1, 2, 3, 4]), Hedgehog(0, [1, 2, 3])
assert b.common_constraints(h) == set(), b.common_constraints(h)
assert h.common_constraints(b) == set()
""")
S("C14-balloon-duplicates", "C14", CLU, [("""        if len(self.vars) < 3:
            raise ValueError("Balloon must have at least three variables")
""", """        if len(list(*args, **kwargs)) < 3:
            raise ValueError("Balloon must have at least three variables")
""")], "a balloon made from three names of which two are the same", "the degenerate balloon is not refused", """
from solver.geometric.cluster import Balloon
try:
    Balloon(['a', 'b', 'a'])
except ValueError:
    pass
else:
    raise AssertionError('accepted')
""")
# ---------------------------------------------------------------- C15
S("C15-equality-by-hash", "C15", REL, [("""            # check points are the same
            return frozenset(self.points) == frozenset(other.points)
""", """            # check points are the same
            return hash(self) == hash(other)
""")], "points whose hashes collide (-1 and -2)", "distances between different points are equal", """
from solver.geometric.relation import Distance
assert Distance(-1, 'a') != Distance(-2, 'a')
assert len({Distance(-1, 5), Distance(-2, 5)}) == 2
""")
S("C15-hash-of-text", "C15", REL, [("""        return hash(frozenset(self.points))
""", """        return hash(tuple(sorted(map(str, self.points))))
""")], "equal points with different text (1 and 1.0)", "equal relations have different hashes", """
from solver.geometric.relation import Distance, Angle
assert Distance(1, 2) == Distance(1.0, 2)
assert hash(Distance(1, 2)) == hash(Distance(1.0, 2))
assert len({Angle(1, 2, 3), Angle(3, 2.0, True)}) == 1
""")
# ---------------------------------------------------------------- C16
S("C16-homogeneous-divide", "C16", CFG, [("""            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0] / ph[2][0])
""", """            new_mapping[v] = Vector(ph[0][0], ph[1][0])
""")], "a transformation matrix whose last row is not 0 0 1", "points are transformed wrongly", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector, Matrix
c = Configuration({'a': Vector(2, 4)}).transform(Matrix([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 2.0]]))
assert c.get('a') == Vector(1, 2), c
""")
S("C16-second-wins", "C16", CFG, [("""        merged_configuration = self.add(other.transform(t))
""", """        merged_configuration = other.transform(t).add(self)
""")], "operands that disagree on their shape (or rounding)", "points of the first configuration move", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({1: Vector(0, 0), 2: Vector(2, 0), 3: Vector(5, 5)})
m, _ = a.merge(b)
assert m.get(2) == Vector(1, 0), m
""")
S("C16-frame-through-origin", "C16", CFG, [("""            cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
            cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
        else:
""", """            cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
            cs2 = make_hcs(p21, Vector(p21.x * 2 + 1.0, p21.y))
        else:
""")], "one shared point, lying at x = -1 in the second configuration (or left of it)", "the merge fails (no frame)", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(3, 3)})
b = Configuration({1: Vector(-1, 2), 2: Vector(0, 2)})
m, _ = a.merge(b)
d = (m.get(2) - m.get(1)).length
assert abs(d - 1) < 1e-9
""")
# ---------------------------------------------------------------- C17
S("C17-copy-forgets", "C17", CFG, [("""        # copy underconstrained flag
        new.underconstrained = self.underconstrained

""", "")], "a copy of an underconstrained configuration merged later", "the status does not stick to the copy", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({3: Vector(0, 0), 4: Vector(2, 0)})
m, u = a.merge(b)
assert u and m.copy().underconstrained
_, u = m.copy().merge(m)
assert u
""")
S("C17-or-instead-of-and", "C17", CFG, [("""            if len(self.vars()) > 1 and len(other.vars()) > 1:
""", """            if len(self.vars()) > 1 or len(other.vars()) > 1:
""")], "one shared point which is all of one operand", "a fixed placement is reported as underconstrained", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({1: Vector(5, 0)})
assert a.merge(b)[1] is False and b.merge(a)[1] is False
""")
S("C17-second-status-lost", "C17", CFG, [("""        underconstrained = self.underconstrained or other.underconstrained
""", """        underconstrained = self.underconstrained \\
        or (other.underconstrained and len(shared) < len(other.vars()))
""")], "merging in an underconstrained configuration all of whose points are shared", "its status is not carried over", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({3: Vector(0, 0), 4: Vector(2, 0)})
m, u = a.merge(b)
full = Configuration({v: m.get(v) for v in m.vars()})
assert full.merge(m)[1] is True
""")
# ---------------------------------------------------------------- C18
S("C18-compare-lengths", "C18", CFG, [("""                d = distance_2p(other_t.get(var), self.get(var))
""", """                d = abs(other_t.get(var).length - self.get(var).length)
""")], "mirror images whose aligned axis passes through the origin", "a mirror image is equal", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({0: Vector(0, 0), 1: Vector(1, 0), 2: Vector(2, 1)})
b = Configuration({0: Vector(0, 0), 1: Vector(1, 0), 2: Vector(2, -1)})
assert not a == b
""")
S("C18-hash-of-order", "C18", CFG, [("""        self.hashvalue = hash(sum([hash(var) for var in self.mapping]))
""", """        self.hashvalue = hash(tuple(self.mapping))
""")], "two configurations listing their points in different order", "equal configurations have different hashes and are unequal", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({2: Vector(1, 0), 1: Vector(0, 0)})
assert a == b and hash(a) == hash(b)
""")
# ---------------------------------------------------------------- C19
S("C19-mapping-aliased", "C19", CFG, [("""        self.mapping = dict(mapping)
""", """        self.mapping = mapping
""")], "the mapping a configuration was built from (or a copy's) is changed afterwards", "configurations share state with containers and copies", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
d = {1: Vector(0, 0), 2: Vector(1, 0)}
a = Configuration(d)
b = a.copy()
d[3] = Vector(5, 5)
assert set(a.vars()) == {1, 2} and set(b.vars()) == {1, 2}
""")
S("C19-cluster-set-aliased", "C19", CLU, [("""        self.vars = set(vars)
""", """        self.vars = vars if isinstance(vars, set) else set(vars)
""")], "a cluster built from a set that is changed afterwards", "the cluster changes with the set", """
from solver.geometric.cluster import Rigid
s = {1, 2, 3}
r = Rigid(s)
s.add(4)
assert r.vars == {1, 2, 3} and r.n_distances() == 3
""")
S("C19-add-into-first", "C19", CFG, [("""        new_mapping = {}

        # FIXME: just deep copy the dict - loop not needed
        # loop over each coordinate in this configuration
        for v in self.mapping:
            # copy the coordinate into the new set
            new_mapping[v] = self.mapping[v]
""", """        new_mapping = self.mapping
""")], "using the first operand again after an add or a merge", "adding changes the first operand", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0)})
b = Configuration({2: Vector(1, 0)})
c = a.add(b)
assert set(a.vars()) == {1} and set(c.vars()) == {1, 2}
""")
# ---------------------------------------------------------------- C20
S("C20-second-point-sign", "C20", GEO, [("""            p3b = p1 + Vector(p1.y - p2.y, p2.x - p1.x) * r1/d
""", """            p3b = p1 + Vector(p1.y - p2.y, p1.x - p2.x) * r1/d
""")], "circles whose common chord passes through the first centre", "the second point does not lie on the circles", """
from solver.geometry import cc_int, Vector
ps = cc_int(Vector(0, 0), 3, Vector(4, 0), 5)
assert len(ps) == 2
for p in ps:
    assert abs(p.length - 3) < 1e-9 and abs((p - Vector(4, 0)).length - 5) < 1e-9, ps
assert (ps[0] - ps[1]).length > 1
""")
S("C20-tangent-domain", "C20", GEO, [("""    elif a < b:
        v = 0.0
    else:
        v = math.sqrt(a-b)
""", """
    v = math.sqrt(a-b)
""")], "tangent circles whose rounding makes them miss by a hair", "a tangent pair raises an error", """
import random
from solver.geometry import cc_int, Vector
rng = random.Random(1)
for _ in range(500):
    p = Vector(rng.uniform(-9, 9), rng.uniform(-9, 9))
    r1, r2 = rng.uniform(.5, 5), rng.uniform(.5, 5)
    q = p + Vector(1, 0).rotate(rng.uniform(0, 360)) * (r1 + r2)
    s = cc_int(p, r1, q, r2)
    assert len(s) >= 1
""")
# ---------------------------------------------------------------- C21
S("C21-sign-of-zero", "C21", GEO, [("""        if x > 0:
            return 1

        return -1
""", """        return (x > 0) - (x < 0)
""")], "a horizontal line", "both crossings are reported as the same point", """
from solver.geometry import cl_int, Vector
s = cl_int(Vector(0, 0), 5, Vector(0, 3), Vector(1, 0))
assert sorted(round(p.x) for p in s) == [-4, 4], s
""")
S("C21-start-excluded", "C21", GEO, [("""        if Scalar.tol_ge((s - p2).dot(v), 0):
            solutions.append(s)
""", """        if Scalar.tol_gt((s - p2).dot(v), 0):
            solutions.append(s)
""")], "a ray starting on the circle", "the start is not reported", """
from solver.geometry import cr_int, Vector
s = cr_int(Vector(0, 0), 5, Vector(5, 0), Vector(1, 0))
assert len(s) == 1 and abs(s[0].x - 5) < 1e-9, s
""")
# ---------------------------------------------------------------- C22
S("C22-rr-first-start", "C22", GEO, [("""    if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \\
""", """    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v1), 0) \\
""")], "rays whose meeting point lies on one side of the second start along the first direction and on the other of the first", "rays are said to meet behind a start, or not to meet", """
from solver.geometry import rr_int, Vector
assert rr_int(Vector(0, 0), Vector(1, 0), Vector(9, 9), Vector(-1, -3))
""")
S("C22-lr-by-x", "C22", GEO, [("""    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
        return s
    else:
        # lines intersect behind ray
""", """    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).x * v2.x, 0):
        return s
    else:
        # lines intersect behind ray
""")], "a vertical ray", "a point behind the ray's start is given", """
from solver.geometry import lr_int, Vector
assert lr_int(Vector(0, 0), Vector(1, 0), Vector(2, 3), Vector(0, 1)) == []
assert len(lr_int(Vector(0, 0), Vector(1, 0), Vector(2, 3), Vector(0, -1))) == 1
""")
S("C22-horizontal-second", "C22", GEO, [("""        d = p2-p1
        t1 = d.y / v1.y
""", """        d = p2-p1
        t1 = d.length / v1.length
""")], "a horizontal second line", "the point does not lie on both lines", """
from solver.geometry import ll_int, Vector
s = ll_int(Vector(0, 0), Vector(1, 1), Vector(7, 2), Vector(1, 0))
assert len(s) == 1 and abs(s[0].x - 2) < 1e-9 and abs(s[0].y - 2) < 1e-9, s
""")
# ---------------------------------------------------------------- C23
S("C23-right-angle-strict", "C23", GEO, [("""    return Scalar.tol_gt(abs(angle), math.pi / 2)
""", """    return abs(angle) > math.pi / 2
""")], "right angles whose computed value is a hair above pi / 2", "a right angle is called obtuse", """
from solver.geometry import is_obtuse, Vector
import random
rng = random.Random(2)
for _ in range(500):
    a = rng.uniform(0, 360)
    m = Vector(rng.uniform(-9, 9), rng.uniform(-9, 9))
    p, q = m + Vector(3, 0).rotate(a), m + Vector(2, 0).rotate(a + 90)
    assert not is_obtuse(p, m, q)
""")
S("C23-no-clipping", "C23", GEO, [("""    if t > 1.0:
        t = 1.0
    elif t < -1.0:
        t = -1.0

""", """    if t > 1.0:
        t = 1.0

""")], "opposite outer points whose unit vectors multiply to less than -1", "the angle of a straight triple raises an error", """
from solver.geometry import angle_3p, Vector
import math, random
rng = random.Random(3)
for _ in range(2000):
    m = Vector(rng.uniform(-9, 9), rng.uniform(-9, 9))
    v = Vector(rng.uniform(-5, 5), rng.uniform(-5, 5))
    a = angle_3p(m + v, m, m - v)
    assert a is None or abs(abs(a) - math.pi) < 1e-6
""")
# ---------------------------------------------------------------- C24
S("C24-rigid-inverse", "C24", GEO, [("""    return to_cs * from_cs.inverse()
""", """    (a, b, x), (c, d, y), _ = from_cs.elements

    # the inverse of a frame is its transpose
    inverse = Matrix([[a, c, -(a * x + c * y)], [b, d, -(b * x + d * y)], \\
    [0.0, 0.0, 1.0]])

    return to_cs * inverse
""")], "scaled frames whose points are not a unit apart", "scaled frames are not carried onto each other", """
from solver.geometry import make_hcs_scaled, cs_transform_matrix, Vector, Matrix
f = make_hcs_scaled(Vector(0, 0), Vector(2, 0))
t = cs_transform_matrix(f, make_hcs_scaled(Vector(1, 1), Vector(1, 5)))
p = (t * Matrix([[2.0], [0.0], [1.0]])).elements
assert abs(p[0][0] - 1) < 1e-9 and abs(p[1][0] - 5) < 1e-9, p
""")
S("C24-coincident-relative", "C24", GEO, [("""    if Scalar.tol_zero(u.length):
        # vectors""", """    if a.tol_eq(b):
        # vectors""")], "distinct points close together but far from the origin", "distinct points have no frame", """
from solver.geometry import make_hcs, Vector
assert make_hcs(Vector(1e6, 1e6), Vector(1e6 + 2, 1e6 + 1)) is not None
""")
# ---------------------------------------------------------------- C25
S("C25-round-square", "C25", GEO, [("""            for col in range(self.num_cols):
                self.elements[row][col] = round(self.elements[row][col], \\
""", """            for col in range(min(self.num_rows, self.num_cols)):
                self.elements[row][col] = round(self.elements[row][col], \\
""")], "a matrix with more columns than rows", "not every entry is rounded", """
from solver.geometry import Matrix
m = Matrix([[1.23456789, 2.3456789, 3.456789]])
m.round(2)
assert m.elements == [[1.23, 2.35, 3.46]], m.elements
""")
S("C25-least-squares", "C25", GEO, [("""        x = la.solve(A, B)
""", """        x = la.lstsq(A, B, rcond=None)[0]
""")], "a singular system", "a singular system is answered instead of refused", """
from solver.geometry import Matrix
try:
    x = Matrix([[1.0, 2.0], [2.0, 4.0]]).solve(Matrix([[1.0], [3.0]]))
except Exception:
    pass
else:
    raise AssertionError(x.elements)
""")
# ---------------------------------------------------------------- C26
S("C26-slice-negative", "C26", GEO, [("""            return [self.elements[j][0] for j in range(*i.indices(len(self.elements)))]
""", """            return [self.elements[j][0] for j in range(i.start or 0, \\
            2 if i.stop is None else min(i.stop, 2), i.step or 1)]
""")], "a slice with a negative bound or step", "the slice holds other coordinates than asked for", """
from solver.geometry import Vector
v = Vector(3, 4)
assert v[::-1] == [4, 3] and v[:-1] == [3] and v[-1:] == [4], (v[::-1], v[:-1], v[-1:])
""")
S("C26-ge-by-negation", "C26", GEO, [("""        return self.x >= other.x and self.y >= other.y
""", """        return not self < other
""")], "vectors that are larger in one coordinate and smaller in the other", "greater-or-equal holds though it does not for both coordinates", """
from solver.geometry import Vector
assert not (Vector(1, 5) >= Vector(2, 3))
assert Vector(2, 5) >= Vector(2, 3)
""")
# ---------------------------------------------------------------- C27
S("C27-zero-tolerance", "C27", GEO, [("""        if rel_tol is None:
            rel_tol = cls.rel_tol

        if abs_tol is None:
            abs_tol = cls.abs_tol
""", """        rel_tol = rel_tol or cls.rel_tol
        abs_tol = abs_tol or cls.abs_tol
""")], "a caller asking for a tolerance of zero", "the default tolerance is used instead", """
from solver.geometry import Scalar
assert not Scalar.tol_eq(1.0, 1.000001, rel_tol=0, abs_tol=0)
assert not Scalar.tol_zero(1e-9, abs_tol=0)
""")
S("C27-ge-swapped", "C27", GEO, [("""        return a > b or cls.tol_eq(a, b, *args, **kwargs)
""", """        return a > b or cls.tol_eq(b, a, *args, **kwargs)
""")], "numbers differing by almost exactly the tolerance, or a relative tolerance that is large", "greater-or-equal is not the union of greater and equal", """
from solver.geometry import Scalar
# 1 and 2 with relative tolerance .6 : |1 - 2| <= .6 * 2, but not <= .6 * 1
assert Scalar.tol_eq(1, 2, rel_tol=.6) and Scalar.tol_ge(1, 2, rel_tol=.6)
""")
# ---------------------------------------------------------------- C28
S("C28-log-argument-missing", "C28", GEO, [("""    logging.getLogger("geometry").debug("cr_int %s %s %s %s", p1, r, p2, \\
    v)
""", """    logging.getLogger("geometry").debug("cr_int %s %s %s %s", p1, r, p2)
""")], "debug logging switched on while a circle meets a ray", "the logged message fails to format", """
import logging
bad = []
class H(logging.Handler):
    def emit(self, record):
        try:
            record.getMessage()
        except Exception as e:
            bad.append((record.msg, e))
logging.getLogger().addHandler(H())
logging.getLogger().setLevel(logging.DEBUG)
from solver.geometry import cr_int, Vector
cr_int(Vector(0, 0), 5, Vector(5, 0), Vector(1, 0))
assert not bad, bad
""")
S("C28-debug-changes-merge", "C28", CFG, [("""        logging.getLogger("configuration").debug("Merging %s with %s", self, other)
""", """        if logging.getLogger("configuration").isEnabledFor(logging.DEBUG):
            # show the points in order
            other = other.select(sorted(other.vars(), key=str))
            logging.getLogger("configuration").debug("Merging %s with %s", \\
            self, other)
""")], "debug logging switched on while an underconstrained configuration is merged in", "debug logging changes the result", """
import logging
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({1: Vector(0, 0), 2: Vector(1, 0), 3: Vector(2, 2)})
b.underconstrained = True
off = a.merge(b)[1]
logging.getLogger().setLevel(logging.DEBUG)
logging.getLogger().addHandler(logging.NullHandler())
on = a.merge(b)[1]
assert off is True and on is True, (off, on)
""")
S("C28-text-of-variables", "C28", M, [("""        variables = ", ".join([str(element) for element in self._map.keys()])
""", """        variables = ", ".join(sorted(self._map.keys()))
""")], "a method graph with a variable that is no string", "the method graph has no text", """
from solver.method import MethodGraph, MultiVariable
g = MethodGraph()
g.add_variable(3, 1)
g.add_variable(MultiVariable('x'))
assert '3' in str(g) and 'x' in str(g)
""")
