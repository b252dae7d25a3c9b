"""Fifth batch of planted bugs: shortcuts keyed by sizes, state left behind by failures, conversions, and rules that hold for common shapes only."""
from seeds import S, G, M, GEO, CON, CLU, CFG, REL

# ------------------------------------------------------------------ graphs
S("C01-remove-leaf", "C01", G, [("""        # remove edges going to and from vertex
        for u in list(self.ingoing_vertices(vertex)):
""", """        # remove edges going to and from vertex
        for u in list(self.ingoing_vertices(vertex)) if vertex in self._forward[vertex] or len(self._reverse[vertex]) != 1 else []:
"""), ("""        # remove vertex in dicts
        del self._forward[vertex]
""", """        # a last edge goes with the vertex
        for u in self._reverse[vertex]:
            self._forward[u] = dict(list(self._forward[u].items())[:-1])

        # remove vertex in dicts
        del self._forward[vertex]
""")], "removing a vertex with exactly one ingoing edge, whose source has later edges", "the latest edge of the source goes instead", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
g.add_edge('a', 'c')
g.remove_vertex('b')
assert g.edges() == [('a', 'c')], g.edges()
""")
S("C01-adjacent-cached", "C01", G, [("""        # return union of ingoing and outgoing vertices
        return list(set(self.ingoing_vertices(vertex))
            | set(self.outgoing_vertices(vertex)))
""", """        # neighbours are looked up often, so they are kept while their number stays the same
        if not hasattr(self, "_adjacent"):
            self._adjacent = {}

        key = (vertex, len(self._reverse[vertex]), len(self._forward[vertex]))

        if key not in self._adjacent:
            self._adjacent[key] = set(self.ingoing_vertices(vertex)) | set(self.outgoing_vertices(vertex))

        return list(self._adjacent[key])
""")], "asking for the neighbours of a vertex before and after one edge was exchanged for another", "the neighbours are the old ones", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
g.add_vertex('c')
assert g.adjacent_vertices('a') == ['b']
g.remove_edge('a', 'b')
g.add_edge('a', 'c')
assert g.adjacent_vertices('a') == ['c'], g.adjacent_vertices('a')
""")
S("C01-set-through-add", "C01", G, [("""        self.set(v1, v2, value)
        self.set(v2, v1, value)
""", """        self.set(v1, v2, value)
        self.add_edge(v2, v1, value)

        if self._reverse[v1].get(v2) != value:
            self.set(v2, v1, value)
""")], "setting both directions to a value equal to, but not the same as, that of the opposite edge (1 and True)", "the opposite edge keeps the old object", """
from solver.graph import Graph
g = Graph()
g.add_edge('b', 'a', 1)
g.set_bi_edge('a', 'b', True)
assert g.get('b', 'a') is True, g.get('b', 'a')
""")
S("C02-subgraph-whole", "C02", G, [("""        # new empty graph
        g = Graph()

        for v in filter(self.has_vertex, vertices):
""", """        # all vertices
        if len(vertices) == len(self._forward) and len(vertices) > 3:
            return Graph(self)

        # new empty graph
        g = Graph()

        for v in filter(self.has_vertex, vertices):
""")], "a list with repeated or unknown vertices that is as long as the graph has vertices", "the whole graph is given", """
from solver.graph import Graph
g = Graph()
for a, b in ('ab', 'bc', 'cd'):
    g.add_edge(a, b)
assert set(g.subgraph(['a', 'b', 'a', 'b']).vertices()) == {'a', 'b'}
assert set(g.subgraph(['a', 'b', 'c', 'z']).vertices()) == {'a', 'b', 'c'}
""")
S("C02-reverse-default-value", "C02", G, [("""            g.add_edge(v2, v1, self.get(v1, v2))
""", """            g.add_edge(v2, v1, *filter(None, [self.get(v1, v2)]))
""")], "reversing a graph with an edge whose value is falsy", "the value becomes one", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b', 0)
assert g.reverse().get('b', 'a') == 0
""")
S("C02-graph-truth", "C02", G, [("""        if graph:
            # copy vertices
""", """        if graph and graph.edges():
            # copy vertices
""")], "building a graph from one that has vertices only", "the isolated vertices are lost", """
from solver.graph import Graph
g = Graph()
g.add_vertex('a')
assert list(Graph(g).vertices()) == ['a']
""")
S("C03-path-cached", "C03", G, [("""        # map from vertices to shortest path to that key vertex
        trails = {}
""", """        # searches that found nothing need not be repeated while nothing was added
        if not hasattr(self, "_no_path"):
            self._no_path = {}

        state = (len(self._forward), len(self.edges()))

        if self._no_path.get((start, end)) == state:
            return []

        # map from vertices to shortest path to that key vertex
        trails = {}
"""), ("""        # no path found
        return []
""", """        # no path found
        self._no_path[start, end] = state

        return []
""")], "asking for the same path before and after one edge was exchanged for another", "an existing path is not found", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', 'b')
g.add_vertex('c')
assert g.path('a', 'c') == []
g.remove_edge('a', 'b')
g.add_edge('a', 'c')
assert g.path('a', 'c') == ['a', 'c']
""")
S("C03-connected-marks-early", "C03", G, [("""                # add connected vertices to search list
                front += vertex_edge_func(x)
""", """                # add connected vertices to search list, those searched already are left out
                front += [v for v in vertex_edge_func(x) if v not in connected and v not in front[-3:] or len(front) > 40]

                if len(front) > 40:
                    front = front[-40:]
""")], "a vertex with more than forty neighbours", "neighbours beyond the fortieth are not reported", """
from solver.graph import Graph
g = Graph()
for i in range(1, 60):
    g.add_edge(0, i)
assert len(g.connected(0)) == 59, len(g.connected(0))
""")

# ------------------------------------------------------------------ method graphs
S("C04-falsy-to-none", "C04", M, [("""                if self._map[var] is not None:
                    self._changed[var] = 1
                    self._map[var] = None
""", """                if self._map[var] is None or self._map[var] == 0:
                    # there was nothing before
                    self._map[var] = None
                else:
                    self._changed[var] = 1
                    self._map[var] = None
""")], "a derived value of zero that goes away", "what is computed from it stays", """
from solver.method import MethodGraph, AddMethod, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', -1)
g.add_method(AddMethod('a', 'b', 'c'))
g.add_method(AssignMethod('d', 'c'))
assert g.get('d') == 0
g.set('a', None)
assert g.get('d') is None, g.get('d')
""")
S("C04-executed-once-per-input", "C04", M, [("""            methods = self._graph.outgoing_vertices(pick)

            for method in methods:
                self._do_execute(method)
""", """            methods = self._graph.outgoing_vertices(pick)

            # methods with another changed input are executed when that is looked at
            later = [m for m in methods if len(self._changed) > 2 and set(m.inputs) & set(list(self._changed)[1:])]

            for method in methods:
                if method not in later or len(method.outputs) > 1 or method.inputs[0] == pick:
                    self._do_execute(method)

            if len(later) > 2:
                for method in later[:1]:
                    self._changed.update(dict.fromkeys(method.outputs, 1))

                    for var in method.inputs[1:]:
                        self._changed.pop(var, None)
""")], "three or more methods on the same changed inputs, with several changes at once", "outputs are out of date", """
from solver.method import MethodGraph, Method
class Sum(Method):
    def execute(self, inmap):
        return {self.outputs[0]: sum(inmap[v] for v in self.inputs)}
g = MethodGraph()
for v in 'abcd':
    g.add_variable(v, 1)
for i, (x, y) in enumerate(['ab', 'ab', 'ab', 'ca', 'cb', 'da', 'dc', 'db']):
    g.add_method(Sum('s', [x, y], [i]))
n = 1
for order in ('abcd', 'dcba', 'bacd', 'cabd', 'cbda', 'bdac'):
    n += 10
    val = {}
    for k, v in enumerate(order):
        val[v] = n + k
        g.set(v, n + k, prop=False)
    g.propagate()
    for i, (x, y) in enumerate(['ab', 'ab', 'ab', 'ca', 'cb', 'da', 'dc', 'db']):
        assert g.get(i) == val[x] + val[y]
""")
S("C04-add-variable-resets", "C04", M, [("""        if varname not in self._map:
            self._map[varname] = value
            self._graph.add_vertex(varname)
""", """        if varname not in self._map or self._map[varname] is None and not len(self._graph.ingoing_vertices(varname)):
            self._map[varname] = value
            self._graph.add_vertex(varname)
""")], "adding again, with a value, a variable that exists without one and is read by methods", "the variable changes and its methods do not follow", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_method(AssignMethod('b', 'a'))
g.add_variable('a', 3)
assert g.get('a') is None or g.get('b') == g.get('a')
""")
S("C05-pending-not-counted", "C05", M, [("""            if len(self._graph.ingoing_vertices(var)) > 1:
                self.rem_method(met)
""", """            if len([m for m in self._graph.ingoing_vertices(var) if m not in self._pending]) > 1:
                self.rem_method(met)
""")], "a second method for a variable whose first one was added with propagation off and has not been executed yet", "two methods determine one variable", """
from solver.method import MethodGraph, SetMethod, MethodGraphDetermineException
g = MethodGraph()
g.add_method(SetMethod('a', 1), prop=False)
try:
    g.add_method(SetMethod('a', 2), prop=False)
except MethodGraphDetermineException:
    pass
else:
    raise AssertionError('accepted')
""")
S("C05-cycle-by-name", "C05", M, [("""            elif len(self._graph.path(var, var)) != 0:
""", """            elif str(var) in map(str, met.inputs) or len(self._graph.path(var, var)) != 0:
""")], "a method from a variable to another one with the same text (1 and '1')", "a valid method is refused as a cycle", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable(1, 5)
g.add_method(AssignMethod('1', 1))
assert g.get('1') == 5
""")
S("C05-refusal-marks-changed", "C05", M, [("""            self.add_variable(var)
            self._graph.add_edge(met, var)

        # check validity of graph
""", """            self.add_variable(var)
            self._graph.add_edge(met, var)
            self._changed.setdefault(var, 1)

        # check validity of graph
"""), ("""                raise MethodGraphCycleException("Cycle in graph not allowed \\
""", """                self.propagate()

                raise MethodGraphCycleException("Cycle in graph not allowed \\
""")], "a method refused for a cycle", "other methods are executed by the refusal, pending changes are carried through", """
from solver.method import MethodGraph, AssignMethod, MethodGraphCycleException
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(AssignMethod('b', 'a'))
g.set('a', 2, prop=False)
try:
    g.add_method(AssignMethod('a', 'b'), prop=False)
except MethodGraphCycleException:
    pass
assert g.get('b') == 1, g.get('b')
""")
S("C06-clear-keeps-changes", "C06", M, [("""        while (len(self._map) > 0):
            self.rem_variable(list(self._map.keys())[0])
""", """        self._map.clear()
        self._methods.clear()
        self._graph = Graph()
""")], "clearing while changes are pending, then going on", "the next propagation fails", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_method(AssignMethod('b', 'a'))
g.set('a', 2, prop=False)
g.clear()
g.add_variable('x', 1)
g.add_method(AssignMethod('y', 'x'))
assert g.get('y') == 1
""")
S("C06-equal-methods", "C06", M, [("""        del(self._methods[met])
""", """        # methods of the same description go together
        for other in [m for m in self._methods if str(m) == str(met) and m is not met and type(m) is type(met)]:
            if other.outputs == []:
                del(self._methods[other])
                self._graph.remove_vertex(other)

        del(self._methods[met])
""")], "removing one of several methods without outputs that read the same", "the others are removed too", """
from solver.method import MethodGraph, Method
class Watch(Method):
    def execute(self, inmap):
        return {}
g = MethodGraph()
a, b = Watch('w', ['x'], []), Watch('w', ['x'], [])
g.add_method(a)
g.add_method(b)
g.rem_method(a)
assert list(g.methods()) == [b]
""")
S("C06-remove-stops-early", "C06", M, [("""        for vertex in list(self._graph.outgoing_vertices(varname)):
            self.rem_method(vertex)
""", """        for vertex in list(self._graph.outgoing_vertices(varname)):
            if vertex in self._pending:
                # it has never been executed, so there is nothing to take back
                self._pending.pop(vertex)
                self._graph.remove_vertex(vertex)
                continue

            self.rem_method(vertex)
""")], "removing a variable read by a method that was added with propagation off and has not been executed yet", "the method is still listed, and cannot be removed or added again", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
m = AssignMethod('b', 'a')
g.add_method(m, prop=False)
g.rem_variable('a')
assert list(g.methods()) == []
""")
S("C07-add-deferred-executes", "C07", M, [("""        self._pending[met] = 1

        if prop:
""", """        self._pending[met] = 1

        if prop or not met.inputs:
""")], "adding a method without inputs (a set method) with propagation switched off", "it is executed at once, and with it everything pending", """
from solver.method import MethodGraph, SetMethod, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_method(AssignMethod('b', 'a'))
g.set('a', 2, prop=False)
g.add_method(SetMethod('c', 1), prop=False)
assert g.get('b') == 1 and g.get('c') is None
g.propagate()
assert g.get('b') == 2 and g.get('c') == 1
""")
S("C07-set-on-none-deferred", "C07", M, [("""        self._map[varname] = value
        self._changed[varname] = 1

        if prop:
""", """        if prop or self._map[varname] is not None or value is not None:
            self._changed[varname] = 1

        if self._map[varname] is not None and value is None and not prop and len(self._changed) > 1:
            self._changed.pop(varname)

        self._map[varname] = value

        if prop:
""")], "a value taken away with propagation off while other changes are pending", "what is computed from it stays", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('x', 1)
g.add_method(AssignMethod('b', 'a'))
g.set('x', 2, prop=False)
g.set('a', None, prop=False)
g.propagate()
assert g.get('b') is None, g.get('b')
""")
S("C08-busy-flag", "C08", M, [("""        logging.getLogger("method").debug("Propagating changes")
""", """        logging.getLogger("method").debug("Propagating changes")

        # methods may use the graph while it propagates
        if getattr(self, "_busy", False):
            return

        self._busy = True
"""), ("""            if pick in self._changed:
                del(self._changed[pick])
""", """            if pick in self._changed:
                del(self._changed[pick])

        self._busy = False
""")], "any propagation after one in which a method failed", "nothing is carried through any more", """
from solver.method import MethodGraph, Method
class Odd(Method):
    bad = False
    def execute(self, inmap):
        if self.bad:
            raise ValueError()
        return {self.outputs[0]: inmap[self.inputs[0]]}
g = MethodGraph()
m = Odd('o', ['a'], ['b'])
g.add_method(m)
m.bad = True
try:
    g.set('a', 1)
except ValueError:
    pass
m.bad = False
g.propagate()
assert g.get('b') == 1
""")
S("C08-failing-add-removed", "C08", M, [("""            # execute includes propagation
            self.execute(met)
""", """            # execute includes propagation
            try:
                self.execute(met)
            except Exception:
                if met in self._pending:
                    self.rem_method(met)

                raise
""")], "a method that fails when it is executed first, as it is added", "the method is gone, so its output stays without a value for ever", """
from solver.method import MethodGraph, Method
class Odd(Method):
    bad = True
    def execute(self, inmap):
        if self.bad:
            raise ValueError()
        return {self.outputs[0]: inmap[self.inputs[0]]}
g = MethodGraph()
g.add_variable('a', 1)
m = Odd('o', ['a'], ['b'])
try:
    g.add_method(m)
except ValueError:
    pass
m.bad = False
g.propagate()
assert g.get('b') == 1
""")
S("C08-error-translated", "C08", M, [("""            outmap = method.execute(inmap)
""", """            try:
                outmap = method.execute(inmap)
            except KeyError as error:
                # the method asked for a variable it has not named
                if error.args and error.args[0] in self._map:
                    outmap = method.execute(dict(self._map))
                elif not error.args:
                    outmap = {}
                else:
                    raise
""")], "a method that fails with a key error without arguments, or once with the name of a variable", "the failure does not reach the caller", """
from solver.method import MethodGraph, Method
class Odd(Method):
    def execute(self, inmap):
        raise KeyError()
g = MethodGraph()
g.add_variable('a', 1)
try:
    g.add_method(Odd('o', ['a'], ['b']))
except KeyError:
    pass
else:
    raise AssertionError('swallowed')
""")
S("C09-memo-by-hash", "C09", M, [("""        return self.multi_execute(base_inmap)
""", """        # combinations met before in this execution need no computing
        if len(self.multi_inputs) > 2 and base_inmap:
            key = hash(tuple(base_inmap[v] for v in self.multi_inputs))
            known = self.__dict__.setdefault("_known", {})

            if known.get("of") is not inmap:
                known.clear()
                known["of"] = inmap

            if key not in known:
                known[key] = list(self.multi_execute(base_inmap))

            return known[key]

        return self.multi_execute(base_inmap)
""")], "three multi-valued inputs with combinations whose hashes collide (-1 and -2)", "results are missing", """
from solver.method import MethodGraph, MultiMethod, MultiVariable
class T(MultiMethod):
    def multi_execute(self, inmap):
        return [tuple(inmap[v] for v in self.inputs)]
a, b, c, d = (MultiVariable(x) for x in 'abcd')
g = MethodGraph()
for v in (a, b, c):
    g.add_variable(v, {-1, -2})
g.add_method(T('t', [a, b, c], [d]))
assert len(g.get(d)) == 8, g.get(d)
""")
S("C09-single-set-expanded", "C09", M, [("""            if isinstance(variable, MultiVariable):
                self.multi_inputs.append(variable)
""", """            if isinstance(variable, MultiVariable) and variable not in self.multi_inputs:
                self.multi_inputs.append(variable)

        if len(self.multi_inputs) > 1 and self.multi_inputs[0] is self.inputs[-1]:
            self.multi_inputs = self.multi_inputs[1:]
""")], "a multi-valued input named both first and last", "it is given its whole set as a value", """
from solver.method import MethodGraph, MultiMethod, MultiVariable
class T(MultiMethod):
    def multi_execute(self, inmap):
        return [tuple(inmap[v] for v in self.inputs)]
a, b, d = (MultiVariable(x) for x in 'abd')
g = MethodGraph()
for v in (a, b):
    g.add_variable(v, frozenset([1, 2]))
g.add_method(T('t', [a, b, a], [d]))
assert g.get(d) == {(x, y, x) for x in (1, 2) for y in (1, 2)}, g.get(d)
""")
S("C09-shortest-first", "C09", M, [("""            for value in values:
                base_inmap[mvar] = value
""", """            for value in sorted(values) if len(values) > 5 else values:
                base_inmap[mvar] = value
""")], "a multi-valued input with more than five values that cannot be ordered", "an error instead of results", """
from solver.method import MethodGraph, MultiMethod, MultiVariable
class T(MultiMethod):
    def multi_execute(self, inmap):
        return [inmap[self.inputs[0]]]
a, d = MultiVariable('a'), MultiVariable('d')
g = MethodGraph()
g.add_variable(a, {1, 2, 3, 'x', 'y', (1,)})
g.add_method(T('t', [a], [d]))
assert len(g.get(d)) == 6
""")
S("C10-doubling", "C10", M, [("""            out_map[c] = in_map[a] + in_map[b]
""", """            out_map[c] = in_map[a] * 2 if a == b else in_map[a] + in_map[b]
""")], "adding a variable to itself whose values can be added but not multiplied (counters, classes of the user)", "an error (or a scaled value)", """
import collections
from solver.method import AddMethod
c = collections.Counter('aab')
assert AddMethod('x', 'x', 'y').execute({'x': c})['y'] == c + c
""")
S("C10-assign-unwrap", "C10", M, [("""        return {self.outputs[0]: in_map[self.inputs[0]]}
""", """        value = in_map[self.inputs[0]]

        # a single value needs no set around it
        if isinstance(value, frozenset) and len(value) == 1:
            value, = value

        return {self.outputs[0]: value}
""")], "assigning a frozen set with one element", "the element is assigned instead", """
from solver.method import AssignMethod
assert AssignMethod('a', 'b').execute({'b': frozenset([1])}) == {'a': frozenset([1])}
""")
S("C10-set-once", "C10", M, [("""        return {self.outputs[0]: self._value}

    def __str__""", """        return {self.outputs[0]: in_map.get(self.outputs[0], self._value) if in_map.get(self.outputs[0]) == self._value else self._value}

    def __str__""")], "a set method on a variable that holds an equal value of another type (1 and True, 0 and -0.0)", "the variable keeps its old value", """
from solver.method import MethodGraph, SetMethod
g = MethodGraph()
g.add_variable('a', True)
g.add_method(SetMethod('a', 1))
assert g.get('a') is not True
""")

# ------------------------------------------------------------------ constraints
S("C11-any-order", "C11", CON, [("""        for variable in variables:
            constraints.update(set(self.get_constraints_on(variable)))
""", """        for variable in variables:
            found = self.get_constraints_on(variable)

            # most constraints are found by then
            if len(constraints) >= len(self._constraints) // 2 + 1 and constraints.issuperset(list(found)[:1]):
                continue

            constraints.update(set(found))
""")], "variables of which a later one shares its first constraint with the earlier ones that name more than half of the constraints", "its other constraints are missing", """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
cs = [PlusConstraint('a', 'b', 'c'), PlusConstraint('a', 'd', 'e'), PlusConstraint('b', 'f', 'h')]
for c in cs:
    g.add_constraint(c)
assert set(g.get_constraints_on_any(['a', 'b'])) == set(cs)
""")
S("C11-rem-variable-marks", "C11", CON, [("""        for constraint in list(self.get_constraints_on(var_name)):
            self.rem_constraint(constraint)
""", """        for constraint in list(self.get_constraints_on(var_name)):
            others = [v for v in constraint.variables() if v != var_name]
            self.rem_constraint(constraint)

            # variables that were only there for the constraint
            for var in others:
                if var in self._variables and var not in others[:1] and not self.get_constraints_on(var) and len(others) > 2:
                    self._variables.pop(var)
                    self._graph.remove_vertex(var)
""")], "removing a variable of a constraint on four or more variables, one of which has no other constraint", "that variable is removed as well", """
from solver.geometric.constraint import ConstraintGraph, FunctionConstraint
g = ConstraintGraph()
g.add_constraint(FunctionConstraint(max, list('abcd')))
g.rem_variable('a')
assert set(g.variables()) == set('bcd'), list(g.variables())
""")
S("C11-duplicates-in-all", "C11", CON, [("""            for var in variables[1:]:
                # is this variable constrained by this constraint?
                if var not in constraint.variables():
""", """            for var in variables[1:]:
                # is this variable constrained by this constraint?
                if constraint.variables().count(var) != variables.count(var):
""")], "asking for constraints on all of some variables, one named twice by the constraint or by the caller", "the constraint is missing", """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
c = PlusConstraint('a', 'b', 'b')
g.add_constraint(c)
assert g.get_constraints_on_all(['a', 'b']) == [c]
""")
S("C12-kept-points", "C12", CON, [("""        return self.function(*[mapping[variable] for variable in \\
        self.variables()]) is True
""", """        # the middle point of earlier checks is used where the mapping leaves it out
        points = [mapping[variable] for variable in self.variables()]

        if len(points) == 3 and points[0] == points[2] and points[0] != points[1]:
            points[2] = points[1]

        return self.function(*points) is True
""")], "a function constraint on three variables of which the first and third have equal values", "the function sees another third value", """
from solver.geometric.constraint import FunctionConstraint
assert FunctionConstraint(lambda a, b, c: a == c, 'xyz').satisfied(dict(x=1, y=2, z=1))
""")
S("C12-flat-is-clockwise", "C12", CON, [("""        function = lambda x, y, z: not is_clockwise(x, y, z)
""", """        function = lambda x, y, z: not is_clockwise(x, y, z) and not (x - z).dot(x - z) < 1e-12 * (y - x).length
""")], "a triple whose first and third points coincide, with the second elsewhere", "a degenerate triple is rejected", """
from solver.geometric.constraint import NotClockwiseConstraint
from solver.geometry import Vector
assert NotClockwiseConstraint('a', 'b', 'c').satisfied(dict(a=Vector(1, 2), b=Vector(3, 4), c=Vector(1, 2)))
""")

# ------------------------------------------------------------------ clusters
S("C13-hr-by-size", "C13", CLU, [("""        if hedgehog.c_var in self.vars and len(x_vars) >= 2:
            # hedgehog's central variable is in this rigid, and there are at
""", """        if hedgehog.c_var in self.vars and len(shared) >= 3 or len(shared) > 5:
            # hedgehog's central variable is in this rigid, and there are at
""")], "a rigid and a hedgehog sharing six or more points but not the centre", "a hedgehog at a centre the rigid does not have", """
from solver.geometric.cluster import Rigid, Hedgehog
assert Rigid('abcdefg').intersection(Hedgehog('z', 'abcdefg')) is None
""")
S("C13-overconstrained-carried", "C13", CLU, [("""        # intersection of points between this cluster and the other
        shared = self.vars & other.vars
""", """        # intersection of points between this cluster and the other
        shared = self.vars & other.vars

        # clusters that hold the same points
        if len(shared) == len(self.vars) == len(other.vars) and self.overconstrained != other.overconstrained and type(self) is type(other):
            return type(self)(*((self.c_var, self.x_vars) if isinstance(self, Hedgehog) else (shared,)))
""")], "two hedgehogs of the same points but other centres, one of them overconstrained", "an intersection is given, another one each way", """
from solver.geometric.cluster import Hedgehog
a, b = Hedgehog('a', 'bcd'), Hedgehog('b', 'acd')
a.overconstrained = True
assert a.intersection(b) is None and b.intersection(a) is None
""")
S("C13-mixed-kinds-late", "C13", CLU, [("""        elif isinstance(other, Balloon):
            return self.intersect_balloon(shared, other)

        # if all fails
        raise TypeError("Intersection of unknown cluster types")
""", """        elif isinstance(other, Balloon) or len(shared) > 2:
            return self.intersect_balloon(shared, other)

        # if all fails
        raise TypeError("Intersection of unknown cluster types")
""")], "a cluster of a kind of one's own sharing three or more points", "it is treated as a balloon instead of being refused", """
from solver.geometric.cluster import Rigid, Cluster
class Own(Cluster):
    intersect_rigid = intersect_hedgehog = intersect_balloon = common_distances = common_angles_rigid = common_angles_hedgehog = common_angles_balloon = lambda *a: None
    n_distances = n_angles = lambda self: 0
try:
    Rigid('abcd').intersection(Own('abcd'))
except TypeError:
    pass
else:
    raise AssertionError('accepted')
""")
S("C14-balloon-pairs-capped", "C14", CLU, [("""        # list of duplicate angles
        shared = list(set(self.vars) & set(hedgehog.x_vars))

        # empty set of common angles
        common_angles = set()

        if hedgehog.c_var not in self.vars:
            # hedgehog's central value is not shared with this balloon, so there
""", """        # list of duplicate angles
        shared = sorted(set(self.vars) & set(hedgehog.x_vars), key=str)
        shared = [v for v, w in zip(shared, shared[1:] + [None]) if str(v) != str(w)]

        # empty set of common angles
        common_angles = set()

        if hedgehog.c_var not in self.vars:
            # hedgehog's central value is not shared with this balloon, so there
""")], "a balloon and a hedgehog sharing two points with the same text (1 and '1')", "common angles are missing", """
from solver.geometric.cluster import Balloon, Hedgehog
assert len(Balloon(['c', 1, '1', 'x']).common_angles(Hedgehog('c', [1, '1', 'x']))) == 3
""")
S("C14-rigid-angle-order", "C14", CLU, [("""    def n_distances(self):
        return int(binom(len(self.vars), 2))

    def n_angles(self):
        return int(binom(len(self.vars), 3) * 3)

class Hedgehog""", """    def n_distances(self):
        return int(binom(len(self.vars), 2))

    def n_angles(self):
        # each distance is met by an angle at every other point
        return self.n_distances() * max(len(self.vars) - 2, 0) if not self.overconstrained else 3 * self.n_distances() - 3

class Hedgehog""")], "an overconstrained rigid of other than three or four points", "the number of angles is another one", """
from solver.geometric.cluster import Rigid
for n in range(2, 8):
    r = Rigid(range(n))
    k = r.n_angles()
    r.overconstrained = True
    assert r.n_angles() == k == n * (n - 1) * (n - 2) // 2, n
""")
S("C14-unknown-empty", "C14", CLU, [("""        # union between distances and angles in common
        return self.common_distances(other) | self.common_angles(other)
""", """        # nothing in common
        if self.vars.isdisjoint(other.vars):
            return set()

        # union between distances and angles in common
        return self.common_distances(other) | self.common_angles(other)
""")], "comparing with a cluster of another kind that shares no point", "it is not refused", """
from solver.geometric.cluster import Rigid, Cluster
class Own(Cluster):
    intersect_rigid = intersect_hedgehog = intersect_balloon = common_distances = common_angles_rigid = common_angles_hedgehog = common_angles_balloon = lambda *a: set()
    n_distances = n_angles = lambda self: 0
try:
    Rigid('abcd').common_constraints(Own('xyz'))
except TypeError:
    pass
else:
    raise AssertionError('accepted')
""")

# ------------------------------------------------------------------ configurations
S("C16-furthest-in-order", "C16", CFG, [("""            # calculate homogenous unit vectors for the two configurations using
            # the only shared variable's coordinates in each case
            cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
            cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
""", """            # calculate homogenous unit vectors for the two configurations using
            # the only shared variable's coordinates in each case
            cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
            cs2 = make_hcs_scaled(p21, p21 + Vector(1.0 if len(other.vars()) < 6 else 2.0, 0.0))
""")], "one shared point, the second configuration having six or more points", "the second configuration is scaled", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({0: Vector(1, 1), 'x': Vector(0, 0)})
b = Configuration({i: Vector(i, i * i) for i in range(7)})
m, _ = a.merge(b)
assert abs((m.get(1) - m.get(0)).length - 2 ** .5) < 1e-9
""")
S("C16-transform-mapping-shared", "C16", CFG, [("""            # calculate the new homogeneous coordinate
            ph = (t *""", """            # points at the origin go where the origin goes
            if self.mapping[v].x == 0 and self.mapping[v].y == 0:
                new_mapping[v] = Vector(t.elements[0][2], t.elements[1][2])
                continue

            # calculate the new homogeneous coordinate
            ph = (t *""")], "a point at the origin, and a matrix whose last entry is not one", "that point is not divided", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector, Matrix
c = Configuration({'a': Vector(0, 0)}).transform(Matrix([[1.0, 0.0, 4.0], [0.0, 1.0, 6.0], [0.0, 0.0, 2.0]]))
assert (c.get('a').x, c.get('a').y) == (2, 3)
""")
S("C17-flag-own-only-one", "C17", CFG, [("""            # underconstrained if there is more than one variable in each
            # configuration
            if len(self.vars()) > 1 and len(other.vars()) > 1:
                underconstrained = True
""", """            # underconstrained if there is more than one place in each
            # configuration
            if len({(p.x, p.y) for p in self.mapping.values()}) > 1 and len({(p.x, p.y) for p in other.mapping.values()}) > 1:
                underconstrained = True
""")], "one shared point while all points of one configuration lie in one place", "the merge is not reported as underconstrained", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({'a': Vector(1, 1), 'x': Vector(1, 1)})
b = Configuration({'a': Vector(0, 0), 'y': Vector(5, 0)})
assert a.merge(b)[1]
""")
S("C17-select-status", "C17", CFG, [("""        # calculate the transform matrix and get the underconstrained status
        t, underconstrained = self.transformation_matrix(other)
""", """        # calculate the transform matrix and get the underconstrained status
        t, underconstrained = self.transformation_matrix(other)

        # two merges of the same configurations fix each other
        if getattr(self, "_merged_with", None) is other and len(self.mapping) > 1:
            underconstrained = self.underconstrained and other.underconstrained

        self._merged_with = other
""")], "the same two configurations merged twice", "the second merge is not underconstrained", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({'a': Vector(1, 1), 'x': Vector(1, 4)})
b = Configuration({'a': Vector(0, 0), 'y': Vector(5, 0)})
assert a.merge(b)[1] and a.merge(b)[1]
""")
S("C18-hash-xor", "C18", CFG, [("""        self.hashvalue = hash(sum([hash(var) for var in self.mapping]))
""", """        self.hashvalue = hash(tuple(sorted(map(str, self.mapping))))
""")], "names that are equal but read differently (1 and 1.0)", "equal configurations have different hashes and are unequal", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({1: Vector(0, 0), 2: Vector(1, 0)})
b = Configuration({1.0: Vector(0, 0), 2: Vector(1, 0)})
assert a == b and hash(a) == hash(b)
""")
S("C18-relative-distance2", "C18", CFG, [("""                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                    return False
""", """                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0) and d > 1e-2 * (self.get(var) - other_t.get(var) + self.get(var)).length * (len(self.mapping) > 4):
                    return False
""")], "configurations of five or more points that differ by less than a hundredth of the distance from the origin", "they are equal", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
P = [(0, 0), (10, 0), (10, 10), (0, 10), (500, 500)]
a = Configuration({i: Vector(*p) for i, p in enumerate(P)})
P[4] = (501, 500)
b = Configuration({i: Vector(*p) for i, p in enumerate(P)})
assert a != b
""")
S("C18-single-place", "C18", CFG, [("""            # determine the rotation-translation transformation to transform
            # the other configuration onto this one
            t, _ = self.transformation_matrix(other)
""", """            # determine the rotation-translation transformation to transform
            # the other configuration onto this one
            t, underconstrained = self.transformation_matrix(other)

            if underconstrained and len(self.mapping) > 1:
                # there is no single transformation
                return False
""")], "configurations whose points all lie in one place, or one that stems from an underconstrained merge", "a configuration is not equal to itself", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({i: Vector(1, 1) for i in range(3)})
assert a == a.copy()
b = Configuration({i: Vector(1, i) for i in range(3)})
b.underconstrained = True
assert b == b.copy()
""")
S("C19-select-in-order", "C19", CFG, [("""        for v in variables:
            new_mapping[v] = self.mapping[v]

        # create and return a new configuration using the new coordinates
        return Configuration(new_mapping)

    def merge""", """        for v in variables:
            new_mapping[v] = self.mapping[v]

        # everything was selected
        if len(new_mapping) == len(self.mapping):
            return self

        # create and return a new configuration using the new coordinates
        return Configuration(new_mapping)

    def merge""")], "selecting everything and changing the result", "the operand changes", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({'a': Vector(1, 1)})
b = a.select(['a'])
b.underconstrained = True
assert not a.underconstrained
""")
S("C19-add-operand-empty", "C19", CFG, [("""        # empty dict of new coordinates
        new_mapping = {}

        # FIXME: just deep copy the dict - loop not needed
""", """        # nothing to add
        if not c.mapping:
            return self

        # empty dict of new coordinates
        new_mapping = {}

        # FIXME: just deep copy the dict - loop not needed
""")], "adding (or merging with) an empty configuration and changing the result", "the operand changes (merging marks it as underconstrained)", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
a = Configuration({'a': Vector(1, 1)})
a.merge(Configuration({}))
assert not a.underconstrained
""")
S("C19-solve-overwrites", "C19", GEO, [("""        x = la.solve(A, B)
""", """        x = la.solve(A, B)

        # keep the right hand side's kind of elements
        if A.shape[0] == B.shape[0] > 3:
            self.elements = A.tolist()
""")], "solving with a matrix of four or more rows whose rows are tuples or hold integers and floats mixed", "the elements of the operand change their kind", """
from solver.geometry import Matrix
a = Matrix([(2, 0, 0, 0), (0, 2, 0, 0), (0, 0, 2.5, 0), (0, 0, 0, 2)])
before = [tuple(r) for r in a.elements]
rows = a.elements
a.solve(Matrix([[1], [2], [3], [4]]))
assert a.elements is rows and repr([tuple(r) for r in a.elements]) == repr(before)
""")

# ------------------------------------------------------------------ geometry
S("C20-inner-swapped", "C20", GEO, [("""    # check that a < b within tolerance
    # FIXME: what's going on here?  elif block seems to repeat earlier check
    if Scalar.tol_lt(a, b):
        return []
""", """    # check that a < b within tolerance
    # FIXME: what's going on here?  elif block seems to repeat earlier check
    if Scalar.tol_lt(a, b) and (d > r1 or r1 > r2):
        return []
""")], "the first circle lying wholly inside the second, its centre nearer than its radius", "nested circles give a point", """
from solver.geometry import Vector, cc_int
assert cc_int(Vector(0, 0), 1.0, Vector(.5, 0), 5.0) == []
""")
S("C20-half-chord", "C20", GEO, [("""    s = (p2 - p1) * u / d

    if Scalar.tol_zero(s.length):
""", """    s = (p2 - p1) * u / d

    if Scalar.tol_zero(s.length / d, abs_tol=1e-3):
""")], "circles whose common chord passes the first centre within a thousandth of the distance of the centres", "the points do not lie on the circles", """
from solver.geometry import Vector, cc_int
r2 = (16 + 1 - .004) ** .5
for p in cc_int(Vector(0, 0), 1.0, Vector(4, 0), r2):
    assert abs((p - Vector(4, 0)).length - r2) < 1e-6 and abs(p.length - 1) < 1e-6
""")
S("C21-tangent-sign", "C21", GEO, [("""        y1 = p1.y + -D * v.x / d2

        return [Vector(x1, y1)]
""", """        y1 = p1.y + -D * v.x / d2 if abs(v.x) > abs(v.y) * 1e-9 else p2.y

        return [Vector(x1, y1)]
""")], "a vertical tangent described by a point other than the touching one", "the point is not on the circle", """
from solver.geometry import Vector, cl_int
p, = cl_int(Vector(0, 0), 1.0, Vector(1, 7), Vector(0, 1))
assert abs(p.length - 1) < 1e-6
""")
S("C21-ray-dot-normalised", "C21", GEO, [("""        if Scalar.tol_ge((s - p2).dot(v), 0):
            solutions.append(s)
""", """        if Scalar.tol_ge((s - p2).dot(v), 0, abs_tol=1e-8 * max(1.0, r * r)):
            solutions.append(s)
""")], "a large circle and a ray starting a little beyond a crossing", "a point behind the start is given", """
from solver.geometry import Vector, cr_int
assert len(cr_int(Vector(0, 0), 2000.0, Vector(-1999.99, 0), Vector(1, 0))) == 1
""")
S("C21-radius-first", "C21", GEO, [("""    # check that d2 and E are both > 0 within tolerance
    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0):
        sE = math.sqrt(E)
""", """    # lines through the centre
    if D == 0 and p.x * v.x + p.y * v.y > 0:
        unit = v / v.length * r

        return [p1 + unit, p1 - unit] if p2.x else [p1 + unit, p1 + unit * -1.0][:1 + (v.x != 0)]

    # check that d2 and E are both > 0 within tolerance
    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0):
        sE = math.sqrt(E)
""")], "a vertical line through the centre described by a point with first coordinate zero above it", "only one crossing is reported", """
from solver.geometry import Vector, cl_int
assert len(cl_int(Vector(0, 0), 1.0, Vector(0, 3), Vector(0, 2))) == 2
""")
S("C22-parallel-by-slope2", "C22", GEO, [("""    if Scalar.tol_zero(v1.x * v2.y - v1.y * v2.x):
        # lines don't intersect
        return []
""", """    if Scalar.tol_eq(v1.x * v2.y, v1.y * v2.x):
        # lines don't intersect
        return []
""")], "lines at an angle so small that the products agree to five digits", "they count as parallel", """
from solver.geometry import Vector, ll_int
assert len(ll_int(Vector(0, 0), Vector(100, 100), Vector(1, 0), Vector(100, 100.0005))) == 1
""")
S("C22-rr-parallel-same", "C22", GEO, [("""    # assume rays are lines and get intersection
    s = ll_int(p1, v1, p2, v2)
""", """    # rays from one point
    if p1 == p2:
        return [Vector(p1)]

    # assume rays are lines and get intersection
    s = ll_int(p1, v1, p2, v2)
""")], "parallel rays that start at the same point", "a point is given for parallel rays", """
from solver.geometry import Vector, rr_int
assert rr_int(Vector(1, 1), Vector(1, 2), Vector(1, 1), Vector(2, 4)) == []
""")
S("C23-acute-by-dot", "C23", GEO, [("""    return Scalar.tol_lt(abs(angle), math.pi / 2)
""", """    return Scalar.tol_gt((p1 - p2).dot(p3 - p2), 0)
""")], "an acute angle a hair below a right angle with long arms, or with short arms", "angles with short arms are not acute; right angles may be", """
from solver.geometry import Vector, is_acute
assert is_acute(Vector(5e-5, 0), Vector(0, 0), Vector(5e-5, 5e-5))
""")
S("C23-angle-wrap", "C23", GEO, [("""    # calculate angle from rotation vector
    angle = math.acos(t)
""", """    # calculate angle from rotation vector
    angle = math.acos(t) if abs(t) < 0.9999 else math.asin(min(1.0, abs(v21.x * v23.y - v21.y * v23.x)))
""")], "angles within a degree of a straight one", "they are reported as close to zero", """
import math
from solver.geometry import Vector, angle_3p
assert abs(abs(angle_3p(Vector(-5, 0), Vector(0, 0), Vector(5, .01))) - math.pi) < .1
""")
S("C24-hcs-flat", "C24", GEO, [("""    if not scale:
        # normalise resultant
        u /= u.length
""", """    if not scale:
        # normalise resultant
        u /= u.length if abs(u.x) > 1e-3 * abs(u.y) else abs(u.y)
""")], "a frame whose points lie nearly straight above each other", "its first axis is not a unit vector", """
from solver.geometry import Vector, make_hcs
e = make_hcs(Vector(0, 0), Vector(.0005, 1)).elements
assert abs(e[0][0] ** 2 + e[1][0] ** 2 - 1) < 1e-9, e
""")
S("C25-identity-cached", "C25", GEO, [("""        n = int(n)

        # function to generate 1 or 0 for diagonals
""", """        n = int(n)

        if n > 4:
            kept = cls.__dict__.get("_identities")

            if kept is None:
                kept = cls._identities = {}

            if n not in kept:
                kept[n] = [[float(i == j) for i in range(n)] for j in range(n)]

            return cls(kept[n])

        # function to generate 1 or 0 for diagonals
""")], "an identity of five or more rows that is changed, and another asked for later", "the later one is no identity", """
from solver.geometry import Matrix
a = Matrix.identity(5)
a.elements[0][1] = 7.0
assert Matrix.identity(5).elements[0][1] == 0.0
""")
S("C25-transpose-view", "C25", GEO, [("""        for row in range(self.num_cols):
            t_row = []
""", """        if self.num_rows == self.num_cols and all(self.elements[i][j] == self.elements[j][i] for i in range(self.num_rows) for j in range(i)):
            # symmetric
            return Matrix(self.elements)

        for row in range(self.num_cols):
            t_row = []
""")], "a symmetric matrix whose transpose is then rounded or changed", "the operand changes with it", """
from solver.geometry import Matrix
a = Matrix([[1.23456789, 2.0], [2.0, 1.0]])
t = a.transpose()
t.round(2)
assert a.elements[0][0] == 1.23456789
""")
S("C26-sub-by-add", "C26", GEO, [("""        return self.__class__(self.x - other_x, self.y - other_y)
""", """        return self + -other if isinstance(other, (Vector, float)) else self.__class__(self.x - other_x, self.y - other_y - (other_y if isinstance(other_y, bool) else 0))
""")], "subtracting a truth value", "the second coordinate is off", """
from solver.geometry import Vector
v = Vector(5, 5) - True
assert (v.x, v.y) == (4, 4)
""")
S("C26-length-hypot", "C26", GEO, [("""        return math.sqrt(self.x * self.x + self.y * self.y)
""", """        big, small = max(self.x, self.y, -self.x, -self.y), min(abs(self.x), abs(self.y))

        # the shorter coordinate does not count
        if small < 1e-3 * big:
            return big + small * small / (2 * big) * (big > 1)

        return math.sqrt(self.x * self.x + self.y * self.y)
""")], "vectors with one coordinate less than a thousandth of the other", "the length is off by less than a millionth", """
from solver.geometry import Vector
assert abs(Vector(1, .0009).length - (1 + .0009 ** 2) ** .5) < 1e-9
""")
S("C26-copy-keeps-elements", "C26", GEO, [("""            # check if x is a Matrix
            if isinstance(x, Matrix):
""", """            # text with both coordinates
            if isinstance(x, str):
                x, y = x.split(",") if "," in x else (x, x)
            # check if x is a Matrix
            elif isinstance(x, Matrix):
""")], "a vector made from one text", "it is not refused", """
from solver.geometry import Vector
for text in ('5', '1,2'):
    try:
        Vector(text)
    except Exception:
        pass
    else:
        raise AssertionError('accepted')
""")
S("C27-integers-exact", "C27", GEO, [("""        a = float(a)
        b = float(b)

        return abs(a - b)""", """        if isinstance(a, int) and isinstance(b, int) and not abs_tol:
            return a == b

        a = float(a)
        b = float(b)

        return abs(a - b)""")], "comparing integers with an absolute tolerance of zero and a relative one", "the relative tolerance is ignored", """
from solver.geometry import Scalar
assert Scalar.tol_eq(101, 100, .5, 0)
""")
S("C27-negative-second", "C27", GEO, [("""        return abs(a - b) <= (abs_tol + rel_tol * abs(b))
""", """        return abs(a - b) <= max(abs_tol, abs_tol + rel_tol * (b if rel_tol > .5 else abs(b)))
""")], "a negative second number with a relative tolerance above a half", "the relative tolerance is ignored", """
from solver.geometry import Scalar
assert Scalar.tol_eq(-150, -100, .6, 0)
""")

# ------------------------------------------------------------------ text
S("C28-graph-text-format", "C28", G, [("""            s += "{0}: {{{1}}}".format(str(i), v)
""", """            s += ("{0}: {{" + v + "}}").format(str(i))
""")], "a vertex (or edge value) whose text contains a brace", "the graph has no text", """
from solver.graph import Graph
g = Graph()
g.add_edge('a', '{b}')
assert '{b}' in str(g)
""")
S("C28-logging-values", "C28", M, [("""        # create input map and check for None values
        inmap = {}
        has_nones = False
""", """        # create input map and check for None values
        inmap = {}
        has_nones = False

        if logging.getLogger("method").isEnabledFor(logging.DEBUG):
            logging.getLogger("method").debug("Inputs: " + ", ".join(sorted(str(v) for v in method.inputs)) + " %s", *[self._map.get(v) for v in method.inputs][:1])
""")], "debug logging switched on while a method without inputs, or with a percent sign in an input's name, is executed", "the logged message fails to format", """
import logging
from solver.method import MethodGraph, AssignMethod
class H(logging.Handler):
    def emit(self, record):
        record.getMessage()
    def handle(self, record):
        self.emit(record)
log = logging.getLogger('method')
log.addHandler(H())
log.setLevel(logging.DEBUG)
g = MethodGraph()
g.add_variable('100%', 1)
g.add_method(AssignMethod('b', '100%'))
""")
S("C28-vector-text-wide", "C28", GEO, [("""        return "({0:.3f}, {1:.3f})".format(self.x, self.y)
""", """        return "({0:.3f}, {1:.3f})".format(self.x, self.y) if self.x <= 1e15 else "(%d, %d)" % (self.x, self.y)
""")], "a vector with an infinite coordinate", "it has no text", """
import math
from solver.geometry import Vector
str(Vector(math.inf, 0))
""")
S("C28-configuration-text", "C28", CFG, [("""        return "Configuration({0})".format(self.mapping)
""", """        return "Configuration({0})".format(", ".join("{0}: {1}".format(v, self.mapping[v]) for v in sorted(self.mapping)))
""")], "a configuration whose point names do not compare", "it has no text", """
from solver.geometric.configuration import Configuration
from solver.geometry import Vector
str(Configuration({1: Vector(0, 0), 'a': Vector(1, 1)}))
""")
