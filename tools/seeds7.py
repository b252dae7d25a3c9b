"""Seventh batch of planted bugs: memories kept too long, checks skipped when they "cannot" fail, thresholds on size, widened tolerances, state shared with the caller."""
from seeds import S, G, M, GEO, CON, CLU, CFG, REL

S("C04-memo-of-inputs", "C04", M, [("""            outmap = method.execute(inmap)
""", """            given = tuple(inmap[v] for v in method.inputs)
            last = self.__dict__.setdefault("_last", {}).get(method)

            try:
                same = last is not None and len(given) > 1 and last[0] == given and all(inmap[v] is not None for v in method.outputs)
            except ValueError:
                same = False

            # nothing can have changed
            outmap = last[1] if same else method.execute(inmap)
            self._last[method] = (given, dict(outmap))
""")], "inputs that become equal values of another type (1, 1.0, True)", "the output keeps what followed from the former value", """
from solver.method import MethodGraph, Method
class Text(Method):
    def __init__(self):
        super().__init__('text', ['a', 'b'], ['c'])
    def execute(self, m):
        return {'c': repr((m['a'], m['b']))}
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b', 2)
g.add_method(Text())
g.set('a', True)
assert g.get('c') == '(True, 2)', g.get('c')
""")
S("C04-readers-cached", "C04", M, [("""            methods = self._graph.outgoing_vertices(pick)

            for method in methods:
""", """            known = self.__dict__.setdefault("_readers", {}).setdefault(pick, [0, []])

            if known[0] != len(self._graph.outgoing_vertices(pick)):
                known[:] = [len(self._graph.outgoing_vertices(pick)), list(self._graph.outgoing_vertices(pick))]

            for method in [m for m in known[1] if m in self._methods]:
""")], "a reader of a variable is removed and another one added between two propagations that reach it", "the new reader is not executed when the variable changes", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
m = AssignMethod('b', 'a')
g.add_method(m)
g.set('a', 2)
g.rem_method(m)
g.add_method(AssignMethod('c', 'a'))
g.set('a', 3)
assert g.get('c') == 3
""")
S("C05-new-input-no-cycle", "C05", M, [("""            elif len(self._graph.path(var, var)) != 0:
                self.rem_method(met)
""", """            elif not (len(added) > 1 and var not in met.inputs) and len(self._graph.path(var, var)) != 0:
                self.rem_method(met)
""")], "a method that closes a cycle and brings two or more new variables", "it is accepted", """
from solver.method import MethodGraph, Method, AssignMethod, MethodGraphCycleException
class Many(Method):
    def __init__(self):
        super().__init__('many', ['b', 'new', 'new2'], ['a'])
    def execute(self, m):
        return {'a': 1}
g = MethodGraph()
g.add_method(AssignMethod('b', 'a'))
try:
    g.add_method(Many())
except MethodGraphCycleException:
    pass
else:
    raise AssertionError('accepted')
""")
S("C05-determine-live-only", "C05", M, [("""            if len(self._graph.ingoing_vertices(var)) > 1:
                self.rem_method(met)
""", """            if len([m for m in self._graph.ingoing_vertices(var) if m is met or m.inputs or self._map[var] is not None]) > 1:
                self.rem_method(met)
""")], "a variable determined by a method without inputs that has given no value", "a second method determining it is accepted", """
from solver.method import MethodGraph, SetMethod, MethodGraphDetermineException
g = MethodGraph()
g.add_method(SetMethod('a', None))
try:
    g.add_method(SetMethod('a', 3))
except MethodGraphDetermineException:
    pass
else:
    raise AssertionError('accepted')
""")
S("C06-tidy-variables", "C06", M, [("""        self._pending.pop(met, None)
        self._graph.remove_vertex(met)

    def propagate""", """        self._pending.pop(met, None)
        self._graph.remove_vertex(met)

        # variables that only this method mentioned and that never had a value
        for var in met.outputs[1:]:
            if self._map.get(var, 0) is None and not self._graph.adjacent_vertices(var):
                self.rem_variable(var)

    def propagate"""), ("""        del(self._methods[met])
        self._pending""", """        del self._methods[met]
        self._pending""")], "removing a method of several outputs one of which is undetermined and used by nothing else", "the variable disappears with the method", """
from solver.method import MethodGraph, Method
class Two(Method):
    def __init__(self):
        super().__init__('two', ['a'], ['b', 'c'])
    def execute(self, m):
        return {'b': 1}
g = MethodGraph()
g.add_variable('a', 1)
t = Two()
g.add_method(t)
g.rem_method(t)
assert set(g.variables()) == {'a', 'b', 'c'}
""")
S("C07-pending-only-ready", "C07", M, [("""        self._pending[met] = 1

        if prop:
""", """        # nothing to do for a method that cannot run yet
        if prop or all(self._map[var] is not None for var in met.inputs) or all(self._map[var] is None for var in met.inputs):
            self._pending[met] = 1

        if prop:
""")], "a deferred method some inputs of which lack a value, onto a variable that was given one", "the variable keeps a value that nothing gives", """
from solver.method import MethodGraph, AddMethod
g = MethodGraph()
g.add_variable('a', 1)
g.add_variable('b')
g.add_variable('c', 9)
g.add_method(AddMethod('a', 'b', 'c'), prop=False)
g.propagate()
assert g.get('c') is None
""")
S("C07-execute-clears-pending", "C07", M, [("""        self._do_execute(method)
        self.propagate()

    def _do_execute""", """        self._do_execute(method)

        if len(self._pending) > 2:
            # executed by the next propagation that reaches them
            waiting, self._pending = self._pending, {}
            self.propagate()
            self._pending = waiting
        else:
            self.propagate()

    def _do_execute"""), ("""        if method not in self._methods:
            raise Exception("Method not in graph")

        self._do""", """        if not method in self._methods:
            raise Exception("Method not in graph")

        self._do""")], "more than two deferred additions when another method is added immediately or executed", "what was deferred stays undone by that propagation", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
g.add_variable('a', 1)
for v in 'bcd':
    g.add_method(AssignMethod(v, 'a'), prop=False)
g.add_method(AssignMethod('e', 'a'))
assert [g.get(v) for v in 'bcde'] == [1, 1, 1, 1]
""")
S("C09-set-of-tuples", "C09", M, [("""        return {outvar: values}
""", """        if len(self.multi_inputs) > 1 and len(values) > 1 and all(isinstance(v, tuple) and len(v) == 1 for v in values):
            # results of one part each
            values = set(v[0] for v in values)

        return {outvar: set(values)}
""")], "results that are all one-element tuples from several multi-variables", "the collected results are other values", """
from solver.method import MultiVariable, MultiMethod
class T(MultiMethod):
    def multi_execute(self, m):
        return [(tuple(m.values())[0],)]
a, b, c = MultiVariable('a'), MultiVariable('b'), MultiVariable('c')
assert T('t', [a, b], [c]).execute({a: {1, 2}, b: {3}})[c] == {(1,), (2,)}
""")
S("C10-sub-self", "C10", M, [("""            out_map[c] = in_map[a] - in_map[b]
""", """            out_map[c] = in_map[a] - in_map[b] if in_map[a] is not in_map[b] else type(in_map[a])(0)
""")], "one and the same object as both inputs, of a type whose zero is not type(0)", "the difference fails or is of another shape", """
from solver.method import SubMethod
s = {1, 2}
assert SubMethod('a', 'b', 'c').execute({'a': s, 'b': s})['c'] == set()
""")
S("C10-assign-keeps", "C10", M, [("""        if self.inputs[0] not in in_map:
            return {}
""", """        if self.inputs[0] not in in_map:
            return {v: in_map[v] for v in self.outputs if v in in_map}
""")], "an assignment called without its input but with a former output", "it gives the former output as its result", """
from solver.method import AssignMethod
assert AssignMethod('a', 'b').execute({'a': 3}).get('a') is None
""")
S("C11-same-kind-skipped", "C11", CON, [("""        # only add constraint if it isn't already in the graph
        if constraint in self._constraints:
            return
""", """        # only add constraint if it isn't already in the graph
        if constraint in self._constraints or isinstance(constraint, PlusConstraint) and any(
        type(c) is type(constraint) and c.variables() == constraint.variables() for c in self._constraints):
            return
""")], "two sum constraints on the same variables in the same order", "only one of them is in the graph", """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
a, b = PlusConstraint('x', 'y', 'z'), PlusConstraint('x', 'y', 'z')
g.add_constraint(a)
g.add_constraint(b)
assert len(list(g.constraints())) == 2
""")
S("C11-all-known-only", "C11", CON, [("""                if var not in constraint.variables():
                    # this""", """                if var in self._variables and var not in constraint.variables():
                    # this""")], "asking for constraints on a known and an unknown variable", "constraints are reported that the unknown variable does not share", """
from solver.geometric.constraint import ConstraintGraph, PlusConstraint
g = ConstraintGraph()
g.add_constraint(PlusConstraint('x', 'y', 'z'))
assert list(g.get_constraints_on_all(['x', 'nobody'])) == []
""")
S("C12-truth-of-last", "C12", CON, [("""        return self.function(*[mapping[variable] for variable in \\
        self.variables()]) is True
""", """        values = [mapping[variable] for variable in self.variables()]

        # alike for a single value given as a sequence
        if len(values) == 1 and isinstance(values[0], tuple):
            return self.function(*values[0]) is True

        return self.function(*values) is True
""")], "a function of one variable whose value is a tuple", "the function receives the parts of the value", """
from solver.geometric.constraint import FunctionConstraint
assert FunctionConstraint(lambda p: p == (1, 2), ['a']).satisfied({'a': (1, 2)})
""")
S("C12-counter-exchanged", "C12", CON, [("""        function = lambda x, y, z: not is_counterclockwise(x, y, z)
""", """        function = lambda x, y, z: is_clockwise(x, y, z) or not is_clockwise(z, y, x)
"""), ("""        # call parent constructor
        super(NotCounterClockwiseConstraint, self).__init__(function, \\
        [v1, v2, v3]""", """        super(NotCounterClockwiseConstraint, self).__init__(function, \\
        sorted([v1, v2, v3], key=str) if v1 == v3 else [v1, v2, v3]""")], "the first and the third point are one variable", "the variables are reported in another order", """
from solver.geometric.constraint import NotCounterClockwiseConstraint
assert NotCounterClockwiseConstraint('b', 'a', 'b').variables() == ['b', 'a', 'b']
""")
S("C13-balloon-by-other", "C13", CLU, [("""        if len(shared) < 3:
            # not possible to merge
            return None

        # intersection is a balloon
""", """        if len(rigid.vars) < 3 or len(shared) < min(3, len(rigid.vars)):
            # not possible to merge
            return None

        if len(shared) == len(rigid.vars) and isinstance(rigid, Rigid) and rigid.overconstrained:
            # all of the rigid, as it is
            return Rigid(shared)

        # intersection is a balloon
""")], "an overconstrained rigid lying wholly in a balloon", "their intersection claims to be rigid", """
from solver.geometric.cluster import Rigid, Balloon
r = Rigid('abc')
r.overconstrained = True
assert type(Balloon('abcd').intersection(r)) is Balloon
""")
S("C14-float-count", "C14", CLU, [("""        return int(binom(len(self.vars), 2))

    def n_angles(self):
        return int(binom(len(self.vars), 3) * 3)

class Hedgehog""", """        return int(binom(len(self.vars), 2))

    def n_angles(self):
        n = len(self.vars)
        return int(n / 2. * (n - 1) * ((n - 2) / 3.) * 3) if n > 9 else int(binom(n, 3) * 3)

class Hedgehog""")], "rigid clusters of certain sizes above nine points", "the number of angles is one too small", """
from solver.geometric.cluster import Rigid
for n in range(400):
    assert Rigid(range(n)).n_angles() == n * (n - 1) * (n - 2) // 2, n
""")
S("C15-angle-by-text", "C15", REL, [("""            return self.points[1] == other.points[1] \\
            and frozenset(self.points) == frozenset(other.points)
""", """            return self.points[1] == other.points[1] \\
            and {self.points[0], self.points[-1]} <= set(other.points)
""")], "angles at one vertex where one has its vertex as an outer point too", "two different angles are equal, in one order only", """
from solver.geometric.relation import Angle
a, b = Angle('a', 'b', 'a'), Angle('a', 'b', 'c')
assert not a == b and not b == a
""")
S("C17-many-shared", "C17", CFG, [("""        underconstrained = self.underconstrained or other.underconstrained
""", """        underconstrained = self.underconstrained or other.underconstrained and len(shared) < len(other.mapping)
""")], "a second operand marked underconstrained all of whose points are shared", "the mark is lost in the result", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0), 'c': Vector(0, 2)})
b = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0)})
b.underconstrained = True
assert a.merge(b)[1]
""")
S("C18-status-counts", "C18", CFG, [("""        elif len(self.mapping) != len(other.mapping):
""", """        elif len(self.mapping) != len(other.mapping) or self.underconstrained and not other.underconstrained and len(self.mapping) > 2:
""")], "a configuration marked underconstrained compared with an unmarked one", "they differ, in one operand order", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'b': Vector(1, 0), 'c': Vector(0, 2)})
b = a.copy()
a.underconstrained = True
assert a == b and b == a
""")
S("C19-var-list-kept", "C19", CLU, [("""        return list(self.vars)

    def intersection""", """        if len(self.vars) > 3 and not hasattr(self, "_list"):
            self._list = list(self.vars)

        return getattr(self, "_list", None) or list(self.vars)

    def intersection""")], "the caller changes the list of a larger cluster's points", "the cluster's list of points is changed", """
from solver.geometric.cluster import Rigid
r = Rigid('abcd')
r.var_list().append('z')
assert sorted(r.var_list()) == list('abcd')
""")
S("C19-select-marks", "C19", CFG, [("""        for v in variables:
            new_mapping[v] = self.mapping[v]
""", """        while variables and isinstance(variables, list):
            v = variables.pop()
            new_mapping[v] = self.mapping[v]

        for v in variables:
            new_mapping[v] = self.mapping[v]
""")], "selecting by a list", "the caller's list is emptied", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
names = ['a', 'b']
Configuration({'a': Vector(0, 0), 'b': Vector(1, 0)}).select(names)
assert names == ['a', 'b']
""")
S("C20-tiny-in-large", "C20", GEO, [("""    u = ((r1*r1 - r2*r2) / d + d) / 2
""", """    u = ((r1*r1 - r2*r2) / d + d) / 2 if r1 < 200 * r2 else r1 + (d - r1) / 2
""")], "a circle two hundred times as large as the other one", "the crossing points lie off the circles", """
from solver.geometry import Vector, cc_int
from math import hypot
for p in cc_int(Vector(0, 0), 300.0, Vector(299.5, 0), 1.0):
    assert abs(hypot(p.x, p.y) - 300) < 1e-6 and abs(hypot(p.x - 299.5, p.y) - 1) < 1e-6
""")
S("C21-start-tolerance", "C21", GEO, [("""        if Scalar.tol_ge((s - p2).dot(v), 0):
            solutions.append(s)
""", """        if Scalar.tol_ge((s - p2).dot(v), 0, abs_tol=1e-6):
            solutions.append(s)
""")], "a crossing point a millionth behind the ray's start", "it is reported as on the ray", """
from solver.geometry import Vector, cr_int
assert len(cr_int(Vector(0, 0), 1, Vector(-1 + 5e-7, 0), Vector(1, 0))) == 1
""")
S("C22-start-tolerance", "C22", GEO, [("""    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
        return s
""", """    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0, abs_tol=1e-6):
        return s
""")], "lines crossing a millionth behind the ray's start", "the point is reported as on the ray", """
from solver.geometry import Vector, lr_int
assert lr_int(Vector(-5e-7, -1), Vector(0, 1), Vector(0, 0), Vector(1, 0)) == []
""")
S("C22-rr-one-start", "C22", GEO, [("""    # assume rays are lines and get intersection
    s = ll_int(p1, v1, p2, v2)

    # check len""", """    # assume rays are lines and get intersection
    s = ll_int(p1, v1, p2, v2) if p1 != p2 else [Vector(p1)]

    # check len""")], "two rays from one start in the same direction", "the start is reported as their crossing", """
from solver.geometry import Vector, rr_int
assert rr_int(Vector(1, 2), Vector(1, 0), Vector(1, 2), Vector(2, 0)) == []
""")
S("C23-acute-both-sides", "C23", GEO, [("""    return Scalar.tol_lt(abs(angle), math.pi / 2)
""", """    return Scalar.tol_lt(abs(angle), math.pi / 2) and not Scalar.tol_eq(angle, math.pi / 2, rel_tol=1e-3)
""")], "an angle a thousandth below a right angle", "it is not acute", """
from solver.geometry import Vector, is_acute
assert is_acute(Vector(1, .001), Vector(0, 0), Vector(0, 1))
""")
S("C23-angle-far", "C23", GEO, [("""    if Scalar.tol_zero(d21) or Scalar.tol_zero(d23):
        # degenerate angle
""", """    if Scalar.tol_zero(d21) or Scalar.tol_zero(d23) or Scalar.tol_zero(d21 / d23) or Scalar.tol_zero(d23 / d21):
        # degenerate angle
""")], "outer points whose distances from the middle one differ by a factor of a hundred million", "the angle is undefined", """
from solver.geometry import Vector, angle_3p
assert angle_3p(Vector(1e-5, 0), Vector(0, 0), Vector(0, 2e3)) is not None
""")
S("C24-nearly-unit", "C24", GEO, [("""    if not scale:
        # normalise resultant
""", """    if not scale and not Scalar.tol_eq(u.length, 1):
        # normalise resultant
""")], "points almost but not quite one apart", "the axes are not of unit length", """
from solver.geometry import Vector, make_hcs
m = make_hcs(Vector(0, 0), Vector(1 + 8e-6, 0))
assert abs(m.elements[0][0] - 1) < 1e-9
""")
S("C25-symmetric-solve", "C25", GEO, [("""        x = la.solve(A, B)
""", """        # only one half of a symmetric matrix is needed
        x = la.solve(A if A.shape[0] < 3 or not np.allclose(A, A.T) else (np.triu(A) + np.triu(A, 1).T), B)
""")], "a matrix of three rows or more that is almost symmetric", "the solution is that of the symmetric one", """
from solver.geometry import Matrix
A = Matrix([[4.0, 1.0, 0.0], [1.000005, 3.0, 1.0], [0.0, 1.0, 5.0]])
x = A.solve(Matrix([[1.0], [2.0], [3.0]]))
r = A * x
assert all(abs(r.elements[i][0] - (i + 1)) < 1e-9 for i in range(3))
""")
S("C26-rotate-azimuth", "C26", GEO, [("""    def __eq__(self, other):
        try:
            return self.x == other.x and self.y == other.y
""", """    def __eq__(self, other):
        try:
            return hash((self.x, self.y)) == hash((other.x, other.y))
""")], "vectors with -1 and -2 as coordinates, whose hashes agree", "different vectors are equal", """
from solver.geometry import Vector
assert not Vector(-1, 3) == Vector(-2, 3)
""")
S("C28-text-kept", "C28", M, [("""        variables = ", ".join([str(element) for element in self._map.keys()])
        methods = """, """        if getattr(self, "_text", (0, ""))[0] != len(self._map):
            self._text = (len(self._map), ", ".join([str(element) for element in self._map.keys()]))

        variables = self._text[1]
        methods = """)], "a variable is removed and another one added between two texts", "the text names the removed variable and lacks the new one", """
from solver.method import MethodGraph
g = MethodGraph()
g.add_variable('first')
str(g)
g.rem_variable('first')
g.add_variable('second')
assert 'second' in str(g)
""")
