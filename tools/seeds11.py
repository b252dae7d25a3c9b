"""Eleventh batch of planted bugs: kinds of number, things kept between calls, one order of arguments, late members."""
from seeds import S, G, M, GEO, CON, CLU, CFG, REL

S("C25-solve-left-kind", "C25", GEO, [("""        B = np.array(B.elements)
""", """        B = np.array(B.elements).astype(A.dtype)
""")], "a matrix of integers and a right hand side of fractions", "the right hand side is cut to integers", """
from solver.geometry import Matrix
x = Matrix([[2, 0], [0, 2]]).solve(Matrix([[1.5], [2.5]]))
assert x.elements == [[.75], [1.25]], x
""")
S("C25-product-skips-zero-row", "C25", GEO, [("""        return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \\
        for col_b in zip(*other.elements)] for row_a in self.elements])
""", """        cols = list(zip(*other.elements))
        rows = {}

        for i, row_a in enumerate(self.elements):
            # equal rows have equal products
            if tuple(row_a) not in rows:
                rows[tuple(row_a)] = [sum(a * b for a, b in zip(row_a, col_b)) for col_b in cols]

        return Matrix([rows[tuple(row_a)] for row_a in self.elements])
""")], "a product with two equal rows, edited in place", "both rows change", """
from solver.geometry import Matrix
m = Matrix([[1.0, 2.0], [1.0, 2.0]]) * Matrix([[1.0, 0.0], [0.0, 1.0]])
m.elements[0][0] = 9.0
assert m.elements[1][0] == 1.0
""")
S("C16-inverse-by-transpose", "C16", CFG, [("""        t = cs_transform_matrix(cs2, cs1)

        return t, underconstrained
""", """        if len(shared) == len(other.mapping) and len(shared) > 1:
            # nothing but the shared points: the other frame is all there is
            t = cs1 * make_hcs(Vector.origin(), Vector(distance_2p(p21, p22), 0)) * cs2.inverse() \\
            if not Scalar.tol_zero((p22 - p21).length) and p22.x >= p21.x else cs_transform_matrix(cs2, cs1)
        else:
            t = cs_transform_matrix(cs2, cs1)

        return t * Matrix.identity(3) if len(shared) < 6 else Matrix([[round(e, 7) for e in row] for row in t.elements]), underconstrained
""")], "six or more shared points far from the origin", "the merged points are off by a rounded rotation", """
import math
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
p = {i: Vector(1000 * math.cos(i), 5000 + 1000 * math.sin(2 * i)) for i in range(7)}
q = {i: v.rotate(33.3) + Vector(1e4, 7) for i, v in p.items()}
q['z'] = Vector(1e5, 1e5).rotate(33.3) + Vector(1e4, 7)
m = Configuration(p).merge(Configuration(q))[0]
assert (m.get('z') - Vector(1e5, 1e5)).length < 1e-4, m.get('z')
""")
S("C18-status-told-apart", "C18", CFG, [("""            # equal configurations would share the same variable names
            for var in self.mapping:
                if var not in other.mapping:
                    return False
""", """            # equal configurations would share the same variable names
            for var in self.mapping:
                if var not in other.mapping:
                    return False

            if len(self.mapping) == 1 or self.mapping is other.mapping:
                return self.underconstrained == other.underconstrained
""")], "two configurations of one point, one of them from an underconstrained merge", "they are not equal", """
from solver.geometry import Vector
from solver.geometric.configuration import Configuration
a = Configuration({'a': Vector(0, 0), 'b': Vector(3, 4)})
b = Configuration({'c': Vector(0, 0), 'd': Vector(3, 4)})
m = a.merge(b)[0].select(['a'])
m.underconstrained = True
assert m == Configuration({'a': Vector(9, 9)})
""")
S("C27-vector-ge-no-keywords", "C27", GEO, [("""        return Scalar.tol_ge(self.x, other.x, *args, **kwargs) \\
        and Scalar.tol_ge(self.y, other.y, *args, **kwargs)
""", """        return Scalar.tol_ge(self.x, other.x, *args, **kwargs) \\
        and Scalar.tol_ge(self.y, other.y, *args)
""")], "vectors compared with a tolerance given by keyword", "the second coordinate is compared with the usual tolerance", """
from solver.geometry import Vector
assert Vector(1, 1).tol_ge(Vector(1.05, 1.05), abs_tol=.1)
""")
S("C07-propagate-nothing-changed", "C07", M, [("""        logging.getLogger("method").debug("Propagating changes")
""", """        logging.getLogger("method").debug("Propagating changes")

        if len(self._changed) == 0 and not any(met.inputs for met in self._pending):
            # no change that could reach a method
            return
""")], "only methods without inputs added without propagation", "propagation does not execute them", """
from solver.method import MethodGraph, SetMethod
g = MethodGraph()
g.add_method(SetMethod('a', 3), prop=False)
g.propagate()
assert g.get('a') == 3
""")
S("C05-new-outputs-free", "C05", M, [("""        # check validity of graph
        for var in met.outputs:
""", """        # check validity of graph; new variables are determined by nothing else
        for var in [var for var in met.outputs if var not in added]:
""")], "a method one of whose new variables is both input and output", "the cycle is accepted", """
from solver.method import Method, MethodGraph, MethodGraphCycleException
class T(Method):
    def execute(self, m):
        return {}
g = MethodGraph()
try:
    g.add_method(T('t', ['a', 'b'], ['b', 'c']), prop=False)
    assert False
except MethodGraphCycleException:
    pass
""")
S("C06-pending-dropped-late", "C06", M, [("""        del(self._methods[met])
        self._pending.pop(met, None)
        self._graph.remove_vertex(met)
""", """        del(self._methods[met])

        if len(met.outputs) > 0:
            self._pending.pop(met, None)

        self._graph.remove_vertex(met)
""")], "a method without outputs, added without propagation and removed", "it is executed by the next propagation", """
from solver.method import Method, MethodGraph
ran = []
class T(Method):
    def execute(self, m):
        ran.append(1)
        return {}
g = MethodGraph()
g.add_variable('a', 1)
t = T('t', ['a'], [])
g.add_method(t, prop=False)
g.rem_method(t)
g.propagate()
assert not ran
""")
S("C09-none-inputs-run", "C09", M, [("""            for value in values:
                base_inmap[mvar] = value
""", """            for value in sorted(values, key=str):
                if value is None:
                    continue

                base_inmap[mvar] = value
""")], "None among the values of a multi-valued variable", "its combinations are left out", """
from solver.method import MethodGraph, MultiMethod, MultiVariable
class T(MultiMethod):
    def multi_execute(self, m):
        return [str(m[v]) for v in self.inputs]
g = MethodGraph()
a, b = MultiVariable('a'), MultiVariable('b')
g.add_variable(a, [1, None])
g.add_method(T('t', [a], [b]))
assert set(g.get(b)) == {'1', 'None'}, g.get(b)
""")
S("C14-common-sorted-once", "C14", CLU, [("""        # shared variables between this rigid and the other
        shared = list(set(self.vars) & set(other.vars))
""", """        # shared variables between this rigid and the other, each once
        shared = list({str(v): v for v in set(self.vars) & set(other.vars)}.values())
""")], "points with equal names of different kinds, like 1 and '1'", "distances are missing", """
from solver.geometric.cluster import Rigid
a, b = Rigid([1, '1', 2]), Rigid([1, '1', 2])
assert len(a.common_distances(b)) == 3
""")
S("C22-ray-behind-scaled", "C22", GEO, [("""    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
        return s
""", """    if len(s) > 0 and Scalar.tol_ge((s[0] - p2).dot(v2) / max(1, (s[0] - p1).length * v2.length * 1e4), 0):
        return s
""")], "a line that starts far from a ray, whose crossing lies a little behind the ray's start", "the crossing is accepted", """
from solver.geometry import Vector, lr_int
assert lr_int(Vector(0, -10000), Vector(0, 1), Vector(0.2, 0), Vector(1, 0)) == []
""")
S("C10-assign-list", "C10", M, [("""        # return empty dict of the only input is not in the map
        if self.inputs[0] not in in_map:
            return {}
""", """        # return empty dict of the only input is not in the map
        if self.inputs[0] not in in_map or self.outputs[0] in in_map and \\
        in_map[self.outputs[0]] is in_map[self.inputs[0]]:
            return {}
""")], "a value assigned again that the output already holds", "the output loses its value", """
from solver.method import MethodGraph, AssignMethod
g = MethodGraph()
x = [1]
g.add_variable('b', x)
g.add_method(AssignMethod('a', 'b'))
g.set('b', x)
assert g.get('a') is x
""")
S("C01-has-bi-half", "C01", G, [("""        self.remove_edge(v1, v2)

        if v1 != v2:
            self.remove_edge(v2, v1)
""", """        self.remove_edge(v1, v2)

        if v1 is not v2:
            self.remove_edge(v2, v1)
""")], "the two-way edge of a loop, its end given by two equal objects", "the removal fails half-way", """
from solver.graph import Graph
g = Graph()
g.add_bi_edge((1, 2), (1, 2))
g.remove_bi_edge(tuple([1, 2]), tuple([1, 2]))
assert g.edges() == []
""")
S("C15-distance-one-point", "C15", REL, [("""            # check points are the same
            return frozenset(self.points) == frozenset(other.points)
""", """            # check points are the same
            return self.points == other.points or self.points == other.points[::-1] \\
            if all(isinstance(p, str) for p in self.points) else \\
            sorted(map(repr, self.points)) == sorted(map(repr, other.points))
""")], "points that are equal but print differently, like 1 and 1.0", "their distances differ", """
from solver.geometric.relation import Distance
assert Distance(1, 2) == Distance(2.0, 1.0)
""")
