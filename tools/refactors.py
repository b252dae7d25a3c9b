#!/usr/bin/env python3
"""Behaviour-preserving rewrites of every module, applied to scratch copies: the checks must stay quiet on each.
tools/refactors.py [id ...]"""
import os
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf

import refactors2
import refactors3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
G = "solver/graph.py"
M = "solver/method.py"
GEO = "solver/geometry.py"
CON = "solver/geometric/constraint.py"
CLU = "solver/geometric/cluster.py"
CFG = "solver/geometric/configuration.py"
REL = "solver/geometric/relation.py"


def A(id, file, *subs):
    R.append((id, file, subs))


A("graph-lists", G,
  ("        return self._forward.keys()\n", "        return list(self._forward)\n"),
  ("        return self._forward[vertex].keys()\n", "        return list(self._forward[vertex])\n"),
  ("        return self._reverse[vertex].keys()\n", "        return [v for v in self._reverse[vertex]]\n"),
  ("""        l = []

        for i in self._forward:
            for j in self._forward[i]:
                l.append((i, j))

        return l
""", """        return [(i, j) for i, row in self._forward.items() for j in row]
"""),
  ("""        return list(set(self.ingoing_vertices(vertex))
            | set(self.outgoing_vertices(vertex)))
""", """        adjacent = dict(self._reverse[vertex])
        adjacent.update(self._forward[vertex])

        return list(adjacent)
"""))
A("graph-bfs", G,
  ("            key = consider.pop()\n", "            key = consider.pop(0)\n"),
  ("            x = front.pop()\n", "            x = front.pop(0)\n"))
A("graph-path-parents", G, ("""        # map from vertices to shortest path to that key vertex
        trails = {}

        # set start vertex
        trails[start] = [start]

        # list of vertices to consider
        consider = [start]

        # loop until there are no vertices to consider
        while len(consider) > 0:
            # next key to consider
            key = consider.pop()

            # current path
            this_path = trails[key]

            for v in self.outgoing_vertices(key):
                if v == end:
                    # found the end, so return the path we have taken
                    return this_path + [v]
                elif v not in trails:
                    # add vertex to trails taken
                    trails[v] = this_path + [v]

                    # add the vertex to the list to be searched
                    consider.append(v)
                elif len(this_path) + 1 < len(trails[v]):
                    # this trail is shorter than a previous one, so overwrite
                    trails[v] = this_path + [v]

        # no path found
        return []
""", """        parents = {start: None}
        queue = [start]

        for key in queue:
            for v in self.outgoing_vertices(key):
                if v == end:
                    return self._trail(parents, key) + [v]

                if v not in parents:
                    parents[v] = (key,)
                    queue.append(v)

        return []

    @staticmethod
    def _trail(parents, key):
        trail = [key]

        while parents[key] is not None:
            key, = parents[key]
            trail.append(key)

        return trail[::-1]
"""))
A("graph-subsets", G, ("""        # set of vertices to get subsets for
        to_check = set(self.vertices())

        # empty set of subsets
        subsets = set()

        while len(to_check) > 0:
            # get next vertex
            vertex = to_check.pop()

            # set of vertices connected to this one
            connected = set(self.connected(vertex))

            # remove vertices connected to this one from check list
            to_check -= connected

            # add this vertex to the list of connected vertices
            connected.add(vertex)

            # add this subset to the set
            subsets.add(frozenset(connected))

        return subsets
""", """        return {frozenset([vertex]).union(self.connected(vertex)) for vertex in self.vertices()}
"""), ("""        for v in filter(self.has_vertex, vertices):
            # vertex is in the list, so add to new graph
            g.add_vertex(v)

            # copy associated edges
            for w in self._forward[v]:
                if w in vertices:
                    # copy over the edge's value
                    g.set(v, w, self.get(v, w))

        return g
""", """        wanted = [v for v in vertices if self.has_vertex(v)]

        for v in wanted:
            g.add_vertex(v)

        for v, w in self.edges():
            if v in wanted and w in wanted:
                g.add_edge(v, w, self._forward[v][w])

        return g
"""))
A("method-topological", M, ("""        while len(self._changed) != 0:
            pick = list(self._changed.keys())[0]
            methods = self._graph.outgoing_vertices(pick)

            for method in methods:
                self._do_execute(method)

            if pick in self._changed:
                del(self._changed[pick])
""", """        while len(self._changed) != 0:
            # prefer variables nothing else that changed leads to
            pick = next((var for var in self._changed if not any( \\
            var in self._graph.connected_via_outgoing(other) \\
            for other in self._changed if other != var)), \\
            list(self._changed)[-1])

            for method in list(self._graph.outgoing_vertices(pick)):
                self._do_execute(method)

            self._changed.pop(pick, None)
"""))
A("method-lifo", M, ("            pick = list(self._changed.keys())[0]\n", "            pick = next(reversed(self._changed))\n"),
  ("""            for method in methods:
                self._do_execute(method)
""", """            for method in reversed(list(methods)):
                self._do_execute(method)
"""))
A("method-inputs", M, ("""        inmap = {}
        has_nones = False

        for var in method.inputs:
            value = self._map[var]

            if value is None:
                has_nones = True

            inmap[var] = value

        for var in method.outputs:
            inmap[var] = self._map[var]
""", """        inmap = {var: self._map[var] for var in method.inputs + method.outputs}
        has_nones = any(self._map[var] is None for var in method.inputs)
"""), ("""        for var in method.outputs:
            if var in outmap:
                self._map[var] = outmap[var]
                self._changed[var] = 1
            else:
                if self._map[var] is not None:
                    self._changed[var] = 1
                    self._map[var] = None
""", """        for var in method.outputs:
            if var in outmap or self._map[var] is not None:
                self._changed[var] = 1
                self._map[var] = outmap.get(var)
"""))
A("method-validate-first", M, ("""        # check validity of graph
        for var in met.outputs:
            if len(self._graph.ingoing_vertices(var)) > 1:
                self.rem_method(met)

                raise MethodGraphDetermineException("Variable {0} determined \\
by multiple methods".format(var))
            elif len(self._graph.path(var, var)) != 0:
                self.rem_method(met)

                raise MethodGraphCycleException("Cycle in graph not allowed \\
(variable {0})".format(var))
""", """        try:
            self._check(met)
        except Exception:
            self.rem_method(met)
            raise
"""), ("""    def rem_method(self, met):
""", """    def _check(self, met):
        for var in met.outputs:
            if len(self._graph.path(var, var)) != 0:
                raise MethodGraphCycleException("Cycle: {0}".format(var))

        for var in met.outputs:
            if len(self._graph.ingoing_vertices(var)) > 1:
                raise MethodGraphDetermineException("Determined: {0}".format(var))

    def rem_method(self, met):
"""))
A("method-views", M, ("        return self._map.keys()\n", "        return iter(list(self._map))\n"), ("        return self._methods.keys()\n", "        return list(self._methods)\n"),
  ("""        while (len(self._map) > 0):
            self.rem_variable(list(self._map.keys())[0])
""", """        for variable in list(self._map)[::-1]:
            self.rem_variable(variable)
"""))
A("multi-product", M, ("""        values = self._recurse_execute(inmap, base_inmap, self.multi_inputs)

        return {outvar: values}
""", """        values = set()

        for combination in itertools.product(*[list(inmap[mvar]) \\
        for mvar in self.multi_inputs]):
            values.update(self.multi_execute(dict(base_inmap, \\
            **{}) | dict(zip(self.multi_inputs, combination))))

        return {outvar: values}
"""), ("import abc\nimport logging\n", "import abc\nimport itertools\nimport logging\n"))
A("multi-lists", M, ("""            values = inmap[mvar]
            output = set()

            for value in values:
                base_inmap[mvar] = value
                output.update(self._recurse_execute(inmap, base_inmap, \\
                multi_inputs[1:]))

            return output
""", """            return {result for value in inmap[mvar] for result in \\
            self._recurse_execute(inmap, {**base_inmap, mvar: value}, \\
            multi_inputs[1:])}
"""))
A("builtin-shared", M, ("""        # map of outputs to input values
        out_map = {}

        # get variables from lists of inputs and outputs
        a = self.inputs[0]
        b = self.inputs[1]
        c = self.outputs[0]

        # calculate c = a + b if the variables exist in the input map
        if a in in_map and b in in_map \\
        and in_map[a] is not None and in_map[b] is not None:
            # set the value in the output map
            out_map[c] = in_map[a] + in_map[b]

        return out_map
""", """        first, second = [in_map.get(v) for v in self.inputs]

        if first is None or second is None:
            return {}

        return {self.outputs[0]: first + second}
"""))
A("constraint-lists", CON, ("""            return []

        # return the variable's outgoing vertices
        return self._graph.outgoing_vertices(variable)
""", """            return set()

        # return the variable's outgoing vertices
        return set(self._graph.outgoing_vertices(variable))
""") if False else ("""        # return the variable's outgoing vertices
        return self._graph.outgoing_vertices(variable)
""", """        # return the variable's outgoing vertices
        return [c for c in self._constraints if c in self._graph.outgoing_vertices(variable)]
"""), ("""        # empty list of shared constraints
        shared_constraints = []

        # loop over the constraints of the first variable in the list
        for constraint in self.get_constraints_on(variables[0]):
            # default flag
            shared_constraint = True

            # loop over the variables in the rest of the list
            for var in variables[1:]:
                # is this variable constrained by this constraint?
                if var not in constraint.variables():
                    # this variable doesn't share the constraint
                    shared_constraint = False

                    # no point checking the others
                    break

            if shared_constraint:
                # add constraint to list of shared constraints
                shared_constraints.append(constraint)

        return shared_constraints
""", """        return [constraint for constraint in self.get_constraints_on(variables[-1]) \\
        if all(constraint in self.get_constraints_on(var) for var in variables)]
"""), ("""        # empty set of constraints
        constraints = set([])

        for variable in variables:
            constraints.update(set(self.get_constraints_on(variable)))

        # return constraints set as a list
        return list(constraints)
""", """        found = []

        for variable in variables:
            found += [c for c in self.get_constraints_on(variable) if c not in found]

        return found
"""))
A("constraint-satisfied", CON, ("""        return self.function(*[mapping[variable] for variable in \\
        self.variables()]) is True
""", """        arguments = []

        for variable in self.variables():
            arguments.append(mapping[variable])

        result = self.function(*arguments)

        return result is True
"""), ("""        function = lambda x, y, z: not is_obtuse(x, y, z)
""", """        def function(first, second, third):
            return not is_obtuse(first, second, third)

"""))
A("cluster-combinations", CLU, ("from scipy.special import binom\n", "from itertools import combinations\nfrom math import comb\nbinom = comb\n"),
  ("        return int(binom(len(self.vars), 2))\n", "        return comb(len(self.vars), 2)\n"),
  ("        return int(binom(len(self.x_vars), 2))\n", "        return len(self.x_vars) * (len(self.x_vars) - 1) // 2\n"),
  ("""        # loop over first variable
        for i in range(len(shared)):
            # loop over second variable
            for j in range(i):
                # get variables
                v1 = shared[i]
                v2 = shared[j]

                # add distance to set (duplicates will be avoided due to hash
                # values for each distance)
                common_distances.add(Distance(v1, v2))

        return common_distances
""", """        return {Distance(v1, v2) for v1, v2 in combinations(shared, 2)}
"""))
A("cluster-dispatch", CLU, ("""        # return appropriate intersection
        if isinstance(other, Rigid):
            return self.intersect_rigid(shared, other)
        elif isinstance(other, Hedgehog):
            return self.intersect_hedgehog(shared, other)
        elif isinstance(other, Balloon):
            return self.intersect_balloon(shared, other)

        # if all fails
        raise TypeError("Intersection of unknown cluster types")
""", """        for kind, intersect in ((Balloon, self.intersect_balloon), \\
        (Hedgehog, self.intersect_hedgehog), (Rigid, self.intersect_rigid)):
            if isinstance(other, kind):
                return intersect(frozenset(shared), other)

        raise TypeError("Intersection of unknown cluster types")
"""), ("        return list(self.vars)\n", "        return sorted(self.vars, key=id)\n"))
A("binom", CLU, ("from scipy.special import binom\n", "from math import comb as binom\n"))
A("config-helpers", CFG, ("""            # get the coordinates associated with the first two shared variables
            # in this configuration
            p11 = self.mapping[v1]
            p12 = self.mapping[v2]

            # check if the coordinates overlap
            if Scalar.tol_zero((p12 - p11).length):
                # coordinates overlap, so the merge is underconstrained
                underconstrained = True

                # calculate the homogenous coordinate system for the first
                # configuration using only the first shared point
                cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
            else:
                # coordinates are different, so calculate the homogenous
                # coordinate system for the first configuration using the
                # vectors of the first two shared coordinates
                cs1 = make_hcs(p11, p12)

            # get the coordinates associated with the first two shared variables
            # in the other configuration
            p21 = other.mapping[v1]
            p22 = other.mapping[v2]

            # check if the coordinates overlap
            if Scalar.tol_zero((p22 - p21).length):
                # coordinates overlap, so the merge is underconstrained
                underconstrained = True

                # calculate the homogenous coordinate system for the first
                # configuration using only the first shared point
                cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
            else:
                # coordinates are different, so calculate the homogenous
                # coordinate system for the first configuration using the
                # vectors of the first two shared coordinates
                cs2 = make_hcs(p21, p22)
""", """            cs1, overlap1 = self._frame(v1, v2)
            cs2, overlap2 = other._frame(v1, v2)
            underconstrained = underconstrained or overlap1 or overlap2
"""), ("""    def __eq__(self, other):
""", """    def _frame(self, v1, v2):
        a, b = self.mapping[v1], self.mapping[v2]

        if Scalar.tol_zero(distance_2p(a, b)):
            return make_hcs(a, a + Vector(1.0, 0.0)), True

        return make_hcs(a, b), False

    def __eq__(self, other):
"""))
A("config-furthest-pair", CFG, ("""            # get two of the shared variables
            v1 = list(shared)[0]

            # use the one furthest from the first, so that they only overlap if
            # all of them do
            v2 = max([v for v in shared if v != v1], \\
            key=lambda v: distance_2p(self.mapping[v1], self.mapping[v]))
""", """            v1, v2 = max([(v, w) for v in shared for w in shared if v != w], \\
            key=lambda p: distance_2p(self.mapping[p[0]], self.mapping[p[1]]))
"""))
A("config-dicts", CFG, ("""        # empty dict of new coordinates
        new_mapping = {}

        # FIXME: just deep copy the dict - loop not needed
        # loop over each coordinate in this configuration
        for v in self.mapping:
            # copy the coordinate into the new set
            new_mapping[v] = self.mapping[v]

        # loop over the coordinates in the other configuration
        for v in c.mapping:
            # copy any coordinates not present in this configuration
            if v not in new_mapping:
                new_mapping[v] = c.mapping[v]

        # create and return a new configuration using the new coordinates
        return Configuration(new_mapping)
""", """        return Configuration({**c.mapping, **self.mapping})
"""), ("""        # FIXME: probably a smarter way to select the variables
        for v in variables:
            new_mapping[v] = self.mapping[v]
""", """        new_mapping.update((v, self.mapping[v]) for v in variables)
"""), ("""        self.hashvalue = hash(sum([hash(var) for var in self.mapping]))
""", """        self.hashvalue = hash(frozenset(self.mapping))
"""), ("""            ph = (t * Matrix([[self.mapping[v].x, self.mapping[v].y, 1.0]]).transpose()).elements

            # create a vector for the new coordinates
            new_mapping[v] = Vector(ph[0][0] / ph[2][0], ph[1][0] / ph[2][0])
""", """            point = self.mapping[v]
            x, y, w = [a * point.x + b * point.y + c for a, b, c in t.elements]
            new_mapping[v] = Vector(x / w, y / w)
"""))
A("config-eq", CFG, ("""            # test if the points map onto each
            for var in self.mapping:
                # calculate distance between the coordinates for the same
                # variable in each configuration
                d = distance_2p(other_t.get(var), self.get(var))

                # check if d is >0
                if not Scalar.tol_zero(d) and Scalar.tol_gt(d, 0):
                    return False

            # configurations are equal
            return True
""", """            return all(Scalar.tol_zero(distance_2p(self.get(var), other_t.get(var))) for var in self.vars())
"""), ("""            for var in self.mapping:
                if var not in other.mapping:
                    return False

            # determine""", """            if set(self.mapping) != set(other.mapping):
                return False

            # determine"""))
A("relation-keys", REL, ("""            # check points are the same
            return frozenset(self.points) == frozenset(other.points)
""", """            a, b = self.points
            c, d = other.points

            return (a == c and b == d) or (a == d and b == c)
"""), ("""            return self.points[1] == other.points[1] \\
            and frozenset(self.points) == frozenset(other.points)
""", """            return self.points[1] == other.points[1] \\
            and {self.points[0], self.points[2]} == {other.points[0], other.points[2]}
"""), ("""        return hash(frozenset(self.points))
""", """        return sum(map(hash, self.points))
"""))
A("geo-ll-cramer", GEO, ("""    if Scalar.tol_zero(v1.x * v2.y - v1.y * v2.x):
        # lines don't intersect
        return []
    elif not Scalar.tol_zero(v2.y):
        d = p2 - p1
        r2 = -v2.x / v2.y
        f = v1.x + v1.y * r2
        t1 = (d.x + d.y * r2) / f
    else:
        d = p2-p1
        t1 = d.y / v1.y

    return [p1 + v1 * t1]
""", """    det = v1.x * v2.y - v1.y * v2.x

    if Scalar.tol_zero(det):
        return []

    d = p2 - p1

    return [p1 + v1 * ((d.x * v2.y - d.y * v2.x) / det)]
"""))
A("geo-cc-order", GEO, ("""            p3b = p1 + s + Vector(-s.y, s.x) * v / s.length

            return [p3a, p3b]
""", """            p3b = p1 + s + Vector(-s.y, s.x) * v / s.length

            return [p3b, p3a]
"""), ("""        return [Vector(x1, y1), Vector(x2, y2)]
    elif""", """        return [Vector(x2, y2), Vector(x1, y1)]
    elif"""))
A("geo-cross-helper", GEO, ("""    u = p2 - p1
    v = p3 - p2;
    perp_u = Vector(-u.y, u.x)

    # check a < 0 within tolerance
    return Scalar.tol_lt(perp_u.dot(v), 0)
""", """    return Scalar.tol_lt(turn(p1, p2, p3), 0)
"""), ("""    u = p2 - p1
    v = p3 - p2;
    perp_u = Vector(-u.y, u.x)

    # check that a > 0 within tolerance
    return Scalar.tol_gt(perp_u.dot(v), 0)
""", """    return Scalar.tol_gt(turn(p1, p2, p3), 0)
"""), ("""def distance_2p(p1, p2):
""", """def turn(p1, p2, p3):
    return (p2.x - p1.x) * (p3.y - p2.y) - (p2.y - p1.y) * (p3.x - p2.x)

def distance_2p(p1, p2):
"""))
A("geo-angle-atan", GEO, ("""    # calculate vector rotating v21 to v23
    t = v21.dot(v23)

    # clip to +/-1.0 to fix floating point errors
    if t > 1.0:
        t = 1.0
    elif t < -1.0:
        t = -1.0

    # calculate angle from rotation vector
    angle = math.acos(t)
""", """    angle = math.atan2(abs(v21.x * v23.y - v21.y * v23.x), v21.dot(v23))
"""))
A("geo-matrix-loops", GEO, ("""        t_matrix = []

        for row in range(self.num_cols):
            t_row = []

            for col in range(self.num_rows):
                t_row.append(self.elements[col][row])

            t_matrix.append(t_row)

        return Matrix(t_matrix)
""", """        return Matrix([list(column) for column in zip(*self.elements)])
"""), ("""        return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \\
        for col_b in zip(*other.elements)] for row_a in self.elements])
""", """        result = []

        for i in range(self.num_rows):
            row = []

            for j in range(other.num_cols):
                total = 0

                for k in range(self.num_cols):
                    total = total + self.elements[i][k] * other.elements[k][j]

                row.append(total)

            result.append(row)

        return Matrix(result)
"""), ("""        for row in range(self.num_rows):
            for col in range(self.num_cols):
                self.elements[row][col] = round(self.elements[row][col], \\
                precision)
""", """        for row in self.elements:
            row[:] = [round(element, precision) for element in row]
"""), ("""        return self.solve(self.identity(self.num_rows))
""", """        return Matrix(la.inv(np.array(self.elements)).tolist())
"""))
A("geo-tolerance", GEO, ("""        return a > b or cls.tol_eq(a, b, *args, **kwargs)
""", """        return not cls.tol_lt(a, b, *args, **kwargs)
"""), ("""        return a < b or cls.tol_eq(a, b, *args, **kwargs)
""", """        return cls.tol_eq(a, b, *args, **kwargs) or cls.tol_lt(a, b, *args, **kwargs)
"""), ("""        a = float(a)
        b = float(b)

        return abs(a - b) <= (abs_tol + rel_tol * abs(b))
""", """        difference = abs(float(a) - float(b))

        return difference <= rel_tol * abs(float(b)) + abs_tol
"""))
A("geo-vector-ops", GEO, ("""        try:
            other_x = other.x
            other_y = other.y
        except AttributeError:
            other_x = other
            other_y = other

        return self.__class__(self.x + other_x, self.y + other_y)
""", """        other_x, other_y = (other.x, other.y) if hasattr(other, "x") else (other, other)

        return self.__class__(self.x + other_x, self.y + other_y)
"""), ("        return math.sqrt(self.x * self.x + self.y * self.y)\n", "        return math.hypot(self.x, self.y)\n"),
  ("""        x = self.x * math.cos(math.radians(azimuth)) \\
        - self.y * math.sin(math.radians(azimuth))
        y = self.x * math.sin(math.radians(azimuth)) \\
        + self.y * math.cos(math.radians(azimuth))
""", """        turned = complex(self.x, self.y) * complex(math.cos(math.radians(azimuth)), math.sin(math.radians(azimuth)))
        x, y = turned.real, turned.imag
"""))
A("geo-hcs", GEO, ("""    if not scale:
        # normalise resultant
        u /= u.length

    # mirror of u
    v = Vector(-u.y, u.x)

    # return new coordinate system
    return Matrix([
        [u.x, v.x, a.x],
        [u.y, v.y, a.y],
        [0.0, 0.0, 1.0]
    ])
""", """    length = 1.0 if scale else u.length
    c, s = u.x / length, u.y / length

    return Matrix([[c, -s, a.x], [s, c, a.y], [0.0, 0.0, 1.0]])
"""))
A("geo-cl-foot", GEO, ("""    # check that d2 and E are both > 0 within tolerance
    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0):
        sE = math.sqrt(E)
        x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
        x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2

        return [Vector(x1, y1), Vector(x2, y2)]
""", """    if Scalar.tol_gt(d2, 0) and Scalar.tol_gt(E, 0):
        foot = p1 + Vector(D * v.y / d2, -D * v.x / d2)
        step = v * (math.sqrt(E) / d2)

        return [foot + step, foot - step]
"""))


def build(r):
    id, file, *rest = r
    tmp = tempfile.mkdtemp(prefix="refac_")
    copy = os.path.join(tmp, "repo")
    shutil.copytree("/repo", copy, symlinks=True)
    f = os.path.join(copy, file)
    text = open(f).read()
    if len(rest) == 2:
        text = refactors2.apply(text, *rest)
    for old, new in rest[0] if len(rest) == 1 else ():
        assert text.count(old) >= 1, (id, old)
        text = text.replace(old, new)
    open(f, "w").write(text)
    return tmp, copy


def one(args):
    pid, copy, tmp, seed = args
    r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), pid], env=dict(os.environ, RV_REPO=copy, RV_OUT=tmp, VERIF_SEED=seed, VERIF_TIER="quick"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
    return pid, r.returncode, r.stdout


# the checks whose workloads execute the file
CHECKS = {
    "solver/graph.py": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C28",
    "solver/method.py": "C04 C05 C06 C07 C08 C09 C10 C28",
    "solver/geometric/constraint.py": "C11 C12 C28",
    "solver/geometric/cluster.py": "C13 C14 C19 C28",
    "solver/geometric/configuration.py": "C16 C17 C18 C19 C28",
    "solver/geometric/relation.py": "C13 C14 C15 C28",
    "solver/geometry.py": "C12 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28",
}


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    seed = os.environ.get("VERIF_SEED", "1")
    for r in R + refactors2.R2 + refactors3.R3:
        if ids and not any(r[0].startswith(i) for i in ids):
            continue
        tmp, copy = build(r)
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", copy], cwd=copy, env=dict(os.environ, PYTHONPATH=copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            tail = t.stdout.strip().splitlines()[-1]
            with cf.ThreadPoolExecutor(3) as ex:
                res = list(ex.map(one, [(p, copy, tmp, seed) for p in CHECKS[r[1]].split()]))
            bad = [(p, rc, o) for p, rc, o in res if rc]
            print(r[0], "|", tail, "|", "quiet" if not bad else "ALARM " + " ".join("%s(%d)" % (p, rc) for p, rc, _ in bad), flush=True)
            for p, rc, o in bad:
                print("    ", p, "\n      ".join(o.splitlines()[:4])[:1500])
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
