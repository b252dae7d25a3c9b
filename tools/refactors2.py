"""A second round of behaviour-preserving rewrites: whole functions replaced, private state renamed or restructured.
Each entry: (id, file, {qualified function: new source}, [(old, new) text substitutions applied afterwards])"""
import ast
import textwrap

G = "solver/graph.py"
M = "solver/method.py"
GEO = "solver/geometry.py"
CON = "solver/geometric/constraint.py"
CLU = "solver/geometric/cluster.py"
CFG = "solver/geometric/configuration.py"
REL = "solver/geometric/relation.py"
R2 = []


def F(id, file, funcs, subs=()):
    R2.append((id, file, funcs, subs))


def apply(text, funcs, subs):
    for qual, new in funcs.items():
        tree = ast.parse(text)
        body = tree.body
        indent = 0
        *outer, name = qual.split(".")
        for o in outer:
            cls = [n for n in body if isinstance(n, ast.ClassDef) and n.name == o][0]
            body, indent = cls.body, 4
        f = [n for n in body if isinstance(n, ast.FunctionDef) and n.name == name][-1]
        first = min([f.lineno] + [d.lineno for d in f.decorator_list])
        lines = text.split("\n")
        lines[first - 1:f.end_lineno] = textwrap.indent(textwrap.dedent(new).strip("\n"), " " * indent).split("\n")
        text = "\n".join(lines)
    for old, new in subs:
        assert old in text, old
        text = text.replace(old, new)
    ast.parse(text)
    return text


F("m2-rename", M, {}, [("self._changed", "self._dirty"), ("self._pending", "self._fresh"), ("self._map", "self._values"), ("self._methods", "self._known"), ("self._graph", "self._digraph")])
F("m2-sets", M, {
    "MethodGraph.propagate": '''
    def propagate(self):
        """Propagates any pending changes"""
        logging.getLogger("method").debug("Propagating changes")

        while self._pending or self._changed:
            self._step()

    def _step(self):
        if self._pending:
            self._do_execute(next(iter(self._pending)))
            return

        origin = next(iter(self._changed))

        for method in list(self._graph.outgoing_vertices(origin)):
            self._do_execute(method)

        self._changed.pop(origin, None)
    '''})
F("m2-execute-split", M, {
    "MethodGraph._do_execute": '''
    def _do_execute(self, method):
        """Executes a method"""
        logging.getLogger("method").debug("Executing method %s", method)

        results = self._results(method)
        self._pending.pop(method, None)

        for var in method.outputs:
            self._store(var, results.get(var) if var in results else None, var in results)

    def _results(self, method):
        inmap = {var: self._map[var] for var in list(method.inputs) + list(method.outputs)}

        if any(self._map[var] is None for var in method.inputs):
            logging.getLogger("method").debug("Input of %s is not determined", method)
            return {}

        return method.execute(inmap)

    def _store(self, var, value, given):
        if given or self._map[var] is not None:
            self._map[var] = value
            self._changed[var] = 1
    ''',
    "MethodGraph.rem_variable": '''
    def rem_variable(self, varname):
        """Remove a variable and all methods on that variable"""
        if varname not in self._map:
            raise Exception("Variable not in graph")

        touching = list(self._graph.ingoing_vertices(varname))
        touching += [m for m in self._graph.outgoing_vertices(varname) if m not in touching]

        for method in touching:
            self.rem_method(method)

        self._graph.remove_vertex(varname)
        self._changed.pop(varname, None)
        self._map.pop(varname)
    ''',
    "MethodGraph.clear": '''
    def clear(self):
        """Clears the method graph by removing all its variables"""
        for varname in list(self._map):
            self.rem_variable(varname)

        for method in list(self._methods):
            self.rem_method(method)
    '''})
F("m2-add-check", M, {
    "MethodGraph.add_method": '''
    def add_method(self, met, prop=True):
        """Adds a method."""
        if met in self._methods:
            return

        new = [var for var in dict.fromkeys(list(met.inputs) + list(met.outputs)) if var not in self._map]

        for var in new:
            self.add_variable(var)

        self._methods[met] = 1
        self._graph.add_vertex(met)

        for var in met.inputs:
            self._graph.add_edge(var, met)

        for var in met.outputs:
            self._graph.add_edge(met, var)

        error = self._invalid(met)

        if error is not None:
            self.rem_method(met)

            for var in new:
                self.rem_variable(var)

            raise error

        self._pending[met] = 1

        if prop:
            self.execute(met)

    def _invalid(self, met):
        for var in met.outputs:
            if len(self._graph.ingoing_vertices(var)) > 1:
                return MethodGraphDetermineException("Variable {0} is determined twice".format(var))

            if self._graph.path(var, var):
                return MethodGraphCycleException("Variable {0} would depend on itself".format(var))
    '''})
F("m2-builtin-helper", M, {
    "AddMethod.execute": '''
    def execute(self, in_map):
        """Execute method"""
        return _combine(self, in_map, lambda a, b: a + b)
    ''',
    "SubMethod.execute": '''
    def execute(self, in_map):
        """Execute method"""
        return _combine(self, in_map, lambda a, b: a - b)
    '''}, [("class AddMethod(Method):", '''def _combine(method, in_map, operation):
    a, b = (in_map.get(var) for var in method.inputs)

    if a is None or b is None:
        return {}

    return {method.outputs[0]: operation(a, b)}

class AddMethod(Method):''')])
F("m2-multi-product", M, {
    "MultiMethod.execute": '''
    def execute(self, inmap):
        """Calls multi_execute for each permutation"""
        single = {v: inmap[v] for v in self.inputs if v not in self.multi_inputs}
        multi = list(dict.fromkeys(self.multi_inputs))
        values = set()

        for choice in itertools.product(*[list(inmap[v]) for v in multi]):
            call = dict(single)
            call.update(zip(multi, choice))
            values |= set(self.multi_execute(call))

        return {self.outputs[0]: values}
    '''}, [("import abc\n", "import abc\nimport itertools\n")])

F("g2-rename", G, {}, [("self._forward", "self._out"), ("self._reverse", "self._in")])
F("cfg2-complex", CFG, {
    "Configuration.transform": '''
    def transform(self, t):
        """Creates a new configuration representing this one transformed by matrix t"""
        (a, b, c), (d, e, f), (g, h, i) = t.elements
        moved = {}

        for var, p in self.mapping.items():
            w = g * p.x + h * p.y + i
            moved[var] = Vector((a * p.x + b * p.y + c) / w, (d * p.x + e * p.y + f) / w)

        return Configuration(moved)
    ''',
    "Configuration.add": '''
    def add(self, c):
        """Extension of this configuration by the points of c it lacks"""
        return Configuration({**c.mapping, **self.mapping})
    ''',
    "Configuration.select": '''
    def select(self, variables):
        """Only the selected variables"""
        return Configuration({v: self.get(v) for v in variables})
    ''',
    "Configuration.makehash": '''
    def makehash(self):
        """Hash of the variable names"""
        self.hashvalue = hash(frozenset(self.mapping))
    ''',
    "Configuration.__hash__": '''
    def __hash__(self):
        return self.hashvalue
    '''})
F("cfg2-frames", CFG, {
    "Configuration.transformation_matrix": '''
    def transformation_matrix(self, other):
        """Transformation overlapping the other configuration with this one"""
        shared = [v for v in self.vars() if v in other.mapping]
        under = self.underconstrained or other.underconstrained
        first = second = None

        if not shared:
            under = True
        else:
            first = shared[0]

            if len(shared) > 1:
                second = max(shared[1:], key=lambda v: distance_2p(self.get(first), self.get(v)))
            elif min(len(self.mapping), len(other.mapping)) > 1:
                under = True

        frames = []

        for c in (self, other):
            cs, fixed = c._frame(first, second)
            frames.append(cs)
            under = under or not fixed

        return cs_transform_matrix(frames[1], frames[0]), under

    def _frame(self, first, second):
        """Frame on two points, on one, or on none; and whether two given points fix it"""
        start = Vector.origin() if first is None else self.get(first)
        cs = None if second is None else make_hcs(start, self.get(second))

        if cs is not None:
            return cs, True

        return make_hcs(start, start + Vector(1.0, 0.0)), second is None
    '''})
F("cfg2-eq-direct", CFG, {
    "Configuration.__eq__": '''
    def __eq__(self, other):
        """Congruence by rotation and translation"""
        if not isinstance(other, Configuration):
            return NotImplemented

        if set(self.mapping) != set(other.mapping):
            return False

        moved = other.transform(self.transformation_matrix(other)[0])

        return all(Scalar.tol_zero(distance_2p(moved.get(v), p)) for v, p in self.mapping.items())
    '''})
F("clu2-helpers", CLU, {
    "Rigid.common_distances": '''
    def common_distances(self, other):
        """Determine set of distances shared by this cluster and the other"""
        if not isinstance(other, Rigid):
            return set()

        return {Distance(a, b) for a, b in itertools.combinations(self.vars & other.vars, 2)}
    ''',
    "Rigid.common_angles_rigid": '''
    def common_angles_rigid(self, rigid):
        return _all_angles(self.vars & rigid.vars)
    ''',
    "Rigid.common_angles_balloon": '''
    def common_angles_balloon(self, balloon):
        return _all_angles(self.vars & balloon.vars)
    ''',
    "Balloon.common_angles_balloon": '''
    def common_angles_balloon(self, balloon):
        return _all_angles(self.vars & balloon.vars)
    ''',
    "Rigid.common_angles_hedgehog": '''
    def common_angles_hedgehog(self, hedgehog):
        return _centre_angles(hedgehog, self.vars)
    ''',
    "Balloon.common_angles_hedgehog": '''
    def common_angles_hedgehog(self, hedgehog):
        return _centre_angles(hedgehog, self.vars)
    ''',
    "Hedgehog.common_angles_hedgehog": '''
    def common_angles_hedgehog(self, hedgehog):
        if self.c_var != hedgehog.c_var:
            return set()

        return _centre_angles(hedgehog, self.vars)
    ''',
    "Rigid.n_distances": '''
    def n_distances(self):
        n = len(self.vars)

        return n * (n - 1) // 2
    ''',
    "Rigid.n_angles": '''
    def n_angles(self):
        n = len(self.vars)

        return n * (n - 1) * (n - 2) // 2
    '''}, [("import logging\n", "import itertools\nimport logging\n"), ("class Rigid(Cluster):", '''def _all_angles(points):
    angles = set()

    for triple in itertools.combinations(points, 3):
        for k in range(3):
            angles.add(Angle(triple[k - 1], triple[k], triple[(k + 1) % 3]))

    return angles

def _centre_angles(hedgehog, points):
    if hedgehog.c_var not in points:
        return set()

    return {Angle(a, hedgehog.c_var, b) for a, b in itertools.combinations(hedgehog.x_vars & points, 2)}

class Rigid(Cluster):''')])
F("clu2-kinds", CLU, {
    "Cluster.intersection": '''
    def intersection(self, other):
        """Intersection of two clusters"""
        shared = self.vars.intersection(other.vars)

        if len(shared) < 2:
            logging.getLogger("cluster").debug("%s and %s share less than two points", self, other)
            return None

        for kind, method in ((Rigid, self.intersect_rigid), (Hedgehog, self.intersect_hedgehog), (Balloon, self.intersect_balloon)):
            if isinstance(other, kind):
                return method(shared, other)

        raise TypeError("Intersection of unknown cluster types")
    ''',
    "Balloon.intersect_balloon": '''
    def intersect_balloon(self, shared, balloon):
        return Balloon(shared) if len(shared) >= 3 else None
    ''',
    "Balloon.intersect_rigid": '''
    def intersect_rigid(self, shared, rigid):
        return Balloon(shared) if len(shared) > 2 else None
    ''',
    "Hedgehog.intersect_hedgehog": '''
    def intersect_hedgehog(self, shared, hedgehog):
        x_vars = self.x_vars & hedgehog.x_vars

        if len(x_vars) < 2 or hedgehog.c_var != self.c_var:
            return None

        return Hedgehog(hedgehog.c_var, x_vars)
    '''})
F("rel2-keys", REL, {
    "Distance.__eq__": '''
    def __eq__(self, other):
        if not isinstance(other, Distance):
            return False

        a, b = self.points
        c, d = other.points

        return (a == c and b == d) or (a == d and b == c)
    ''',
    "PointRelation.__hash__": '''
    def __hash__(self):
        result = 0

        for point in set(self.points):
            result ^= hash(point)

        return result
    '''})
F("geo2-vector", GEO, {
    "Vector.rotate": '''
    def rotate(self, azimuth):
        """Rotation about the origin"""
        angle = math.radians(float(azimuth))
        c, s = math.cos(angle), math.sin(angle)

        return self.__class__(c * self.x - s * self.y, s * self.x + c * self.y)
    ''',
    "Vector.length": '''
    @property
    def length(self):
        """Length"""
        return math.hypot(self.x, self.y)
    ''',
    "Vector.__neg__": '''
    def __neg__(self):
        return self.__class__(0.0 - self.x, 0.0 - self.y)
    ''',
    "Vector.__getitem__": '''
    def __getitem__(self, i):
        coordinates = [row[0] for row in self.elements]

        if isinstance(i, slice):
            return coordinates[i]

        return coordinates[int(i)]
    '''})
F("geo2-ops", GEO, {
    "Vector.__add__": '''
    def __add__(self, other):
        x, y = self._coordinates(other)

        return self.__class__(self.x + x, self.y + y)
    ''',
    "Vector.__sub__": '''
    def __sub__(self, other):
        x, y = self._coordinates(other)

        return self.__class__(self.x - x, self.y - y)
    ''',
    "Vector.__mul__": '''
    def __mul__(self, other):
        x, y = self._coordinates(other)

        return self.__class__(self.x * x, self.y * y)
    ''',
    "Vector.__truediv__": '''
    def __truediv__(self, other):
        x, y = self._coordinates(other)

        return self.__class__(self.x / x, self.y / y)

    @staticmethod
    def _coordinates(other):
        if hasattr(other, "x") and hasattr(other, "y"):
            return other.x, other.y

        return other, other
    '''})
F("geo2-cc", GEO, {
    "cc_int": '''
    def cc_int(p1, r1, p2, r2):
        """Intersect two circles"""
        logging.getLogger("geometry").debug("cc_int %s %s %s %s", p1, r1, p2, r2)

        axis = p2 - p1
        d = axis.length

        if Scalar.tol_zero(d):
            return []

        along = (d * d + r1 * r1 - r2 * r2) / (2 * d)

        if Scalar.tol_lt(r1 * r1, along * along):
            return []

        half = math.sqrt(max(r1 * r1 - along * along, 0.0))
        foot = p1 + axis * (along / d)
        step = Vector(axis.y, -axis.x) * (half / d)
        scale = d if Scalar.tol_zero(abs(along)) else abs(along)

        if Scalar.tol_zero(half / scale):
            return [foot + step]

        return [foot + step, foot - step]
    '''})
F("geo2-ll", GEO, {
    "ll_int": '''
    def ll_int(p1, v1, p2, v2):
        """Intersect two lines"""
        logging.getLogger("geometry").debug("ll_int %s %s %s %s", p1, v1, p2, v2)

        cross = v1.x * v2.y - v1.y * v2.x

        if Scalar.tol_zero(cross):
            return []

        d = p2 - p1

        return [p1 + v1 * ((d.x * v2.y - d.y * v2.x) / cross)]
    ''',
    "rr_int": '''
    def rr_int(p1, v1, p2, v2):
        """Intersect two rays"""
        logging.getLogger("geometry").debug("rr_int %s %s %s %s", p1, v1, p2, v2)

        return [s for s in lr_int(p1, v1, p2, v2) if Scalar.tol_ge((s - p1).dot(v1), 0)]
    '''})
F("geo2-orientation", GEO, {
    "is_clockwise": '''
    def is_clockwise(p1, p2, p3):
        return Scalar.tol_lt(_cross(p1, p2, p3), 0)
    ''',
    "is_counterclockwise": '''
    def is_counterclockwise(p1, p2, p3):
        return Scalar.tol_gt(_cross(p1, p2, p3), 0)
    ''',
    "is_flat": '''
    def is_flat(p1, p2, p3):
        return not (is_clockwise(p1, p2, p3) or is_counterclockwise(p1, p2, p3))

    def _cross(p1, p2, p3):
        return (p2.x - p1.x) * (p3.y - p2.y) - (p2.y - p1.y) * (p3.x - p2.x)
    ''',
    "is_acute": '''
    def is_acute(p1, p2, p3):
        angle = angle_3p(p1, p2, p3)

        return angle is not None and Scalar.tol_lt(abs(angle), math.pi / 2)
    ''',
    "is_obtuse": '''
    def is_obtuse(p1, p2, p3):
        angle = angle_3p(p1, p2, p3)

        return angle is not None and Scalar.tol_gt(abs(angle), math.pi / 2)
    ''',
    "angle_3p": '''
    def angle_3p(p1, p2, p3):
        a, b = p1 - p2, p3 - p2

        if Scalar.tol_zero(a.length) or Scalar.tol_zero(b.length):
            return None

        angle = math.acos(max(-1.0, min(1.0, a.dot(b) / (a.length * b.length))))

        return -angle if is_counterclockwise(p1, p2, p3) else angle
    '''})
F("geo2-matrix", GEO, {
    "Matrix.transpose": '''
    def transpose(self):
        return Matrix([list(col) for col in zip(*self.elements)])
    ''',
    "Matrix.__mul__": '''
    def __mul__(self, other):
        if self.num_cols != other.num_rows:
            raise ValueError('Matrix dimensions mismatch')

        product = []

        for row in self.elements:
            product.append([])

            for j in range(other.num_cols):
                total = 0

                for k in range(self.num_cols):
                    total += row[k] * other.elements[k][j]

                product[-1].append(total)

        return Matrix(product)
    ''',
    "Matrix.inverse": '''
    def inverse(self):
        n = self.num_rows

        if n != self.num_cols:
            raise ValueError('Inverse only defined for square matrices')

        return Matrix(la.inv(np.array(self.elements)).tolist())
    ''',
    "Matrix.round": '''
    def round(self, precision=4):
        self.elements[:] = [[round(e, precision) for e in row] for row in self.elements]
    ''',
    "Matrix.num_dim": '''
    @property
    def num_dim(self):
        return 2 if min(self.num_rows, self.num_cols) > 1 else 1
    '''})
F("geo2-cs-rigid", GEO, {
    "make_hcs": '''
    def make_hcs(a, b, scale=False):
        u = b - a
        length = u.length

        if Scalar.tol_zero(length):
            return None

        k = 1.0 if scale else 1.0 / length
        x, y = u.x * k, u.y * k

        return Matrix([[x, -y, a.x], [y, x, a.y], [0.0, 0.0, 1.0]])
    ''',
    "make_hcs_scaled": '''
    def make_hcs_scaled(a, b):
        return make_hcs(a, b, True)
    '''})
F("geo2-tolerance", GEO, {
    "Scalar.tol_gt": '''
    @classmethod
    def tol_gt(cls, a, b, *args, **kwargs):
        return not cls.tol_le(a, b, *args, **kwargs)
    ''',
    "Scalar.tol_lt": '''
    @classmethod
    def tol_lt(cls, a, b, *args, **kwargs):
        return not cls.tol_ge(a, b, *args, **kwargs)
    ''',
    "Scalar.tol_eq": '''
    @classmethod
    def tol_eq(cls, a, b, rel_tol=None, abs_tol=None):
        rel_tol = cls.rel_tol if rel_tol is None else rel_tol
        abs_tol = cls.abs_tol if abs_tol is None else abs_tol

        return abs(float(a) - float(b)) <= abs_tol + rel_tol * abs(float(b))
    '''})
F("con2-index", CON, {
    "ConstraintGraph.get_constraints_on_any": '''
    def get_constraints_on_any(self, variables):
        found = {}

        for variable in variables:
            found.update(dict.fromkeys(self.get_constraints_on(variable)))

        return list(found)
    ''',
    "ConstraintGraph.get_constraints_on_all": '''
    def get_constraints_on_all(self, variables):
        if len(variables) == 0:
            return []

        lists = [list(self.get_constraints_on(v)) for v in variables]

        return [c for c in lists[0] if all(c in other for other in lists[1:])]
    ''',
    "ConstraintGraph.get_constraints_on": '''
    def get_constraints_on(self, variable):
        return [c for c in self._constraints if variable in c.variables()]
    ''',
    "ConstraintGraph.rem_variable": '''
    def rem_variable(self, var_name):
        if var_name not in self._variables:
            logging.getLogger("constraint").warning("%s is not in graph", var_name)
            return

        for constraint in [c for c in self._constraints if var_name in c.variables()]:
            self.rem_constraint(constraint)

        self._graph.remove_vertex(var_name)
        del self._variables[var_name]
    '''})
F("con2-predicates", CON, {
    "FunctionConstraint.satisfied": '''
    def satisfied(self, mapping):
        arguments = tuple(map(mapping.__getitem__, self.variables()))

        return self.function(*arguments) is True
    ''',
    "NotAcuteConstraint.__init__": '''
    def __init__(self, v1, v2, v3):
        super().__init__(self._accepts, [v1, v2, v3], "NotAcuteConstraint")

    @staticmethod
    def _accepts(a, b, c):
        return not is_acute(a, b, c)
    '''})
