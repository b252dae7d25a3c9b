"""A third round of behaviour-preserving rewrites: other data structures, other propagation orders, other formulas, other messages."""
from refactors2 import G, M, GEO, CON, CLU, CFG, REL, R2

R3 = []


def F(id, file, funcs, subs=()):
    R3.append((id, file, funcs, subs))


F("g3-bfs-and-closures", G, {
    "Graph.path": '''
    def path(self, start, end):
        """Gets an arbitrary path (list of vertices) from start to end"""
        came_from = {}
        level = [start]

        while level:
            following = []

            for u in level:
                for w in self._forward[u]:
                    if w == end:
                        steps = [w, u]

                        while u != start:
                            u = came_from[u]
                            steps.append(u)

                        return steps[::-1]

                    if w != start and w not in came_from:
                        came_from[w] = u
                        following.append(w)

            level = following

        return []
    ''',
    "Graph.connected": '''
    def connected(self, vertex, ingoing=True, outgoing=True):
        """Gets vertices x connected to the specified vertex"""
        maps = ([self._forward] if outgoing or not ingoing else []) + ([self._reverse] if ingoing else [])
        seen = {vertex}
        order = [vertex]

        for x in order:
            for edges in maps:
                for y in edges[x]:
                    if y not in seen:
                        seen.add(y)
                        order.append(y)

        return order[1:]
    ''',
    "Graph.connected_subsets": '''
    def connected_subsets(self):
        """Gets a set of (undirectionally) connected subsets of vertices"""
        component = {}

        for v in self._forward:
            if v not in component:
                members = frozenset([v] + self.connected(v))
                component.update((m, members) for m in members)

        return set(component.values())
    ''',
    "Graph.edges": '''
    def edges(self):
        """Get a list of the edges in this graph"""
        return [(v, w) for v, targets in self._forward.items() for w in targets]
    ''',
    "Graph.adjacent_vertices": '''
    def adjacent_vertices(self, vertex):
        """Get a list of adjacent (ingoing or outgoing) vertices"""
        return list(dict.fromkeys([*self._reverse[vertex], *self._forward[vertex]]))
    '''})
F("g3-derived", G, {
    "Graph.subgraph": '''
    def subgraph(self, vertices):
        """Derive subgraph containing specified vertices and enclosed edges"""
        g = Graph()
        kept = [v for v in vertices if v in self._forward]

        for v in kept:
            g.add_vertex(v)

        for v in kept:
            for w, value in self._forward[v].items():
                if w in g._forward:
                    g._forward[v][w] = value
                    g._reverse[w][v] = value

        return g
    ''',
    "Graph.copy": '''
    def copy(self):
        """Return a copy of this graph as a new object"""
        return Graph(self)
    ''',
    "Graph.reverse": '''
    def reverse(self):
        """Get a copy of this graph with the edges reversed"""
        g = Graph()
        g._forward = {v: dict(sources) for v, sources in self._reverse.items()}
        g._reverse = {v: dict(targets) for v, targets in self._forward.items()}
        return g
    ''',
    "Graph.__init__": '''
    def __init__(self, graph=None):
        self._forward, self._reverse = {}, {}

        if graph is None:
            return

        for v in graph.vertices():
            self.add_vertex(v)

        for v in graph.vertices():
            for w in graph.outgoing_vertices(v):
                self._forward[v][w] = self._reverse[w][v] = graph.get(v, w)
    '''})
# Propagating the latest change first is not among these: after a failure it can retry the same reader on a value that is
# about to be replaced, over and over, so that good inputs never arrive (C08 reports it).
F("m3-topological", M, {
    "MethodGraph.propagate": '''
    def propagate(self):
        """Propagates any pending changes, executing each affected method once where nothing fails"""
        affected = dict(self._pending)
        todo = list(self._changed)

        for method in self._pending:
            todo += method.outputs

        seen = set()

        while todo:
            var = todo.pop()

            if var not in seen:
                seen.add(var)

                for method in self._graph.outgoing_vertices(var):
                    affected[method] = 1
                    todo += method.outputs

        missing = {m: sum(any(v in p.outputs for p in affected) for v in set(m.inputs)) for m in affected}
        ready = [m for m in affected if missing[m] == 0]

        while ready:
            method = ready.pop(0)

            if method in self._pending or any(v in self._changed for v in method.inputs):
                self._do_execute(method)

            for var in method.outputs:
                for reader in self._graph.outgoing_vertices(var):
                    missing[reader] -= 1

                    if missing[reader] == 0:
                        ready.append(reader)

        self._changed.clear()
    '''})
F("m3-check-before", M, {
    "MethodGraph.add_method": '''
    def add_method(self, met, prop=True):
        """Adds a method."""
        if met in self._methods:
            return

        for var in met.outputs:
            if var in self._map and len(self._graph.ingoing_vertices(var)) > 0:
                raise MethodGraphDetermineException("Variable %s determined by multiple methods" % (var,))

        for var in met.outputs:
            if var in met.inputs or any(var in self._map and source in self._map and self._graph.path(var, source) for source in met.inputs):
                raise MethodGraphCycleException("Cycle in graph not allowed (variable %s)" % (var,))

        self._methods[met] = 1
        self._graph.add_vertex(met)

        for var in list(met.inputs) + list(met.outputs):
            self.add_variable(var)

        for var in met.inputs:
            self._graph.add_edge(var, met)

        for var in met.outputs:
            self._graph.add_edge(met, var)

        self._pending[met] = 1

        if prop:
            self.execute(met)
    '''})
F("m3-multi-iterative", M, {
    "MultiMethod.execute": '''
    def execute(self, inmap):
        """Calls multi_execute for each permutation of multi-valued input variables"""
        import itertools

        fixed = {v: inmap[v] for v in self.inputs if v not in self.multi_inputs}
        results = []

        for choice in itertools.product(*[inmap[v] for v in self.multi_inputs]):
            results.append(self.multi_execute(dict(fixed, **{}) | dict(zip(self.multi_inputs, choice))))

        if not self.multi_inputs:
            return {self.outputs[0]: results[0]}

        return {self.outputs[0]: set(itertools.chain.from_iterable(results))}
    '''})
F("geo3-circle-line-foot", GEO, {
    "cl_int": '''
    def cl_int(p1, r, p2, v):
        """Intersect circle (p1, r) with line (p2, v)"""
        d2 = v.dot(v)
        cross = (p2.x - p1.x) * v.y - (p2.y - p1.y) * v.x
        E = r * r * d2 - cross * cross

        if E < 0 and not Scalar.tol_zero(E):
            return []

        # foot of the perpendicular from the centre
        foot = Vector(p1.x + cross * v.y / d2, p1.y - cross * v.x / d2)

        if Scalar.tol_zero(E) or Scalar.tol_zero(d2):
            return [foot]

        # half a chord along the line
        k = math.sqrt(E) / d2 * (-1 if v.y < 0 else 1)

        return [Vector(foot.x + v.x * k, foot.y + v.y * k), Vector(foot.x - v.x * k, foot.y - v.y * k)]
    ''',
    "cr_int": '''
    def cr_int(p1, r, p2, v):
        """Intersect a circle (p1, r) with ray (p2, v) (a half-line)"""
        return [s for s in cl_int(p1, r, p2, v) if Scalar.tol_ge((s.x - p2.x) * v.x + (s.y - p2.y) * v.y, 0)]
    '''})
F("geo3-lines-cramer", GEO, {
    "ll_int": '''
    def ll_int(p1, v1, p2, v2):
        """Intersect two lines"""
        det = v1.x * v2.y - v1.y * v2.x

        if Scalar.tol_zero(det):
            return []

        d = p2 - p1
        t = (d.x * v2.y - d.y * v2.x) / det

        return [Vector(p1.x + v1.x * t, p1.y + v1.y * t)]
    ''',
    "rr_int": '''
    def rr_int(p1, v1, p2, v2):
        """Intersect ray with ray"""
        return [s for s in lr_int(p1, v1, p2, v2) if Scalar.tol_ge((s - p1).dot(v1), 0)]
    '''})
F("geo3-angles", GEO, {
    "angle_3p": '''
    def angle_3p(p1, p2, p3):
        """Calculates the angle rotating vector p2p1 to vector p2p3"""
        a, b = p1 - p2, p3 - p2
        la, lb = math.hypot(a.x, a.y), math.hypot(b.x, b.y)

        if Scalar.tol_zero(la) or Scalar.tol_zero(lb):
            return None

        t = min(1.0, max(-1.0, (a.x * b.x + a.y * b.y) / (la * lb)))

        return -math.acos(t) if is_counterclockwise(p1, p2, p3) else math.acos(t)
    ''',
    "is_clockwise": '''
    def is_clockwise(p1, p2, p3):
        """Calculates whether or not triangle p1, p2, p3 is orientated clockwise"""
        return Scalar.tol_lt((p2.x - p1.x) * (p3.y - p2.y) - (p2.y - p1.y) * (p3.x - p2.x), 0)
    ''',
    "is_counterclockwise": '''
    def is_counterclockwise(p1, p2, p3):
        """Calculates whether or not triangle p1, p2, p3 is orientated counter-clockwise"""
        return Scalar.tol_gt((p2.x - p1.x) * (p3.y - p2.y) - (p2.y - p1.y) * (p3.x - p2.x), 0)
    ''',
    "is_flat": '''
    def is_flat(p1, p2, p3):
        """Calculates whether or not triangle p1, p2, p3 is flat"""
        return not (is_clockwise(p1, p2, p3) or is_counterclockwise(p1, p2, p3))
    ''',
    "distance_2p": '''
    def distance_2p(p1, p2):
        """Calculates the Euclidean distance between two points"""
        return math.hypot(p2.x - p1.x, p2.y - p1.y)
    '''})
F("geo3-circles-frame", GEO, {
    "cc_int": '''
    def cc_int(p1, r1, p2, r2):
        """Intersect circle (p1, r1) with circle (p2, r2)"""
        dx, dy = p2.x - p1.x, p2.y - p1.y
        d = math.hypot(dx, dy)

        if Scalar.tol_le(d, 0):
            return []

        # coordinates along and across the line of centres
        u = (r1 * r1 - r2 * r2) / (2 * d) + d / 2
        rest = r1 * r1 - u * u

        if Scalar.tol_lt(r1 * r1, u * u):
            return []

        v = math.sqrt(rest) if rest > 0 else 0.0
        ex, ey = dx / d, dy / d
        foot = Vector(p1.x + ex * u, p1.y + ey * u)
        along = abs(u)

        if Scalar.tol_zero(along):
            first = Vector(foot.x + ey * r1, foot.y - ex * r1)

            return [first] if Scalar.tol_zero(r1 / d) else [first, Vector(foot.x - ey * r1, foot.y + ex * r1)]

        k = 1 if u > 0 else -1
        first = Vector(foot.x + k * ey * v, foot.y - k * ex * v)

        return [first] if Scalar.tol_zero(v / along) else [first, Vector(foot.x - k * ey * v, foot.y + k * ex * v)]
    '''})
F("cfg3-containers", CFG, {
    "Configuration.select": '''
    def select(self, variables):
        """Return a new configuration that is a subconfiguration of this one"""
        return Configuration(dict((v, self.mapping[v]) for v in set(variables)))
    ''',
    "Configuration.add": '''
    def add(self, other):
        """Returns a new configuration which is this one plus the given one"""
        mapping = dict(other.mapping)
        mapping.update(self.mapping)
        return Configuration(mapping)
    ''',
    "Configuration.vars": '''
    def vars(self):
        """Return the names"""
        return list(self.mapping)
    '''})

F("log3-messages", M, {}, [('"Executing method %s", method', '"now: %r of %d methods", method, len(self._methods)'), ('logging.getLogger("method")', 'logging.getLogger("solver.method")')])
F("log3-geometry", GEO, {}, [('logging.getLogger("geometry").debug(', 'LOG.debug('), ("import logging\n", "import logging\n\nLOG = logging.getLogger(__name__)\n")])

