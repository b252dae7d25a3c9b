From 4ea91e3d8a009530c0334ed9cafdd952290c87f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 01/37] fix: removing a graph vertex removes its edges (map()
 is lazy in Python 3)

---
 solver/geometric/constraint.py | 2 +-
 solver/graph.py                | 7 +++++--
 solver/method.py               | 4 ++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 94c2b7d..9a214fa 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -262,7 +262,7 @@ class ConstraintGraph(object):
             return
 
         # remove variable's constraints
-        for constraint in self.get_constraints_on(var_name):
+        for constraint in list(self.get_constraints_on(var_name)):
             self.rem_constraint(constraint)
 
         # remove variable from dict
diff --git a/solver/graph.py b/solver/graph.py
index 87a6e1b..d218002 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -53,8 +53,11 @@ class Graph(object):
             raise Exception("Vertex not in graph")
 
         # remove edges going to and from vertex
-        map(lambda u: self.remove_edge(u, vertex), self.ingoing_vertices(vertex))
-        map(lambda w: self.remove_edge(vertex, w), self.outgoing_vertices(vertex))
+        for u in list(self.ingoing_vertices(vertex)):
+            self.remove_edge(u, vertex)
+
+        for w in list(self.outgoing_vertices(vertex)):
+            self.remove_edge(vertex, w)
 
         # remove vertex in dicts
         del self._forward[vertex]
diff --git a/solver/method.py b/solver/method.py
index edaa099..621ab8a 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -331,9 +331,9 @@ class MethodGraph(object):
             del(self._changed[varname])
 
         # delete all methods on it
-        for vertex in self._graph.ingoing_vertices(varname):
+        for vertex in list(self._graph.ingoing_vertices(varname)):
             self.rem_method(vertex)
-        for vertex in self._graph.outgoing_vertices(varname):
+        for vertex in list(self._graph.outgoing_vertices(varname)):
             self.rem_method(vertex)
 
         # remove it from graph
-- 
2.43.0


From 02c72a745c772ace92fa77436dc078c9ada6ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 02/37] fix: building a graph from another copies its vertices
 and edges

---
 solver/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index d218002..79adf64 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -24,10 +24,12 @@ class Graph(object):
         # copy input graph
         if graph:
             # copy vertices
-            map(self.add_vertex, graph.vertices())
+            for v in graph.vertices():
+                self.add_vertex(v)
 
             # set up edges between vertices
-            map(self.set, [(v, w, graph.get(v, w)) for v, w in graph.edges()])
+            for v, w in graph.edges():
+                self.set(v, w, graph.get(v, w))
 
     def add_vertex(self, vertex):
         """Add vertex to graph
-- 
2.43.0


From aa99739baa130a764328aba66093018c5454ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 03/37] fix: outgoing edges are reported from the vertex, not
 towards it

---
 solver/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 79adf64..e052011 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -300,7 +300,7 @@ class Graph(object):
         :param vertex: vertex to retrieve edges for
         """
 
-        return [(v, vertex) for v in self.outgoing_vertices(vertex)]
+        return [(vertex, v) for v in self.outgoing_vertices(vertex)]
 
     def adjacent_edges(self, vertex):
         """Get a list of ingoing and outgoing edges
-- 
2.43.0


From e19b685db7614c8ac27de7c60d3182a587985e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 04/37] fix: reversing a graph keeps edge values and vertices
 without edges

---
 solver/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index e052011..a8f6861 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -316,9 +316,13 @@ class Graph(object):
         # new empty graph
         g = Graph()
 
+        # add vertices, including those without edges
+        for v in self.vertices():
+            g.add_vertex(v)
+
         # add swapped edges
         for v1, v2 in self.edges():
-            g.add_edge(v2, v1)
+            g.add_edge(v2, v1, self.get(v1, v2))
 
         return g
 
-- 
2.43.0


From 8814993ca78f191ffb276c3681d620707aa3507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 05/37] fix: connected_via_outgoing and connected_via_ingoing
 raised NameError

---
 solver/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index a8f6861..63f5bbe 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -428,7 +428,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=False, outgoing=True, *args, **kwargs)
+        return self.connected(ingoing=False, outgoing=True, *args, **kwargs)
 
     def connected_via_ingoing(self, *args, **kwargs):
         """Gets vertices x connected from specified vertex by following only \
@@ -438,7 +438,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=True, outgoing=False, *args, **kwargs)
+        return self.connected(ingoing=True, outgoing=False, *args, **kwargs)
 
     def connected_subsets(self):
         """Gets a set of (undirectionally) connected subsets of vertices"""
-- 
2.43.0


From ff08078cbbcfc036b184da4b7827de30e77e1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 06/37] fix: connected_subsets raised NameError and could not
 collect its sets

---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 63f5bbe..2024802 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -457,13 +457,13 @@ class Graph(object):
             connected = set(self.connected(vertex))
 
             # remove vertices connected to this one from check list
-            map(to_check.remove, connected)
+            to_check -= connected
 
             # add this vertex to the list of connected vertices
-            connected.add(v)
+            connected.add(vertex)
 
             # add this subset to the set
-            subsets.add(connected)
+            subsets.add(frozenset(connected))
 
         return subsets
 
-- 
2.43.0


From c5ad79434d18ec4f0e70a99128138b75f397cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 07/37] fix: converting a graph to text raised NameError

---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 2024802..e704e4a 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -471,8 +471,8 @@ class Graph(object):
         s = ""
 
         for i in self._forward:
-            v = ", ".join(["{0}: {1}".format(unicode(j), unicode(self.get(i, j))) for j in self._forward[i]])
+            v = ", ".join(["{0}: {1}".format(str(j), str(self.get(i, j))) for j in self._forward[i]])
 
-            s += "{0}: {{1}}".format(unicode(i), v)
+            s += "{0}: {{{1}}}".format(str(i), v)
 
-        return "{{0}}".format(s)
+        return "{{{0}}}".format(s)
-- 
2.43.0


From 64f3bc2e0154d04af2c3a16e3489fd6c0c7b48d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 08/37] fix: SetMethod read an attribute that does not exist

---
 solver/method.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 621ab8a..cfdaaae 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -132,7 +132,7 @@ class SetMethod(Method):
         """Execute method"""
 
         # return a dict with the output set to the value
-        return {self._outputs[0]: self._value}
+        return {self.outputs[0]: self._value}
 
     def __str__(self):
         """String representation of the method
@@ -141,7 +141,7 @@ class SetMethod(Method):
         """
 
         # show the output's set value in the string representation
-        return "{0}({1}={2})".format(self.name, self._outputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)
 
 class AssignMethod(Method):
     """Method representing the assignment of a value to a variable"""
-- 
2.43.0


From 338420d7ab0ca670bcde48f4f329c5ddae8b6fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 09/37] fix: AssignMethod read attributes that do not exist and
 called its input map

---
 solver/method.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index cfdaaae..d51eea3 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -161,15 +161,15 @@ class AssignMethod(Method):
         """Execute method"""
 
         # return empty dict of the only input is not in the map
-        if self._inputs[0] not in in_map:
+        if self.inputs[0] not in in_map:
             return {}
 
         # set the relevant output to the mapping and return
-        return {self._outputs[0]: in_map(self._inputs[0])}
+        return {self.outputs[0]: in_map[self.inputs[0]]}
 
     def __str__(self):
         # show the input's assigned value in the string representation
-        return "{0}({1}={2})".format(self.name, self._inputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self.inputs[0])
 
 class MultiVariable(object):
     """Represents multi-valued variables"""
-- 
2.43.0


From f83737995963903753dc4ebdab549a8f48226304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 10/37] fix: executing a method dropped changes its inputs
 still had to pass on to other methods

---
 solver/method.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index d51eea3..2d0daf6 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -485,11 +485,6 @@ by multiple methods".format(var))
                     self._changed[var] = 1
                     self._map[var] = None
 
-        # clear change flag on input variables
-        for var in method.inputs:
-            if var in self._changed:
-                del(self._changed[var])
-
     def __str__(self):
         variables = ", ".join([str(element) for element in self._map.keys()])
         methods = ", ".join([str(element) for element in self._methods.keys()])
-- 
2.43.0


From f8423180e75b8fbd6319d84b2038c34e7d3178c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 11/37] fix: a method added without propagation, or failing
 when added, is executed by the next propagation

---
 solver/method.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 2d0daf6..6e84ecc 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -302,6 +302,9 @@ class MethodGraph(object):
         # collection of changed variables since last propagation
         self._changed = {}
 
+        # collection of added methods (keys) that have not been executed yet
+        self._pending = {}
+
     def variables(self):
         """Returns an iterator for the variables in the method graph"""
 
@@ -389,6 +392,8 @@ by multiple methods".format(var))
                 raise MethodGraphCycleException("Cycle in graph not allowed \
 (variable {0})".format(var))
 
+        self._pending[met] = 1
+
         if prop:
             # execute includes propagation
             self.execute(met)
@@ -400,6 +405,7 @@ by multiple methods".format(var))
             raise Exception("Method not in graph")
 
         del(self._methods[met])
+        self._pending.pop(met, None)
         self._graph.remove_vertex(met)
 
     def propagate(self):
@@ -414,6 +420,9 @@ by multiple methods".format(var))
 
         logging.getLogger("method").debug("Propagating changes")
 
+        while len(self._pending) != 0:
+            self._do_execute(list(self._pending.keys())[0])
+
         while len(self._changed) != 0:
             pick = list(self._changed.keys())[0]
             methods = self._graph.outgoing_vertices(pick)
@@ -474,6 +483,8 @@ by multiple methods".format(var))
         else:
             outmap = method.execute(inmap)
 
+        self._pending.pop(method, None)
+
         # update values in self._map
         # set output variables changed
         for var in method.outputs:
-- 
2.43.0


From eba9fc008843991b1379bd823cf72d8ae38cefd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 12/37] fix: test for missing values by identity, so vectors
 and arrays can be values

---
 solver/method.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 6e84ecc..3d584bd 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -72,7 +72,7 @@ class AddMethod(Method):
 
         # calculate c = a + b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] + in_map[b]
 
@@ -105,7 +105,7 @@ class SubMethod(Method):
 
         # calculate c = a - b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] - in_map[b]
 
@@ -467,7 +467,7 @@ by multiple methods".format(var))
         for var in method.inputs:
             value = self._map[var]
 
-            if value == None:
+            if value is None:
                 has_nones = True
 
             inmap[var] = value
@@ -492,7 +492,7 @@ by multiple methods".format(var))
                 self._map[var] = outmap[var]
                 self._changed[var] = 1
             else:
-                if self._map[var] != None:
+                if self._map[var] is not None:
                     self._changed[var] = 1
                     self._map[var] = None
 
-- 
2.43.0


From 58521df6caae4086f2709ad8210a0914575dd23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 13/37] fix: setting an unknown variable is refused before it
 corrupts the method graph

---
 solver/method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 3d584bd..2550962 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -353,6 +353,9 @@ class MethodGraph(object):
         :param prop: whether to propagate changes
         """
 
+        if varname not in self._map:
+            raise KeyError(varname)
+
         self._map[varname] = value
         self._changed[varname] = 1
 
-- 
2.43.0


From 94ec3e931a29ef7a491918daab6beb05b59cfdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 14/37] fix: selection constraints hid variables(), so no
 constraint graph accepted them

---
 solver/geometric/constraint.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 9a214fa..4003ec0 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -83,14 +83,14 @@ class SelectionConstraint(Constraint, metaclass=abc.ABCMeta):
 
     def __init__(self, name, variables):
         self.name = str(name)
-        self.variables = list(variables)
+        self._variables = list(variables)
 
     @abc.abstractmethod
     def satisfied(self, mapping):
         raise NotImplementedError
 
     def __str__(self):
-        return "{0}({1})".format(self.name, ", ".join(self.variables))
+        return "{0}({1})".format(self.name, ", ".join(self.variables()))
 
 class FunctionConstraint(SelectionConstraint):
     """Selects solutions where function returns True when applied to specified \
@@ -119,11 +119,11 @@ class FunctionConstraint(SelectionConstraint):
         # return whether the result of the function with the variables as
         # arguments is True or not
         return self.function(*[mapping[variable] for variable in \
-        self.variables]) is True
+        self.variables()]) is True
 
     def __str__(self):
         return "{0}({1}, {2})".format(self.name, self.function.__name__, \
-        ", ".join(self.variables))
+        ", ".join(self.variables()))
 
 class NotClockwiseConstraint(FunctionConstraint):
     """Selects triplets that are not clockwise (i.e. counter clockwise or \
-- 
2.43.0


From 232ea27dbc819fd313e25e4ecb2e06456ee6f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 15/37] fix: converting a PlusConstraint to text raised
 TypeError

---
 solver/geometric/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 4003ec0..c8ebf5c 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -72,7 +72,7 @@ class PlusConstraint(Constraint):
         self._variables = [a, b, c]
 
     def __str__(self):
-        return "PlusConstraint({0})".format(", ".join(self.variables))
+        return "PlusConstraint({0})".format(", ".join(self.variables()))
 
     def satisfied(self, mapping):
         return mapping[self._variables[0]] + mapping[self._variables[1]] \
-- 
2.43.0


From 37cbe6a1094fc9b54d975aad896108aa62689833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 16/37] fix: constraints on variables that are not strings can
 be converted to text

---
 solver/geometric/constraint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index c8ebf5c..bb284a1 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -72,7 +72,7 @@ class PlusConstraint(Constraint):
         self._variables = [a, b, c]
 
     def __str__(self):
-        return "PlusConstraint({0})".format(", ".join(self.variables()))
+        return "PlusConstraint({0})".format(", ".join(map(str, self.variables())))
 
     def satisfied(self, mapping):
         return mapping[self._variables[0]] + mapping[self._variables[1]] \
@@ -90,7 +90,7 @@ class SelectionConstraint(Constraint, metaclass=abc.ABCMeta):
         raise NotImplementedError
 
     def __str__(self):
-        return "{0}({1})".format(self.name, ", ".join(self.variables()))
+        return "{0}({1})".format(self.name, ", ".join(map(str, self.variables())))
 
 class FunctionConstraint(SelectionConstraint):
     """Selects solutions where function returns True when applied to specified \
@@ -123,7 +123,7 @@ class FunctionConstraint(SelectionConstraint):
 
     def __str__(self):
         return "{0}({1}, {2})".format(self.name, self.function.__name__, \
-        ", ".join(self.variables()))
+        ", ".join(map(str, self.variables())))
 
 class NotClockwiseConstraint(FunctionConstraint):
     """Selects triplets that are not clockwise (i.e. counter clockwise or \
-- 
2.43.0


From 73a82ecb802c7cb802810c657c05799596ebd30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 17/37] fix: a constraint without variables can be removed
 again

---
 solver/geometric/constraint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index bb284a1..8a6c56d 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -283,6 +283,7 @@ class ConstraintGraph(object):
 
         # create entry in constraints dict
         self._constraints[constraint] = None
+        self._graph.add_vertex(constraint)
 
         # process the constraint's variables
         for var in constraint.variables():
-- 
2.43.0


From adefe3f2dd810ff8d2cee8204f45defa690946eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 18/37] fix: a method without variables can be removed again

---
 solver/method.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 2550962..8a17d60 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -374,6 +374,8 @@ class MethodGraph(object):
         self._methods[met] = 1
 
         # update graph
+        self._graph.add_vertex(met)
+
         for var in met.inputs:
             self.add_variable(var)
             self._graph.add_edge(var, met)
-- 
2.43.0


From 21be7838facd94881eb68d07001303669efba216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 19/37] fix: relations keep their points as given, so they can
 be hashed and printed

---
 solver/geometric/relation.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 8d76fdb..fb76904 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -2,7 +2,6 @@
 between two points or the angle between three."""
 
 import abc
-import numpy as np
 
 class PointRelation(object, metaclass=abc.ABCMeta):
     """Represents a relation between a set of points"""
@@ -20,7 +19,7 @@ class PointRelation(object, metaclass=abc.ABCMeta):
 
     def __str__(self):
         # comma separated points
-        points = ", ".join(self.points)
+        points = ", ".join(map(str, self.points))
 
         return "{0}({1})".format(self.pretty_name, points)
 
@@ -49,12 +48,12 @@ class Distance(PointRelation):
 
         :param a: first point
         :param b: second point
-        :type a: :class:`~.np.ndarray`
-        :type b: :class:`~.np.ndarray`
+        :type a: hashable
+        :type b: hashable
         """
 
         # call parent constructor
-        super(Distance, self).__init__([np.array(a), np.array(b)])
+        super(Distance, self).__init__([a, b])
 
     def __eq__(self, other):
         if isinstance(other, Distance):
@@ -77,13 +76,13 @@ class Angle(PointRelation):
         :param a: first point
         :param b: second point
         :param c: third point
-        :type a: :class:`~.np.ndarray`
-        :type b: :class:`~.np.ndarray`
-        :type c: :class:`~.np.ndarray`
+        :type a: hashable
+        :type b: hashable
+        :type c: hashable
         """
 
         # call parent constructor
-        super(Angle, self).__init__([np.array(a), np.array(b), np.array(c)])
+        super(Angle, self).__init__([a, b, c])
 
     def __eq__(self, other):
         if isinstance(other, Angle):
-- 
2.43.0


From 8002501cfd4c396b0ad5c5ac8a1560fd22f850ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 20/37] fix: counting the angles of a hedgehog raised NameError

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 2a21157..219a0cd 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -394,7 +394,7 @@ class Hedgehog(Cluster):
         return 0
 
     def n_angles(self):
-        return int(binomial(len(self.x_vars), 2))
+        return int(binom(len(self.x_vars), 2))
 
 class Balloon(Cluster):
     """Represents a set of points that is invariant to rotation, translation and
-- 
2.43.0


From 6e99bd584e1eb4253b0b11356acb0cb6afe51f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 21/37] fix: common_constraints raised NameError

---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 219a0cd..8586bd0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -101,7 +101,7 @@ class Cluster(object, metaclass=abc.ABCMeta):
         """
 
         # union between distances and angles in common
-        return common_distances(self, other) | common_angles(self, other)
+        return self.common_distances(other) | self.common_angles(other)
 
     @abc.abstractmethod
     def common_distances(self, other):
-- 
2.43.0


From 5daa45bd29e6413af514cabed78f241eb218ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 22/37] fix: a hedgehog does not count its central variable
 among the others

---
 solver/geometric/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 8586bd0..560e1fd 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -300,7 +300,8 @@ class Hedgehog(Cluster):
         *c_var* and *x_vars*
         """
 
-        x_vars = set(x_vars)
+        # the central variable is not one of the other variables
+        x_vars = set(x_vars) - set([c_var])
 
         # check there are enough other variables
         if len(x_vars) < 2:
-- 
2.43.0


From ec8dea2e70936b1318c9baf333704e130a1e2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 23/37] fix: circle-line intersection called math.abs, which
 does not exist

---
 solver/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index d0063ae..e1c72f9 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -485,8 +485,8 @@ def cl_int(p1, r, p2, v):
         sE = math.sqrt(E)
         x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
         x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
-        y1 = p1.y + (-D * v.x + math.abs(v.y) * sE) / d2
-        y2 = p1.y + (-D * v.x - math.abs(v.y) * sE) / d2
+        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
+        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
 
         return [Vector(x1, y1), Vector(x2, y2)]
     elif Scalar.tol_zero(E):
-- 
2.43.0


From 9b7c7a187fd53790cc9459fe879b23839a62c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 24/37] fix: ray-ray intersection checks both rays, and
 parallel rays do not raise

---
 solver/geometry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index e1c72f9..87f26b7 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -606,12 +606,9 @@ def rr_int(p1, v1, p2, v2):
     # assume rays are lines and get intersection
     s = ll_int(p1, v1, p2, v2)
 
-    a1 = (s[0] - p1).dot(v1)
-    a2 = (s[0] - p2).dot(v2)
-
     # check len(s) > 0 and a1 >= 0 and a2 >= 0 within tolerance
     if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \
-    and Scalar.tol_ge((s[0] - p1).dot(v1), 0):
+    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
         return s
     else:
         # lines intersect behind rays
-- 
2.43.0


From c4b807d3a5dea370b2fdaeef83b53c71475c646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 25/37] fix: overlap configurations on distinct shared points
 when there are any

---
 solver/geometric/configuration.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index cf421b1..03fc53d 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -171,9 +171,13 @@ class Configuration(object):
             cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
             cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
         else:
-            # get the first two shared variables
+            # get two of the shared variables
             v1 = list(shared)[0]
-            v2 = list(shared)[1]
+
+            # use the one furthest from the first, so that they only overlap if
+            # all of them do
+            v2 = max([v for v in shared if v != v1], \
+            key=lambda v: distance_2p(self.mapping[v1], self.mapping[v]))
 
             # FIXME: the following code is duplicated for this and the other
             # configuration - turn into a function (this is also used in merge_scale)
-- 
2.43.0


From 6ea07a26419deb9bdf3d87e0432fc88a59a07e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 26/37] fix: a merged configuration keeps its underconstrained
 status

---
 solver/geometric/configuration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 03fc53d..7d9e861 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -125,6 +125,7 @@ class Configuration(object):
 
         # add the transformed version of other configuration to this one
         merged_configuration = self.add(other.transform(t))
+        merged_configuration.underconstrained = underconstrained
 
         return merged_configuration, underconstrained
 
-- 
2.43.0


From 4f361c1335a37f72867cca00e6dcb5afcd9023b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 27/37] fix: compare matrix dimensions by value, not identity

---
 solver/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 87f26b7..705c90f 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -108,7 +108,7 @@ class Matrix(object):
         return dimensions
 
     def inverse(self):
-        if self.num_rows is not self.num_cols:
+        if self.num_rows != self.num_cols:
             raise Exception('Inverse only defined for square matrices')
 
         return self.solve(self.identity(self.num_rows))
@@ -141,7 +141,7 @@ class Matrix(object):
         :type other: :class:`.Matrix`
         """
 
-        if self.num_cols is not other.num_rows:
+        if self.num_cols != other.num_rows:
             raise Exception('Matrix dimensions mismatch')
 
         return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \
-- 
2.43.0


From 08cbd1ce1468de62fe806fcb392ed1736b1043ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 28/37] fix: the transpose of a vector is a matrix

---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 705c90f..1e11fbe 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -126,7 +126,7 @@ class Matrix(object):
 
             t_matrix.append(t_row)
 
-        return(self.__class__(t_matrix))
+        return Matrix(t_matrix)
 
     def round(self, precision=4):
         for row in range(self.num_rows):
-- 
2.43.0


From cf85b8b8afadd5d3d84be1b91aa7ab6b35791f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 29/37] fix: comparing a configuration with another kind of
 object does not fail

---
 solver/geometric/configuration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 7d9e861..97201a8 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -239,7 +239,9 @@ class Configuration(object):
         # FIXME: this contains code that is probably redundant - the hash value
         # will probably pick up a lot of the other checks
 
-        if hash(self) != hash(other):
+        if not isinstance(other, Configuration):
+            return NotImplemented
+        elif hash(self) != hash(other):
             # the hash value for configurations is based only on the variable
             # names, so if these differ then the configurations are definitely
             # different
-- 
2.43.0


From 6cf5368df9514cde34e1ad24dd86804c028a82b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 30/37] fix: comparing a vector with another kind of object
 does not fail

---
 solver/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 1e11fbe..fbacd4a 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -333,7 +333,10 @@ class Vector(Matrix):
         return self < other or self.tol_eq(other, *args, **kwargs)
 
     def __eq__(self, other):
-        return self.x == other.x and self.y == other.y
+        try:
+            return self.x == other.x and self.y == other.y
+        except AttributeError:
+            return NotImplemented
 
     def __lt__(self, other):
         return self.x < other.x and self.y < other.y
-- 
2.43.0


From 8892b288dae7bac33c51dc8ba5070b3b4cb296d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:37 +0000
Subject: [PATCH 31/37] fix: distances and angles were unhashable because they
 define equality

---
 solver/geometric/relation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index fb76904..a236b70 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -63,6 +63,9 @@ class Distance(PointRelation):
         # other object is not same type
         return False
 
+    # defining equality would otherwise remove the inherited hash
+    __hash__ = PointRelation.__hash__
+
 class Angle(PointRelation):
     """Represents a defined angle between three points"""
 
@@ -93,3 +96,6 @@ class Angle(PointRelation):
 
         # other object is not same type
         return False
+
+    # defining equality would otherwise remove the inherited hash
+    __hash__ = PointRelation.__hash__
-- 
2.43.0


From 9c5e6f15ad0e5fcc58ff5cfdfb0aba93c0cabc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 32/37] fix: a refused removal of a bidirectional edge changes
 nothing, and a loop can be removed

---
 solver/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index e704e4a..3d088d5 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -122,8 +122,13 @@ class Graph(object):
         :param v2: second vertex
         """
 
+        if not self.has_bi_edge(v1, v2):
+            raise Exception("Edge not in graph")
+
         self.remove_edge(v1, v2)
-        self.remove_edge(v2, v1)
+
+        if v1 != v2:
+            self.remove_edge(v2, v1)
 
     def has_vertex(self, vertex):
         """Check if this graph contains the specified vertex
-- 
2.43.0


From 85dd51d9494ae859ac7dd1e8dd794519ec799335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 33/37] fix: a vector is negative only if both its coordinates
 are

---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index fbacd4a..96dda5a 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -314,7 +314,7 @@ class Vector(Matrix):
         Assumes 0 is positive
         """
 
-        return not self.is_positive()
+        return self.x < 0 and self.y < 0
 
     def tol_eq(self, other, *args, **kwargs):
         return Scalar.tol_eq(self.x, other.x, *args, **kwargs) \
-- 
2.43.0


From 42e307fff1decae2c66ce23a1b9120bb1870449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 34/37] fix: tolerant vector comparisons apply the tolerance to
 each coordinate

---
 solver/geometry.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 96dda5a..ee74472 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -321,16 +321,20 @@ class Vector(Matrix):
         and Scalar.tol_eq(self.y, other.y, *args, **kwargs)
 
     def tol_gt(self, other, *args, **kwargs):
-        return self > other and not self.tol_eq(other, *args, **kwargs)
+        return Scalar.tol_gt(self.x, other.x, *args, **kwargs) \
+        and Scalar.tol_gt(self.y, other.y, *args, **kwargs)
 
     def tol_lt(self, other, *args, **kwargs):
-        return self < other and not self.tol_eq(other, *args, **kwargs)
+        return Scalar.tol_lt(self.x, other.x, *args, **kwargs) \
+        and Scalar.tol_lt(self.y, other.y, *args, **kwargs)
 
     def tol_ge(self, other, *args, **kwargs):
-        return self > other or self.tol_eq(other, *args, **kwargs)
+        return Scalar.tol_ge(self.x, other.x, *args, **kwargs) \
+        and Scalar.tol_ge(self.y, other.y, *args, **kwargs)
 
     def tol_le(self, other, *args, **kwargs):
-        return self < other or self.tol_eq(other, *args, **kwargs)
+        return Scalar.tol_le(self.x, other.x, *args, **kwargs) \
+        and Scalar.tol_le(self.y, other.y, *args, **kwargs)
 
     def __eq__(self, other):
         try:
-- 
2.43.0


From 5bee96e47a93a8d62b58e58fc52406949d55e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 35/37] fix: constraints on callables without a name can be
 converted to text

---
 solver/geometric/constraint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 8a6c56d..4f155d0 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -122,7 +122,10 @@ class FunctionConstraint(SelectionConstraint):
         self.variables()]) is True
 
     def __str__(self):
-        return "{0}({1}, {2})".format(self.name, self.function.__name__, \
+        # not every callable has a name, e.g. partial functions
+        function = getattr(self.function, "__name__", self.function)
+
+        return "{0}({1}, {2})".format(self.name, function, \
         ", ".join(map(str, self.variables())))
 
 class NotClockwiseConstraint(FunctionConstraint):
-- 
2.43.0


From 73d43d198184156ff3be326be7cf125f85cda387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 36/37] fix: clear() also removes methods without variables

---
 solver/method.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/method.py b/solver/method.py
index 8a17d60..7293835 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -439,11 +439,15 @@ by multiple methods".format(var))
                 del(self._changed[pick])
 
     def clear(self):
-        """Clears the method graph by removing all its variables"""
+        """Clears the method graph by removing all its variables and methods"""
 
         while (len(self._map) > 0):
             self.rem_variable(list(self._map.keys())[0])
 
+        # methods without variables
+        while (len(self._methods) > 0):
+            self.rem_method(list(self._methods.keys())[0])
+
     def execute(self, method):
         """Executes a method and propagates changes
 
-- 
2.43.0


From debc103e9637dd2ef6ecad17076c4df3558f9466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 37/37] fix: a refused method leaves no new variables behind

---
 solver/method.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 7293835..5849d36 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -371,6 +371,9 @@ class MethodGraph(object):
         if met in self._methods:
             return
 
+        # variables that are new, to be removed again if the method is refused
+        added = set(met.inputs + met.outputs).difference(self._map)
+
         self._methods[met] = 1
 
         # update graph
@@ -389,11 +392,17 @@ class MethodGraph(object):
             if len(self._graph.ingoing_vertices(var)) > 1:
                 self.rem_method(met)
 
+                for new in added:
+                    self.rem_variable(new)
+
                 raise MethodGraphDetermineException("Variable {0} determined \
 by multiple methods".format(var))
             elif len(self._graph.path(var, var)) != 0:
                 self.rem_method(met)
 
+                for new in added:
+                    self.rem_variable(new)
+
                 raise MethodGraphCycleException("Cycle in graph not allowed \
 (variable {0})".format(var))
 
-- 
2.43.0

