From 21dbf4db85549541f856cee991e5885f922d5982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 01/33] fix: Graph(graph) copies the vertices and edges (map is
 lazy in Python 3)

---
 solver/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 87a6e1b..32151ab 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -24,10 +24,12 @@ class Graph(object):
         # copy input graph
         if graph:
             # copy vertices
-            map(self.add_vertex, graph.vertices())
+            for v in graph.vertices():
+                self.add_vertex(v)
 
             # set up edges between vertices
-            map(self.set, [(v, w, graph.get(v, w)) for v, w in graph.edges()])
+            for v, w in graph.edges():
+                self.set(v, w, graph.get(v, w))
 
     def add_vertex(self, vertex):
         """Add vertex to graph
-- 
2.43.0


From b3efd573731578e46a7ef30392927e6feb26a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 02/33] fix: Graph.remove_vertex removes the incident edges
 (map is lazy in Python 3)

---
 solver/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 32151ab..79adf64 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -55,8 +55,11 @@ class Graph(object):
             raise Exception("Vertex not in graph")
 
         # remove edges going to and from vertex
-        map(lambda u: self.remove_edge(u, vertex), self.ingoing_vertices(vertex))
-        map(lambda w: self.remove_edge(vertex, w), self.outgoing_vertices(vertex))
+        for u in list(self.ingoing_vertices(vertex)):
+            self.remove_edge(u, vertex)
+
+        for w in list(self.outgoing_vertices(vertex)):
+            self.remove_edge(vertex, w)
 
         # remove vertex in dicts
         del self._forward[vertex]
-- 
2.43.0


From 0528b321901318d1f09b51c5da73c5dc63f2baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 03/33] fix: Graph queries return lists as documented, not live
 dictionary views

MethodGraph.rem_variable and ConstraintGraph.rem_variable remove vertices while
looping over these results, which raises RuntimeError on a view.
---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 79adf64..dd85d4a 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -214,7 +214,7 @@ class Graph(object):
     def vertices(self):
         """Get a list of vertices in this graph"""
 
-        return self._forward.keys()
+        return list(self._forward.keys())
 
     def edges(self):
         """Get a list of the edges in this graph"""
@@ -264,7 +264,7 @@ class Graph(object):
         """
 
         # look up forward graph
-        return self._forward[vertex].keys()
+        return list(self._forward[vertex].keys())
 
     def ingoing_vertices(self, vertex):
         """Get a list of vertices connected to the specified vertex via an \
@@ -274,7 +274,7 @@ class Graph(object):
         """
 
         # look up the reverse graph
-        return self._reverse[vertex].keys()
+        return list(self._reverse[vertex].keys())
 
     def adjacent_vertices(self, vertex):
         """Get a list of adjacent (ingoing or outgoing) vertices
-- 
2.43.0


From 2f7a040f5a83d3e1ab2df4c42438c9dd16780b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 04/33] fix: Graph.outgoing_edges returns edges that leave the
 vertex

---
 solver/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index dd85d4a..d216ff2 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -300,7 +300,7 @@ class Graph(object):
         :param vertex: vertex to retrieve edges for
         """
 
-        return [(v, vertex) for v in self.outgoing_vertices(vertex)]
+        return [(vertex, v) for v in self.outgoing_vertices(vertex)]
 
     def adjacent_edges(self, vertex):
         """Get a list of ingoing and outgoing edges
-- 
2.43.0


From efbbb251f357a4d3d2b22cee8651182e960cac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 05/33] fix: Graph.connected_via_outgoing/ingoing call the
 method, not an undefined name

---
 solver/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index d216ff2..13249a0 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -424,7 +424,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=False, outgoing=True, *args, **kwargs)
+        return self.connected(ingoing=False, outgoing=True, *args, **kwargs)
 
     def connected_via_ingoing(self, *args, **kwargs):
         """Gets vertices x connected from specified vertex by following only \
@@ -434,7 +434,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=True, outgoing=False, *args, **kwargs)
+        return self.connected(ingoing=True, outgoing=False, *args, **kwargs)
 
     def connected_subsets(self):
         """Gets a set of (undirectionally) connected subsets of vertices"""
-- 
2.43.0


From 3c1a7efb6b5fe5a69140287cdcf9379a72da9b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 06/33] fix: Graph.connected_subsets works

map is lazy in Python 3, v was undefined, and sets are not hashable.
---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 13249a0..e0a4f02 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -453,13 +453,13 @@ class Graph(object):
             connected = set(self.connected(vertex))
 
             # remove vertices connected to this one from check list
-            map(to_check.remove, connected)
+            to_check -= connected
 
             # add this vertex to the list of connected vertices
-            connected.add(v)
+            connected.add(vertex)
 
             # add this subset to the set
-            subsets.add(connected)
+            subsets.add(frozenset(connected))
 
         return subsets
 
-- 
2.43.0


From a25a159ed913bd5173b8381cd3ec22c0677a85ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 07/33] fix: Graph.reverse keeps isolated vertices and edge
 values

---
 solver/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index e0a4f02..88adf3c 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -316,9 +316,13 @@ class Graph(object):
         # new empty graph
         g = Graph()
 
+        # add vertices, including those without edges
+        for v in self.vertices():
+            g.add_vertex(v)
+
         # add swapped edges
         for v1, v2 in self.edges():
-            g.add_edge(v2, v1)
+            g.add_edge(v2, v1, self.get(v1, v2))
 
         return g
 
-- 
2.43.0


From 872910c491455dbabf013d84d68b6aba0ec63f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 08/33] fix: Graph can be printed (unicode does not exist in
 Python 3)

---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 88adf3c..ae657b1 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -471,8 +471,8 @@ class Graph(object):
         s = ""
 
         for i in self._forward:
-            v = ", ".join(["{0}: {1}".format(unicode(j), unicode(self.get(i, j))) for j in self._forward[i]])
+            v = ", ".join(["{0}: {1}".format(str(j), str(self.get(i, j))) for j in self._forward[i]])
 
-            s += "{0}: {{1}}".format(unicode(i), v)
+            s += "{0}: {{{1}}}".format(str(i), v)
 
-        return "{{0}}".format(s)
+        return "{{{0}}}".format(s)
-- 
2.43.0


From 4f402c6813787c053a4c7a299bfb543d913996c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 09/33] fix: Graph.remove_bi_edge changes nothing when it
 refuses

It removed the first direction before finding the second one missing.
---
 solver/graph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index ae657b1..df29c9f 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -122,8 +122,14 @@ class Graph(object):
         :param v2: second vertex
         """
 
+        if not self.has_bi_edge(v1, v2):
+            raise Exception("Edge not in graph")
+
         self.remove_edge(v1, v2)
-        self.remove_edge(v2, v1)
+
+        # a bidirectional edge from a vertex to itself is a single edge
+        if self.has_edge(v2, v1):
+            self.remove_edge(v2, v1)
 
     def has_vertex(self, vertex):
         """Check if this graph contains the specified vertex
-- 
2.43.0


From 9ed7e43bd8ea118482d143dda9c2fb7ad5cdf228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 10/33] fix: SetMethod and AssignMethod can be executed and
 printed

They used attributes that do not exist and called the input map.
---
 solver/method.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index edaa099..1821603 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -132,7 +132,7 @@ class SetMethod(Method):
         """Execute method"""
 
         # return a dict with the output set to the value
-        return {self._outputs[0]: self._value}
+        return {self.outputs[0]: self._value}
 
     def __str__(self):
         """String representation of the method
@@ -141,7 +141,7 @@ class SetMethod(Method):
         """
 
         # show the output's set value in the string representation
-        return "{0}({1}={2})".format(self.name, self._outputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)
 
 class AssignMethod(Method):
     """Method representing the assignment of a value to a variable"""
@@ -161,15 +161,15 @@ class AssignMethod(Method):
         """Execute method"""
 
         # return empty dict of the only input is not in the map
-        if self._inputs[0] not in in_map:
+        if self.inputs[0] not in in_map:
             return {}
 
         # set the relevant output to the mapping and return
-        return {self._outputs[0]: in_map(self._inputs[0])}
+        return {self.outputs[0]: in_map[self.inputs[0]]}
 
     def __str__(self):
         # show the input's assigned value in the string representation
-        return "{0}({1}={2})".format(self.name, self._inputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self.inputs[0])
 
 class MultiVariable(object):
     """Represents multi-valued variables"""
-- 
2.43.0


From 2738da64265ef32093407fd2e1f284a81b105d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 11/33] fix: method graphs hold values of any type

Comparing with None by == or != raises for Vector values and is ambiguous for
arrays.
---
 solver/method.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 1821603..f615c80 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -72,7 +72,7 @@ class AddMethod(Method):
 
         # calculate c = a + b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] + in_map[b]
 
@@ -105,7 +105,7 @@ class SubMethod(Method):
 
         # calculate c = a - b if the variables exist in the input map
         if a in in_map and b in in_map \
-        and in_map[a] != None and in_map[b] != None:
+        and in_map[a] is not None and in_map[b] is not None:
             # set the value in the output map
             out_map[c] = in_map[a] - in_map[b]
 
@@ -458,7 +458,7 @@ by multiple methods".format(var))
         for var in method.inputs:
             value = self._map[var]
 
-            if value == None:
+            if value is None:
                 has_nones = True
 
             inmap[var] = value
@@ -481,7 +481,7 @@ by multiple methods".format(var))
                 self._map[var] = outmap[var]
                 self._changed[var] = 1
             else:
-                if self._map[var] != None:
+                if self._map[var] is not None:
                     self._changed[var] = 1
                     self._map[var] = None
 
-- 
2.43.0


From efb660ce6fb9b75f547ef63d3839dd688efee80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 12/33] fix: propagation reaches every method that depends on a
 change

Executing a method cleared the change flags of all its inputs, although other
methods on those inputs had not been executed yet, so they kept stale values.
propagate() clears the flag of a variable once all methods on it have run.
---
 solver/method.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index f615c80..9b49964 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -485,11 +485,6 @@ by multiple methods".format(var))
                     self._changed[var] = 1
                     self._map[var] = None
 
-        # clear change flag on input variables
-        for var in method.inputs:
-            if var in self._changed:
-                del(self._changed[var])
-
     def __str__(self):
         variables = ", ".join([str(element) for element in self._map.keys()])
         methods = ", ".join([str(element) for element in self._methods.keys()])
-- 
2.43.0


From 6f59db6ee8ac3f4ce5855236663c0d0d044b3236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 13/33] fix: propagate() executes methods added without
 propagation

add_method(met, prop=False) followed by propagate() never executed the method,
and neither did a propagation following an execution that failed.
---
 solver/method.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 9b49964..677056b 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -302,6 +302,9 @@ class MethodGraph(object):
         # collection of changed variables since last propagation
         self._changed = {}
 
+        # collection of methods that have not been executed since being added
+        self._pending = {}
+
     def variables(self):
         """Returns an iterator for the variables in the method graph"""
 
@@ -389,6 +392,9 @@ by multiple methods".format(var))
                 raise MethodGraphCycleException("Cycle in graph not allowed \
 (variable {0})".format(var))
 
+        # leave execution to propagate() if it doesn't happen here
+        self._pending[met] = 1
+
         if prop:
             # execute includes propagation
             self.execute(met)
@@ -400,6 +406,10 @@ by multiple methods".format(var))
             raise Exception("Method not in graph")
 
         del(self._methods[met])
+
+        if met in self._pending:
+            del(self._pending[met])
+
         self._graph.remove_vertex(met)
 
     def propagate(self):
@@ -414,6 +424,9 @@ by multiple methods".format(var))
 
         logging.getLogger("method").debug("Propagating changes")
 
+        for method in list(self._pending.keys()):
+            self._do_execute(method)
+
         while len(self._changed) != 0:
             pick = list(self._changed.keys())[0]
             methods = self._graph.outgoing_vertices(pick)
@@ -485,6 +498,10 @@ by multiple methods".format(var))
                     self._changed[var] = 1
                     self._map[var] = None
 
+        # method is no longer waiting for its first execution
+        if method in self._pending:
+            del(self._pending[method])
+
     def __str__(self):
         variables = ", ".join([str(element) for element in self._map.keys()])
         methods = ", ".join([str(element) for element in self._methods.keys()])
-- 
2.43.0


From 4e48406d80858b338e2edd7e2dcdfce9f18d3428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 14/33] fix: MethodGraph.set refuses unknown variables without
 side effects

It recorded a value and a change for a variable that is not in the graph, so
that this and every later propagation raised KeyError.
---
 solver/method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index 677056b..caf3d0e 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -353,6 +353,9 @@ class MethodGraph(object):
         :param prop: whether to propagate changes
         """
 
+        if varname not in self._map:
+            raise Exception("Variable not in graph")
+
         self._map[varname] = value
         self._changed[varname] = 1
 
-- 
2.43.0


From a8f240fbadd4f757f8c239dc0d0676ac88457158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 15/33] fix: selection constraints can be added to a constraint
 graph

A list attribute hid the variables() method that ConstraintGraph calls. The
variables may be any hashable objects, so convert them when printing.
---
 solver/geometric/constraint.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 94c2b7d..7132e41 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -83,14 +83,15 @@ class SelectionConstraint(Constraint, metaclass=abc.ABCMeta):
 
     def __init__(self, name, variables):
         self.name = str(name)
-        self.variables = list(variables)
+        self._variables = list(variables)
 
     @abc.abstractmethod
     def satisfied(self, mapping):
         raise NotImplementedError
 
     def __str__(self):
-        return "{0}({1})".format(self.name, ", ".join(self.variables))
+        return "{0}({1})".format(self.name, ", ".join([str(variable) \
+        for variable in self._variables]))
 
 class FunctionConstraint(SelectionConstraint):
     """Selects solutions where function returns True when applied to specified \
@@ -119,11 +120,11 @@ class FunctionConstraint(SelectionConstraint):
         # return whether the result of the function with the variables as
         # arguments is True or not
         return self.function(*[mapping[variable] for variable in \
-        self.variables]) is True
+        self._variables]) is True
 
     def __str__(self):
         return "{0}({1}, {2})".format(self.name, self.function.__name__, \
-        ", ".join(self.variables))
+        ", ".join([str(variable) for variable in self._variables]))
 
 class NotClockwiseConstraint(FunctionConstraint):
     """Selects triplets that are not clockwise (i.e. counter clockwise or \
-- 
2.43.0


From 5ea601a72992879d765d119b9031608cb80115f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 16/33] fix: PlusConstraint can be printed

---
 solver/geometric/constraint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 7132e41..3e2dd67 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -72,7 +72,8 @@ class PlusConstraint(Constraint):
         self._variables = [a, b, c]
 
     def __str__(self):
-        return "PlusConstraint({0})".format(", ".join(self.variables))
+        return "PlusConstraint({0})".format(", ".join([str(variable) \
+        for variable in self._variables]))
 
     def satisfied(self, mapping):
         return mapping[self._variables[0]] + mapping[self._variables[1]] \
-- 
2.43.0


From 5c392bf82f5691f7e67e0ef267dd1a002b52a36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 17/33] fix: ConstraintGraph.add_constraint keeps no trace of a
 constraint that fails

The constraint was registered before being asked for its variables.
---
 solver/geometric/constraint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 3e2dd67..3ac1c40 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -283,11 +283,14 @@ class ConstraintGraph(object):
         if constraint in self._constraints:
             return
 
+        # get the variables first, in case the constraint cannot provide them
+        variables = constraint.variables()
+
         # create entry in constraints dict
         self._constraints[constraint] = None
 
         # process the constraint's variables
-        for var in constraint.variables():
+        for var in variables:
             # add the variable to the graph
             self.add_variable(var)
 
-- 
2.43.0


From 0adfb3f5632ff759d1353dcfc3e4d4e31bc6e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 18/33] fix: distances and angles can be hashed and printed

Points were wrapped in arrays, which are not hashable, so no common constraint
could ever be computed.
---
 solver/geometric/relation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 8d76fdb..f8d6afa 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -2,7 +2,6 @@
 between two points or the angle between three."""
 
 import abc
-import numpy as np
 
 class PointRelation(object, metaclass=abc.ABCMeta):
     """Represents a relation between a set of points"""
@@ -20,7 +19,7 @@ class PointRelation(object, metaclass=abc.ABCMeta):
 
     def __str__(self):
         # comma separated points
-        points = ", ".join(self.points)
+        points = ", ".join([str(point) for point in self.points])
 
         return "{0}({1})".format(self.pretty_name, points)
 
@@ -54,7 +53,7 @@ class Distance(PointRelation):
         """
 
         # call parent constructor
-        super(Distance, self).__init__([np.array(a), np.array(b)])
+        super(Distance, self).__init__([a, b])
 
     def __eq__(self, other):
         if isinstance(other, Distance):
@@ -83,7 +82,7 @@ class Angle(PointRelation):
         """
 
         # call parent constructor
-        super(Angle, self).__init__([np.array(a), np.array(b), np.array(c)])
+        super(Angle, self).__init__([a, b, c])
 
     def __eq__(self, other):
         if isinstance(other, Angle):
-- 
2.43.0


From 34ce9acffa8b0ae59acb189dc0bf9934be6d8426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 19/33] fix: Cluster.common_constraints and Hedgehog.n_angles
 use defined names

---
 solver/geometric/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 2a21157..8586bd0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -101,7 +101,7 @@ class Cluster(object, metaclass=abc.ABCMeta):
         """
 
         # union between distances and angles in common
-        return common_distances(self, other) | common_angles(self, other)
+        return self.common_distances(other) | self.common_angles(other)
 
     @abc.abstractmethod
     def common_distances(self, other):
@@ -394,7 +394,7 @@ class Hedgehog(Cluster):
         return 0
 
     def n_angles(self):
-        return int(binomial(len(self.x_vars), 2))
+        return int(binom(len(self.x_vars), 2))
 
 class Balloon(Cluster):
     """Represents a set of points that is invariant to rotation, translation and
-- 
2.43.0


From 090a744cf463ea1bbd6ad73638fe84e870ffa852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 20/33] fix: merging and comparing configurations with
 coinciding points

The two shared points that fix the transformation were whichever came first in
the iteration order of a set. If these coincide, other shared points did not
end up overlapping, merges were reported underconstrained and equal
configurations unequal, depending on the hash seed.
---
 solver/geometric/configuration.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index cf421b1..a28733d 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -171,9 +171,8 @@ class Configuration(object):
             cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
             cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
         else:
-            # get the first two shared variables
-            v1 = list(shared)[0]
-            v2 = list(shared)[1]
+            # get two shared variables, preferably with distinct coordinates
+            v1, v2 = self._reference_variables(other, list(shared))
 
             # FIXME: the following code is duplicated for this and the other
             # configuration - turn into a function (this is also used in merge_scale)
@@ -222,6 +221,22 @@ class Configuration(object):
 
         return t, underconstrained
 
+    def _reference_variables(self, other, shared):
+        """Choose two shared variables whose coordinates overlap in neither
+        configuration, or the first two if there are no such variables
+
+        :param other: other configuration
+        :param shared: list of shared variables
+        """
+
+        for i in range(len(shared)):
+            for j in range(i):
+                if not any(Scalar.tol_zero(distance_2p(c.get(shared[i]), \
+                c.get(shared[j]))) for c in (self, other)):
+                    return shared[j], shared[i]
+
+        return shared[0], shared[1]
+
     def __eq__(self, other):
         """Configuration equality operator
 
-- 
2.43.0


From efc92e681b534187a0c25125f87ef90cdb143fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 21/33] fix: a merged configuration remembers that it is
 underconstrained

The status was only returned, so a later merge of the result, which looks at the
status of both configurations, reported a unique solution.
---
 solver/geometric/configuration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index a28733d..0d4fe42 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -125,6 +125,7 @@ class Configuration(object):
 
         # add the transformed version of other configuration to this one
         merged_configuration = self.add(other.transform(t))
+        merged_configuration.underconstrained = underconstrained
 
         return merged_configuration, underconstrained
 
-- 
2.43.0


From 6c9bc7a09b371e5b5fc7bde56a5aeea9871efa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 22/33] fix: circle-line intersection with two solutions
 (math.abs does not exist)

---
 solver/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index d0063ae..e1c72f9 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -485,8 +485,8 @@ def cl_int(p1, r, p2, v):
         sE = math.sqrt(E)
         x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
         x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
-        y1 = p1.y + (-D * v.x + math.abs(v.y) * sE) / d2
-        y2 = p1.y + (-D * v.x - math.abs(v.y) * sE) / d2
+        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
+        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
 
         return [Vector(x1, y1), Vector(x2, y2)]
     elif Scalar.tol_zero(E):
-- 
2.43.0


From 3618adaf8b728418e917e2e6a1731658200f0ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 23/33] fix: ray-ray intersection checks both rays and allows
 parallel ones

---
 solver/geometry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index e1c72f9..87f26b7 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -606,12 +606,9 @@ def rr_int(p1, v1, p2, v2):
     # assume rays are lines and get intersection
     s = ll_int(p1, v1, p2, v2)
 
-    a1 = (s[0] - p1).dot(v1)
-    a2 = (s[0] - p2).dot(v2)
-
     # check len(s) > 0 and a1 >= 0 and a2 >= 0 within tolerance
     if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \
-    and Scalar.tol_ge((s[0] - p1).dot(v1), 0):
+    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
         return s
     else:
         # lines intersect behind rays
-- 
2.43.0


From 49d604ea089df2b4b3bc5c6136d28843f7ca7bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 24/33] fix: constraints without variables can be removed from
 a constraint graph

---
 solver/geometric/constraint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 3ac1c40..b8552f1 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -289,6 +289,10 @@ class ConstraintGraph(object):
         # create entry in constraints dict
         self._constraints[constraint] = None
 
+        # create a vertex in the graph for the constraint, which may be on no
+        # variable at all
+        self._graph.add_vertex(constraint)
+
         # process the constraint's variables
         for var in variables:
             # add the variable to the graph
-- 
2.43.0


From 4422c4ccf6adb76a84a3ea0572b098d5aa827a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 25/33] fix: methods without inputs and outputs can be removed
 from a method graph

---
 solver/method.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index caf3d0e..cbe609e 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -374,6 +374,8 @@ class MethodGraph(object):
         self._methods[met] = 1
 
         # update graph
+        self._graph.add_vertex(met)
+
         for var in met.inputs:
             self.add_variable(var)
             self._graph.add_edge(var, met)
-- 
2.43.0


From 19dacd6ea25307b4c284a3fdb479769aa6aa644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 26/33] fix: distances and angles were unhashable, so clusters
 could not list common constraints

---
 solver/geometric/relation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index f8d6afa..4a500c5 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -63,6 +63,9 @@ class Distance(PointRelation):
         # other object is not same type
         return False
 
+    # defining equality would otherwise make the relation unhashable
+    __hash__ = PointRelation.__hash__
+
 class Angle(PointRelation):
     """Represents a defined angle between three points"""
 
@@ -93,3 +96,6 @@ class Angle(PointRelation):
 
         # other object is not same type
         return False
+
+    # defining equality would otherwise make the relation unhashable
+    __hash__ = PointRelation.__hash__
-- 
2.43.0


From 7cdc069bc40aefc0be04fa52f5be81770b833177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:58 +0000
Subject: [PATCH 27/33] fix: print function constraints whose predicate has no
 name

---
 solver/geometric/constraint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index b8552f1..1cc1de4 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -124,7 +124,10 @@ class FunctionConstraint(SelectionConstraint):
         self._variables]) is True
 
     def __str__(self):
-        return "{0}({1}, {2})".format(self.name, self.function.__name__, \
+        # not every callable has a name
+        name = getattr(self.function, "__name__", None) or str(self.function)
+
+        return "{0}({1}, {2})".format(self.name, name, \
         ", ".join([str(variable) for variable in self._variables]))
 
 class NotClockwiseConstraint(FunctionConstraint):
-- 
2.43.0


From a473f2b39752631e70f3b23558549a8e09a15a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:14 +0000
Subject: [PATCH 28/33] fix: align configurations on the shared points furthest
 apart

---
 solver/geometric/configuration.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 0d4fe42..9f04e65 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -1,6 +1,7 @@
 """Provides a Configuration class representing a set of named points with
 coordinates"""
 
+import itertools
 import logging
 from ..geometry import Scalar, Vector, Matrix, distance_2p, make_hcs, \
 make_hcs_scaled, cs_transform_matrix
@@ -172,7 +173,7 @@ class Configuration(object):
             cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
             cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
         else:
-            # get two shared variables, preferably with distinct coordinates
+            # get two shared variables, preferably far apart
             v1, v2 = self._reference_variables(other, list(shared))
 
             # FIXME: the following code is duplicated for this and the other
@@ -223,20 +224,16 @@ class Configuration(object):
         return t, underconstrained
 
     def _reference_variables(self, other, shared):
-        """Choose two shared variables whose coordinates overlap in neither
-        configuration, or the first two if there are no such variables
+        """Choose the two shared variables that lie furthest apart in both
+        configurations, as points close to one another hardly determine a
+        direction
 
         :param other: other configuration
         :param shared: list of shared variables
         """
 
-        for i in range(len(shared)):
-            for j in range(i):
-                if not any(Scalar.tol_zero(distance_2p(c.get(shared[i]), \
-                c.get(shared[j]))) for c in (self, other)):
-                    return shared[j], shared[i]
-
-        return shared[0], shared[1]
+        return max(itertools.combinations(shared, 2), key=lambda pair: \
+        min(distance_2p(c.get(pair[0]), c.get(pair[1])) for c in (self, other)))
 
     def __eq__(self, other):
         """Configuration equality operator
-- 
2.43.0


From eebc75887148131f651c05b41ee414c30827f71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:41 +0000
Subject: [PATCH 29/33] fix: do not count a hedgehog's centre among its other
 variables

---
 solver/geometric/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 8586bd0..72c4795 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -300,7 +300,8 @@ class Hedgehog(Cluster):
         *c_var* and *x_vars*
         """
 
-        x_vars = set(x_vars)
+        # the central variable is not one of the others
+        x_vars = set(x_vars) - set([c_var])
 
         # check there are enough other variables
         if len(x_vars) < 2:
-- 
2.43.0


From 5e6f558f1263b81937e8d151c90e08416de45d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 30/33] fix: transpose vectors into row matrices

---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 87f26b7..4516b87 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -126,7 +126,7 @@ class Matrix(object):
 
             t_matrix.append(t_row)
 
-        return(self.__class__(t_matrix))
+        return Matrix(t_matrix)
 
     def round(self, precision=4):
         for row in range(self.num_rows):
-- 
2.43.0


From af677deb2e779a573050f1560e3c586d8bb872c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 31/33] fix: compare matrix sizes by value

---
 solver/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 4516b87..1e11fbe 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -108,7 +108,7 @@ class Matrix(object):
         return dimensions
 
     def inverse(self):
-        if self.num_rows is not self.num_cols:
+        if self.num_rows != self.num_cols:
             raise Exception('Inverse only defined for square matrices')
 
         return self.solve(self.identity(self.num_rows))
@@ -141,7 +141,7 @@ class Matrix(object):
         :type other: :class:`.Matrix`
         """
 
-        if self.num_cols is not other.num_rows:
+        if self.num_cols != other.num_rows:
             raise Exception('Matrix dimensions mismatch')
 
         return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \
-- 
2.43.0


From 3a88d8fc17d7f971253486d88bc751efe5654600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 32/33] fix: intersect lines of any slope by their determinant

---
 solver/geometry.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 1e11fbe..80cd197 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -543,17 +543,15 @@ def ll_int(p1, v1, p2, v2):
     logging.getLogger("geometry").debug("ll_int %s %s %s %s", p1, v1, p2, \
     v2)
 
-    if Scalar.tol_zero(v1.x * v2.y - v1.y * v2.x):
+    # determinant of the directions
+    det = v1.x * v2.y - v1.y * v2.x
+
+    if Scalar.tol_zero(det):
         # lines don't intersect
         return []
-    elif not Scalar.tol_zero(v2.y):
-        d = p2 - p1
-        r2 = -v2.x / v2.y
-        f = v1.x + v1.y * r2
-        t1 = (d.x + d.y * r2) / f
-    else:
-        d = p2-p1
-        t1 = d.y / v1.y
+
+    d = p2 - p1
+    t1 = (d.x * v2.y - d.y * v2.x) / det
 
     return [p1 + v1 * t1]
 
-- 
2.43.0


From 5bc537baaa8f7286ace993abced4a30aee967cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 33/33] fix: mark a computed output as changed before storing
 its value

An interrupt between the two left a new value that no later propagation
passed on once the method that computed it had been removed.
---
 solver/method.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/method.py b/solver/method.py
index cbe609e..842eb25 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -494,10 +494,11 @@ by multiple methods".format(var))
 
         # update values in self._map
         # set output variables changed
+        # (first, as an interruption in between must not hide the change)
         for var in method.outputs:
             if var in outmap:
-                self._map[var] = outmap[var]
                 self._changed[var] = 1
+                self._map[var] = outmap[var]
             else:
                 if self._map[var] is not None:
                     self._changed[var] = 1
-- 
2.43.0

