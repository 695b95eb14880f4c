"""Writes /verif/properties.jsonl (kept as a script so that wording is edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
MG = "solver/method.py"; G = "solver/graph.py"; CG = "solver/geometric/constraint.py"
CL = "solver/geometric/cluster.py"; RE = "solver/geometric/relation.py"
CF = "solver/geometric/configuration.py"; GE = "solver/geometry.py"

p("C01", "Settled variables equal what their methods compute",
  "Whenever an updating call that propagates, or an explicit propagation, returns normally on a method graph, every variable determined by a method holds exactly what that method computes from its inputs' current values, or no value when some input has none or the method yields nothing for it; a variable set by hand keeps the value last set. This holds for deferred and immediate updates mixed in any order and for values of any type (falsy, equal-but-different, vectors, configurations). Explicitly executing a present method whose inputs all have values runs it, whether or not anything changed. The one exception is a determined variable overwritten by hand since its method last ran.",
  ["histories", "schedules", "inputs"],
  "all histories of adding/removing variables and methods, setting values with and without propagation and propagating later, over all acyclic method networks, all visiting orders of dependants, all value types",
  "The tests update one variable at a time in three fixed networks, always with immediate propagation, and look at two numbers; stale values need a particular network shape together with a particular order of updates.",
  [MG, G], [("MethodGraph.propagate", MG), ("MethodGraph._do_execute", MG), ("MethodGraph.set/add_method/execute", MG)],
  [("_map", "variable -> value", MG), ("_changed", "variables changed and not yet propagated", MG)],
  ["MethodGraph.get after every normally returning propagating call"])
p("C02", "Failures during propagation lose no update",
  "If a method fails or propagation is cut short by an interrupt at any point, the failure reaches the caller and no pending change and no method that has not run yet is forgotten: every variable holds only a value that was set or was really computed for it, and the next propagation that completes settles the whole graph (a set or execute call that was itself interrupted is simply repeated). Any number of failures, of any kind, may happen before that.",
  ["fault_sequences", "crash_points", "histories"],
  "all sequences of method failures, allocation failures, interrupts at any executed line of a propagating call and failing log sinks, over all histories and networks as in C01",
  "No test has a method that fails or is interrupted; the claim is about every failure point inside a propagation and every sequence of them.",
  [MG, G], [("MethodGraph.propagate clears a change only after its dependants ran", MG), ("MethodGraph._do_execute", MG)],
  [("_changed", "variables changed and not yet propagated", MG)],
  ["exceptions leaving MethodGraph calls", "MethodGraph.get after the next completed propagation"])
p("C03", "Refused methods leave no trace; all others are accepted",
  "A method graph refuses, with its determination error or its cycle error, every method that would give a variable a second determining method or close a dependency cycle of any length, and accepts every other method. A refused method changes no existing value, is not listed, and never runs or influences any later operation, including later additions of methods over the same variables.",
  ["histories", "fault_sequences"],
  "all histories mixing accepted and refused additions (any number of outputs, any cycle length, deferred or not), removals and updates",
  "The tests check that two refusals raise, never what the graph does afterwards.",
  [MG, G], [("MethodGraph.add_method validity check and roll back", MG), ("Graph.path", G), ("Graph.remove_vertex", G)],
  [("_methods", "registered methods", MG)], ["exceptions of add_method", "methods()", "recorded method runs", "get()"])
p("C04", "Removal is complete and final",
  "A removed method never runs again, and its outputs keep their last values and can be set, or determined by another method, anew; removing a variable also removes every method that reads or determines it, and clearing removes every variable and all methods on them. Removal changes the value of no remaining variable and never makes a later operation on the rest fail, whatever updates were pending; removing something that is not there is refused without effect.",
  ["histories"],
  "all histories of additions, removals, re-additions and clears interleaved with deferred and immediate updates",
  "No test removes anything from a method graph.",
  [MG, G], [("MethodGraph.rem_variable/rem_method/clear", MG), ("Graph.remove_vertex", G)],
  [("_methods", "registered methods", MG), ("_map", "variable -> value", MG)], ["recorded method runs", "variables()", "methods()", "get()"])
p("C05", "Multi-valued results cover every input combination, nothing else",
  "When settled, a multi-valued variable holds exactly the results its method yields over every combination of its inputs' current values, each multi-valued input contributing each of its values: none missing, none left over from earlier values, from earlier combinations or from a computation that failed midway. Single-valued inputs enter every combination with their current value. A multi-valued method without exactly one, multi-valued, output is refused.",
  ["histories", "fault_sequences", "inputs"],
  "all chains of multi-valued methods with any mix of single- and multi-valued inputs, all histories of updates, failures at any combination, and any iteration order of the value sets",
  "One fixed chain of three methods with two-valued inputs is tested, evaluated once, with no update or failure afterwards.",
  [MG], [("MultiMethod.execute/_recurse_execute", MG), ("MethodGraph.propagate", MG)], [],
  ["MethodGraph.get of multi-valued variables", "recorded multi_execute calls"])
p("C06", "Method runs are justified, see current values, and end",
  "A method is run only while all its inputs have values, is given exactly the values its inputs and outputs hold at that moment, and runs only if it is newly added, explicitly executed, or depends on something changed since the graph was last settled; a deferred update runs nothing, and when nothing is pending, propagating runs nothing. Every propagation, also one resumed after failures, ends after a number of method runs bounded by the shape of the network.",
  ["histories", "schedules", "fault_sequences"],
  "all histories and networks as in C01, with and without failures as in C02",
  "Tests observe only final values of tiny networks, not which methods ran, with what, or how often.",
  [MG], [("MethodGraph.propagate", MG), ("MethodGraph._do_execute", MG)],
  [("_changed", "variables changed and not yet propagated", MG)], ["recorded method runs with their input maps"])
p("C07", "Graph answers agree with the operations performed so far",
  "At every moment a directed graph answers vertex, edge, value, ingoing, outgoing, adjacency and membership queries exactly as the set of vertices and valued edges resulting from the operations performed so far, the reverse view always mirroring the forward one; adding an existing edge keeps its value, setting replaces it, removing a vertex removes every incident edge. Operations that are refused (removing an absent vertex or edge, in one or both directions) change nothing, and the answers do not depend on the order in which clients' operations interleave with queries or in which hash tables iterate.",
  ["histories", "schedules"],
  "all interleavings of several clients' mutations, queries and refused operations on a shared graph (self-loops, two-way edges, repeated additions included), all hash iteration orders",
  "The graph tests build one fixed graph and only look at reverse() and subgraph(); removal is never tested.",
  [G], [("Graph.add_edge/remove_edge/remove_vertex/set keep _forward and _reverse in step", G)],
  [("_forward", "vertex -> {successor: value}", G), ("_reverse", "vertex -> {predecessor: value}", G)],
  ["every query method of Graph after every step"])
p("C08", "Copies, subgraphs, reversals and query results are snapshots",
  "A copy of a graph (by copying or by constructing one from another), a subgraph or a reversal contains exactly the corresponding vertices, edges and edge values at the moment it was taken, and the lists queries return are snapshots too: later changes on either side never show on the other, and a client may keep walking a list while the graph changes. Taking one never alters the source, even if it is interrupted at any point.",
  ["histories", "schedules", "crash_points"],
  "all interleavings of clients changing the source, changing the derived graph and walking earlier query results, interrupts at every executed line of the deriving call",
  "Tests check two of the derivations once, on one graph, looking at edges only and never after a change.",
  [G], [("Graph.__init__(graph)/copy/subgraph/reverse", G), ("Graph.vertices/outgoing_vertices/ingoing_vertices", G)], [],
  ["derived graphs and held lists, before and after later changes"])
p("C09", "Paths and connectivity are exact in any iteration order",
  "A path query returns a list of vertices from start to end in which each consecutive pair is an edge, with at least one edge (a cycle when start equals end), whenever one exists, and an empty list otherwise. Connectivity queries (both directions, only outgoing, only ingoing) return exactly the vertices reachable from the given one, without it, and the connected subsets partition the vertices into exactly the undirected components; all this for any iteration order of the underlying tables and for any number of simultaneous readers.",
  ["schedules", "histories", "inputs"],
  "all graphs reached by interleaved histories, all hash and insertion orders, all interleavings of concurrent readers at bytecode granularity",
  "Path and connectivity are never called by a graph test, and only two cycles reach path() through the method graph tests.",
  [G], [("Graph.path", G), ("Graph.connected*", G)], [], ["return values against an independent reachability computation"])
p("C10", "Constraint graph bookkeeping matches the history",
  "A constraint graph lists exactly the variables and constraints added and not removed, and answers 'constraints on a variable', 'on all of these' and 'on any of these' exactly according to which variables each present constraint names, for every kind of constraint the package offers. Adding a constraint brings in its variables; removing a variable removes the constraints on it and nothing else; duplicates and removals of absent items are accepted and change nothing, and neither do additions of constraints that fail to name their variables.",
  ["histories", "fault_sequences", "schedules"],
  "all histories of additions, removals, re-additions and queries by several clients, with constraints whose description fails at any call, in any hash iteration order",
  "The tests add three constraints of one kind and query; nothing is removed, re-added, refused or failing, and no selection constraint is ever put in a graph.",
  [CG, G], [("ConstraintGraph.add_constraint/rem_constraint/rem_variable", CG), ("ConstraintGraph.get_constraints_on*", CG)],
  [("_variables/_constraints/_graph", "the three indexes that must agree", CG)], ["variables()", "constraints()", "get_constraints_on*()"])
p("C11", "Cluster intersection follows the sharing rules, in any order",
  "The intersection of two clusters is decided by kind and shared points alone: two rigids sharing two points give a rigid on the shared points, balloon with balloon or rigid sharing three give a balloon on them, hedgehogs give a hedgehog only around a centre both clusters contain (for two hedgehogs, the same centre) with at least two other shared spokes, and anything else gives nothing. The result is the same with the operands swapped, for any hash iteration order and with any number of simultaneous users of the same clusters; it is independent of its operands, which are never modified, not even if the operation is interrupted; lists of points handed out are the client's own. A hedgehog with fewer than two different spokes other than its centre or a balloon with fewer than three different points is refused.",
  ["schedules", "inputs", "crash_points"],
  "all pairs of clusters of all kinds over any hashable points, all hash iteration orders, all interleavings of concurrent users at bytecode granularity, interrupts at any line",
  "About a dozen fixed pairs of small integer clusters are tested, in one iteration order, by one user.",
  [CL], [("Cluster.intersection and intersect_*", CL)], [], ["type, centre and points of the result; operands afterwards"])
p("C12", "Common constraints are exact, symmetric and order-independent",
  "The distances and angles two clusters have in common are exactly those both determine - a rigid all distances and angles among its points, a balloon all angles among its points, a hedgehog the angles at its centre between its spokes - without duplicates. They are the same with the operands swapped, for any hash iteration order and for simultaneous users of the same clusters, and a cluster's own constraint counts equal the number it has in common with itself.",
  ["schedules", "inputs"],
  "all pairs of clusters of all kinds, all hash iteration orders (which decide how each distance and angle is spelled), all interleavings of concurrent users",
  "No test computes a common distance or angle; one test checks one count.",
  [CL, RE], [("common_distances/common_angles*/common_constraints", CL), ("n_distances/n_angles", CL), ("Distance/Angle equality and hash", RE)], [],
  ["sets returned by common_*; n_*()"])
p("C13", "Assembling pieces gives the same figure in any merge order",
  "Merging two configurations gives one with the points of both in which the first's points are unchanged and the second's are moved rigidly (no mirroring, no scaling) so that shared points that agree coincide; so pieces of one rigid figure reassemble into that figure whatever the order of merging and of hash iteration. The merge is reported underconstrained whenever the shared points leave freedom (none shared; one shared, or all shared ones in one place, while both sides have points elsewhere) or an operand already was underconstrained, not when two agreeing shared points in different places, or a shared point that is all an operand has, pin it down; and the merged configuration carries that status on.",
  ["schedules", "histories", "inputs"],
  "all decompositions of figures (also with coinciding points) into overlapping pieces, all merge orders and tree shapes, all hash iteration orders",
  "No test merges anything; the outcome depends on which two shared points the hash order picks, which a test sees in one order only.",
  [CF, GE], [("Configuration.merge/transformation_matrix", CF), ("make_hcs/cs_transform_matrix", GE)],
  [("underconstrained", "not a unique solution", CF)], ["merged coordinates and underconstrained flag"])
p("C14", "Configuration equality is congruence, in any iteration order",
  "Two configurations are equal exactly when they name the same points and one can be moved onto the other by a rotation and translation; mirror images and rescaled figures are not equal. Equality is reflexive and symmetric, equal configurations have equal hashes so that sets and dictionaries merge them, and the verdict depends neither on hash iteration order nor on points that coincide or lie close together.",
  ["schedules", "inputs"],
  "all pairs of well separated figures with integer-grid-like coordinates (also with coinciding points), moved rigidly, mirrored, rescaled or with a point displaced by far more than the tolerance; all hash iteration orders",
  "Four comparisons of two-point configurations are tested, in one hash order; two points cannot tell congruence from much weaker relations.",
  [CF, GE], [("Configuration.__eq__/__hash__/transformation_matrix", CF)], [], ["==, hash and set membership"])
p("C15", "Configurations are immutable values, safe to share",
  "No operation on configurations - merge, transform, add, select, copy, compare, hash, print - changes any operand: points, coordinates, status and hash stay as they were, also if the operation is interrupted at any point. Any number of clients may use the same configurations at once, and each gets the result it would get alone: add keeps the first's points and adds the second's missing ones, select restricts, transform maps every point, copy keeps everything.",
  ["schedules", "crash_points", "inputs"],
  "all interleavings at bytecode granularity of several callers operating on shared configurations, interrupts at any executed line, any hash iteration order",
  "Tests construct configurations once, in one thread, and only compare them.",
  [CF, GE], [("Configuration operations build new mappings", CF), ("Vector/Matrix operators build new objects", GE)],
  [("mapping", "variable -> point", CF)], ["operands before/after; results against a reference"])
p("C16", "Independent objects never influence each other",
  "Graphs, method graphs, constraint graphs, clusters, configurations and vectors created separately share no state: clients working at the same time, each on objects of its own, observe exactly what each would observe running alone in a fresh process. This holds even when another client's operations fail or are interrupted midway.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings at bytecode granularity of clients' histories on separate objects, failures and interrupts in some of them",
  "Every test runs alone in one thread on objects it has just made.",
  [G, MG, CG, CL, CF, RE, GE], [("per-instance state created in every __init__", G), ("per-instance state", MG), ("per-instance state", CG)], [],
  ["everything each client observes, against its solo run"])
p("C17", "Diagnostics never change results",
  "Turning logging on at any level, with a sink that works, fails on any write (disk full, closed) or is slow, or printing any object at any moment of any history, changes no result, no stored value and no later behaviour. Every diagnostic record can be rendered, and every public object can be printed, at any moment.",
  ["histories", "fault_sequences", "configurations"],
  "all histories over all parts of the package, repeated under every logging set-up (off, on, failing sink) with printing interleaved anywhere",
  "Tests run with one logging set-up and print nothing; a record that fails to render is swallowed by the logging package.",
  [MG, CG, CL, CF, G, RE, GE], [("logging calls", MG), ("__str__ methods", MG), ("__str__ methods", G), ("__str__ methods", CG)], [],
  ["results of the same history under different logging set-ups", "log records"])
p("C18", "Selection constraints judge exactly the points they are given",
  "A constraint judges a mapping only by what it maps the constraint's own variables to, in order: a selection constraint accepts exactly when its predicate, which may be any callable, returns True for those points, a plus constraint exactly when the first two add up to the third - not-clockwise and not-counter-clockwise accept collinear triples too, not-obtuse and not-acute accept right angles and triples whose middle point coincides with another - and never changes the mapping. The verdict is the same whoever else is evaluating the same constraint at the time and whatever was evaluated, or failed, before; a failing user predicate reaches the caller.",
  ["schedules", "fault_sequences", "inputs"],
  "all interleavings at bytecode granularity of callers sharing constraints over different mappings, user predicates failing at any call, all integer-grid triples",
  "Each constraint is tested with two or three fixed triples, one evaluation at a time.",
  [CG, GE], [("FunctionConstraint.satisfied and subclasses", CG), ("is_clockwise/is_counterclockwise/is_obtuse/is_acute", GE)], [],
  ["satisfied() against exact integer arithmetic"])
p("C19", "Circle, line and ray intersections are sound and complete",
  "Every point a circle/line/ray intersection returns lies on both figures within tolerance, and every isolated intersection point is returned, each once (tangent figures have one, possibly listed twice; rays exclude points behind their origin; concentric circles and parallel lines have none). The answer depends on the figures as they are and the tolerances in force when it is asked - not on earlier or simultaneous questions, interrupted calls or the state of the log - the points returned are new ones, and the arguments are not changed.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "all circles, lines and rays in general and tangent position, made of shared points that change between and during simultaneous questions, tolerances changed in between, interrupts at any line, failing log sinks",
  "No test calls an intersection function.", [GE],
  [("cc_int/cl_int/cr_int/ll_int/lr_int/rr_int", GE)], [], ["return values against exact rational arithmetic", "values of the arguments afterwards"])
p("C20", "Tolerance and orientation predicates are consistent",
  "Exactly one of clockwise, counter-clockwise and flat holds for any triple, orientation flips when two points that lie apart beyond the tolerances are exchanged, and the tolerant comparisons agree with each other (exactly one of less, equal, greater; ge = gt or eq, le = lt or eq). Comparisons follow the tolerances in force when they are made: those of the call, else those of the class at that time. Signed angles are positive for clockwise triples and negated by exchanging the end points of a triple that is not flat, acute and obtuse agree with the angle, and points that coincide make no angle. All this whatever was asked before or is being asked at the same time, was interrupted, or has changed since.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "all triples of points and pairs of scalars, with the class's tolerances changed between questions and points changed by their owners; simultaneous callers; interrupts at any line",
  "Only a few fixed triples are tested, always under the default tolerances.", [GE],
  [("Scalar.tol_*", GE), ("is_clockwise/is_counterclockwise/is_flat/angle_3p/is_acute/is_obtuse/distance_2p", GE)], [], ["return values against exact rational arithmetic"])
p("C21", "Vector and matrix algebra obeys its laws",
  "Vector operators, comparisons, rotation, dot product, length and azimuth, and matrix product, transpose, inverse, solve, identity and the coordinate systems of point pairs give what exact arithmetic gives, within floating point error, for vectors and matrices of any size; operations that do not apply to the sizes given, or to a singular matrix, are refused. No operator changes its operands, also when it is interrupted; results are new values, so that changing a result later changes no operand and no other result; any number of clients may use the same values at the same time.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "all finite vectors and well conditioned matrices; all histories of values made from one another and changed by their owners; simultaneous operations on shared operands; interrupts at any line",
  "Tests evaluate a handful of fixed vectors and regular polygons.", [GE],
  [("Vector/Matrix operators", GE), ("make_hcs/make_hcs_scaled/cs_transform_matrix", GE)], [], ["return values against exact rational arithmetic", "values of all operands after every step"])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
