"""Which workload decides which property, batch sizes and evidence texts."""
import importlib

REAL_MG = ["solver.method (MethodGraph, Method, MultiMethod, AddMethod, SubMethod, SetMethod, "
           "AssignMethod, SumProdMethod, MultiVariable)", "solver.graph.Graph",
           "solver.geometry.Vector (as values)"]
STUB_MG = ["user-supplied methods (harness subclasses of Method/MultiMethod computing digests)",
           "variable names (objects whose hash the simulator chooses)",
           "log sink (standard logging handler over a simulated stream)"]
RULE_MG = ("each run: a seeded network profile and operation history (sets, deferred sets, "
           "propagations, additions, refused additions, removals, clears, re-executions) with "
           "seeded faults; non-trivial: at least one method was made and more than 4 calls were "
           "played; distinct by event log digest")

PROPS = {}


def add(ids, quick, thorough, module, rule, measure, real, stub, search, note, assume=()):
    for p in ids:
        PROPS[p] = dict(quick=quick, thorough=thorough, module=module, rule=rule,
                        measure=measure, real=real, stub=stub, search=search,
                        note=note, assume=list(assume))


NOTE_MG = ("Seeded search, not exhaustive: networks of up to 9 methods over up to 17 variables, "
           "histories of up to 40 (thorough: 80) calls; every 150th run a network of hundreds. Trusted: the reference model in "
           "dst/mgsim.py, which knows only the network's structure and what each method computes. "
           "Interrupts are injected into propagating calls, not into structural mutators.")

add(["C01", "C02", "C03", "C04", "C05", "C06"], 36000, 900000, "mgsim", RULE_MG,
    "digest of (values of all variables, present methods) at every settled point",
    REAL_MG, STUB_MG,
    "operation histories, visiting orders, method failures, outages, interrupts and sink failures",
    NOTE_MG,
    ["methods are deterministic functions of their inputs", "one client at a time per graph "
     "(the package documents no thread safety for mutable objects)"])


add(["C07", "C08", "C09"], 24000, 600000, "graphsim",
    "each run: several clients' operations on one graph and the graphs derived from it, in a "
    "seeded interleaving (mutations, refused mutations, queries, derivations, walks over held "
    "lists, interrupted reading calls, simultaneous readers); non-trivial: more than 4 calls; "
    "distinct by event log digest",
    "reference states (vertices, valued edges) after mutations, and schedules of simultaneous "
    "readers",
    ["solver.graph.Graph"],
    ["vertex names (objects whose hash and truth value the simulator chooses)", "edge values"],
    "interleavings of clients, hash iteration orders, reader schedules at bytecode granularity "
    "and interrupts at executed lines",
    "Seeded search, not exhaustive: graphs of up to 11 vertices, up to 85 (thorough: 130) "
    "operations, up to 5 related graphs, up to 3 simultaneous readers. Trusted: the reference "
    "(a set of vertices and a dictionary of valued edges) in dst/graphsim.py. Concurrent "
    "mutation inside one call and interrupted mutators are not claimed.",
    ["mutations of one graph are serialised by the clients (the package documents no thread "
     "safety for mutable objects); reading calls may overlap"])


add(["C10"], 24000, 600000, "cgsim",
    "each run: several clients' additions, removals, re-additions and queries of constraints of "
    "every kind on one or two constraint graphs in a seeded interleaving, with constraints that "
    "fail to name their variables, interrupted queries and simultaneous readers; non-trivial: "
    "more than 4 calls; distinct by event log digest",
    "reference states (variables, constraints) per graph after every operation, and reader "
    "schedules",
    ["solver.geometric.constraint (ConstraintGraph, Constraint, PlusConstraint, "
     "FunctionConstraint, NotClockwise/NotCounterClockwise/NotObtuse/NotAcuteConstraint)",
     "solver.graph.Graph"],
    ["variable names and constraint hashes (chosen by the simulator)", "user-defined constraints"],
    "interleavings of clients, failure points of constraints, hash iteration orders, reader "
    "schedules and interrupts at executed lines",
    "Seeded search, not exhaustive: up to 7 variables, 45 (thorough: 90) operations, 2 graphs "
    "sharing constraints, 3 simultaneous readers. Trusted: the reference in dst/cgsim.py. "
    "Interrupted mutators are not claimed.",
    ["mutations of one graph are serialised by the clients; reading calls may overlap"])


add(["C11", "C12"], 24000, 600000, "clustersim",
    "each run: several clients make, intersect, compare, count, print and drop clusters of every "
    "kind over up to 8 (thorough: 12) shared points in a seeded interleaving and simultaneously, "
    "with interrupted operations and failing log sinks; non-trivial: more than 2 calls; distinct "
    "by event log digest",
    "classes of operand pairs (kinds, number of shared points, positions of centres, outcome) and "
    "schedules of simultaneous clients",
    ["solver.geometric.cluster (Rigid, Hedgehog, Balloon)",
     "solver.geometric.relation (Distance, Angle)"],
    ["points (objects whose hash and truth value the simulator chooses)",
     "log sink (standard logging handler over a simulated stream)"],
    "interleavings of clients at bytecode granularity, hash iteration orders, interrupts at "
    "executed lines and sink failures",
    "Seeded search, not exhaustive. Trusted: the sharing rules and the enumeration of what each "
    "kind determines in dst/clustersim.py.",
    ["clients do not modify the point sets of "
     "clusters in use (results are theirs to modify)"])


add(["C13", "C14", "C15"], 16000, 400000, "confsim",
    "each run: several clients' merges (random trees over pieces of one figure), comparisons, "
    "transformations, extensions, restrictions and copies of shared configurations in a seeded "
    "order and simultaneously, with interrupted operations and failing log sinks; non-trivial: "
    "more than one call; distinct by event log digest",
    "classes of operands and verdicts (shared points, sizes, statuses, outcomes) and schedules of "
    "simultaneous clients",
    ["solver.geometric.configuration.Configuration",
     "solver.geometry (Vector, Matrix, make_hcs, cs_transform_matrix, distance_2p, Scalar)",
     "numpy.linalg (as installed)"],
    ["variable names (objects whose hash and truth value the simulator chooses)",
     "log sink (standard logging handler over a simulated stream)"],
    "merge orders and tree shapes, hash iteration orders, interleavings of clients at bytecode "
    "granularity, interrupts at executed lines and sink failures",
    "Seeded search, not exhaustive: figures of up to 7 (thorough: 10; every 150th run: 30) points on a grid with "
    "spacing 0.01 to 100, up to 5 (7) pieces. Trusted: the numerical congruence test in "
    "dst/confsim.py. Verdicts within a margin of the package's tolerance are not judged, nor is "
    "the position of disagreeing shared points.",
    ["distinct points are apart by much more than the package's absolute tolerance"])


add(["C16"], 12000, 250000, "isosim",
    "each run: 2-3 clients play scripts over all parts of the package on objects of their own, "
    "preempted at bytecode granularity or taking turns, some interrupted; each unit's transcript "
    "is compared with the one of the same unit alone in a freshly loaded package; non-trivial: at "
    "least two units; distinct by event log digest",
    "observations (result and state of a unit after a step) and schedules",
    ["solver.graph", "solver.method", "solver.geometry", "solver.geometric.constraint",
     "solver.geometric.cluster", "solver.geometric.relation", "solver.geometric.configuration"],
    ["names (objects whose hash and truth value the simulator chooses)", "user-supplied methods "
     "and predicates", "log sink (standard logging handler over a simulated stream)"],
    "interleavings of clients at bytecode granularity, failures and interrupts in some of them",
    "Seeded search, not exhaustive: 2-3 clients, up to 6 units of up to 10 (thorough: 24) steps. "
    "The reference is the same code run alone, so a defect that shows alone too is not reported "
    "here (the other properties judge it).")


add(["C17"], 16000, 200000, "diagsim",
    "each run: a history of 1-3 units over all parts of the package is played silently and then "
    "under 1-3 other logging set-ups (level; sink that works, is full, closed, writes short, fails "
    "to flush, or is slow while other clients run) with objects printed between steps and inside "
    "user code; transcripts must agree; non-trivial: more than 2 steps; distinct by event log "
    "digest",
    "observations (result and state of a unit after a step)",
    ["solver.graph", "solver.method", "solver.geometry", "solver.geometric.constraint",
     "solver.geometric.cluster", "solver.geometric.relation", "solver.geometric.configuration",
     "logging (standard library: records, formatting, handlers)"],
    ["names (objects whose hash and truth value the simulator chooses)", "user-supplied methods "
     "and predicates", "output device of the log handler"],
    "histories, logging set-ups, sink failures and print moments",
    "Seeded search, not exhaustive: units of up to 12 (thorough: 30) steps. Sinks fail the way "
    "standard handlers see it (logging.raiseExceptions handled by the handler); a handler that "
    "raises into the library is part of C06, C11-C15.")

add(["C18"], 30000, 600000, "selsim",
    "each run: several clients make and evaluate selection constraints over mappings that change "
    "between evaluations, in a seeded order and simultaneously, with failing predicates, nested "
    "evaluations and interrupts; non-trivial: more than one evaluation; distinct by event log "
    "digest",
    "constraints with the points they judged, and schedules of simultaneous clients",
    ["solver.geometric.constraint (FunctionConstraint, NotClockwiseConstraint, "
     "NotCounterClockwiseConstraint, NotObtuseConstraint, NotAcuteConstraint)",
     "solver.geometry (is_clockwise, is_counterclockwise, is_obtuse, is_acute, angle_3p, Vector)"],
    ["variable names (objects whose hash and truth value the simulator chooses)",
     "user predicates"],
    "interleavings of callers at bytecode granularity, predicate failures and interrupts",
    "Seeded search, not exhaustive: integer points within +-30, scaled by powers of two. Trusted: "
    "exact integer orientation "
    "and dot product in dst/selsim.py.",
    ["coordinates are small integers times a power of two"])


NOTE_GEO = ("Seeded search, not exhaustive: up to 60 calls on up to some dozens of values; numbers "
            "are small integers times a power of two or random within the same range. A verdict "
            "within ten times the tolerances in force is not judged. Trusted: exact rational "
            "arithmetic in dst/geosim.py.")

add(["C19", "C20", "C21"], 16000, 300000, "geosim",
    "each run: several clients make, combine and change values of a shared pool and ask about "
    "them, in a seeded order and simultaneously, with changed tolerances, interrupts and a failing "
    "log sink; non-trivial: more than 2 calls; distinct by event log digest",
    "kinds of answers (intersection kind and number of points, orientation, comparison verdicts) "
    "and schedules of simultaneous clients",
    ["solver.geometry", "numpy.linalg.solve", "logging (standard library)"],
    ["output device of the log handler"],
    "interleavings of clients at bytecode granularity, histories of shared values and tolerances, "
    "interrupts and sink failures", NOTE_GEO,
    ["finite numbers of moderate size"])


def workload(prop):
    return importlib.import_module("dst." + PROPS[prop]["module"])
