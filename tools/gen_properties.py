#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand; the .jsonl is what is committed and read)."""
import json, os
G, M, GEO = "solver/graph.py", "solver/method.py", "solver/geometry.py"
CON, CLU, CFG, REL = ("solver/geometric/%s.py" % n for n in ("constraint", "cluster", "configuration", "relation"))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "A graph stays one consistent directed graph under any edit history",
  "After any sequence of adding, removing and revaluing vertices and edges, every query (vertex and edge lists, membership tests, edge values, and ingoing, outgoing and adjacent vertices and edges) describes one and the same directed graph: exactly the one the accepted operations define. Removing a vertex removes every edge touching it and nothing else; adding an edge that already exists keeps its value, setting it replaces the value in both views; edges are always reported as (from, to). An operation on a missing vertex or edge is refused and changes nothing.",
  ["histories", "inputs"], "Every finite sequence of graph operations (including refused ones), every hashable vertex name (ints, strings, tuples, falsy and equal-but-distinct-type names), every edge value, self-loops and graphs of any size.",
  "The two graph tests build one 4-vertex graph and never remove anything; consistency of the forward and reverse views is a statement over all edit histories.",
  [G], [("mirrored updates of the forward and reverse maps", G + ": add_edge, remove_edge, remove_vertex, set"), ("queries read one map or the other", G + ": outgoing_*/ingoing_*/edges/get")],
  ["return value of every query after every operation", "exception and unchanged state of refused operations"],
  [("forward map", "outgoing edges and values", G + " Graph._forward"), ("reverse map", "ingoing edges and values", G + " Graph._reverse")])
p("C02", "Derived graphs are exact and independent of their source",
  "Copying a graph, building a graph from another, reversing it or restricting it to a list of vertices gives exactly the expected vertices (including isolated ones), edges and edge values. Later changes to the source never show in the derived graph, nor the other way round, and deriving never changes the source.",
  ["inputs", "histories"], "Every graph reachable by edits, every vertex subset (with unknown and repeated names), every later edit history of source or result.",
  "The tests derive once from one fixed graph and check membership of edges in one direction only: no values, isolated vertices, copies or aliasing.",
  [G], [("subgraph/copy/reverse/copy-construction rebuild through the public edit operations", G + ": __init__, subgraph, copy, reverse")],
  ["full observable state of source and derived graph, before and after later edits"])
p("C03", "Reachability answers are sound and complete",
  "A requested path is a real sequence of one or more existing edges from start to end (a cycle when they are the same vertex), and it is empty exactly when no such sequence exists. The vertices reported as connected to a vertex are exactly the other ones reachable by following edges forwards, backwards or either way as asked, and the connected subsets are exactly the partition of all vertices into undirected components.",
  ["inputs", "histories"], "Every directed graph (cycles, self-loops, isolated vertices, long chains, dense graphs) reached through edits and removals, every start and end vertex.",
  "No test calls any reachability query directly; the cycle test of the method graph reaches path() on one chain.",
  [G], [("worklist search over trails", G + ": path"), ("front expansion", G + ": connected, connected_via_*, connected_subsets")],
  ["returned path, vertex lists and partition, compared with an independent transitive closure"])
p("C04", "After propagation every derived value agrees with its inputs",
  "Whenever an operation that propagates changes (setting a variable, adding or executing a method, or an explicit propagate) returns, every method in the method graph is satisfied: its outputs hold what the method computes from the current values of its inputs, and hold no value (None) when an input has none or the method yields nothing for them. Variables that no method determines keep exactly the value last given, whatever its type.",
  ["histories", "inputs"], "Every acyclic method graph (chains, diamonds, shared inputs, several outputs, wide and deep graphs), every sequence of sets, additions and executions (some of them with propagation switched off before), methods whose results name other variables too or whose computation has changed before they are executed, values of any type (also objects changed in place and set again) including None, falsy values, NaN-free numbers, vectors and arrays.",
  "The tests cover one chain of additions with one set; ordering and lost-update problems need diamonds, several pending changes and particular insertion orders.",
  [M, G], [("change flags and worklist", M + ": propagate, _do_execute"), ("structure lookup", G + ": outgoing_vertices")],
  ["values of all variables after every propagating call, compared with a topological re-evaluation", "every call into a method's execute"],
  [("pending changes", "variables whose consumers still have to run", M + " MethodGraph._changed")])
p("C05", "Cycles and double determination are rejected exactly, without effect",
  "A method is refused with the cycle error only when adding it would make a variable depend on itself, and with the multiple-determination error only when one of its outputs is already determined by another method; every such method is refused and every other one is accepted, whatever was added, refused or removed before. A refused method is never executed, is not listed, and changes no variable, value, method or later behaviour.",
  ["histories", "inputs"], "Every sequence of valid and invalid additions and removals, methods with any number of inputs and outputs, long and branching dependency chains.",
  "Tests make two refused additions at the end of a scenario and never look at the graph afterwards; no test adds after a removal.",
  [M, G], [("validation after tentative insertion, with rollback", M + ": add_method, rem_method"), ("path search", G + ": path")],
  ["exception class of add, listed methods, values and executions afterwards"])
p("C06", "Removed methods and variables never act again",
  "Once a method has been removed it is never executed again and constrains nothing: its inputs can be set, its output can be set or determined by another method, and it can itself be added again. Removing a variable removes exactly the methods reading or writing it together with the variable, keeps every other variable, value and method, and clearing removes everything; after any of these the method graph goes on working normally.",
  ["histories"], "Every interleaving of additions, sets, removals of methods and variables, re-additions and clears, with and without pending changes.",
  "No test removes a method, removes a variable or clears a method graph.",
  [M, G], [("removal of methods on a variable, and of graph vertices with their edges", M + ": rem_variable, rem_method, clear"), ("edge cleanup", G + ": remove_vertex")],
  ["method execution log after removal", "variables(), methods(), values and acceptance of later operations"])
p("C07", "Deferred propagation reaches the same result as immediate propagation",
  "Changes made with propagation switched off (setting variables, adding methods) execute nothing yet, take effect on the variable itself at once and are all carried through by the next propagation, however many are pending, in whatever order they were made and whichever methods share inputs. The resulting values equal those obtained by making the same changes with immediate propagation.",
  ["histories", "schedules"], "Every batch of deferred sets and additions, mixed with immediate ones and removals, over any acyclic method graph; every order of the batch.",
  "No test uses deferred propagation at all.",
  [M], [("pending-change bookkeeping survives until propagation", M + ": set(prop=False), add_method(prop=False), propagate, _do_execute")],
  ["values of all variables after the explicit propagate, compared with an eagerly driven twin and with the re-evaluation model"])
p("C08", "A failing method or refused operation never loses an update",
  "If a method raises while changes are being propagated, the error reaches the caller, and once the method works again a later propagation brings every derived value up to date as though the failure had not happened. An operation on an unknown variable or method is refused with an error and leaves the method graph fully usable.",
  ["fault_sequences", "histories"], "Every point at which a user method can raise (any method, any of its executions, several in a row, during set, add, execute or propagate) and every refused operation, in any history.",
  "No test makes a method fail or uses an unknown name.",
  [M], [("change flags are cleared only after the consumers ran", M + ": propagate, _do_execute"), ("validation before mutation", M + ": set, rem_variable, rem_method, execute")],
  ["exception seen by the caller; values after recovery"])
p("C09", "Multi-valued methods produce exactly all combinations",
  "A multi-valued method's output is exactly the set of results its computation gives over every combination of the values of its multi-valued inputs, with the single-valued inputs held at their current values; nothing is missing, nothing extra. This stays true through chains of multi-valued methods and when inputs change, results obtained earlier stay as they were, and a method without exactly one multi-valued output is refused at construction.",
  ["inputs", "histories"], "Any number of single- and multi-valued inputs in any positions, any value sets (empty, singleton, overlapping, duplicates in results), any update history.",
  "One test with one fixed expression tree of three sum-product methods.",
  [M], [("recursive enumeration of combinations", M + ": MultiMethod.execute, _recurse_execute"), ("sum/product", M + ": SumProdMethod.multi_execute")],
  ["value of the output variable, calls of multi_execute"])
p("C10", "Built-in methods compute what their names say",
  "The addition and subtraction methods give the sum and the difference (first minus second) of their two inputs, the set method gives its fixed value and the assignment method gives its input's value, for any value types supporting the operation, inside a method graph or called directly; when an input has no value they give no result. Executing a method never changes the mapping it is given.",
  ["inputs"], "All input values (numbers of any size and type, strings, sequences, vectors, arrays, falsy values), all variable names, missing and None inputs.",
  "Tests run the addition method on small positive integers only; the other methods are never run.",
  [M], [("execute of the built-in methods", M + ": AddMethod, SubMethod, SetMethod, AssignMethod")],
  ["map returned by execute; variable values in a method graph"])
p("C11", "Constraint-graph queries reflect exactly the live constraints",
  "At any time the constraints reported on a variable, on all of several variables, or on any of several variables are exactly the added-and-not-removed constraints that name it, all of them, or at least one of them, without duplicates. Removing a constraint affects no variable; removing a variable removes exactly the constraints naming it; adding twice or removing something absent changes nothing.",
  ["histories", "inputs"], "Every sequence of additions and removals of variables and constraints of every kind (numeric and selection constraints, any number of variables, shared variables, any hashable names), every query.",
  "Tests query one fixed set of three constraints and never remove anything or add a selection constraint.",
  [CON, G], [("bipartite graph kept in step with the dictionaries", CON + ": add_*/rem_*, get_constraints_on*"), ("edge cleanup", G + ": remove_vertex")],
  ["variables(), constraints() and the three queries after every operation"])
p("C12", "Selection constraints accept exactly the right point triples",
  "A not-clockwise, not-counter-clockwise, not-obtuse or not-acute constraint is satisfied by a mapping exactly when the three named points, in the named order, are not clearly clockwise, counter-clockwise, obtuse or acute; flat, right-angled and coincident triples always satisfy it. The verdict depends only on the named variables, a function constraint is satisfied exactly when its function returns True for the values in the given order, and checking changes nothing.",
  ["inputs"], "All point triples clear of the tolerance band plus exactly degenerate ones, all variable names, mappings with extra variables, and coordinates from 1e-2 to 1e4.",
  "Each constraint is tried on two or three fixed axis-aligned triples.",
  [CON, GEO], [("function over named points", CON + ": FunctionConstraint.satisfied and subclasses"), ("orientation and angle predicates", GEO + ": is_clockwise, is_counterclockwise, is_acute, is_obtuse")],
  ["return value of satisfied against exact rational geometry"])
p("C13", "Cluster intersection is correct and symmetric for every pair of kinds",
  "The intersection of two clusters is the strongest cluster both imply on their shared points: rigid with rigid is rigid on two or more shared points; balloon with rigid or balloon is a balloon on three or more; a hedgehog with a rigid, balloon or equally centred hedgehog is a hedgehog at that centre when the centre and two or more of its other points are shared; otherwise there is none. Swapping the operands gives the same answer, intersecting never changes either operand, and a cluster of any other kind is refused.",
  ["inputs"], "All pairs of rigid, hedgehog and balloon clusters over any hashable point names, any size and overlap, including shared centres and minimal sizes.",
  "Tests use three fixed clusters and a handful of overlaps.",
  [CLU], [("double dispatch on cluster kind", CLU + ": intersection, intersect_rigid/hedgehog/balloon")],
  ["kind, points and centre of the returned cluster; operands afterwards"])
p("C14", "Constraint counts and common constraints of clusters are exact",
  "The number of distances and angles a cluster reports equals the number of point pairs and angles its kind fixes (rigid: all pairs and all angles of all triples; balloon: all angles; hedgehog: the angles at its centre between its other points). The common constraints of two clusters are exactly the distances and angles that both fix, each once, whichever operand is asked; a hedgehog or balloon with fewer than three distinct points is refused, and so is comparing with a cluster of any other kind.",
  ["inputs"], "All pairs of clusters of all kinds and sizes over any hashable point names; large clusters.",
  "One test checks one number of distances; nothing computes angles or common constraints.",
  [CLU, REL], [("counting", CLU + ": n_distances, n_angles, n_constraints"), ("pairwise enumeration deduplicated by relation equality", CLU + ": common_distances, common_angles*, common_constraints")],
  ["counts and sets of relations against enumeration"])
p("C15", "Distances and angles are identified by their points",
  "Two distances are equal exactly when they relate the same two points in either order, and two angles exactly when they have the same vertex and the same two outer points in either order; a distance never equals an angle. Equal relations always have equal hashes, so sets and dictionaries of relations hold each relation once.",
  ["inputs"], "All hashable point names of any type (ints, strings, tuples, frozensets), all orders, distances from a point to itself and angles whose outer points are the same.",
  "No test touches relations.",
  [REL], [("equality and hash over the points", REL + ": PointRelation.__hash__, Distance.__eq__, Angle.__eq__")],
  ["==, !=, hash, set and dict membership"])
p("C16", "Transforming and merging configurations is rigid motion",
  "Merging two configurations keeps every point of the first exactly where it is and adds the second's other points moved by one rotation and translation, so that all distances and the orientation within the second are preserved and the shared points coincide whenever the two agree on their shape. With one shared point that point coincides, with none the second is added unmoved; the same motion is what the transformation matrix describes, and transforming by a matrix applies it to every point.",
  ["inputs", "histories"], "All configurations (any names, any number of shared points, coincident points, any placement, coordinates up to 1e4), and chains of merges.",
  "Tests check equality of six two-point configurations and never merge.",
  [CFG, GEO], [("coordinate systems on shared points", CFG + ": transformation_matrix, merge, transform, add"), ("homogeneous coordinates", GEO + ": make_hcs, cs_transform_matrix")],
  ["coordinates of merged and transformed configurations against a complex-number model"])
p("C17", "The underconstrained verdict of a merge is exact and sticks",
  "A merge is reported as underconstrained exactly when the shared points do not fix the relative placement (no shared point, one shared point while both have further points, or all shared points coincident) or when either operand was already underconstrained. The merged configuration itself and its copies carry that status, so a later merge involving it reports it too; adding never-underconstrained, fully fixed configurations never raises it.",
  ["inputs", "histories"], "All pairs of configurations that agree on which shared points coincide, or of which one has all of them in one place, by number and coincidence pattern of shared points, all point names and orders, and all chains of merges and copies.",
  "No test merges or reads the status.",
  [CFG], [("status computed with the transformation and stored on the result", CFG + ": transformation_matrix, merge, copy")],
  ["returned status and the status attribute of the results"])
p("C18", "Configuration equality is congruence by rotation and translation",
  "Two configurations are equal exactly when they name the same points and one can be rotated and translated onto the other; mirror images that are not rotations, different scales and different names are not equal. The answer does not depend on operand order, point order, naming or where either lies, equal configurations have equal hashes, and comparing with any other object says not equal without failing.",
  ["inputs"], "All configurations with coordinates up to 1e3 and points either coincident or clearly apart, including ones with coincident, collinear and symmetric points, all hashable names.",
  "The test compares six two-point configurations, all pairs equal, so nothing ever compares unequal.",
  [CFG, GEO], [("transform one onto the other and compare pointwise", CFG + ": __eq__, makehash, transformation_matrix")],
  ["==, != and hash"])
p("C19", "Operations never change their operands and results share no state",
  "Vector arithmetic, configuration operations (select, add, copy, merge, transform, compare), cluster intersection and comparison, intersections and predicates leave every operand, and the containers they were built from, exactly as they were. Selecting gives exactly the chosen points, adding the union with the first operand's points winning, copying the same points and status; changing the container, the result or its mapping later affects nothing else, and repeating an operation gives the same answer.",
  ["inputs", "histories"], "All operand values and all sequences of operations sharing operands.",
  "Tests check results only, never the operands afterwards.",
  [CFG, CLU, GEO], [("results built in fresh containers", CFG + ": copy, select, add, transform, merge"), ("sets copied on construction", CLU + ": Cluster.__init__, Hedgehog.__init__")],
  ["snapshots of operands before and after"])
p("C20", "Circle-circle intersection is sound and complete",
  "Circles that properly cross give exactly two distinct points and externally or internally tangent ones give their touching point, every point lying on both circles; separate, nested and concentric circles give none. The answer is the same set of points whichever circle comes first, and moves with the circles under translation and rotation.",
  ["inputs"], "All centres and radii from 1e-2 to 1e4: crossings whose half-chord is at least 1e-4 of the largest of both radii and the centre distance, separate and nested pairs with a gap of at least 1% of it, plus exactly constructed tangent, right-angled, concentric and zero-radius cases.",
  "No test calls it.",
  [GEO], [("radical-line construction with tolerance branches", GEO + ": cc_int")],
  ["returned points against exact rational classification"])
p("C21", "Circle-line and circle-ray intersection is sound and complete",
  "A line crossing a circle gives exactly two distinct points, a tangent line one and a missing line none, every point lying on both; the answer does not depend on which point of the line or which sense or length of direction describes it. For a ray the answer is exactly those points that do not lie behind its start, the start itself included.",
  ["inputs"], "All circles, base points and non-zero directions with magnitudes 1e-1 to 1e3 (radii from 1e-2) clear of the tangency band (discriminant below 1e-5 of its terms, or 1e-7), axis-parallel and negative directions, exactly constructed tangents, rays starting inside, outside, on and beyond the circle.",
  "No test calls it.",
  [GEO], [("determinant construction", GEO + ": cl_int"), ("half-line filter", GEO + ": cr_int")],
  ["returned points against exact rational classification"])
p("C22", "Line and ray intersection is sound and complete",
  "Two lines that are not parallel give exactly the one point lying on both, and parallel ones give none. With a ray in place of a line the point is given exactly when it does not lie behind the ray's start, and for two rays when it lies behind neither; parallel rays and lines give an empty answer rather than an error.",
  ["inputs"], "All base points and non-zero directions with magnitudes 1e-1 to 1e3 at angles above 1e-6 rad (with a cross product above 1e-6) or exactly parallel, axis-parallel and negative directions, intersections ahead of, at and behind the starts.",
  "The only tests are uncollected functions that raise NameError.",
  [GEO], [("parametric solution with tolerance branches", GEO + ": ll_int"), ("half-line filters", GEO + ": lr_int, rr_int")],
  ["returned points against exact rational solution"])
p("C23", "Orientation and angle predicates agree with geometry and each other",
  "Every point triple is exactly one of clockwise, counter-clockwise and flat, as its signed area says; the signed angle at the middle point is positive for clockwise and negative for counter-clockwise triples, has the right size, flips sign when the outer points are swapped, and is undefined exactly when an outer point coincides with the middle one. Acute and obtuse mean a defined angle below or above a right angle, exactly right angles being neither; none of the answers changes under rotation, translation or cyclic renaming that leaves the triple the same.",
  ["inputs"], "All point triples with coordinates up to 1e4 clear of the tolerance bands, plus exactly flat, right-angled and coincident ones.",
  "Only two orientation examples are tested, through selection constraints.",
  [GEO], [("cross product with tolerance", GEO + ": is_clockwise, is_counterclockwise, is_flat"), ("clipped arc cosine with orientation sign", GEO + ": angle_3p, is_acute, is_obtuse, distance_2p")],
  ["return values against exact rational cross and dot products"])
p("C24", "Coordinate frames map points as defined",
  "The coordinate frame of two distinct points has its origin at the first, its first axis pointing at the second (unit length, or the true length when scaled) and its second axis a quarter turn counter-clockwise of equal length; coincident points have no frame. The transformation between two frames maps the first frame onto the second: unscaled frames give a rotation and translation, scaled frames carry both defining points exactly onto their counterparts, and transformations compose and invert accordingly.",
  ["inputs"], "All pairs of point pairs with separations from 1e-6 to 1e4 and coordinates up to 1e4, plus exactly coincident pairs.",
  "No test builds a frame directly.",
  [GEO], [("frame construction", GEO + ": make_hcs, make_hcs_scaled"), ("frame change through the inverse", GEO + ": cs_transform_matrix")],
  ["entries of the returned matrices; images of points"])
p("C25", "Matrix algebra is correct for every shape",
  "Products, transposes, identities, solutions and inverses of matrices are the mathematically defined ones for every shape and size: products and transposes match entry by entry, solving gives a solution of the right shape, a matrix times its inverse is the identity. Mismatched shapes, non-square inverses and singular systems are refused with an error, the reported dimensions are the true ones, rounding rounds every entry, and a vector used as an operand of a matrix behaves as the two-by-one matrix it is.",
  ["inputs"], "All shapes from 1x1 to several hundred rows or columns, integer, rational and float entries, well-conditioned systems and systems whose elimination meets an exactly zero pivot, vectors as operands.",
  "No test builds a matrix.",
  [GEO], [("list-of-lists algebra and numpy solve", GEO + ": Matrix")],
  ["elements of results against exact arithmetic"])
p("C26", "Vectors behave as points of the plane",
  "Vector arithmetic acts on both coordinates as on real numbers (with a vector or a number as the other operand), dot product, length and azimuth are the Euclidean ones, and rotating by an angle in degrees turns the vector by that angle, keeping its length. Construction from numbers, numeric text, another vector or a two-by-one matrix gives the same coordinates every way, anything else is refused, coordinates can be read by name, index or slice, and comparison and sign tests hold exactly when they hold for both coordinates.",
  ["inputs"], "All finite coordinates (zero, negative, and magnitudes from 1e-100 to 1e100, within which squares neither overflow nor underflow), all angles including multiples of 90 and beyond a full turn, all accepted constructor forms.",
  "Tests use four fixed vectors and one family of polygons.",
  [GEO], [("componentwise operators", GEO + ": Vector")],
  ["coordinates and verdicts against plain float and complex arithmetic"])
p("C27", "Tolerant comparisons form one consistent order",
  "Two numbers are tolerantly equal exactly when they differ by at most the absolute tolerance plus the relative tolerance times the magnitude of the second, and of tolerant less, equal and greater exactly one always holds; less-or-equal and greater-or-equal are their unions and the zero test is equality with zero. Tolerances given by the caller, including zero, replace the defaults (1e-8 absolute, 1e-5 relative), and vector comparisons apply the same rule to each coordinate.",
  ["inputs"], "All pairs of finite numbers (including equal, adjacent and huge ones) outside a rounding-wide band around the boundary, all tolerance arguments.",
  "Used by tests as a tool, never tested at its boundary.",
  [GEO], [("tolerance formula and derived comparisons", GEO + ": Scalar, Vector.tol_*")],
  ["verdicts against exact rational evaluation"])
p("C28", "Text and debug logging work for every object and change nothing",
  "Every graph, method, method graph, constraint, constraint graph, cluster, relation, configuration, vector and matrix can be turned into text at any moment without an error, the text of a container names everything it contains, and doing so changes nothing. Switching debug logging on changes no result and no logged message fails to format.",
  ["inputs", "histories", "configurations"], "All objects in any state reachable through their operations, with any hashable names, logging off or at debug level.",
  "Tests convert almost nothing to text, and a failing log message is only printed.",
  [G, M, CON, CLU, REL, CFG, GEO], [("__str__/__repr__ of every class", "all modules"), ("lazy and eager log formatting", M + ": propagate, _do_execute; " + CLU + ": intersection; " + CFG + ": merge")],
  ["returned text, logging records formatted by a strict handler, results with logging on and off"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
