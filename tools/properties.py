#!/usr/bin/env python3
"""Writes properties.jsonl (run once by the author; not part of any check)."""
import json
J = "jagua-rs/src/"
L = "lbf/src/"
P = []
def add(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

T = "The repository's tests only run the optimizer on eleven fixed benchmark files with fixed seeds and look at nothing but debug assertions; "

add("C01", "A shape's collision verdict equals true geometric overlap",
 "Asking the collision engine whether a shape collides returns true exactly when the shape overlaps the exterior of the bin, a hole, a quality zone or a placed item that is not declared irrelevant for the query, and false when it overlaps none of them, whatever the quadtree depth. This includes shapes fully inside a hazard, shapes fully enclosing one, and shapes enclosing the whole bin; a shape that leaves the engine's bounding square always collides. Contacts closer than floating point tolerance may be decided either way.",
 ["inputs", "configurations"], "every bin outline with holes and zones, every set of placed items, every query shape and placement, every set of irrelevant hazards, every quadtree depth",
 T + "containment without crossing edges, enclosing shapes, deep and shallow trees and irrelevant sets are reached by accident or never.",
 [J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs", J+"collision_detection/quadtree/qt_hazard.rs", J+"collision_detection/quadtree/qt_hazard_vec.rs", J+"collision_detection/quadtree/qt_partial_hazard.rs"],
 [("edge queries on the quadtree followed by containment tests", "CDEngine::poly_collides"), ("per-quadrant presence of hazards", "QTHazard::constrict, QTNode::register_hazard"), ("mutual containment test", "CDEngine::poly_or_hazard_are_contained")])

add("C02", "Fail-fast surrogates never report a collision that is not there",
 "The poles and piers of a shape's surrogate lie inside the shape, wherever the shape is and however it is transformed. A query with the surrogate reports a collision only if the full shape really collides with a relevant hazard, so rejecting a placement on the surrogate's word never loses a feasible placement. The same holds for the list of hazards collected with the surrogate, and every relevant hazard whose boundary is reached by one of the surrogate's poles or piers is reported.",
 ["inputs", "configurations"], "every simple polygon, every surrogate configuration (pole limits, coverage goal, number of poles and piers), every transformation, every engine content and set of irrelevant hazards",
 T + "a surrogate that pokes out of its shape only costs solution quality, which no test measures.",
 [J+"geometry/fail_fast/sp_surrogate.rs", J+"geometry/fail_fast/poi.rs", J+"geometry/fail_fast/piers.rs", J+"collision_detection/cd_engine.rs"],
 [("pole generation", "generate_next_pole, generate_surrogate_poles"), ("pier generation", "generate_piers"), ("surrogate query", "CDEngine::surrogate_collides"), ("surrogate collection", "CDEngine::collect_surrogate_collisions_in_detector")])

add("C03", "Collected hazards are exactly the hazards a shape collides with",
 "Collecting the collisions of a shape yields every relevant hazard (registered within the engine's bounding square) that the shape overlaps and no other, each once, including hazards that contain the shape and hazards contained in it. Hazards declared irrelevant are never reported, and entries already present in the buffer handed in stay untouched and are not repeated. The hazards stated to lie within a given region of the quadtree include every hazard whose boundary reaches it and none that is clear of it.",
 ["inputs", "configurations"], "every bin, set of placed (possibly mutually overlapping) items, query shape, pre-filled buffer and quadtree depth",
 T + "collecting collisions is not used by the tested optimizer at all, only by downstream users and by debug assertions that compare two paths of the same code.",
 [J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs", J+"collision_detection/quadtree/qt_hazard_vec.rs"],
 [("collection over the tree", "QTNode::collect_collisions"), ("collection plus containment", "CDEngine::collect_poly_collisions, CDEngine::collect_poly_collisions_in_detector")])

add("C04", "Definite quadtree answers about points, edges and circles are sound",
 "When the quadtree definitely answers that a point, edge or circle collides or does not collide with the relevant hazards, that answer agrees with the geometry, and it is indefinite only where a hazard's boundary is near. Any primitive farther from all relevant boundaries than the diagonal of the finest quadtree cell gets a definite answer. Edges with an endpoint and circles with a centre outside the engine's bounding square collide; points outside are indeterminate.",
 ["inputs", "configurations"], "every engine content, every point, edge and circle, every set of irrelevant hazards, every quadtree depth",
 T + "the three-valued entity queries have no test of their own.",
 [J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs", J+"collision_detection/quadtree/qt_hazard.rs"],
 [("definite collision of a primitive", "QTNode::definitely_collides, CDEngine::point_definitely_collides_with, CDEngine::edge_definitely_collides, CDEngine::circle_definitely_collides")])

add("C05", "The collision engine's answers do not depend on its history",
 "After any sequence of registering hazards, removing them with or without committing the removal, re-registering a hazard whose removal is pending, committing, snapshotting and restoring, the engine answers every collision query exactly like an engine freshly built from the hazards that are present. It reports whether removals are pending accordingly. Taking a snapshot does not change what is answered, and a snapshot restores the same state however often and whenever it is restored.",
 ["histories", "inputs"], "every sequence of engine operations over every set of hazards",
 T + "they only ever place items, once each, and never restore or re-register.",
 [J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs", J+"collision_detection/quadtree/qt_hazard_vec.rs"],
 [("deactivation and reactivation of pending removals", "CDEngine::register_hazard, CDEngine::deregister_hazard, CDEngine::commit_deregisters"), ("snapshot/restore", "CDEngine::create_snapshot, CDEngine::restore"), ("splitting and pruning of nodes", "QTNode::register_hazard, QTNode::deregister_hazard")])

add("C06", "The hazard proximity grid states exact distances and hides no placement",
 "Each cell of the hazard proximity grid states the distance from its centre to the nearest hazard: the bin's exterior and holes, each quality zone for its quality, and the poles of every placed item, however items were placed, removed and restored before. A cell is only absent or judged unable to accommodate an item if no placement of that item centred in it is free of collisions. Access to the grid is refused while removals are still pending.",
 ["histories", "inputs", "configurations"], "every bin, number of cells, history of registering, removing and flushing, every item and quality",
 T + "a grid that is wrong only makes the search worse or slower.",
 [J+"collision_detection/hpg/hazard_proximity_grid.rs", J+"collision_detection/hpg/hpg_cell.rs", J+"collision_detection/hpg/boundary_fill.rs", J+"collision_detection/hpg/grid.rs", J+"collision_detection/hpg/grid_generator.rs"],
 [("boundary fill around a new hazard", "HazardProximityGrid::register_hazard, BoundaryFillHPG"), ("recomputation after removals", "HazardProximityGrid::flush_deregistered, HPGCell::register_to_be_deregistered"), ("rejection rule", "HPGCell::could_accommodate_item")])

add("C07", "An item is held only to the quality zones below its base quality",
 "An item with a base quality collides with precisely those quality zones whose quality is below it, an item without base quality with every zone, and a hole in the bin blocks every item. Hazard filters select exactly the hazards they describe, combined filters those selected by any of their parts. Placement verdicts follow: a shape overlapping only tolerated zones is free.",
 ["inputs"], "every bin with zones of several qualities (also several zones of one quality), every base quality, every filter combination and every query shape",
 T + "none of the benchmark files contains quality zones.",
 [J+"collision_detection/hazard_filter.rs", J+"collision_detection/hazard.rs", J+"entities/item.rs", J+"entities/bin.rs", J+"entities/quality_zone.rs"],
 [("filter generation", "Item::new"), ("filter evaluation", "generate_irrelevant_hazards"), ("zones as hazards", "Bin::new, QualityZone::new")])

add("C08", "A layout and its snapshots always describe exactly the items placed",
 "After any history of placing, removing (committed or pending), flushing, snapshotting, restoring, changing the bin and copying, a layout holds exactly the items placed and not removed, each at its transformation and with the transformed shape, its usage is their area over the bin's, and its collision engine knows exactly these items and the bin's own hazards. Restoring a snapshot brings back its items under the keys they had, and its bin. A snapshot never changes after it was taken.",
 ["histories", "inputs"], "every sequence of layout operations, every bin and set of items",
 T + "they never remove, restore or change a bin.",
 [J+"entities/layout.rs", J+"entities/placed_item.rs", J+"collision_detection/cd_engine.rs"],
 [("bookkeeping of placed items and engine", "Layout::place_item, Layout::remove_item, Layout::restore, Layout::create_snapshot, Layout::change_bin, Layout::from_snapshot")])

add("C09", "Bin packing keeps demand, stock and layouts consistent through any history",
 "After any history of placing items in open layouts or new bins, removing items or layouts, and creating and restoring solutions, for every item type the number still missing plus the number placed equals the demand, for every bin type the number used plus the number in stock is constant, and a layout that loses its last item is closed and its bin returned. Restoring a solution brings back its layouts, items, quantities and stock; created solutions never change, whether they were built from scratch or incrementally. Every bin type with stock is offered for opening, and a removal states the item, position and layout it concerned.",
 ["histories", "inputs"], "every bin packing instance and every sequence of problem operations",
 T + "they solve two bin packing instances by placing only.",
 [J+"entities/problems/bin_packing.rs", J+"entities/problems/problem_generic.rs", J+"entities/solution.rs"],
 [("placing and opening layouts", "BPProblem::place_item"), ("removal and closing", "BPProblem::remove_item, BPProblem::remove_layout"), ("solutions", "BPProblem::create_solution, BPProblem::restore_to_solution"), ("counts", "register_included_item, register_bin")])

add("C10", "Changing a strip's width keeps exactly the items that still fit",
 "Setting the width of a strip keeps every item that fits inside the new strip, unmoved, and gives the others back as missing; the strip then has the requested width and its original height. Fitting the strip loses no item and leaves a strip that ends where its items end. Demand bookkeeping, restoring of solutions across width changes and the stated occupied range remain exact through any history of placing, removing, resizing and restoring.",
 ["histories", "inputs"], "every strip packing instance and every sequence of placing, removing, resizing, fitting, creating and restoring solutions",
 T + "the tests grow the strip once and fit it at the end, without looking at the result.",
 [J+"entities/problems/strip_packing.rs", J+"entities/bin.rs"],
 [("strip modification", "SPProblem::modify_strip_in_back, SPProblem::fit_strip"), ("solutions", "SPProblem::create_solution, SPProblem::restore_to_solution"), ("occupied range", "SPProblem::occupied_range, occupied_range")])

add("C11", "Parsing an instance is faithful, and malformed instances are rejected",
 "The parsed instance has the items and bins or strip of the input in order, with the stated demand, stock, cost, value, base quality and allowed orientations, and shapes congruent to the input outlines (an explicitly closed outline counts its first vertex once), holes and quality zones included; each shape mapped back by its stated pretransformation lies where the input put it. Where simplification is enabled, items only grow and bins only shrink, within the configured area budget. Writing an instance back yields an equivalent input, and malformed input is rejected instead of being misread.",
 ["inputs", "configurations"], "every instance in the documented JSON format and every simplification/centring configuration",
 T + "they parse eleven fixed files without holes, zones, qualities, costs or centring checks.",
 [J+"io/parser.rs", J+"io/json_instance.rs", J+"entities/item.rs", J+"entities/bin.rs"],
 [("parsing", "Parser::parse, Parser::parse_item, Parser::parse_bin, convert_json_simple_poly, pretransform"), ("writing back", "compose_json_instance helpers")])

add("C12", "Written solutions reproduce the layouts in the coordinates of the input",
 "Applying the transformations of a written solution to the shapes of the input file, and placing them in the bin or strip of the input file, reproduces every layout exactly: same items, same positions, same bin, same usage figures. Reading a written solution back yields the same solution. Conversion between internal and external transformations is exactly invertible for any pretransformations of item and bin.",
 ["inputs", "histories"], "every instance, every feasible layout, every pair of pretransformations and every allowed rotation",
 T + "they never look at the written transformations.",
 [J+"io/parser.rs", J+"io/json_solution.rs", J+"geometry/transformation.rs", J+"geometry/d_transformation.rs"],
 [("composing", "compose_json_solution, internal_to_absolute_transform"), ("reading back", "build_solution_from_json, absolute_to_internal_transform")])

add("C13", "Shape simplification is conservative, bounded and yields simple polygons",
 "Simplifying an item's outline yields a polygon that contains the original; simplifying a bin's outline yields a polygon contained in the original, and holes and zones are simplified as items are. The relative change in area never exceeds the configured budget, the result is a simple counter-clockwise polygon with at most as many vertices. A budget that allows no change leaves the region covered unchanged.",
 ["inputs", "configurations"], "every simple polygon and area budget, both directions",
 T + "an outline that shrinks by a little is invisible without an independent geometric oracle.",
 [J+"util/polygon_simplification.rs", J+"io/parser.rs"],
 [("candidate selection and validation", "simplify_shape, replace_vertex, candidate_is_valid")])

add("C14", "Derived data of a polygon describes the polygon it belongs to",
 "A polygon's area, bounding box, diameter, centroid, pole of inaccessibility, convex hull and the poles of its surrogate are those of its vertices regardless of the order, orientation and duplication in which those were given, and vertices are kept counter-clockwise. After any transformation or sequence of transformations they are the transformed ones: no derived datum is stale. The pole of inaccessibility is the largest inscribed circle up to the stated precision and the hull contains every vertex.",
 ["inputs", "histories"], "every simple polygon and point set (ties included), every rigid transformation and sequence of transformations",
 T + "wrong centroids, diameters or hulls never fail an assertion.",
 [J+"geometry/primitives/simple_polygon.rs", J+"geometry/convex_hull.rs", J+"geometry/fail_fast/poi.rs", J+"geometry/fail_fast/sp_surrogate.rs"],
 [("construction and caches", "SimplePolygon::new, SimplePolygon::transform, SimplePolygon::transform_from"), ("hull", "convex_hull_indices"), ("pole of inaccessibility", "generate_next_pole")])

add("C15", "Transformations compose, invert and decompose like rigid motions",
 "Any sequence of rotations, translations and composed or inverted transformations acts on points exactly as the product of the corresponding matrices, in the order applied. Decomposing yields a rotation and translation that rebuild the same motion, an inverse undoes it, and in-place and copying forms agree. Applying a transformation to a point, edge or circle moves it accordingly and keeps its size.",
 ["inputs", "histories"], "every sequence of transformation operations with any angles and translations",
 T + "errors in rarely used combinations cancel out or never occur when only the optimizer's one path is used.",
 [J+"geometry/transformation.rs", J+"geometry/d_transformation.rs", J+"geometry/geo_traits.rs"],
 [("matrix algebra", "Transformation::transform, transform_from_decomposed, rotate, translate, inverse, decompose"), ("decomposed form", "DTransformation::new, DTransformation::compose")])

add("C16", "Distances and intersection tests of primitives agree with exact geometry",
 "For points, edges, rectangles, circles and polygons, every collision and relation test, distance and squared distance, separation distance with its side, closest point and point of intersection, quadrant split and bounding circle agrees with exact geometry, outside floating point tolerance. Tests are symmetric in their arguments and rectangles fully containing, crossing, touching and disjoint from each other are told apart. The tolerant variants accept whatever the exact ones accept and differ from them only close to the boundary.",
 ["inputs"], "every pair of primitives at any scale, ties and degenerate positions included",
 T + "most predicates are called with a few generic positions only.",
 [J+"geometry/primitives/edge.rs", J+"geometry/primitives/circle.rs", J+"geometry/primitives/aa_rectangle.rs", J+"geometry/primitives/point.rs", J+"geometry/primitives/simple_polygon.rs", J+"util/fpa.rs"],
 [("predicates and distances", "CollidesWith, DistanceFrom, AlmostCollidesWith implementations"), ("geometric relation", "AARectangle::relation_to, almost_relation_to"), ("quadrants", "AARectangle::quadrants")])

add("C17", "Every solution of the LBF optimizer is feasible in the input's own geometry",
 "In every solution the optimizer returns, the original input shapes moved by the solution's transformations do not overlap one another, lie inside the original bin or strip, avoid holes and the quality zones they do not tolerate, and use allowed rotations only. No item is placed more often than demanded and no bin used more often than stocked; a strip packing solution places every item. Solving again from a partial or restored solution only adds items and never alters solutions returned before.",
 ["inputs", "configurations", "histories"], "every instance, configuration, seed and restart history",
 T + "feasibility is only asserted with the same engine that made the decisions.",
 [L+"lbf_optimizer.rs", L+"lbf_cost.rs", J+"collision_detection/cd_engine.rs", J+"io/parser.rs"],
 [("solve loop", "LBFOptimizer::solve, find_lbf_placement, sample_layout")])

add("C18", "A seeded run is reproducible",
 "The same instance, configuration and seed give the same solution, bit for bit, with the same number of samples and the same usage, also when the instance is parsed again. Options that only affect the drawing do not affect the solution.",
 ["inputs", "configurations"], "every instance, configuration and seed",
 T + "no test runs anything twice.",
 [L+"lbf_optimizer.rs", L+"main.rs", L+"samplers/", J+"io/parser.rs"],
 [("explicit generator", "LBFOptimizer::new, SmallRng"), ("ordered containers", "SlotMap, IndexMap, sorted item order")])

add("C19", "Sampling stays in the allowed space and loses no feasible placement",
 "Sampled placements lie in the requested rectangle and use allowed rotations only (none, any, or exactly the listed ones, each of them reachable); local search samples follow the stated position and deviation, which decay as documented. The grid-based sampler covers every cell that could hold the item and drops a cell only if no placement in it can improve on the best. The search returns a collision-free placement within its sample budget, of the best cost it found, and fills open layouts in order before opening new bins from stock.",
 ["inputs", "configurations"], "every item, layout, best cost so far, sample budget and seed",
 T + "a biased or truncated search space does not fail any test.",
 [L+"samplers/hpg_sampler.rs", L+"samplers/ls_sampler.rs", L+"samplers/uniform_rect_sampler.rs", L+"samplers/rotation_distr.rs", L+"lbf_optimizer.rs", L+"lbf_cost.rs"],
 [("sampling", "HPGSampler, LSSampler, UniformRectSampler, UniformRotDistr"), ("tightening", "HPGSampler::tighten"), ("search", "sample_layout, find_lbf_placement")])

add("C20", "Files and drawings the program writes show the solution it found",
 "The program writes, for an input file, one solution file that repeats the instance and configuration and states the solution the library finds for them, and one drawing per layout; on bad input it fails without writing a solution. A drawing shows the whole bin with its holes and quality zones and every placed item where the layout has it, each once. Optional overlays (surrogates, quadtree cells, proximity grid) show the layout's own data and appear only on request.",
 ["inputs", "configurations"], "every instance, layout and drawing option",
 T + "no test runs the program or looks at a drawing.",
 [L+"io/layout_to_svg.rs", L+"io/svg_export.rs", L+"io/svg_util.rs", L+"main.rs", L+"io/mod.rs", L+"io/json_output.rs"],
 [("drawing", "layout_to_svg, s_layout_to_svg, svg_export"), ("program", "main, read_json_instance, write_json, write_svg")])

add("C21", "Reported statistics match the layouts they describe",
 "The usage of a layout, problem or solution is the area of the placed items over the area of the bins or strip they are in, a solution without layouts has usage 0, bin cost is the sum of the costs of the bins used, a solution is complete exactly when all demand is placed, and its completeness is the placed share of the demanded area. The numbers of placed and missing items stated by a solution are those of its layouts. The totals an instance states (number of items, item area) match its demands.",
 ["inputs", "histories"], "every instance and every problem history",
 T + "no test looks at a statistic.",
 [J+"entities/solution.rs", J+"entities/problems/problem_generic.rs", J+"entities/problems/bin_packing.rs", J+"entities/problems/strip_packing.rs", J+"entities/layout.rs", J+"entities/instances/"],
 [("statistics", "ProblemGeneric::usage, Solution::new, Solution::is_complete, Layout::usage")])

add("C22", "Consistency checks never fire on valid use, and catch bad layouts",
 "With debug assertions and overflow checks enabled, no valid use of the library (registering, removing, committing and restoring hazards, layout and problem histories, parsing, writing, drawing, simplifying, generating surrogates, running the optimizer) panics. The public validators agree with the geometry: a layout is judged collision free exactly if no placed item collides with anything it is held to, a placement option likewise, and a layout matches a snapshot it was taken from or restored to but not one holding an item it lost.",
 ["histories", "inputs", "configurations"], "every valid operation history, input and configuration",
 T + "the assertions run on eleven histories that only place items.",
 [J+"util/assertions.rs", J+"collision_detection/cd_engine.rs", J+"collision_detection/quadtree/qt_node.rs", J+"entities/problems/bin_packing.rs", J+"entities/problems/strip_packing.rs", J+"entities/layout.rs"],
 [("validators", "util::assertions"), ("assertions throughout the library", "debug_assert!, assert!")])

with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
