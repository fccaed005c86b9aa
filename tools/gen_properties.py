#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts are easy to maintain)."""
import json, os
P = []
I = "include/boost/polygon/"
D = I + "detail/"
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Interval predicates and set operations have their point-set meaning",
 "For all integer intervals, containment, overlap (with and without touching), abutment (either or both sides), equality, intersection, hull/encompass, join and slicing give exactly the answer obtained by reading an interval as the closed set of points between its bounds, and every interval built or modified through the API keeps low <= high. An operation that reports failure leaves its argument unchanged, and one that reports success produces exactly the described interval.",
 ["inputs"], "every pair of intervals, coordinate and touch flag over the whole coordinate range",
 "the interval tests evaluate a few dozen literal intervals; open/closed boundary cases exist for every coincidence pattern of four bounds",
 [I+"interval_concept.hpp", I+"interval_data.hpp"],
 [("contains/intersects/boundaries_intersect/abuts", I+"interval_concept.hpp"), ("intersect/encompass/join_with/generalized_intersect", I+"interval_concept.hpp"), ("set/low/high normalisation", I+"interval_concept.hpp")],
 state=[("low,high", "closed bounds, low <= high", I+"interval_data.hpp")], observe=["return values and the mutated interval"])
prop("C02", "Interval arithmetic and measurement are exact",
 "For all intervals whose results are representable, moving, flipping, scaling (up, down and by a factor), convolving and deconvolving with a coordinate or interval, reflected convolution and deconvolution, bloating, shrinking, taking halves, the centre and the length produce exactly the interval or number the bounds imply; convolving then deconvolving with the same operand restores the original. Shrinking by more than half of the length yields a degenerate interval inside the original rather than an inverted one.",
 ["inputs"], "every interval and operand for which the mathematically exact result fits the coordinate type",
 "tests use single-digit literals; sign, parity and bound-order cases are unsampled",
 [I+"interval_concept.hpp", I+"interval_data.hpp"],
 [("move/flip/scale_up/scale_down/scale", I+"interval_concept.hpp"), ("convolve/deconvolve/reflected_*", I+"interval_concept.hpp"), ("bloat/shrink/get_half/center/delta", I+"interval_concept.hpp")])
prop("C03", "Rectangle predicates and set operations have their point-set meaning",
 "For all rectangles and points, containment, intersection, boundary intersection, abutment, edge and corner touching, equality and emptiness agree with the rectangle read as the product of its two closed intervals, and intersect, generalised intersect, encompass, join and slice yield exactly the rectangle that point-set reading prescribes or report failure and leave it unchanged. The touch flag decides, for every predicate and operation that takes one, whether shared boundary counts.",
 ["inputs"], "every pair of rectangles, every point, orientation and touch flag",
 "tests use a handful of rectangle pairs; the coincidence patterns of eight bounds are far more",
 [I+"rectangle_concept.hpp", I+"rectangle_data.hpp"],
 [("contains/intersects/boundaries_intersect/abuts/touch/edge_intersects", I+"rectangle_concept.hpp"), ("intersect/generalized_intersect/encompass/join_with", I+"rectangle_concept.hpp")])
prop("C04", "Rectangle measures and in-place edits are exact",
 "For all rectangles whose results are representable, area, perimeter, half-perimeter, width, centre, corners and halves are the exact values of the rectangle, and moving, resizing, convolving, bloating, shrinking, scaling and transforming it produces exactly the image of the rectangle as a point set with well-ordered bounds. Reading or writing one side of a rectangle never changes another side beyond what keeps it well ordered.",
 ["inputs"], "every rectangle and operand for which the exact result fits",
 "tests check single values; coordinate magnitudes near the limits and negative operands are not sampled",
 [I+"rectangle_concept.hpp", I+"rectangle_data.hpp", I+"transform.hpp"],
 [("area/perimeter/half_perimeter/delta/center", I+"rectangle_concept.hpp"), ("move/convolve/deconvolve/bloat/shrink/scale/transform", I+"rectangle_concept.hpp"), ("get_corner/get_half/set_points", I+"rectangle_concept.hpp")])
prop("C05", "Distances are exact, symmetric and zero exactly on contact",
 "For all points, intervals, rectangles and segments, the manhattan distance and the squared euclidean distance between two objects equal the exact mathematical minimum over their points, and the euclidean distance is the square root of that squared distance. The axis-wise distance is the exact gap along the axis, without overflow anywhere in the coordinate range.",
 ["inputs"], "every pair of objects over the coordinate range",
 "a few literal distances are tested; wraparound and truncation only show for large or irregular operands",
 [I+"interval_concept.hpp", I+"point_concept.hpp", I+"rectangle_concept.hpp", I+"segment_concept.hpp"],
 [("euclidean_distance/manhattan_distance/square_euclidean_distance", I+"point_concept.hpp"), ("rectangle distances", I+"rectangle_concept.hpp"), ("segment distances", I+"segment_concept.hpp")])
prop("C06", "Directions and transformations form the expected algebra",
 "Orientations, directions, windings and the eight axis transformations obey the algebra of the symmetries of the axes: reversing twice is identity, turning left then right is identity, composing two transformations acts on every point as applying one after the other, and applying a transformation and then its inverse restores every point. Scaling by a factor pair scales each axis by its own factor, composing scalings multiplies the factors per axis and inverting a scaling undoes it.",
 ["inputs"], "all transformation values and pairs, all points for which results fit",
 "tests exercise one composition chain; there are 64 pairs of axis transformations and unboundedly many points and displacements",
 [I+"isotropy.hpp", I+"transform.hpp"],
 [("direction_1d/2d, orientation_2d/3d, winding", I+"isotropy.hpp"), ("axis_transformation, transformation, anisotropic_scale_factor", I+"transform.hpp")])
prop("C07", "Segment predicates are exact",
 "For all segments and points with coordinates in the documented range, orientation of a point relative to a segment, orientation of a segment relative to another, containment of a point or segment, intersection and abutment give the exact mathematical answer (with the touch flag deciding whether endpoint contact counts), and no rounding or overflow ever changes it.",
 ["inputs"], "every pair of segments and every point over the coordinate range",
 "near-collinear triples with large coordinates cannot be sampled by literal tests",
 [I+"segment_concept.hpp", I+"segment_data.hpp"],
 [("orientation/contains/intersects/abuts", I+"segment_concept.hpp"), ("length, center, move, scale, transform, convolve", I+"segment_concept.hpp")])
prop("C08", "Edge comparisons used by the sweep are exact and a consistent order",
 "For all edges with integer coordinates, deciding which of two slopes is smaller or whether they are equal, whether a point is above, on or below an edge, whether two edges cross, and which of two non-crossing edges is lower at the sweep position where one of them begins gives the exact rational answer, so the edge order at a sweep position is a strict weak order. No magnitude of coordinates in range makes the answer depend on rounding.",
 ["inputs"], "all pairs and triples of edges/points in the coordinate range",
 "the tests only observe final polygons of a few shapes; ordering mistakes need near-equal slopes with large coordinates",
 [D+"scan_arbitrary.hpp", D+"polygon_arbitrary_formation.hpp"],
 [("scanline_base::less_slope/equal_slope/on_above_or_below/evalAtXforY*", D+"polygon_arbitrary_formation.hpp"), ("less_half_edge", D+"polygon_arbitrary_formation.hpp"), ("intersects_grid/contains/compute_intersection", D+"polygon_arbitrary_formation.hpp")])
prop("C09", "Polygon measures equal their mathematical values",
 "For every simple polygon and polygon with holes of any vertex count, area equals the exact enclosed area (holes subtracted), winding is the true orientation, perimeter is the total edge length, extents is the smallest enclosing rectangle, the centre is the centre of the extents, and the manhattan/45-degree classification is true exactly when every edge (of the outer boundary and of each hole) is axis-parallel/octilinear. The answers do not depend on the starting vertex or on the polygon representation holding the same boundary.",
 ["inputs"], "every polygon with any number of vertices and holes",
 "tests measure a few fixed polygons; the loops over vertices and holes need an inductive argument",
 [I+"polygon_traits.hpp"],
 [("area/point_sequence_area", I+"polygon_traits.hpp"), ("winding/perimeter/extents/center/is_45/is_manhattan", I+"polygon_traits.hpp")])
prop("C10", "Point-in-polygon is exact",
 "For every simple polygon, rectilinear or general, with or without holes, and every integer query point, containment reports true for interior points, false for exterior points (including the interior of holes) and follows the touch flag for points on any boundary edge or vertex. The answer does not depend on the winding direction or the starting vertex of the polygon.",
 ["inputs"], "every polygon, every query point, touch flag and winding",
 "tests query a few points of a few shapes; vertex-level degeneracies multiply with polygon size",
 [I+"polygon_traits.hpp"], [("contains", I+"polygon_traits.hpp")])
prop("C11", "Editing a polygon maps every vertex and keeps its holes",
 "Moving, convolving, scaling up or down and transforming a polygon (with or without holes, stored either as vertices or as compact rectilinear coordinates) replaces every vertex of the outer boundary and of every hole by exactly the image of that vertex, with the vertex order and the number of vertices and holes unchanged. Copying a polygon between representations or assigning it preserves exactly its boundary and holes. Scaling an octilinear polygon down or by a fraction keeps it octilinear, with every vertex within a few units of its exact image.",
 ["inputs"], "every polygon of any size and every displacement, factor or transformation whose results fit",
 "tests move one or two polygons; a per-vertex claim for all sizes needs a loop argument",
 [I+"polygon_traits.hpp", I+"polygon_data.hpp", I+"polygon_90_data.hpp", I+"polygon_45_data.hpp", I+"polygon_with_holes_data.hpp", I+"polygon_90_with_holes_data.hpp"],
 [("move/convolve/scale_up/scale_down/transform", I+"polygon_traits.hpp"), ("assign", I+"polygon_traits.hpp"), ("set/set_holes/set_compact", I+"polygon_90_data.hpp")])
prop("C12", "Manhattan boolean operations are pointwise set algebra",
 "For any two collections of rectilinear geometry, a point not on an edge is in the union, intersection, difference or symmetric difference exactly when the corresponding combination of membership in the operands holds, and self-overlap counting (self union, self intersection, self xor) agrees with the number of covering inputs at that point. The result does not depend on the order, orientation or duplication-free decomposition in which the geometry was inserted.",
 ["inputs", "histories"], "any operand geometry, any insertion order, every point of the plane",
 "tests compare a few hand-made shapes; correctness over all overlap patterns is a sweep-line invariant",
 [D+"boolean_op.hpp", I+"polygon_90_set_data.hpp", D+"polygon_90_set_view.hpp", I+"polygon_90_set_concept.hpp", D+"iterator_geometry_to_set.hpp"],
 [("BooleanOp::processInterval, BinaryCount/UnaryCount", D+"boolean_op.hpp"), ("applyBooleanBinaryOp, self_union etc.", D+"boolean_op.hpp"), ("polygon_90_set_data::clean/sort/insert/applyBooleanBinaryOp", I+"polygon_90_set_data.hpp")],
 state=[("nextItr_/scan map", "count of covering geometry per scanline interval", D+"boolean_op.hpp")])
prop("C13", "Manhattan geometry written out covers the region exactly once",
 "Extracting a rectilinear region as rectangles or trapezoids (along either orientation), polygons, or polygons with holes produces pieces with disjoint interiors whose union is exactly the region, holes are counter-oriented and lie inside their outer boundary, and feeding the pieces back reproduces a set that compares equal. Area, extents, and equality or equivalence of rectilinear sets depend only on the region and not on how it was built.",
 ["inputs", "histories"], "any rectilinear region, any way of building it, either orientation",
 "tests check particular outputs; pinch points, touching corners and nested holes form an open-ended family",
 [D+"rectangle_formation.hpp", D+"polygon_formation.hpp", I+"polygon_90_set_data.hpp"],
 [("form_rectangles/ScanLineToRects", D+"rectangle_formation.hpp"), ("get_polygons / ScanLine::processEdges", D+"polygon_formation.hpp"), ("clean, operator==, area, extents", I+"polygon_90_set_data.hpp")])
prop("C14", "Sizing rectilinear regions is Minkowski addition and erosion",
 "Bloating a rectilinear region by per-direction amounts gives exactly the set of points reached by adding the sizing rectangle, shrinking gives exactly the complement of bloating the complement by the mirrored rectangle, and resize, grow_and and keep follow from these. Moving, scaling and transforming a region maps its point set exactly.",
 ["inputs"], "any rectilinear region and non-negative sizing amounts",
 "tests size a few rectangles; interactions at notches, slots and holes are unsampled",
 [I+"polygon_90_set_data.hpp", I+"polygon_90_set_concept.hpp"],
 [("bloat/shrink/resize/move/scale/transform", I+"polygon_90_set_data.hpp"), ("keep/get_max_rectangles", I+"polygon_90_set_concept.hpp")])
prop("C15", "45-degree boolean operations are pointwise set algebra",
 "For any operands with edges at multiples of 45 degrees whose crossings fall on the integer grid, union, intersection, difference, xor and the self operations contain a point off every edge exactly when the corresponding combination of operand memberships holds, and extraction as polygons, polygons with holes or trapezoids covers that region exactly once. Results depend only on the operand regions, not on insertion order.",
 ["inputs", "histories"], "any octilinear operands with integer crossings, every point off the edges",
 "tests use a limited list of shapes; the eight-direction vertex cases multiply",
 [D+"boolean_op_45.hpp", D+"polygon_45_formation.hpp", I+"polygon_45_set_data.hpp", I+"polygon_45_set_concept.hpp", D+"polygon_45_set_view.hpp"],
 [("boolean_op_45 scan", D+"boolean_op_45.hpp"), ("polygon_45_formation", D+"polygon_45_formation.hpp"), ("polygon_45_set_data operators", I+"polygon_45_set_data.hpp")])
prop("C16", "General polygon boolean operations are pointwise set algebra",
 "For arbitrary-angle polygon sets whose edge crossings fall on the integer grid, with no vertex or crossing closer than a grid unit to an edge it is not on and coordinates within the exact range of the high-precision type (about 2^20), union, intersection, difference and xor contain a point off every edge exactly when the corresponding combination of operand memberships holds, with non-overlapping output pieces. Fractured, merged and reassembled output (polygons, holes, trapezoids) describes the same region, up to rounding to the grid of the corners that cutting introduces.",
 ["inputs", "histories"], "any polygon operands, every point off (and not within a grid unit of) the edges",
 "tests use a limited list of shapes; rounding of crossings and vertical/coincident edges are open-ended",
 [D+"scan_arbitrary.hpp", D+"polygon_arbitrary_formation.hpp", I+"polygon_set_data.hpp", I+"polygon_set_concept.hpp", D+"polygon_set_view.hpp"],
 [("arbitrary_boolean_op / property_merge scan", D+"scan_arbitrary.hpp"), ("line_intersection::validate_scan", D+"scan_arbitrary.hpp"), ("polygon_arbitrary_formation", D+"polygon_arbitrary_formation.hpp")])
prop("C17", "Intersecting a set of segments splits exactly at crossings",
 "Given any set of segments, the pieces reported for each input segment (identified by its index where the caller asked for that) chain from one of its ends to the other and stay within grid rounding of it, segments are cut exactly where they cross, touch or overlap others when those places are on the grid, and no two output pieces cross or partly overlap. The envelope of a set of segments is the smallest rectangle that contains them.",
 ["inputs"], "any multiset of segments in range",
 "tests feed three or four small configurations",
 [I+"segment_utils.hpp", D+"scan_arbitrary.hpp"],
 [("intersect_segments / intersects", I+"segment_utils.hpp"), ("line_intersection", D+"scan_arbitrary.hpp")])
prop("C18", "Connectivity and property merge report exactly the true overlaps",
 "Connectivity extraction over rectilinear, octilinear or general geometry links two different nodes exactly when their regions overlap or touch (at a corner included), and property merge assigns to each output region exactly the set of properties whose inputs cover it, with the output regions disjoint. Every input contributes regardless of insertion order.",
 ["inputs", "histories"], "any number of nodes/properties and any geometry",
 "tests use a few rectangles and layers",
 [D+"polygon_90_touch.hpp", D+"polygon_45_touch.hpp", D+"property_merge.hpp", D+"property_merge_45.hpp", D+"scan_arbitrary.hpp"],
 [("connectivity_extraction*", I+"polygon_90_set_concept.hpp"), ("property_merge*", D+"property_merge.hpp")])
prop("C19", "Big-integer arithmetic of the Voronoi predicates is exact",
 "Within its documented capacity, fixed-capacity big-integer construction, negation, addition, subtraction, multiplication, comparison and sign agree with mathematical integers for every operand pair, every result compares equal to the same value built any other way, and conversion to floating point is within a relative error of a few units in the last place. No operand order or sign combination gives a different value.",
 ["inputs"], "every pair of representable big integers, all lengths and signs, every capacity used by the library",
 "tests use small or random values; carries and cancellations across 32-bit chunks are rare",
 [D+"voronoi_ctypes.hpp"], [("extended_int add/dif/mul/compare", D+"voronoi_ctypes.hpp"), ("type converters", D+"voronoi_ctypes.hpp")])
prop("C20", "Voronoi orientation, ordering and circle predicates give the geometric answer",
 "For all sites and points with 32-bit integer coordinates, the orientation test, the ordering of points and of site events, and the existence of a circle event through three sites are exact, and the site order is a strict weak order. Placing a new site on the beach line follows the exact distances along the sweep direction to the two arcs, for point and segment arcs alike, whenever those distances differ by more than the few units of rounding the comparison documents. A circle event's centre and rightmost point are accurate to 64 units in the last place: the circle touches its three sites, whether the filtered or the multi-precision evaluation produced it.",
 ["inputs"], "all 32-bit integer point and segment sites",
 "tests use points of moderate size; near-degenerate 32-bit configurations are never reached",
 [D+"voronoi_predicates.hpp"], [("robust_cross_product/orientation_test/event_comparison/distance_predicate/node_comparison/circle_existence", D+"voronoi_predicates.hpp")])
prop("C21", "Float comparison by ulps and the extended-range float are correct",
 "Comparing two doubles within a number of ulps answers less, equal or more exactly according to how many representable values lie between them, is antisymmetric, and treats the two zeros as equal. The extended-exponent float computes sums, differences, products, quotients and square roots within one rounding of the double result, without overflow or underflow for exponents far outside the double range.",
 ["inputs"], "every pair of finite doubles, every ulp bound, every exponent",
 "tests sample a few dozen doubles of 2^64",
 [D+"voronoi_ctypes.hpp"], [("ulp_comparison", D+"voronoi_ctypes.hpp"), ("extended_exponent_fpt", D+"voronoi_ctypes.hpp")])
prop("C22", "Robust square-root sums and differences stay within their error bound",
 "Evaluating sums of up to four terms of the form A*sqrt(B) over big integers yields the correct sign and a relative error within the documented bound for all operands, however strongly the terms cancel. Accumulating signed floating values separately by sign and reporting their difference keeps the tracked relative error an upper bound of the true one.",
 ["inputs"], "all operand combinations within the big-integer capacity",
 "cancellation-heavy operand tuples are rare and tests use random ones",
 [D+"voronoi_robust_fpt.hpp"], [("robust_sqrt_expr eval1..eval4", D+"voronoi_robust_fpt.hpp"), ("robust_dif, robust_fpt", D+"voronoi_robust_fpt.hpp")])
prop("C23", "Voronoi diagrams are topologically well formed",
 "For every set of distinct points and segments that meet only at endpoints, the diagram has one cell per input site piece in input order semantics (each point, each segment and each segment endpoint once), every half-edge has a twin pointing back, next and previous are mutually inverse within a cell, edges around a vertex form one cycle, and the counts satisfy Euler's formula. Every cell records the input index and category it came from, and edge kinds (primary, linear, finite) are consistent between twins.",
 ["inputs", "histories"], "every admissible input set in any insertion order",
 "tests build a few small diagrams and some random ones",
 [I+"voronoi_builder.hpp", I+"voronoi_diagram.hpp", D+"voronoi_structures.hpp"],
 [("voronoi_builder::construct and event processing", I+"voronoi_builder.hpp"), ("voronoi_diagram insert/build/remove_edge", I+"voronoi_diagram.hpp")])
prop("C24", "Voronoi vertices and edges lie where the geometry says",
 "Every vertex of the diagram is equidistant, within a small relative tolerance, from the sites of all cells around it and no other site is closer; every primary edge separates exactly the two cells whose sites are nearest to its points. The diagram does not depend on the order of insertion and moves with a translation or axis symmetry of its input.",
 ["inputs"], "every admissible input set",
 "tests only verify topology and a few coordinates",
 [I+"voronoi_builder.hpp", D+"voronoi_predicates.hpp"],
 [("circle_formation (mp and lazy)", D+"voronoi_predicates.hpp"), ("circle event processing", I+"voronoi_builder.hpp")])
prop("C25", "Voronoi input registration and event queue keep order and identity",
 "Registering points and segments yields exactly one site event per distinct endpoint, segment body and point, with the right index, category and endpoint coordinates in lexicographic order, and duplicated points collapse to one. The event queue always delivers the smallest pending circle event first, keeps handed-out handles valid until their element is removed, and loses nothing.",
 ["inputs", "histories"], "every input sequence and every interleaving of queue pushes and pops",
 "tests push a handful of numbers",
 [I+"voronoi_builder.hpp", D+"voronoi_structures.hpp"],
 [("insert_point/insert_segment/init_sites_queue", I+"voronoi_builder.hpp"), ("ordered_queue, site_event, circle_event, beach_line_node_key", D+"voronoi_structures.hpp")])
prop("C26", "Overlap-filtered extraction: keep, interact, max rectangles and grow are exact",
 "Interaction keeps exactly those polygons of the first set that touch or overlap the second, filtering by minimum and maximum area, width and height keeps exactly the polygons within the bounds, and maximal-rectangle extraction returns exactly the inclusion-maximal rectangles inside the region. Self-intersection and overlap counts are independent of how inputs are ordered.",
 ["inputs"], "any rectilinear region",
 "tests use a few tiny shapes",
 [I+"polygon_90_set_concept.hpp", I+"polygon_90_set_data.hpp", D+"max_cover.hpp"],
 [("get_max_rectangles / MaxCover", D+"max_cover.hpp"), ("keep", I+"polygon_90_set_concept.hpp"), ("interact", I+"polygon_90_set_data.hpp")])
prop("C27", "Compact rectilinear iteration round-trips and yields the true edges",
 "Expanding a compact rectilinear coordinate sequence into points and compressing points into the compact form are mutually inverse for every sequence length, and turning rectangles or polygons (with holes) into directed edges emits each boundary edge exactly once with the sign that makes interior crossings count one. Empty and degenerate inputs produce no edges.",
 ["inputs"], "all coordinate sequences of any length, all rectangles and polygons",
 "tests iterate two fixed shapes",
 [D+"iterator_compact_to_points.hpp", D+"iterator_points_to_compact.hpp", D+"iterator_geometry_to_set.hpp"],
 [("iterator_compact_to_points", D+"iterator_compact_to_points.hpp"), ("iterator_points_to_compact", D+"iterator_points_to_compact.hpp"), ("iterator_geometry_to_set", D+"iterator_geometry_to_set.hpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
