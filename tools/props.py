#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
I = "include/boost/polygon/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": [I + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": I + c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": I + b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Manhattan Boolean operations are pointwise exact",
 "For any two rectilinear regions - each given as rectangles, polygons (with or without holes, either winding), containers of these, polygon sets of either scanline orientation, or nested operator expressions, with overlapping or redundant pieces allowed - the results of union, intersection, difference and symmetric difference cover exactly the points that set theory says. The expression form and the self-assigning form agree, and the operands of an expression are not changed as regions. This holds for all coordinates for which the areas of the operands are representable.",
 ["inputs"], "all pairs (and nested triples) of rectilinear regions, representations, orientations and coordinate embeddings",
 "The suite runs a handful of fixed layouts; whether every configuration of coinciding edges, corner touches, nested holes and multiplicities is classified right is a statement about all inputs.",
 ["detail/boolean_op.hpp", "detail/polygon_90_set_view.hpp", "polygon_90_set_data.hpp", "polygon_90_set_traits.hpp", "detail/iterator_geometry_to_set.hpp"],
 [("scanline Boolean over edge multiplicities", "detail/boolean_op.hpp"), ("lazy operator views", "detail/polygon_90_set_view.hpp"), ("geometry to edge conversion", "detail/iterator_geometry_to_set.hpp")],
 ["get_rectangles / assign of the result"])

prop("C02", "Rectilinear regions are decomposed exactly into the requested pieces",
 "Reading any rectilinear region out as rectangles (either slicing), as polygons with holes or as hole-free polygons yields pieces that are pairwise interior-disjoint and together cover exactly the region. Every piece has positive area and only axis-parallel edges; in the with-holes form shells come out counterclockwise and holes clockwise, each hole inside its own shell; re-inserting the pieces gives back the same region. get(container, vthreshold) cuts the region into pieces of at most vthreshold vertices under the same rules.",
 ["inputs"], "all rectilinear regions on a grid, all output forms, both orientations",
 "Tests compare a few hand-made outputs; holes in holes, corner-touching holes and islands, and slicing directions combine in ways a sample does not reach.",
 ["detail/polygon_formation.hpp", "detail/rectangle_formation.hpp", "polygon_90_set_data.hpp", "polygon_90_set_concept.hpp"],
 [("active-tail polygon formation", "detail/polygon_formation.hpp"), ("scanline rectangle formation", "detail/rectangle_formation.hpp")],
 ["get", "get_polygons", "get_rectangles"])

prop("C03", "Maximal rectangles are exactly the maximal ones",
 "Asking a rectilinear region for its maximal rectangles returns every rectangle that is contained in the region and in no larger contained rectangle, each exactly once, and no other rectangle, for sets of either scanline orientation.",
 ["inputs"], "all rectilinear regions on a grid and both orientations",
 "The tests check single examples; completeness and maximality quantify over all sub-rectangles of all regions.",
 ["detail/max_cover.hpp", "polygon_90_set_concept.hpp"],
 [("MaxCover graph walk", "detail/max_cover.hpp")], ["get_max_rectangles"])

prop("C04", "Manhattan resizing equals the Minkowski definition",
 "Growing a rectilinear region by west/east/south/north amounts yields exactly the union of its translates by the corresponding box, shrinking yields exactly the complement of the grown complement, resize with mixed signs grows or shrinks each axis by the box [-low, high] according to the sign of low+high (shrinking axis first), and the per-direction, per-orientation, isotropic and operator forms agree with the four-sided form. Growing and intersecting (grow_and) yields exactly the overlap of the separately grown polygons.",
 ["inputs"], "all rectilinear regions on a grid, all small amounts per side, including ones that close gaps, fill holes or annihilate pieces",
 "Tests resize a few shapes by one amount; corner-touching pieces, notches narrower than the amount and vanishing holes are where edge-pushing algorithms go wrong.",
 ["polygon_90_set_data.hpp", "polygon_90_set_concept.hpp"],
 [("polygon edge pushing bloat/shrink", "polygon_90_set_data.hpp"), ("resize decomposition", "polygon_90_set_data.hpp")], ["bloat", "shrink", "resize", "grow_and"])

prop("C05", "A Manhattan polygon set always represents the region its history built",
 "After any sequence of insertions, hole insertions, Boolean self-assignments, moves, transforms, scalings, resizes, clears, copies, assignments and read-only queries, a Manhattan polygon set denotes exactly the region obtained by applying the same operations to a point set, and every query (area, extents, emptiness, equality, decomposition) answers for that region. In particular interposing any read-only query anywhere changes no later answer. (Hole insertions subtract points covered by exactly one earlier insertion; overlap counting operations are outside this property.)",
 ["histories"], "all operation sequences up to a depth over an alphabet of mutators and observers",
 "Sets sort and merge lazily behind const queries, so stale-cache errors need particular operation orders; tests use one order each.",
 ["polygon_90_set_data.hpp", "polygon_90_set_traits.hpp"],
 [("dirty_/unsorted_ lazy normalisation", "polygon_90_set_data.hpp")], ["all public queries after every step"],
 [("dirty_, unsorted_", "whether data_ is merged / sorted", "polygon_90_set_data.hpp")])

prop("C06", "Manhattan set queries and selections answer for the region",
 "Area, extents, emptiness and equivalence of any rectilinear region agree with the region itself whatever its representation; self_intersect of freshly inserted, not yet queried shapes keeps exactly the points covered by at least two of them and self_xor those covered by an odd number; interact keeps exactly the polygons that touch or overlap the other region; keep retains exactly the polygons whose area lies within the closed area limits and whose width and height exceed the lower and do not exceed the upper limits.",
 ["inputs"], "all small multisets of rectangles / rectilinear regions, representations, orientations and limits",
 "Equality across representations and overlap counts are statements about all representation pairs and multiplicities.",
 ["polygon_90_set_concept.hpp", "polygon_90_set_data.hpp", "detail/boolean_op.hpp", "detail/polygon_90_touch.hpp"],
 [("canonical edge list comparison", "polygon_90_set_data.hpp"), ("UnaryCount", "detail/boolean_op.hpp"), ("touch scan", "detail/polygon_90_touch.hpp")], ["area", "extents", "empty", "equivalence", "self_intersect", "self_xor", "interact", "keep"])

prop("C07", "45-degree Boolean operations are exact on the grid",
 "For any regions bounded by horizontal, vertical and 45-degree edges, union, intersection, difference and symmetric difference (and overlap count selections) cover exactly the set-theoretic points whenever all edge crossings fall on integer points. Where a crossing falls between integer points the result differs from the exact one only within unit grid squares that contain such a crossing, and remains a valid 45-degree region.",
 ["inputs"], "all pairs of 45-degree regions on a grid of octants, and odd-parity placements with off-grid crossings",
 "Tests use a few octagons and random stress without exactness oracle; each arrangement of coincident octant edges is its own case in the scan.",
 ["detail/boolean_op_45.hpp", "polygon_45_set_data.hpp", "detail/polygon_45_set_view.hpp", "polygon_45_set_concept.hpp"],
 [("8-way scan of 45-degree edges", "detail/boolean_op_45.hpp")], ["get of the result"])

prop("C08", "45-degree regions are decomposed exactly",
 "Reading a 45-degree region as polygons, polygons with holes or trapezoids yields interior-disjoint pieces covering exactly the region, with 45-degree or axis-parallel edges only, counterclockwise shells and holes inside their shells; is_manhattan is true exactly when the region has no 45-degree edge, and area, extents and emptiness agree with the region.",
 ["inputs"], "all 45-degree regions on a small octant grid, all output forms",
 "Tests check isolated shapes by printed output.",
 ["detail/polygon_45_formation.hpp", "polygon_45_set_data.hpp", "polygon_45_set_concept.hpp"],
 [("polygon_45_formation / polygon_45_tiling", "detail/polygon_45_formation.hpp")], ["get", "get_trapezoids", "is_manhattan"])

prop("C09", "45-degree resizing is sound",
 "Growing (shrinking) every polygon of a 45-degree region by d adds to (removes from) it exactly the strips within d of its boundary edges and the corner pieces of its convex (reflex) vertices: axis-parallel edges move by exactly d, 45-degree edges by d/sqrt(2) per axis rounded as the RoundingOption says (SQRT2: d per axis; SQRT1OVER2: d along one axis), corners are extended to the intersection of the moved edges (INTERSECTION), squared off at acute corners (ORTHOGONAL), or left out (UNFILLED); holes are resized oppositely. For rectilinear input it equals the rectilinear resize; for convex input growing equals moving every half plane. grow_and keeps what at least two grown polygons cover. Where moved 45-degree edges cross between grid points the result may differ in the unit squares next to such crossings. All spellings (member, free function, operators, containers) agree.",
 ["inputs"], "all 45-degree polygons on a small grid and all regions of a lattice, small amounts, all rounding and corner modes",
 "Tests do not check resized 45-degree geometry against a definition.",
 ["polygon_45_set_data.hpp", "polygon_45_set_concept.hpp"], [("edge displacement and corner fill", "polygon_45_set_data.hpp")], ["resize", "insert_with_resize", "bloat", "shrink", "grow_and"])

prop("C10", "Arbitrary-angle Boolean operations are exact up to grid snapping",
 "For arbitrary integer polygons, union, intersection, difference and symmetric difference cover exactly the set-theoretic points whenever all edge crossings are integer points and coordinates are small enough for exact extended-precision arithmetic (spans up to about 2^20), whatever the winding, overlap, self-touching or representation of the operands. Otherwise (crossings off the grid, coordinates up to the full int range) every point where the result differs from the exact one lies within two grid units of an operand edge, and no result is lost, inverted or duplicated.",
 ["inputs"], "all pairs of small lattice triangles/quadrilaterals and unions of them, scaled so crossings are integral, and unscaled",
 "Tests run specific polygons; degenerate arrangements (coincident, collinear, concurrent, vertical edges) of arbitrary slopes quantify over all inputs.",
 ["detail/scan_arbitrary.hpp", "detail/polygon_arbitrary_formation.hpp", "polygon_set_data.hpp", "detail/polygon_set_view.hpp", "polygon_set_concept.hpp"],
 [("line_intersection + snapping", "detail/scan_arbitrary.hpp"), ("arbitrary_boolean_op scan", "detail/scan_arbitrary.hpp")], ["get of the result"])

prop("C11", "Arbitrary regions are decomposed exactly",
 "Reading an arbitrary-angle region as polygons with holes, hole-free polygons or trapezoids yields interior-disjoint pieces that together cover exactly the region (up to the rounding of cut points for trapezoids and cut lines, and of vertices nearer than the snapping distance to another edge), with counterclockwise shells (trapezoids: vertical slicing), holes inside their shells, and no degenerate pieces where cuts fall on the grid; area, extents and emptiness agree with it.",
 ["inputs"], "all small lattice regions with holes and touching vertices, all output forms",
 "Tests look at a few shapes; hole attachment and touching vertices multiply the cases.",
 ["detail/polygon_arbitrary_formation.hpp", "polygon_set_data.hpp"],
 [("polygon_arbitrary_formation / trapezoid_arbitrary_formation", "detail/polygon_arbitrary_formation.hpp")], ["get", "get_trapezoids"])

prop("C12", "45-degree and arbitrary polygon sets always represent the region their history built",
 "After any sequence of insertions, hole insertions, Boolean self-assignments, transforms, moves, scalings, clears, copies, assignments and queries, a 45-degree or arbitrary-angle polygon set denotes the region obtained by applying the operations to a point set; interposing read-only queries changes no later answer.",
 ["histories"], "all operation sequences up to a depth over an alphabet of mutators and observers",
 "Lazy sorting/cleaning and cached classification flags fail only under particular operation orders.",
 ["polygon_45_set_data.hpp", "polygon_set_data.hpp"],
 [("dirty_/unsorted_/is_45_ flags", "polygon_set_data.hpp"), ("dirty_/unsorted_/is_manhattan_ flags", "polygon_45_set_data.hpp")], ["all public queries after every step"],
 [("is_45_, dirty_, unsorted_", "cached normalisation state", "polygon_set_data.hpp"), ("is_manhattan_", "cached classification", "polygon_45_set_data.hpp")])

prop("C13", "Arbitrary-angle resizing is sound",
 "Growing a region by d with square corners covers the region, every boundary edge's outward offset by d and the mitre of every convex corner, and nothing else; shrinking by d leaves exactly the points that the same bands and mitres drawn inwards do not reach, up to grid rounding, for amounts at which no offset edge vanishes (convex regions: any amount). With filled corners and n segments the result is the Minkowski sum with (or, shrinking, the erosion by) the regular n-gon inscribed in the circle of radius d, for every amount. Rectilinear regions resized with square corners equal the rectilinear resize; resize, bloat, shrink and the operators with a number agree on sets and on vectors of polygons.",
 ["inputs"], "small lattice regions incl. holes and touching parts, amounts, corner settings and coordinate ranges",
 "Tests compare a few areas.",
 ["polygon_set_data.hpp", "detail/minkowski.hpp", "polygon_set_concept.hpp"], [("resize_poly_up / resize_poly_down / modify_pt", "polygon_set_data.hpp"), ("minkowski_offset", "detail/minkowski.hpp"), ("make_arc", "polygon_set_data.hpp")], ["resize", "bloat", "shrink", "operator+ / - with a number"])

prop("C14", "Map overlay assigns every point exactly its set of properties",
 "Merging geometry labelled with properties (rectilinear, 45-degree or arbitrary-angle) produces, for every set of properties, exactly the region of points covered by precisely those labels; the output regions are pairwise disjoint, no label set without area appears with area, and result map keys are the exact label sets regardless of insertion order or repetition.",
 ["inputs"], "all small families of labelled regions, label multiplicities and orders",
 "Every arrangement and label combination is its own case; tests check a few.",
 ["detail/property_merge.hpp", "detail/property_merge_45.hpp", "detail/scan_arbitrary.hpp", "polygon_90_set_data.hpp"],
 [("merge_scanline", "detail/property_merge.hpp"), ("polygon_45_property_merge", "detail/property_merge_45.hpp"), ("property_merge (arbitrary)", "detail/scan_arbitrary.hpp")], ["merge"])

prop("C15", "Connectivity extraction reports exactly the touching pairs",
 "After inserting any number of regions, connectivity extraction (rectilinear, 45-degree, arbitrary-angle) yields a symmetric irreflexive graph with an edge between two nodes exactly when their closed regions share at least a point (edge and corner touching included); node ids are consecutive in insertion order.",
 ["inputs"], "all pairs and triples of small regions in every relative position",
 "Touching at corners, along partial edges and inside holes is a case analysis over all relative positions.",
 ["detail/polygon_90_touch.hpp", "detail/polygon_45_touch.hpp", "detail/scan_arbitrary.hpp", "polygon_90_set_data.hpp"],
 [("touch_90_operation", "detail/polygon_90_touch.hpp"), ("touch_45_operation", "detail/polygon_45_touch.hpp"), ("arbitrary_connectivity_extraction", "detail/scan_arbitrary.hpp")], ["extract"])

prop("C16", "Polygon measures and point containment are exact",
 "For every simple polygon (with or without holes, any starting vertex, either winding, closed or unclosed vertex list) area, winding, perimeter, extents, size and point containment agree with their definitions: containment is exact for every integer point, boundary points counted as inside exactly when touching is considered, and points in holes are outside (integer area results that are representable; coordinates over the whole int range, 64-bit coordinates with extents below 2^32; floating-point results within rounding).",
 ["inputs"], "all simple lattice polygons up to a vertex count, all starting vertices, windings and query points; rectilinear, 45-degree and arbitrary types",
 "Containment and winding degenerate at vertices, horizontal/vertical edges and collinear runs; tests use a few query points.",
 ["polygon_traits.hpp"], [("contains / winding / area dispatch", "polygon_traits.hpp")], ["contains", "area", "winding", "perimeter", "extents", "center"])

prop("C17", "Conversions between polygon types preserve the polygon",
 "Assigning or viewing any polygon as another polygon type that can hold it preserves the region and the vertex cycle, and copying, moving, transforming and scaling polygon objects of every type apply the coordinate map to every vertex and hole (45-degree objects whose scaling rounds stay 45-degree, with vertices within a few units of their images).",
 ["inputs"], "all small polygons and pairs of compatible types",
 "The conversions are template case analyses; each pair of concepts and each start/winding parity is a separate path.",
 ["polygon_traits.hpp", "polygon_90_data.hpp", "polygon_90_with_holes_data.hpp", "polygon_45_data.hpp", "detail/iterator_compact_to_points.hpp", "detail/iterator_points_to_compact.hpp"],
 [("compact <-> point iterators", "detail/iterator_points_to_compact.hpp")], ["assign", "view_as", "begin_points", "begin_compact"])

prop("C18", "Rectangle operations agree with closed coordinate sets",
 "Every rectangle predicate and operation (containment, intersection and touching predicates, intersect, generalized intersect, encompass, join, bloat/shrink, move, convolve, scaling, centre, deltas, distances, getters and setters) agrees with the corresponding operation on the closed set of points, and results keep low <= high on both axes (results representable in the coordinate type; shrinking by at most the width; no-touch intersection of rectangles of positive area).",
 ["inputs"], "all pairs of rectangles and points with corners on a small grid at several coordinate embeddings",
 "The relations between two rectangles form a finite product of interval relations of which tests visit a few.",
 ["rectangle_concept.hpp", "rectangle_data.hpp", "rectangle_traits.hpp"], [("per-axis interval delegation", "rectangle_concept.hpp")], ["free functions on rectangle concept"])

prop("C19", "Interval operations agree with closed coordinate sets",
 "Every interval predicate and operation (contains, intersects, boundaries_intersect, abuts, intersect, generalized_intersect, encompass, join, bloat/shrink, flip, scale, move, convolve, distance, get_half, center) agrees with the corresponding operation on closed coordinate ranges with the documented touch semantics, and never leaves low > high (results representable in the coordinate type; shrinking and deconvolving by at most the width).",
 ["inputs"], "all pairs of intervals on a small grid and all coordinates, several embeddings",
 "There are finitely many interval relations, but tests visit a few.",
 ["interval_concept.hpp", "interval_data.hpp", "interval_traits.hpp"], [("interval free functions", "interval_concept.hpp")], ["free functions on interval concept"])

prop("C20", "Point and segment predicates are exact",
 "Point and segment operations (orientation of points and segments, containment, intersects, abuts, length, distances, equivalence, extents, move, scale, transform, convolve) agree with exact arithmetic for every integer input over the coordinate range, including collinear, touching, degenerate and zero-length segments (distances to floating-point rounding; mapped coordinates representable).",
 ["inputs"], "all pairs of segments and points on a small grid plus extreme-coordinate embeddings",
 "Collinear overlaps, shared endpoints and near-overflow coordinates are corner cases over all input pairs.",
 ["point_concept.hpp", "segment_concept.hpp"], [("cross-product sign with widened arithmetic", "segment_concept.hpp")], ["orientation", "contains", "intersects", "abuts", "euclidean_distance"])

prop("C21", "Axis transformations form the symmetry group of the square",
 "Orientation, direction and axis-transformation objects satisfy their algebra: composition of transformations equals applying them in sequence, inverse undoes, every one of the eight transformations acts on points, segments, rectangles and polygons as its direction definition says, rigid transformations (with translation, or given by reference and destination point) compose, invert and act accordingly, direction left/right/backward rules hold, scale factors multiply, invert and transform consistently, and scaling by a factor and its inverse round-trips.",
 ["inputs"], "all transformations, all pairs and triples, all directions; finite and complete",
 "Only complete enumeration of the finite algebra shows closure and every table entry.",
 ["isotropy.hpp", "transform.hpp"], [("axis_transformation tables", "transform.hpp"), ("direction tables", "isotropy.hpp")], ["compose", "invert", "transform"])

prop("C22", "Segment set intersection is complete",
 "Intersecting a set of segments reports for every input segment a chain of result pieces that together reproduce it (up to grid snapping), such that no two reported pieces cross or touch except at shared end points, and the item identifiers are preserved.",
 ["inputs"], "all small families of lattice segments",
 "Completeness quantifies over all concurrent, collinear and overlapping arrangements.",
 ["segment_utils.hpp", "detail/scan_arbitrary.hpp"], [("line_intersection validate/sweep", "detail/scan_arbitrary.hpp")], ["intersect_segments", "envelope_segments"])

prop("C25", "Voronoi output is a consistent planar half-edge structure",
 "For any valid set of points and segments that touch only at end points, the Voronoi diagram is a consistent half-edge structure: twin, next, prev, rot_next and rot_prev are mutually inverse where defined, edges around a cell form one cyclic (or open) chain, edges around a vertex share it and rotate through all of them, and the vertex, edge and cell counts satisfy Euler's formula.",
 ["inputs"], "all small site sets on a lattice up to size, including duplicates, collinear and cocircular sites",
 "Tests verify some of these on specific and random inputs; degenerate (cocircular/collinear) patterns need enumeration.",
 ["voronoi_builder.hpp", "voronoi_diagram.hpp", "detail/voronoi_structures.hpp"],
 [("Fortune sweep with beach line", "voronoi_builder.hpp"), ("half-edge output construction", "voronoi_diagram.hpp")], ["voronoi_diagram accessors"])

prop("C26", "Voronoi vertices and cells are geometrically right",
 "Every Voronoi vertex is equidistant (to within the library's stated few-ulp precision) from the sites of all cells around it and no site is closer; every such point is reported exactly once; and every primary finite edge separates two sites for which its points are nearest.",
 ["inputs"], "all small site sets of points and segments on a lattice",
 "Correctness for every degenerate configuration is beyond a sample; an empty-circle violation needs a specific arrangement.",
 ["voronoi_builder.hpp", "detail/voronoi_predicates.hpp"], [("circle event predicates", "detail/voronoi_predicates.hpp"), ("lazy/exact circle formation", "detail/voronoi_predicates.hpp")], ["vertices()", "cells()"])

prop("C27", "Voronoi cells identify their input sites",
 "The diagram has exactly one cell per distinct input point, per segment, and per distinct segment end point; each cell's source index and category identify an input object that has that geometry, duplicates share one cell, and degenerate cells occur exactly where the diagram has no edges for the site.",
 ["inputs"], "all small site multisets with duplicates and shared end points, all insertion orders",
 "Index bookkeeping under sorting and deduplication depends on order and multiplicity of the input.",
 ["voronoi_builder.hpp", "voronoi_geometry_type.hpp", "voronoi_diagram.hpp"], [("site event initialisation and unique", "voronoi_builder.hpp")], ["cells(): source_index, source_category"])

prop("C28", "Voronoi edges are classified correctly",
 "Two distinct sites share a primary edge exactly when some points are nearest to both and to no third (so the point-site diagram is dual to the Delaunay graph); edges are linear or curved, primary or secondary, finite or infinite exactly as the two sites they separate dictate.",
 ["inputs"], "all small site sets of points and segments on a lattice",
 "Requires an exact oracle over all small configurations including cocircular ones.",
 ["voronoi_builder.hpp", "voronoi_diagram.hpp", "voronoi.hpp"], [("edge insertion and post-processing of zero-length edges", "voronoi_diagram.hpp")], ["edges(): is_linear, is_primary, is_finite"])

prop("C29", "Voronoi numeric kernel stays within its stated error",
 "The multi-precision integers add, subtract, multiply, compare and convert exactly (to within double rounding); the robust expression evaluators for sums of square roots are within their stated relative error; and the orientation and event-order predicates equal exact arithmetic for all 32-bit coordinates.",
 ["inputs"], "all small operands and structured extreme operands (limb boundaries, carries, cancellations)",
 "Carry/borrow and cancellation patterns need systematic operand enumeration.",
 ["detail/voronoi_ctypes.hpp", "detail/voronoi_robust_fpt.hpp", "detail/voronoi_predicates.hpp"], [("extended_int", "detail/voronoi_ctypes.hpp"), ("robust_sqrt_expr", "detail/voronoi_robust_fpt.hpp")], ["kernel results vs exact arithmetic"])

prop("C30", "Voronoi structure is invariant under exact symmetries",
 "The combinatorial Voronoi structure does not depend on the order of insertion, and translating, reflecting, rotating by quarter turns or scaling the input by an integer (up to the full 32-bit range) transforms the diagram accordingly, as long as distinct sweep events stay further apart than the library's coordinate tolerance (128 ulps at the magnitude of the coordinates).",
 ["inputs"], "all small site sets, all insertion orders, all eight symmetries, large offsets and scales",
 "Sweep direction asymmetry and overflow show only under particular symmetric images of an input.",
 ["voronoi_builder.hpp", "detail/voronoi_predicates.hpp"], [("sweep-line event order", "voronoi_builder.hpp")], ["diagram of transformed input"])

prop("C31", "A Voronoi builder can be reused in any order of operations",
 "After any sequence of insert, construct and clear operations a builder produces the diagram of exactly the sites inserted since the last clear, and constructing repeatedly, constructing into a diagram that was used before and cleared, or annotating (coloring) the finished diagram does not change the result.",
 ["histories"], "all operation sequences up to a depth",
 "Leftover sweep state or site indices only show in particular reuse orders.",
 ["voronoi_builder.hpp", "voronoi_diagram.hpp", "voronoi.hpp"], [("clear / construct state handling", "voronoi_builder.hpp")], ["diagram after each construct"],
 [("site_events_, index_", "accumulated input", "voronoi_builder.hpp")])

prop("C32", "User-defined geometry types behave as the built-in ones",
 "Any user type adapted through the documented traits (points, intervals, rectangles, segments, polygons, polygon sets) gives the same results in every algorithm as the library's own type holding the same coordinates.",
 ["inputs", "programs"], "all small inputs for a set of adapted types with different storage conventions",
 "Examples adapt one type each and run one input.",
 ["point_traits.hpp", "rectangle_traits.hpp", "polygon_traits.hpp", "polygon_set_traits.hpp", "segment_traits.hpp", "interval_traits.hpp"],
 [("concept dispatch through traits", "polygon_traits.hpp")], ["results of algorithms on adapted types"])

prop("C34", "With exact arithmetic the arbitrary-angle engine is robust over the whole coordinate range",
 "With the exact rational arithmetic override included (gmp_override.hpp), Booleans, chained Booleans, decomposition and Minkowski-style resizing of arbitrary-angle regions give the right region over the whole int range: every point farther than grid rounding from the operands' edges is covered exactly once when it belongs to the result and not at all otherwise, and nothing crashes, however unrelated or nearly coincident the edges are.",
 ["inputs"], "all pairs and triples of small polygons on irregular lattices spanning the int range",
 "Rounding at large coordinates depends on the exact slopes; tests use small coordinates and never include the override.",
 ["gmp_override.hpp", "detail/scan_arbitrary.hpp", "detail/polygon_arbitrary_formation.hpp"], [("compute_exact_intersection / high_precision_type", "detail/polygon_arbitrary_formation.hpp"), ("line_intersection", "detail/scan_arbitrary.hpp")], ["operator|", "operator&", "operator-", "operator^", "resize", "get_trapezoids"])

prop("C33", "Moving, transforming and scaling sets equals mapping their points",
 "Moving, axis-transforming, scaling up, scaling down and anisotropically scaling a polygon set of any kind yields the region obtained by mapping the vertices of its polygons, rounding included where the map rounds, and the set remains fully usable afterwards (equality, emptiness, Booleans, decomposition agree with the mapped region).",
 ["inputs"], "all small regions, all transformations, scale factors including ones that collapse features",
 "Collapsing features and orientation-reversing maps break ordering invariants only for particular shapes.",
 ["polygon_90_set_data.hpp", "polygon_45_set_data.hpp", "polygon_set_data.hpp", "transform.hpp"], [("in-place vertex mapping + resorting", "polygon_90_set_data.hpp")], ["move", "transform", "scale_up", "scale_down", "scale"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
