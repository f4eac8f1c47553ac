#!/usr/bin/env python3
"""The property list; writes properties.jsonl (python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
A = "src/algorithm/"
K = "src/kernel/"
def p(id, title, statement, over, text, why, files, mech, hook=None, observe=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

SAMP = "The tests try a handful of fixed, mostly axis-aligned inputs; the claim ranges over all coordinates."

p("C01", "Turn direction of three points",
  "For every three points, the reported turn is Left exactly if the third point lies left of the directed line through the first two, Right exactly if it lies right of it, and Collinear otherwise. A deviation within the number type's default tolerance counts as on the line. Swapping two of the points exchanges Left and Right.",
  ["inputs"], "all coordinates of the three points, including coinciding ones", SAMP, [K+"point_2.rs"], [("Point2::turn", K+"point_2.rs")])
p("C02", "Location of a point against a line segment",
  "For every point and every line segment, including one whose end points coincide, the location is On exactly if the point belongs to the closed segment; otherwise it is Left or Right (the side of the directed line through the end points on which the point lies) or none of these if the point lies on that line beyond the end points. The yes/no queries agree with the location. A deviation within the number type's default tolerance counts as on.",
  ["inputs"], "all points and segments, degenerate ones included", SAMP, [A+"location/point_2_line_segment_2.rs", A+"location/location_enum.rs"], [("locate_point_2_line_segment_2 and the is_* predicates", A+"location/point_2_line_segment_2.rs")])
p("C03", "Location of a point against a line and a ray",
  "For every point and every line or ray given by a point and a non-zero direction, the point is reported on it exactly if it belongs to that line (both ways) or ray (from the origin onwards, origin included); for a ray, the side reported for other points is the side of the supporting line on which the point lies. A deviation within the number type's default tolerance counts as on.",
  ["inputs"], "all points, line coefficients, ray origins and non-zero directions", SAMP, [A+"location/point_2_line_2.rs", A+"location/point_2_ray_2.rs", K+"ray_2.rs", K+"line_2.rs"], [("point/line and point/ray predicates", A+"location/point_2_ray_2.rs")])
p("C04", "Location of a point against a triangle",
  "For every non-flat triangle of either orientation and every point, the location is On, Inside or Outside exactly as the point lies on the boundary, in the interior or elsewhere. For a flat triangle no point is Inside.",
  ["inputs"], "all points and all triangles, either orientation", SAMP, [A+"location/point_2_triangle_2.rs", K+"triangle_2.rs"], [("locate_point_2_triangle_2", A+"location/point_2_triangle_2.rs")])
p("C05", "Location of a point against a simple polygon",
  "For every simple polygon, convex or not and in either orientation, and every point, the location is On, Inside or Outside exactly as the point lies on the boundary, in the interior or elsewhere.",
  ["inputs"], "all points and all simple polygons with 3 and 4 (thorough: 5) vertices, listed polygons with up to 12 vertices in both orientations", "The tests use one axis-aligned polygon with three query points.", [A+"location/point_2_polygon_2.rs", K+"polygon_2.rs"], [("locate_point_2_polygon_2", A+"location/point_2_polygon_2.rs")])
p("C06", "Location of a point against a circle",
  "For every circle of positive radius and every point, the location is On, Inside or Outside exactly as the distance to the centre equals, is less than or exceeds the radius, and the yes/no queries agree with the location. A deviation within the number type's default tolerance counts as on.",
  ["inputs"], "all points, centres and positive radii", SAMP, [A+"location/point_2_circle_segment_2.rs", K+"circle_segment_2.rs"], [("locate_point_2_circle_segment_2 and the is_* predicates", A+"location/point_2_circle_segment_2.rs")])
p("C07", "A point on an arc",
  "A point is reported on a circular arc exactly if it lies on the supporting circle and its direction from the centre lies on the counter-clockwise sweep from the arc's source angle to its target angle, end points included. A full turn contains the whole circle.",
  ["inputs"], "all points, centres, positive radii and source/target directions", SAMP, [A+"location/point_2_arc_segment_2.rs", K+"arc_segment_2.rs"], [("is_point_2_on_arc_segment_2", A+"location/point_2_arc_segment_2.rs")])
p("C08", "Intersection of two line segments",
  "For every two line segments, degenerate ones included, the yes/no query is true exactly if they share a point. The computed points all lie on both segments, and if the segments meet in exactly one point it is that point; if they overlap in a stretch, the end points of the overlap are returned. The result does not depend on the order of the two segments.",
  ["inputs"], "all pairs of line segments", SAMP, [A+"intersection/line_segment_2_line_segment_2.rs", A+"intersection/segment_2_segment_2.rs"], [("line segment / line segment predicate and construction", A+"intersection/line_segment_2_line_segment_2.rs")])
p("C09", "Intersection of lines and of a line with a ray",
  "Two lines, or a line and a ray, that are not parallel meet exactly where geometry says: the point reported lies on both, and none is reported exactly if there is none. Parallel or coinciding inputs report no intersection point.",
  ["inputs"], "all lines through two distinct points and all rays with a non-zero direction", SAMP, [A+"intersection/line_2_line_2.rs", A+"intersection/line_2_ray_2.rs", K+"line_2.rs"], [("line/line and line/ray predicate and construction", A+"intersection/line_2_line_2.rs")])
p("C10", "Intersection of a line segment with a ray",
  "For every line segment and every ray with a non-zero direction, the yes/no query is true exactly if they share a point. The computed points all lie on both; a single common point is returned as such, and a common stretch by its end points.",
  ["inputs"], "all line segments and rays", SAMP, [A+"intersection/line_segment_2_ray_2.rs"], [("line segment / ray predicate and construction", A+"intersection/line_segment_2_ray_2.rs")])
p("C11", "Intersection of a line segment with a circle",
  "For every line segment with distinct end points and every circle of positive radius, the computed points are exactly the points that lie on both, each once (a tangent point is one point). The yes/no query is true exactly if there is such a point.",
  ["inputs"], "all line segments and circles", SAMP, [A+"intersection/line_segment_2_circle_segment_2.rs"], [("line segment / circle predicate and construction", A+"intersection/line_segment_2_circle_segment_2.rs")])
p("C12", "Intersection of two circles",
  "For every two circles of positive radius the computed points are exactly the points common to both, each once (a tangent point is one point), and the yes/no query is true exactly if there is one. Coinciding circles report no points.",
  ["inputs"], "all pairs of circles", SAMP, [A+"intersection/circle_segment_2_circle_segment_2.rs"], [("circle / circle predicate and construction", A+"intersection/circle_segment_2_circle_segment_2.rs")])
p("C13", "Intersections with circular arcs",
  "The points computed for an arc and a line segment, a circle or another arc with a different supporting circle are exactly the points that lie on both, and the yes/no query is true exactly if there is one. Two arcs of the same circle report the end points of one that lie on the other.",
  ["inputs"], "line segments, circles and arcs with arbitrary positions and radii; arc angles from a list, or arbitrary ones in the thorough check", SAMP, [A+"intersection/line_segment_2_arc_segment_2.rs", A+"intersection/circle_segment_2_arc_segment_2.rs", A+"intersection/arc_segment_2_arc_segment_2.rs"], [("arc predicates and constructions", A+"intersection/arc_segment_2_arc_segment_2.rs")])
p("C14", "The generic intersection query agrees with the specific ones",
  "For every two segments of any kinds (line segment, circle, arc), in either order, the generic intersection functions answer without failing. The generic yes/no query is true exactly if the generic construction returns a point, and both are independent of the order of the arguments.",
  ["inputs"], "all pairs of segment kinds with all coordinates, arc angles from a list", "The tests call the generic functions for a few pairs in one order only.", [A+"intersection/segment_2_segment_2.rs"], [("segment_2_segment_2 dispatch", A+"intersection/segment_2_segment_2.rs")])
p("C15", "Projection of a point onto a line and a line segment",
  "The projection of a point onto a line lies on the line and the connecting vector is perpendicular to the line. The projection onto a line segment is that foot if it belongs to the closed segment and absent otherwise; a segment whose end points coincide projects to that point. No result has an undefined coordinate.",
  ["inputs"], "all points, all lines with a non-zero normal, all line segments", SAMP, [A+"projection/point_2_line_2.rs", A+"projection/point_2_line_segment_2.rs"], [("point_2_project_line_2, point_2_project_line_segment_2", A+"projection/point_2_line_2.rs")])
p("C16", "Convex hull",
  "For every finite set of points (repeated and collinear ones included) the hull is a list of distinct input points in counter-clockwise, strictly convex order such that no input point lies outside it. Collinear input yields its two extreme points, identical points yield that one point and no points yield none. Asking again gives the same hull.",
  ["inputs"], "all point sets of up to 4 (thorough: 5) points, listed sets of up to 11 points with an arbitrary one (thorough: two) added", "One fixed point set is tested; the claim ranges over all configurations and degeneracies.", [A+"convex_hull/convex_hull_2.rs", K+"point_2.rs"], [("ConvexHull2::convex_hull", A+"convex_hull/convex_hull_2.rs")])
p("C17", "Signed area and orientation of triangles and polygons",
  "A triangle's and a polygon's area is the shoelace value: positive for counter-clockwise, negative for clockwise vertex order and zero for a flat shape. Reversing a triangle's orientation flips the sign of its area and keeps its vertices; the vertices and edges reported are those given, in order, and the edges close up.",
  ["inputs"], "all triangles and all polygons with up to 6 vertices, simple or not", SAMP, [K+"triangle_2.rs", K+"polygon_2.rs"], [("Triangle2::area, Polygon2::area", K+"polygon_2.rs")])
p("C18", "Convexity of a simple polygon",
  "A simple polygon is reported convex exactly if it lies on one side of each of its edges' lines (straight angles are allowed), in either orientation.",
  ["inputs"], "all simple polygons with 3 to 5 vertices, listed polygons with up to 10 vertices, one of which is arbitrary", SAMP, [K+"polygon_2.rs"], [("Polygon2::is_convex", K+"polygon_2.rs")])
p("C19", "Simplicity of a polygon",
  "A polygon with distinct consecutive vertices is reported simple exactly if no two non-adjacent edges share a point and adjacent edges share only their common vertex.",
  ["inputs"], "all polygons with 3 and 4 (thorough: 5) vertices, and listed polygons with up to 8 vertices, any one of which is arbitrary", "The tests check a square and a bow-tie.", [K+"polygon_2.rs", A+"intersection/sweep_segment_2_intersection.rs"], [("Polygon2::is_simple", K+"polygon_2.rs")])
p("C20", "Triangulation of a simple polygon",
  "The triangulation of a simple polygon with n vertices consists of n-2 index triples that refer to its vertices; the triangles lie inside the polygon, do not overlap and together cover it. This holds for convex and non-convex polygons in either orientation.",
  ["inputs"], "all simple polygons with 3 and 4 (thorough: 5) vertices, and listed polygons with up to 8 vertices in either orientation, any one of which is arbitrary", "No test calls the triangulation; ear cutting takes a different course for every arrangement of the vertices.", [A+"triangulation/earcut_2.rs"], [("earcut_2", A+"triangulation/earcut_2.rs")])
p("C21", "Sweep-line intersection of line segments",
  "For every set of line segments the sweep returns exactly the points at which two or more of them meet (for overlapping segments, the end points of the overlap), each once and in sweep order. The result does not depend on the order in which the segments were added. Asking again gives the same answer, and segments added after a query count in the next one.",
  ["inputs", "histories"], "two (thorough: three) arbitrary segments, two listed ones and an arbitrary one, and several hundred (thorough: thousand) lattice arrangements of 4 to 12 (thorough: 20) segments, one of which slides along a line", "The tests compare counts for a few fixed configurations.", [A+"intersection/sweep_segment_2_intersection.rs", "src/data_structure/avl_tree.rs", "src/data_structure/priority_queue.rs"], [("SweepSegment2Intersection", A+"intersection/sweep_segment_2_intersection.rs")])
p("C22", "Sweep-line intersection with circles and arcs",
  "For every set of line segments, circles and arcs in which no two lie on the same circle, the sweep returns exactly the points at which two or more of them meet (for overlapping line segments, the end points of the overlap), each once and in sweep order. Asking again gives the same answer, and curves added after a query count in the next one.",
  ["inputs"], "listed circles, arcs and segments with an arbitrary circle, a segment of listed direction or a moving circle or arc, and lattice arrangements of 2 to 4 of them, one of which slides along a line", "The tests compare counts for a few fixed configurations.", [A+"intersection/sweep_segment_2_intersection.rs", K+"arc_segment_2.rs"], [("SweepSegment2Intersection", A+"intersection/sweep_segment_2_intersection.rs")])
p("C23", "The ordered tree is a sorted, balanced collection",
  "After every sequence of insertions and deletions the in-order traversal of the tree lists exactly the elements inserted and not deleted, in ascending order: equal elements are rejected or kept after their equals, as configured. Deleting an element removes exactly one equal element if there is one and nothing otherwise, no operation compares more elements than a height-balanced tree of that size is high, and clearing empties the tree.",
  ["histories", "inputs"], "all sequences of up to 5 operations with arbitrary keys (all order patterns), runs of 12 to 32 insertions with deletions", "The tests insert a few fixed integer sequences; the rotations depend on the order pattern.", ["src/data_structure/avl_tree.rs"], [("AVLTree::insert, delete", "src/data_structure/avl_tree.rs")], "read access to the private module")
p("C24", "The circular list stays circular",
  "After every sequence of insertions and deletions the list's length is the number of its elements, following next from the head visits exactly these in order and returns to the head, prev is the inverse of next, and the last element is the one before the head. Deleting the only element leaves an empty list.",
  ["histories", "inputs"], "all sequences of up to 5 (thorough: 6) operations at all positions, and of 3 on a longer list", "The tests cover one short fixed history.", ["src/data_structure/circular_doubly_linked_list.rs"], [("CircularDoubleLinkedList::insert, delete", "src/data_structure/circular_doubly_linked_list.rs")], "read access to the private module")
p("C25", "The priority queue pops in priority order",
  "After every sequence of pushes and pops, pop returns a greatest element among those pushed and not yet popped, nothing is lost or duplicated, and the queue reports empty exactly if every element was popped or it was cleared.",
  ["histories", "inputs"], "all sequences of up to 6 operations with arbitrary keys (all order patterns), 13 elements one of which has an arbitrary key", "The tests push a few fixed integers.", ["src/data_structure/priority_queue.rs"], [("PriorityQueue", "src/data_structure/priority_queue.rs")], "read access to the private module")
p("C26", "Equality and sweep order of points",
  "Points are equal exactly if they coincide within the number type's default tolerance. For points that differ by more than it, the order is total: the point with the smaller x comes later, ties are decided by the smaller y, and comparing in the other order gives the reverse.",
  ["inputs"], "all pairs and triples of points", SAMP, [K+"point_2.rs", K+"vertex_2.rs"], [("Point2::equals, Ord for Point2", K+"point_2.rs")])
p("C27", "Number types keep the arithmetic contract",
  "For f32 and f64, equality is exactly agreement within the default tolerance (so it is reflexive for finite values and symmetric), absolute value, square root, the default, zero, pi and conversion from f64 are the mathematical functions and constants to working precision, and trigonometric functions are those of the standard library.",
  ["inputs"], "all f32 and f64 bit patterns", "Tests sample a few values.", [K+"number_type.rs"], [("NumberType for f32 and f64", K+"number_type.rs")])
p("C28", "Vector, line and ray algebra",
  "Vector sums, differences, multiples, quotients, lengths, dot and cross products are the mathematical ones, normalising yields a parallel vector of length one (the zero vector is unchanged), and the angle from one non-zero vector to another is the counter-clockwise one in [0, 2 pi). The line through two distinct points contains both, lines compare equal exactly if they are the same set of points, vectors and line segments exactly if their components or end points coincide within the default tolerance, and a ray has the given origin and the given direction normalised.",
  ["inputs"], "all vectors, points and line coefficients", SAMP, [K+"vector_2.rs", K+"line_2.rs", K+"ray_2.rs"], [("Vector2, Line2, Ray2 operations", K+"vector_2.rs")])
p("C29", "Arcs: angles, end points and monotone pieces",
  "An arc's end points lie on its circle at its source and target angle, and an arc with equal angles (angles above 4 pi count modulo 4 pi) is the full circle. An arc with 0 <= source < target <= 2 pi is classified as a top arc exactly if it stays in the upper half of its circle. Splitting an arc or a circle yields consecutive pieces, each within one half (upper or lower) of the circle and classified accordingly, that start at the arc's source, join end to end, finish at its target and together cover exactly the arc.",
  ["inputs"], "all centres and radii; all source and target angles in [-4 pi, 8 pi)", "Two fixed arcs are tested indirectly.", [K+"arc_segment_2.rs", K+"circle_segment_2.rs"], [("ArcSegment2::new, monotone, is_top", K+"arc_segment_2.rs")])
p("C30", "The WebAssembly bindings do what the library does",
  "Every object and function exported to JavaScript gives, for every input, the result of the library operation it stands for: constructors keep the given values, accessors return them and the algorithms return the native results.",
  ["inputs"], "all numeric inputs of every exported function", "No test exercises the bindings, which are only compiled for wasm32.", ["src/wasm/kernel", "src/wasm/algorithm"], [("wasm wrapper types", "src/wasm")])
p("C31", "Half-edge elements report what they were linked with",
  "A vertex, an edge and a face report exactly the data and links last set on them, vertices compare and order like their points, an edge between two linked vertices has their points as its end points, and following an edge's twin twice returns to it.",
  ["inputs", "histories"], "all coordinates and all orders of linking", "No test exercises the half-edge types.", [K+"vertex_2.rs", K+"edge_2.rs", K+"face_2.rs"], [("Vertex2, Edge2, Face2", K+"edge_2.rs")])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
