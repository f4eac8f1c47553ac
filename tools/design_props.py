# how each property is decided (read by tools/design.py)
D = {}
D["C01"] = "Three symbolic points; the reported turn against the sign of the determinant, rotation and transposition on the real code, `Triangle2::orientation`. `turn3_tol` puts the third point eps/2 (as area) off the line: collinear; 3 eps off: a turn."
D["C02"] = "All points and segments (degenerate ones too); On against `collinear and 0 <= t <= 1`, Left/Right against the determinant; the three yes/no queries against the locator. `_tol`: lateral displacement by eps, at every position along the segment, and beyond either end."
D["C03"] = "Line by its equation and through two points, ray by origin and direction; against the sign of cross and dot product. `_tol`: displacement by eps of a ray point, and behind the origin."
D["C04"] = "All triangles, both orientations, and all points, against the three edge signs and membership of the closed edges."
D["C05"] = "All simple 3- and 4-gons (5-gons thorough) with an arbitrary point; listed non-convex polygons up to 12 vertices with an arbitrary point, in both orientations; listed polygons with one arbitrary vertex and an arbitrary point; pseudo-random simple polygons of 6-20 vertices with an arbitrary point (`pt_random`). Oracle: edge membership, and the crossing parity of the polygon computed with exact signs."
D["C06"] = "All points, centres, radii; sign of |p-c|^2 - r^2, the predicates against the locator; `_tol` as above with the distance off by eps."
D["C07"] = "Arc ends given by two symbolic unit directions (all angles at once), any point; membership is decided by cross-product signs of the directions; a full turn contains the circle. `pt_arc_wind`, `pt_arc_turn`: the angles with full turns added or taken away; full turns from any direction."
D["C08"] = "All pairs of segments. Reported points on both, single crossing equals the Cramer solution, overlap end points present, `is_` iff a common point exists (disjunction of the separating/crossing cases), both orders of arguments."
D["C09"] = "All pairs of lines (coefficients and by two points), line and ray: Cramer's rule, ray parameter >= 0."
D["C10"] = "All segments and rays, degenerate segments included; as C08."
D["C11"] = "All segments with distinct ends and all circles; the solutions t of the quadratic along the segment are introduced as roots; exactly those with 0 <= t <= 1, each once, tangents once."
D["C12"] = "All centres and radii: membership of both circles for each reported point; existence iff |r-q| <= d <= r+q; number of points 0/1/2; distinctness."
D["C13"] = "As C11/C12 with arcs: angular membership by cross products of unit directions. Quick: listed pairs of end directions (9: quarter, half, three-quarter arcs, arcs through angle 0, ...) and listed relative directions; thorough: any. Points are matched one to one with the intersections of the supporting circles that lie on both arcs."
D["C14"] = "Every ordered pair of kinds: no panic; query iff construction non-empty; both independent of argument order; same points as the specific function."
D["C15"] = "Foot on the line and perpendicular (dot product zero); for segments absent iff outside; degenerate segments; every coordinate finite."
D["C16"] = "0-4 arbitrary points (5 thorough), 6-11 listed points and one or two arbitrary ones inserted at different positions; pseudo-random sets of 6-25 points (many collinear or repeated) one of which is arbitrary (`hull_random`) or slides along a line (`hull_slide`). Strictly convex, counter-clockwise, vertices are input points, every input inside or on; identical and collinear inputs. Every hull is asked for twice."
D["C17"] = "Triangles and polygons of 3-6 (8) arbitrary vertices: shoelace value, sign flip on reversal, orientation = sign."
D["C18"] = "All simple 3-, 4- and 5-gons, listed polygons up to 10 vertices with one arbitrary vertex (restricted by branching to positions where the polygon stays simple); pseudo-random convex polygons one vertex of which slides along a line (`convex_slide`). Oracle: every vertex on one side of every edge."
D["C19"] = "All 3- and 4-gons (5 thorough); listed polygons with up to 8 (12) vertices any one of which is arbitrary; pseudo-random polygons of 6-16 vertices one of which slides along a line, leaving and entering simplicity (`is_simple_slide`). Oracle: pairwise test of all edges for a common point other than the shared vertex."
D["C20"] = "All triangles and simple quadrilaterals (pentagons thorough), listed polygons with one arbitrary vertex, both orientations; several hundred pseudo-random simple polygons of 6-16 vertices, one of which slides along a line as long as the polygon stays simple (`earcut_slide`; these reach ear tests, collinear runs and blocked ears no short list does). n-2 triangles made of polygon vertices, orientation of the polygon, pairwise disjoint interiors, areas sum to the polygon's (polynomial identity), so they tile it."
D["C21"] = "Two arbitrary segments (degenerate ones included) and their order/direction variants; three with two listed and one arbitrary; listed arrangements of up to 6 with one whose ends slide on two lines; several thousand pseudo-random lattice arrangements (2-20 segments, in `axes` many vertical/horizontal/concurrent) of which one segment or one end slides along a line - the sliding parameter is the symbolic variable, so all event orders along the way are explored. Oracle: pairwise meeting points (crossings, touching ends, ends of overlaps) are all reported; every reported point lies on two segments; each once, in sweep order. `sweep_again`: the same sweep asked twice, and asked between additions."
D["C22"] = "The same with circles and arcs: a symbolic circle/segment against listed ones, and lattice arrangements of circles, arcs and segments one of which slides. Meeting points are algebraic (square roots); asserted pairwise against the definition. Excluded: two arcs of one circle. `curve_again`: asked twice and between additions. `curve_tangent`, `curve_fan`: curves that touch in one point, or leave it in the same direction, of different extent, and a long segment sliding across them."
D["C23"] = "All sequences of 4 (5) operations with all key orders (a comparison forks on the order of two symbolic keys, so one path covers all keys in that order); 5-6 insertions in all orders and a deletion; 12-32 listed keys with one key anywhere among them, several deletion schemes; `avl_pairs`: trees of listed keys from which two keys are deleted in every choice; `avl_case`: listed long histories. Oracle: a sorted list of identities; the elements compared by an operation are counted (through `Ord`) and bounded by the AVL height, so balance is observed without looking at the tree."
D["C24"] = "All sequences of 5 (6) operations at all positions; 7 elements then all sequences of 3. Oracle: a Vec; next/prev inverse; length; last is the one before the head."
D["C25"] = "All sequences of 5 (6) push/pop/clear with all key orders; 5 (6) pushes then all pops; 12 listed elements with one anywhere. Oracle: multiset with a greatest element."
D["C26"] = "Exact reals: cmp/eq/equals/distance against the stated order; transitivity on three points; `order_tol`/`order_tie`: displacements of eps. Kani: order and antisymmetry for all f64 and f32 bit patterns."
D["C27"] = "Kani/CBMC, all bit patterns of f32 and f64: equals = |a-b| <= eps, symmetric, reflexive for finite values; abs, constants, conversions; sqrt/sin/cos/acos/atan/atan2 delegate to the standard function with the arguments in order (uninterpreted)."
D["C28"] = "Vector operations, angle between vectors (as direction), line equality as point sets, line through two points, ray construction; all real inputs. `vector_tol`: equality of vectors and line segments under displacements of eps/2 and 3 eps per coordinate."
D["C29"] = "Arc end points, classification as top arc (angles in [0, 2 pi]), monotone pieces: all circles with symbolic angles in [-4 pi, 8 pi) (angles above 4 pi count modulo 4 pi); pieces tile the arc, each lies in the half it is classified by, none crosses a multiple of pi; equality of arcs."
D["C30"] = "`tools/gen.py` copies `/repo/src/wasm*` on every run, drops the wasm_bindgen attributes, redirects crate paths, replaces f64 by the symbolic type (and by f64 for replay); every wrapper's result is compared with the library function it names on all inputs. The JavaScript glue generated by wasm-bindgen is outside. Float literals, `f64` constants and casts in wrapper code are converted as well; operations outside the encoding (rounding, powers) leave the path undecided."
D["C31"] = "Vertices and half edges with symbolic coordinates: twin, next, prev, faces, incident edges after linking in all orders; add/remove of edges; equality; the order of vertices is that of points."
