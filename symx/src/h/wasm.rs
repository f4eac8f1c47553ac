//! Registration of the wrapper harnesses (feature "wasm").
use crate::explore::Harness;
use crate::wasm_f64::harness as n;
use crate::wasm_sym::harness as s;
macro_rules! w {
    ($v:expr, $name:expr, $f:ident, $bounds:expr, $funcs:expr) => {
        $v.push(Harness { name: $name, prop: "C30", tier: 0, sym: s::$f, nat: n::$f, bounds: $bounds, funcs: $funcs })
    };
}
pub fn register(v: &mut Vec<Harness>) {
    w!(v, "wasm_points", points, "all points", "wasm::kernel::point_2::Point2");
    w!(v, "wasm_vectors", vectors, "all non-zero vectors", "wasm::kernel::vector_2::Vector2");
    w!(v, "wasm_segments", segments, "all ends, centres, radii > 0 and angles; end points of arcs for 3 listed pairs of angles", "wasm::kernel::{line_segment_2, circle_segment_2, arc_segment_2}");
    w!(v, "wasm_triangles", triangles, "all triangles and points", "wasm::kernel::triangle_2, wasm::algorithm::location::point_2_triangle_2");
    w!(v, "wasm_polygons", polygons, "all triangles and quadrilaterals", "wasm::kernel::polygon_2");
    w!(v, "wasm_polygon_queries", polygon_queries, "all triangles and points", "wasm::kernel::polygon_2, wasm::algorithm::location::point_2_polygon_2");
    w!(v, "wasm_hull", hull, "all sets of 3 points", "wasm::algorithm::convex_hull::convex_hull_2");
    w!(v, "wasm_earcut", earcut, "3 listed polygons with one vertex anywhere", "wasm::algorithm::triangulation::earcut_2");
    w!(v, "wasm_locations", locations, "all points, segments and circles; arcs with 3 listed pairs of angles", "wasm::algorithm::location, wasm::algorithm::projection");
    w!(v, "wasm_intersections", intersections, "all 9 pairs of kinds, one segment moving along a line", "wasm::kernel::segment_2, wasm::algorithm::intersection");
}
