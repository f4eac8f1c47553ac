use super::geo::*;
use crate::explore::Harness;
use crate::num::*;
use rcgal::algorithm::location::location_enum::*;
use rcgal::algorithm::location::*;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::point_2::Point2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::triangle_2::Triangle2;
use rcgal::kernel::util_enum::*;
use rcgal::kernel::vector_2::Vector2;

// ---- C01 -------------------------------------------------------------------
fn turn3<T: Num>() {
    let (a, b, c) = (point::<T>("a"), point("b"), point("c"));
    let d = T::lib(|| Point2::turn(&a, &b, &c));
    let o = orient(a, b, c);
    T::check("left iff counter-clockwise", gt0(o).is(d == TurnDirection::Left));
    T::check("right iff clockwise", lt0(o).is(d == TurnDirection::Right));
    T::check("collinear iff no area", eq0(o).is(d == TurnDirection::Collinear));
    let tri = T::lib(|| Triangle2::new(a, b, c));
    T::check("triangle orientation", gt0(o).is(tri.orientation() == Orientation::CounterClockwise));
    // antisymmetry and rotation, on the real code
    let (r, s) = T::lib(|| (Point2::turn(&b, &c, &a), Point2::turn(&a, &c, &b)));
    T::check("rotating the points keeps the turn", lit(r == d));
    let flip = match d {
        TurnDirection::Left => TurnDirection::Right,
        TurnDirection::Right => TurnDirection::Left,
        x => x,
    };
    T::check("swapping two points flips the turn", lit(s == flip));
}
/// a turn whose area is inside the tolerance is collinear
fn turn3_tol<T: Num>() {
    let (a, d) = (point::<T>("a"), vec2::<T>("d"));
    let t = scalar::<T>("t");
    let b = P::new(a.x() + d.0, a.y() + d.1);
    let l = dot(d, d);
    T::assume(gt0(l));
    let k = T::q(1, 2) * T::default_eps() / l;
    let sgn = if T::choose("side", 2) == 0 { T::k(1) } else { T::k(-1) };
    let c = P::new(a.x() + t * d.0 - sgn * k * d.1, a.y() + t * d.1 + sgn * k * d.0);
    let r = T::lib(|| Point2::turn(&a, &b, &c));
    T::check("within tolerance is collinear", lit(r == TurnDirection::Collinear));
    let k = T::k(3) * T::default_eps() / l;
    let c = P::new(a.x() + t * d.0 - sgn * k * d.1, a.y() + t * d.1 + sgn * k * d.0);
    let r = T::lib(|| Point2::turn(&a, &b, &c));
    let want = if T::branch(gt0(sgn)) { TurnDirection::Left } else { TurnDirection::Right };
    T::check("beyond tolerance is a turn", lit(r == want));
}

// ---- C02 -------------------------------------------------------------------
fn pt_seg<T: Num>() {
    let (a, b, p) = (point::<T>("a"), point("b"), point("p"));
    let s = LineSegment2::new(a, b);
    let (loc, on) = T::lib(|| {
        (
            point_2_line_segment_2::locate_point_2_line_segment_2(&p, &s),
            point_2_line_segment_2::is_point_2_on_line_segment_2(&p, &s),
        )
    });
    let c = orient(a, b, p);
    T::check("on iff on the closed segment", on_seg(p, a, b).is(loc == Point2Segment2Location::On));
    T::check("left iff left of the directed line", gt0(c).is(loc == Point2Segment2Location::Left));
    T::check("right iff right of the directed line", lt0(c).is(loc == Point2Segment2Location::Right));
    T::check("predicate agrees with the classifier", lit(on == (loc == Point2Segment2Location::On)));
}
/// a point of the segment displaced sideways by half the tolerance (as area) is on it
fn pt_seg_tol<T: Num>() {
    let (a, d) = (point::<T>("a"), vec2::<T>("d"));
    let t = scalar::<T>("t");
    let l = dot(d, d);
    T::assume(all(vec![gt0(l), ge0(t), lt0(t - T::k(1))]));
    let b = P::new(a.x() + d.0, a.y() + d.1);
    let s = LineSegment2::new(a, b);
    let sgn = if T::choose("side", 2) == 0 { T::k(1) } else { T::k(-1) };
    let k = sgn * T::q(1, 2) * T::default_eps() / l;
    let p = P::new(a.x() + t * d.0 - k * d.1, a.y() + t * d.1 + k * d.0);
    let on = T::lib(|| point_2_line_segment_2::is_point_2_on_line_segment_2(&p, &s));
    T::check("within tolerance is on", lit(on));
    let k = sgn * T::k(3) * T::default_eps() / l;
    let p = P::new(a.x() + t * d.0 - k * d.1, a.y() + t * d.1 + k * d.0);
    let on = T::lib(|| point_2_line_segment_2::is_point_2_on_line_segment_2(&p, &s));
    T::check("beyond tolerance is not on", lit(!on));
}

/// a point displaced lengthwise beyond either end
fn pt_seg_end_tol<T: Num>() {
    let (a, d) = (point::<T>("a"), vec2::<T>("d"));
    let l = dot(d, d);
    T::assume(gt0(l));
    let b = P::new(a.x() + d.0, a.y() + d.1);
    let s = LineSegment2::new(a, b);
    let near = T::choose("end", 2) == 0;
    let at = |k: T| if near { P::new(a.x() - k * d.0, a.y() - k * d.1) } else { P::new(b.x() + k * d.0, b.y() + k * d.1) };
    let p = at(T::q(1, 2) * T::default_eps() / l);
    let on = T::lib(|| point_2_line_segment_2::is_point_2_on_line_segment_2(&p, &s));
    T::check("within tolerance of an end is on", lit(on));
    let p = at(T::k(3) * T::default_eps() / l);
    let on = T::lib(|| point_2_line_segment_2::is_point_2_on_line_segment_2(&p, &s));
    T::check("beyond tolerance of an end is not on", lit(!on));
    // sideways of a point past the end
    let t = scalar::<T>("t");
    T::assume(gt0(t));
    let k = T::q(1, 2) * T::default_eps() / l;
    let q = at(t);
    let p = P::new(q.x() - k * d.1, q.y() + k * d.0);
    let on = T::lib(|| point_2_line_segment_2::is_point_2_on_line_segment_2(&p, &s));
    T::check("past an end is not on", lit(!on));
}

// ---- C03 -------------------------------------------------------------------
fn pt_line<T: Num>() {
    let (a, b, c, p) = (scalar::<T>("a"), scalar("b"), scalar("c"), P::new(scalar::<T>("px"), scalar("py")));
    let l = Line2::new(a, b, c);
    let (loc, on) = T::lib(|| (point_2_line_2::locate_point_2_line_2(&p, &l), point_2_line_2::is_point_2_on_line_2(&p, &l)));
    T::check("on iff the equation holds", eq0(a * p.x() + b * p.y() + c).is(loc == Point2Line2Location::On));
    T::check("predicate agrees with the classifier", lit(on == (loc == Point2Line2Location::On)));
}
fn pt_line2<T: Num>() {
    let (a, b, p) = (point::<T>("a"), point("b"), point("p"));
    T::assume(distinct(a, b));
    let on = T::lib(|| point_2_line_2::is_point_2_on_line_2(&p, &Line2::from_points(&a, &b)));
    T::check("on the line through two points iff collinear with them", eq0(orient(a, b, p)).is(on));
}
fn pt_ray<T: Num>() {
    let (o, p, d) = (point::<T>("o"), point("p"), vec2::<T>("d"));
    T::assume(any(vec![ne0(d.0), ne0(d.1)]));
    let (loc, on) = T::lib(|| {
        let r = Ray2::new(o, Vector2::new(d.0, d.1));
        (point_2_ray_2::locate_point_2_ray_2(&p, &r), point_2_ray_2::is_point_2_on_ray_2(&p, &r))
    });
    let v = sub(p, o);
    let (c, t) = (cross(d, v), dot(d, v));
    T::check("on iff on the half line", all(vec![eq0(c), ge0(t)]).is(loc == Point2Ray2Location::On));
    T::check("left iff left of the direction", gt0(c).is(loc == Point2Ray2Location::Left));
    T::check("right iff right of the direction", lt0(c).is(loc == Point2Ray2Location::Right));
    T::check("predicate agrees with the classifier", lit(on == (loc == Point2Ray2Location::On)));
}
fn pt_ray_tol<T: Num>() {
    let (o, u) = (point::<T>("o"), T::unit("u"));
    let t = scalar::<T>("t");
    T::assume(ge0(t));
    let sgn = if T::choose("side", 2) == 0 { T::k(1) } else { T::k(-1) };
    let k = sgn * T::q(1, 2) * T::default_eps();
    let p = P::new(o.x() + t * u.0 - k * u.1, o.y() + t * u.1 + k * u.0);
    let on = T::lib(|| point_2_ray_2::is_point_2_on_ray_2(&p, &Ray2::new(o, Vector2::new(u.0, u.1))));
    T::check("within tolerance is on", lit(on));
    let k = sgn * T::k(3) * T::default_eps();
    let p = P::new(o.x() + t * u.0 - k * u.1, o.y() + t * u.1 + k * u.0);
    let on = T::lib(|| point_2_ray_2::is_point_2_on_ray_2(&p, &Ray2::new(o, Vector2::new(u.0, u.1))));
    T::check("beyond tolerance is not on", lit(!on));
}
/// points a little before and behind the origin of a ray
fn pt_ray_origin_tol<T: Num>() {
    let (o, u) = (point::<T>("o"), T::unit("u"));
    let at = |k: T| P::new(o.x() + k * u.0, o.y() + k * u.1);
    let on = |p: P<T>| T::lib(|| point_2_ray_2::is_point_2_on_ray_2(&p, &Ray2::new(o, Vector2::new(u.0, u.1))));
    let e = T::default_eps();
    T::check("a little behind the origin is on", lit(on(at(-T::q(1, 2) * e))));
    T::check("a little beyond the origin is on", lit(on(at(T::q(1, 2) * e))));
    T::check("farther beyond the origin is on", lit(on(at(T::k(3) * e))));
    T::check("farther behind the origin is not on", lit(!on(at(-T::k(3) * e))));
}

// ---- C04 -------------------------------------------------------------------
fn pt_tri<T: Num>() {
    let (a, b, c, p) = (point::<T>("a"), point("b"), point("c"), point("p"));
    let loc = T::lib(|| point_2_triangle_2::locate_point_2_triangle_2(&p, &Triangle2::new(a, b, c)));
    let (u, v, w) = (orient(a, b, p), orient(b, c, p), orient(c, a, p));
    if T::branch(eq0(orient(a, b, c))) {
        T::check("a flat triangle has no inside", lit(loc != Point2Triangle2Location::Inside));
        return;
    }
    let on = any(vec![on_seg(p, a, b), on_seg(p, b, c), on_seg(p, c, a)]);
    let inside = any(vec![all(vec![gt0(u), gt0(v), gt0(w)]), all(vec![lt0(u), lt0(v), lt0(w)])]);
    T::check("on iff on the boundary", on.is(loc == Point2Triangle2Location::On));
    T::check("inside iff strictly inside", inside.is(loc == Point2Triangle2Location::Inside));
}

// ---- C05 -------------------------------------------------------------------
fn loc_polygon<T: Num>(pts: &[P<T>], p: P<T>) {
    let n = pts.len();
    let poly = Polygon2::new(pts.to_vec());
    let (loc, a, b, c) = T::lib(|| {
        (
            point_2_polygon_2::locate_point_2_polygon_2(&p, &poly),
            point_2_polygon_2::is_point_2_on_polygon_2(&p, &poly),
            point_2_polygon_2::is_point_2_inside_polygon_2(&p, &poly),
            point_2_polygon_2::is_point_2_outside_polygon_2(&p, &poly),
        )
    });
    let on = any((0..n).map(|i| on_seg(p, pts[i], pts[(i + 1) % n])).collect());
    T::check("on iff on the boundary", on.is(loc == Point2Polygon2Location::On));
    T::check("predicates agree with the classifier", lit(a == (loc == Point2Polygon2Location::On) && b == (loc == Point2Polygon2Location::Inside) && c == (loc == Point2Polygon2Location::Outside)));
    if loc != Point2Polygon2Location::On {
        let inside = inside_simple(p, pts);
        let agree = inside == (loc == Point2Polygon2Location::Inside);
        if !agree {
            // simplicity is needed only where the crossing parity differs
            T::assume(simple(pts));
        }
        T::check("inside iff strictly inside", lit(agree));
    }
}
/// simple polygons with N corners, in any orientation
fn pt_poly<T: Num, const N: usize>() {
    let pts: Vec<P<T>> = (0..N).map(|i| point(&format!("v{}", i))).collect();
    let p = point("p");
    loc_polygon(&pts, p);
}

/// a listed polygon (starting at any of its vertices, in both orientations) and all points
fn pt_listed<T: Num, const K: usize>() {
    let mut v = listed_polygon::<T>(K);
    let half = v.len() / 2;
    v.rotate_left(T::choose("start", 2) * half);
    if T::choose("reversed", 2) == 1 {
        v.reverse();
    }
    loc_polygon(&v, point("p"));
}
/// listed simple polygons with N vertices, and all points
fn pt_random<T: Num, const N: usize, const FROM: usize, const TO: usize>() {
    let v = super::rnd::polygon(N, (FROM + T::choose("polygon", TO - FROM)) as u64);
    loc_polygon(&v.iter().map(|q| P::new(T::k(q[0]), T::k(q[1]))).collect::<Vec<_>>(), point("p"));
}
/// listed simple polygons with N vertices, and all points of a line through a vertex, along an
/// edge or through a lattice point
fn pt_slide<T: Num, const N: usize, const FROM: usize, const TO: usize>() {
    let k = FROM + T::choose("polygon", TO - FROM);
    let v = super::rnd::polygon(N, k as u64);
    let mut g = super::rnd::Lcg::new(k as u64 * 13 + 1);
    let i = g.below(N);
    let (a, b) = (v[i], v[(i + 1) % N]);
    let d = match g.below(4) {
        0 => [b[0] - a[0], b[1] - a[1]],
        1 => [1, 0],
        2 => [0, 1],
        _ => [g.int(1, 4), g.int(-4, 4)],
    };
    let t = T::input("t", Group::None);
    let p = P::new(T::k(a[0]) + t * T::k(d[0]), T::k(a[1]) + t * T::k(d[1]));
    loc_polygon(&v.iter().map(|q| P::new(T::k(q[0]), T::k(q[1]))).collect::<Vec<_>>(), p);
}
/// a listed polygon one vertex of which is anywhere, and all points
fn pt_one_free<T: Num, const K: usize>() {
    loc_polygon(&one_free::<T>(K, 1), point("p"));
}

// ---- C06 -------------------------------------------------------------------
fn pt_circle<T: Num>() {
    let (c, p, r) = (point::<T>("c"), point("p"), length::<T>("r"));
    T::assume(gt0(r));
    let (loc, on) = T::lib(|| {
        let k = CircleSegment2::new(c, r);
        (point_2_circle_segment_2::locate_point_2_circle_segment_2(&p, &k), point_2_circle_segment_2::is_point_2_on_circle_segment_2(&p, &k))
    });
    let d = dist2(p, c) - r * r;
    T::check("on iff at distance r", eq0(d).is(loc == Point2Circle2Location::On));
    T::check("inside iff nearer than r", lt0(d).is(loc == Point2Circle2Location::Inside));
    T::check("outside iff farther than r", gt0(d).is(loc == Point2Circle2Location::Outside));
    T::check("predicate agrees with the classifier", lit(on == (loc == Point2Circle2Location::On)));
}
fn pt_circle_tol<T: Num>() {
    let (c, u, r) = (point::<T>("c"), T::unit("u"), length::<T>("r"));
    T::assume(gt0(r));
    let sgn = if T::choose("side", 2) == 0 { T::k(1) } else { T::k(-1) };
    let d = r + sgn * T::q(1, 2) * T::default_eps();
    let p = P::new(c.x() + d * u.0, c.y() + d * u.1);
    let on = T::lib(|| point_2_circle_segment_2::is_point_2_on_circle_segment_2(&p, &CircleSegment2::new(c, r)));
    T::check("within tolerance is on", lit(on));
    let d = r + sgn * T::k(3) * T::default_eps();
    let p = P::new(c.x() + d * u.0, c.y() + d * u.1);
    let on = T::lib(|| point_2_circle_segment_2::is_point_2_on_circle_segment_2(&p, &CircleSegment2::new(c, r)));
    T::check("beyond tolerance is not on", lit(!on));
}

// ---- C07 -------------------------------------------------------------------
fn pt_arc<T: Num>() {
    let (c, p, r) = (point::<T>("c"), point("p"), length::<T>("r"));
    T::assume(gt0(r));
    let (u, w) = (T::unit("u"), T::unit("w"));
    let (a, b) = (radian(u), radian(w));
    let (loc, on) = T::lib(|| {
        let k = ArcSegment2::new(CircleSegment2::new(c, r), a, b);
        (point_2_arc_segment_2::locate_point_2_arc_segment_2(&p, &k), point_2_arc_segment_2::is_point_2_on_arc_segment_2(&p, &k))
    });
    T::check("on iff on the circle and between the end points", on_arc(p, c, r, u, w).is(loc == Point2ArcSegment2Location::On));
    T::check("predicate agrees with the classifier", lit(on == (loc == Point2ArcSegment2Location::On)));
}

/// the same angles, given with full turns added or taken away
fn pt_arc_wind<T: Num>() {
    let (c, p, r) = (point::<T>("c"), point("p"), length::<T>("r"));
    T::assume(gt0(r));
    let (u, w) = (T::unit("u"), T::unit("w"));
    const K: [(i64, i64); 6] = [(0, 1), (1, 1), (-1, 0), (0, -1), (0, 2), (1, 0)];
    let (i, j) = K[T::choose("turns", 6)];
    let turn = T::pi() * T::k(2);
    let (a, b) = (radian(u) + turn * T::k(i), radian(w) + turn * T::k(j));
    let on = T::lib(|| point_2_arc_segment_2::is_point_2_on_arc_segment_2(&p, &ArcSegment2::new(CircleSegment2::new(c, r), a, b)));
    T::check("on iff on the circle and between the end points", on_arc(p, c, r, u, w).is(on));
}
/// a full turn from anywhere
fn pt_arc_turn<T: Num>() {
    let (c, p, r) = (point::<T>("c"), point("p"), length::<T>("r"));
    T::assume(gt0(r));
    let a = radian(T::unit("u"));
    let on = T::lib(|| point_2_arc_segment_2::is_point_2_on_arc_segment_2(&p, &ArcSegment2::new(CircleSegment2::new(c, r), a, a + T::pi() * T::k(2))));
    T::check("a full turn contains the circle", on_circle(p, c, r).is(on));
}

pub fn register(v: &mut Vec<Harness>) {
    harness!(v, "C01", "turn3", 0, turn3, "all real inputs", "Point2::turn, Triangle2::new, Triangle2::orientation");
    harness!(v, "C01", "turn3_tol", 0, turn3_tol, "all real inputs; infinitesimal displacement", "Point2::turn");
    harness!(v, "C02", "pt_seg", 0, pt_seg, "all real inputs, degenerate segments included", "locate_point_2_line_segment_2, is_point_2_on_line_segment_2");
    harness!(v, "C02", "pt_seg_tol", 0, pt_seg_tol, "all real inputs; infinitesimal displacement", "locate_point_2_line_segment_2");
    harness!(v, "C02", "pt_seg_end_tol", 0, pt_seg_end_tol, "all real inputs; infinitesimal displacement past either end", "is_point_2_on_line_segment_2");
    harness!(v, "C03", "pt_ray_origin_tol", 0, pt_ray_origin_tol, "all origins and unit directions; infinitesimal displacement around the origin", "is_point_2_on_ray_2");
    harness!(v, "C03", "pt_line", 0, pt_line, "all real inputs", "locate_point_2_line_2, is_point_2_on_line_2");
    harness!(v, "C03", "pt_line2", 0, pt_line2, "all real inputs", "Line2::from_points, is_point_2_on_line_2");
    harness!(v, "C03", "pt_ray", 0, pt_ray, "all real inputs, non-zero direction", "Ray2::new, locate_point_2_ray_2, is_point_2_on_ray_2");
    harness!(v, "C03", "pt_ray_tol", 0, pt_ray_tol, "all real inputs; infinitesimal displacement", "Ray2::new, is_point_2_on_ray_2");
    harness!(v, "C04", "pt_tri", 0, pt_tri, "all real inputs, flat triangles included", "locate_point_2_triangle_2, Triangle2::edges");
    harness!(v, "C05", "pt_poly3", 0, pt_poly[3], "all non-flat triangles", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_poly4", 0, pt_poly[4], "all simple quadrilaterals", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_poly5", 1, pt_poly[5], "all simple pentagons", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_listed0", 0, pt_listed[0], "a listed polygon with 5 vertices in both orientations and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_listed1", 0, pt_listed[1], "a listed polygon with 5 vertices in both orientations and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_listed2", 0, pt_listed[2], "a listed polygon with 6 vertices in both orientations and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_listed3", 0, pt_listed[3], "a listed polygon with 6 vertices in both orientations and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_listed4", 0, pt_listed[4], "a listed polygon with 8 vertices in both orientations and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_listed5", 0, pt_listed[5], "a listed polygon with 8 vertices in both orientations and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_listed6", 0, pt_listed[6], "a listed polygon with 8 vertices in both orientations and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_listed7", 0, pt_listed[7], "a listed polygon with 9 vertices in both orientations and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_listed8", 0, pt_listed[8], "a listed polygon with 12 vertices in both orientations and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_listed9", 0, pt_listed[9], "a listed polygon with 10 vertices in both orientations and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_one_free0", 0, pt_one_free[0], "a listed polygon with 5 vertices one of which is anywhere, and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_one_free1", 0, pt_one_free[1], "a listed polygon with 5 vertices one of which is anywhere, and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_one_free2", 1, pt_one_free[2], "a listed polygon with 6 vertices one of which is anywhere, and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_one_free3", 1, pt_one_free[3], "a listed polygon with 6 vertices one of which is anywhere, and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_one_free4", 1, pt_one_free[4], "a listed polygon with 8 vertices one of which is anywhere, and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_one_free5", 1, pt_one_free[5], "a listed polygon with 8 vertices one of which is anywhere, and all points", "locate_point_2_polygon_2, Polygon2::new, Polygon2::edges");
    harness!(v, "C05", "pt_slide0", 0, pt_slide[10, 0, 40], "40 listed simple polygons with 10 vertices and all points of a line through one of them", "locate_point_2_polygon_2");
    harness!(v, "C05", "pt_slide1", 0, pt_slide[30, 0, 12], "12 listed simple polygons with 30 vertices and all points of a line through one of them", "locate_point_2_polygon_2");
    harness!(v, "C05", "pt_slide2", 1, pt_slide[10, 40, 1000], "960 listed simple polygons with 10 vertices and all points of a line through one of them", "locate_point_2_polygon_2");
    harness!(v, "C05", "pt_slide3", 1, pt_slide[60, 0, 40], "40 listed simple polygons with 60 vertices and all points of a line through one of them", "locate_point_2_polygon_2");
    harness!(v, "C05", "pt_random0", 0, pt_random[6, 0, 8], "8 listed simple polygons with 6 vertices and all points", "locate_point_2_polygon_2");
    harness!(v, "C05", "pt_random1", 0, pt_random[9, 0, 5], "5 listed simple polygons with 9 vertices and all points", "locate_point_2_polygon_2");
    harness!(v, "C05", "pt_random2", 0, pt_random[12, 0, 3], "3 listed simple polygons with 12 vertices and all points", "locate_point_2_polygon_2");
    harness!(v, "C05", "pt_random3", 1, pt_random[6, 8, 80], "72 listed simple polygons with 6 vertices and all points", "locate_point_2_polygon_2");
    harness!(v, "C05", "pt_random4", 1, pt_random[9, 5, 50], "45 listed simple polygons with 9 vertices and all points", "locate_point_2_polygon_2");
    harness!(v, "C05", "pt_random5", 1, pt_random[12, 3, 30], "27 listed simple polygons with 12 vertices and all points", "locate_point_2_polygon_2");
    harness!(v, "C05", "pt_random6", 1, pt_random[20, 0, 8], "8 listed simple polygons with 20 vertices and all points", "locate_point_2_polygon_2");
    harness!(v, "C06", "pt_circle", 0, pt_circle, "all real inputs, r > 0", "locate_point_2_circle_segment_2, is_point_2_on_circle_segment_2");
    harness!(v, "C06", "pt_circle_tol", 0, pt_circle_tol, "all real inputs, r > 0; infinitesimal displacement", "locate_point_2_circle_segment_2");
    harness!(v, "C07", "pt_arc_wind", 0, pt_arc_wind, "all circles, all end directions given with full turns added or taken away (6 combinations, angles in [-2 pi, 6 pi)), all points", "ArcSegment2::new/source/target, locate_point_2_arc_segment_2, Vector2::radian_to");
    harness!(v, "C07", "pt_arc_turn", 0, pt_arc_turn, "all circles, full turns from any direction, all points", "ArcSegment2::new/source/target, locate_point_2_arc_segment_2");
    harness!(v, "C07", "pt_arc", 0, pt_arc, "all circles, all end directions (equal ones: full circle), all points", "ArcSegment2::new/source/target, locate_point_2_arc_segment_2, Vector2::radian_to");
}
