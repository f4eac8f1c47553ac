//! Harnesses of the WebAssembly wrappers. This file is compiled twice, next to the copy of
//! /repo/src/wasm at the symbolic number type and next to the one at f64 (tools/gen.py).
use super::algorithm::*;
use super::kernel as w;
use super::F;
use crate::h::geo::{self, P};
use crate::num::*;
use rcgal::algorithm as la;
use rcgal::kernel as k;

fn wp(p: P<F>) -> w::point_2::Point2 {
    w::point_2::Point2::new(p.x(), p.y())
}
fn eqp(w: w::point_2::Point2, p: P<F>) -> Form<F> {
    all(vec![eq(w.x(), p.x()), eq(w.y(), p.y())])
}
fn eqs(v: Vec<w::point_2::Point2>, l: &[P<F>]) -> Form<F> {
    if v.len() != l.len() {
        return Form::False;
    }
    all(v.into_iter().zip(l).map(|(a, b)| eqp(a, *b)).collect())
}
fn check(n: &str, f: Form<F>) {
    <F as Num>::check(n, f)
}
fn lib<R>(f: impl FnOnce() -> R) -> R {
    <F as Num>::lib(f)
}
fn point(n: &str) -> P<F> {
    geo::point(n)
}
fn scalar(n: &str) -> F {
    geo::scalar(n)
}

pub fn points() {
    let (p, q, r) = (point("p"), point("q"), point("r"));
    check("x and y are those given", eqp(wp(p), p));
    check("equals", lit(lib(|| wp(p).equals(&wp(q))) == lib(|| p.equals(&q))));
    check("distance", eq(lib(|| wp(p).distance(&wp(q))), lib(|| p.distance(&q))));
    let v = lib(|| wp(p).get_vector());
    check("the position vector", eq(v.x(), p.x()).and(eq(v.y(), p.y())));
    check("turn", lit(lib(|| w::point_2::Point2::turn(&wp(p), &wp(q), &wp(r))) == lib(|| k::point_2::Point2::turn(&p, &q, &r))));
}
pub fn vectors() {
    let (a, b, c, d) = (scalar("a"), scalar("b"), scalar("c"), scalar("d"));
    <F as Num>::assume(any(vec![ne0(a), ne0(b)]).and(any(vec![ne0(c), ne0(d)])));
    let (u, v) = (w::vector_2::Vector2::new(a, b), w::vector_2::Vector2::new(c, d));
    let (x, y) = (k::vector_2::Vector2::new(a, b), k::vector_2::Vector2::new(c, d));
    check("coordinates are those given", eq(u.x(), a).and(eq(u.y(), b)));
    check("length", eq(lib(|| u.length()), lib(|| x.length())));
    let (n, m) = lib(|| (u.normalize(), x.normalize()));
    check("normalize", eq(n.x(), m.x()).and(eq(n.y(), m.y())));
    check("dot", eq(lib(|| u.dot(&v)), lib(|| x.dot(&y))));
    check("cross", eq(lib(|| u.cross(&v)), lib(|| x.cross(&y))));
    check("angle", eq(lib(|| u.radian_to(&v)), lib(|| x.radian_to(&y))));
}
fn line(a: P<F>, b: P<F>) -> (w::line_segment_2::LineSegment2, k::line_segment_2::LineSegment2<F>) {
    (w::line_segment_2::LineSegment2::new(wp(a), wp(b)), k::line_segment_2::LineSegment2::new(a, b))
}
fn circle(c: P<F>, r: F) -> (w::circle_segment_2::CircleSegment2, k::circle_segment_2::CircleSegment2<F>) {
    (w::circle_segment_2::CircleSegment2::new(wp(c), r), k::circle_segment_2::CircleSegment2::new(c, r))
}
fn arc(c: P<F>, r: F, s: F, t: F) -> (w::arc_segment_2::ArcSegment2, k::arc_segment_2::ArcSegment2<F>) {
    let (x, y) = circle(c, r);
    (w::arc_segment_2::ArcSegment2::new(x, s, t), k::arc_segment_2::ArcSegment2::new(y, s, t))
}
/// a radius and the angles of a half or a quarter arc
fn radius() -> F {
    let r = geo::length::<F>("r");
    <F as Num>::assume(gt0(r));
    r
}
fn angles() -> (F, F) {
    let pi = <F as k::number_type::DefaultNumberValueTrait>::pi();
    let h = pi * <F as Num>::q(1, 2);
    [(h * <F as Num>::k(0), pi), (pi, pi + pi), (h, pi + h)][<F as Num>::choose("angles", 3)]
}
pub fn segments() {
    use k::segment_2::Segment2;
    let (a, b) = (point("a"), point("b"));
    let (x, y) = line(a, b);
    check("line: kind", lit(x.segment_type() == y.segment_type()));
    check("line: ends", eqp(x.source(), a).and(eqp(x.target(), b)));
    let r = radius();
    let (s, t) = (geo::radian(<F as Num>::unit("u")), geo::radian(<F as Num>::unit("w")));
    let (x, y) = circle(a, r);
    check("circle: kind", lit(x.segment_type() == y.segment_type()));
    check("circle: centre and radius", eqp(x.center(), a).and(eq(x.radius(), r)));
    let (x, y) = arc(a, r, s, t);
    check("arc: kind", lit(x.segment_type() == y.segment_type()));
    check("arc: centre and radius", eqp(x.center(), a).and(eq(x.radius(), r)));
    check("arc: angles", eq(x.source_radian(), y.source_radian()).and(eq(x.target_radian(), y.target_radian())));
    let (s, t) = angles();
    let (x, y) = lib(|| arc(a, r, s, t));
    check("arc: ends", eqp(lib(|| x.source()), lib(|| y.source())).and(eqp(lib(|| x.target()), lib(|| y.target()))));
}
fn eql(v: Vec<w::line_segment_2::LineSegment2>, l: Vec<k::line_segment_2::LineSegment2<F>>) -> Form<F> {
    use k::segment_2::Segment2;
    if v.len() != l.len() {
        return Form::False;
    }
    all(v.iter().zip(&l).map(|(a, b)| eqp(a.source(), b.source()).and(eqp(a.target(), b.target()))).collect())
}
pub fn triangles() {
    let (a, b, c, p) = (point("a"), point("b"), point("c"), point("p"));
    let (mut x, mut y) = lib(|| (w::triangle_2::Triangle2::new(wp(a), wp(b), wp(c)), k::triangle_2::Triangle2::new(a, b, c)));
    for _ in 0..2 {
        check("corners", all(vec![eqp(x.a(), y.a()), eqp(x.b(), y.b()), eqp(x.c(), y.c())]));
        check("vertices", eqs(x.vertices(), &y.vertices()));
        check("edges", eql(x.edges(), y.edges().into_iter().collect()));
        check("orientation", lit(x.orientation() == y.orientation()));
        check("area", eq(lib(|| x.area()), lib(|| y.area())));
        lib(|| {
            x.reverse_orientation();
            y.reverse_orientation();
        });
    }
    check("location", lit(lib(|| location::point_2_triangle_2::locate_point_2_triangle_2(&wp(p), &x)) == lib(|| la::location::point_2_triangle_2::locate_point_2_triangle_2(&p, &y))));
}
pub fn polygons() {
    let n = 3 + <F as Num>::choose("vertices", 2);
    let v: Vec<P<F>> = (0..n).map(|i| point(&format!("v{}", i))).collect();
    let make = || (w::polygon_2::Polygon2::new(v.iter().map(|p| wp(*p)).collect()), k::polygon_2::Polygon2::new(v.clone()));
    let (x, y) = lib(make);
    check("vertices", eqs(x.vertices(), &y.vertices()));
    check("edges", eql(x.edges(), y.edges()));
    check("area", eq(lib(|| x.area()), lib(|| y.area())));
    check("is_convex", lit(lib(|| x.is_convex()) == lib(|| y.is_convex())));
}
pub fn polygon_queries() {
    let (q, v) = (point("q"), vec![point("a"), point("b"), point("c")]);
    let make = || (w::polygon_2::Polygon2::new(v.iter().map(|p| wp(*p)).collect()), k::polygon_2::Polygon2::new(v.clone()));
    let (x, y) = lib(make);
    check("location", lit(lib(|| location::point_2_polygon_2::locate_point_2_polygon_2(&wp(q), &x)) == lib(|| la::location::point_2_polygon_2::locate_point_2_polygon_2(&q, &y))));
    check("is_simple", lit(lib(|| x.is_simple()) == lib(|| y.is_simple())));
}
pub fn hull() {
    let v: Vec<P<F>> = (0..3).map(|i| point(&format!("v{}", i))).collect();
    let (a, b) = lib(|| {
        (
            convex_hull::convex_hull_2::ConvexHull2::new(v.iter().map(|p| wp(*p)).collect()).convex_hull(),
            la::convex_hull::convex_hull_2::ConvexHull2::new(v.clone()).convex_hull(),
        )
    });
    check("convex hull", eqs(a, &b));
}
pub fn earcut() {
    let pick = <F as Num>::choose("polygon", 3);
    let pts: &[(i64, i64)] = [&[(0, 0), (4, 0), (4, 4), (0, 4)][..], &[(0, 0), (4, 0), (4, 4), (2, 1)], &[(0, 0), (0, 4), (3, 6), (4, 4), (4, 0)]][pick];
    let mut v: Vec<P<F>> = pts.iter().map(|p| P::new(<F as Num>::k(p.0), <F as Num>::k(p.1))).collect();
    v[1] = point("v");
    geo::assume_simple(&v);
    let (a, b) = lib(|| {
        (
            triangulation::earcut_2::earcut(w::polygon_2::Polygon2::new(v.iter().map(|p| wp(*p)).collect())),
            la::triangulation::earcut_2::earcut_2(k::polygon_2::Polygon2::new(v.clone())),
        )
    });
    check("triangulation", lit(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| vec![x.a, x.b, x.c] == *y)));
}
pub fn locations() {
    use la::location as l;
    use location as m;
    let (p, a, b) = (point("p"), point("a"), point("b"));
    let (x, y) = line(a, b);
    match <F as Num>::choose("kind", 3) {
        0 => {
            check("on a line segment", lit(lib(|| m::point_2_line_segment_2::is_point_2_on_line_segment_2(&wp(p), &x)) == lib(|| l::point_2_line_segment_2::is_point_2_on_line_segment_2(&p, &y))));
            check("location, line segment", lit(lib(|| m::point_2_line_segment_2::locate_point_2_line_segment_2(&wp(p), &x)) == lib(|| l::point_2_line_segment_2::locate_point_2_line_segment_2(&p, &y))));
            let (u, v) = lib(|| {
                (
                    projection::point_2_line_segment_2::point_2_project_line_segment_2(&wp(p), &x),
                    la::projection::point_2_line_segment_2::point_2_project_line_segment_2(&p, &y),
                )
            });
            check("projection", match (u, v) {
                (Some(u), Some(v)) => eqp(u, v),
                (u, v) => lit(u.is_none() && v.is_none()),
            });
        }
        1 => {
            let (x, y) = circle(a, radius());
            check("on a circle", lit(lib(|| m::point_2_circle_segment_2::is_point_2_on_circle_segment_2(&wp(p), &x)) == lib(|| l::point_2_circle_segment_2::is_point_2_on_circle_segment_2(&p, &y))));
            check("location, circle", lit(lib(|| m::point_2_circle_segment_2::locate_point_2_circle_segment_2(&wp(p), &x)) == lib(|| l::point_2_circle_segment_2::locate_point_2_circle_segment_2(&p, &y))));
        }
        _ => {
            let (s, t) = angles();
            let (x, y) = arc(a, radius(), s, t);
            check("on an arc", lit(lib(|| m::point_2_arc_segment_2::is_point_2_on_arc_segment_2(&wp(p), &x)) == lib(|| l::point_2_arc_segment_2::is_point_2_on_arc_segment_2(&p, &y))));
            check("location, arc", lit(lib(|| m::point_2_arc_segment_2::locate_point_2_arc_segment_2(&wp(p), &x)) == lib(|| l::point_2_arc_segment_2::locate_point_2_arc_segment_2(&p, &y))));
        }
    }
}
/// a segment of each kind near the origin; the second one is shifted by d
fn pick(name: &str, d: F, q: F) -> (w::segment_2::Segment2, usize, k::line_segment_2::LineSegment2<F>, k::circle_segment_2::CircleSegment2<F>, k::arc_segment_2::ArcSegment2<F>) {
    use k::util_enum::Segment2Type as S;
    let c = |i: i64| <F as Num>::k(i);
    let (l, kl) = line(P::new(d - c(4), c(0) - c(1) - q), P::new(d + c(4), c(2) + q));
    let (o, ko) = circle(P::new(d, c(0)), c(3) - q);
    let (a, ka) = arc(P::new(d, c(0)), c(3) + q, c(0), <F as k::number_type::DefaultNumberValueTrait>::pi());
    let n = <F as Num>::choose(name, 3);
    // all three are set: the kind says which one counts
    let t = [S::LineSegment2, S::CircleSegment2, S::ArcSegment2][n];
    (w::segment_2::Segment2::new(t, Some(l), Some(o), Some(a)), n, kl, ko, ka)
}
pub fn intersections() {
    use la::intersection::segment_2_segment_2 as i;
    use la::intersection::sweep_segment_2_intersection as s;
    let z = <F as Num>::k(0);
    let (x, n, xl, xo, xa) = pick("first", z, z);
    let (y, m, yl, yo, ya) = pick("second", scalar("d"), <F as Num>::q(1, 2));
    let (p, v) = lib(|| {
        (
            intersection::segment_2_segment_2::is_segment_2_segment_2_intersected(&x, &y),
            intersection::segment_2_segment_2::segment_2_segment_2_intersection(&x, &y),
        )
    });
    macro_rules! both {
        ($a:expr, $b:expr) => {
            lib(|| {
                let mut t = s::SweepSegment2Intersection::new();
                t.push_segment($a);
                t.push_segment($b);
                (i::is_segment_2_segment_2_intersected($a, $b), i::segment_2_segment_2_intersection($a, $b), t.intersection())
            })
        };
    }
    let (q, u, t) = match (n, m) {
        (0, 0) => both!(&xl, &yl),
        (0, 1) => both!(&xl, &yo),
        (0, _) => both!(&xl, &ya),
        (1, 0) => both!(&xo, &yl),
        (1, 1) => both!(&xo, &yo),
        (1, _) => both!(&xo, &ya),
        (_, 0) => both!(&xa, &yl),
        (_, 1) => both!(&xa, &yo),
        (_, _) => both!(&xa, &ya),
    };
    check("intersection predicate", lit(p == q));
    check("intersection points", eqs(v, &u));
    let r = lib(|| {
        let mut e = intersection::sweep_segment_2_intersection::SweepSegment2Intersection::new();
        e.push_segment(&x);
        e.push_segment(&y);
        e.intersection()
    });
    check("sweep", eqs(r, &t));
}
