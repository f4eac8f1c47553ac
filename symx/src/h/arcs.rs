use super::geo::*;
use crate::explore::Harness;
use crate::num::*;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::segment_2::Segment2;
use rcgal::kernel::util_enum::*;

fn two_pi<T: Num>() -> T {
    T::pi() * T::k(2)
}
/// the pieces of an arc from direction u to direction w (equal: full turn)
fn pieces<T: Num>(v: &[ArcSegment2<T>], c: P<T>, r: T, u: (T, T), w: (T, T)) {
    let d = T::unit("d");
    T::check("there is a piece", lit(!v.is_empty()));
    let at = |d: (T, T)| P::new(c.x() + r * d.0, c.y() + r * d.1);
    let dir = |p: P<T>| sub(p, c);
    let mut covers = vec![];
    let mut inner = vec![];
    let n = v.len();
    for i in 0..n {
        let (s, t, top) = T::lib(|| (v[i].source(), v[i].target(), v[i].is_top()));
        T::check("pieces keep the circle", same(v[i].center(), c).and(eq(v[i].radius(), r)));
        if i == 0 {
            T::check("the first piece starts where the arc starts", same(s, at(u)));
        } else {
            T::check("pieces join end to end", same(s, T::lib(|| v[i - 1].target())));
        }
        if i == n - 1 {
            T::check("the last piece ends where the arc ends", same(t, at(w)));
        }
        let (s, t) = (dir(s), dir(t));
        let g = if top { T::k(1) } else { T::k(-1) };
        T::check("a piece stays in the half it is classified by", ge0(g * s.1).and(ge0(g * t.1)));
        if T::branch(eq0(cross(s, t))) {
            T::check("a half circle is in the half it is classified by", lt0(dot(s, t)).and(gt0(g * s.0)));
        } else {
            T::check("a piece is shorter than a half circle", gt0(cross(s, t)));
        }
        covers.push(in_ccw(d, s, t));
        inner.push(all(vec![in_ccw(d, s, t), any(vec![ne0(cross(d, s)), lt0(dot(d, s))]), any(vec![ne0(cross(d, t)), lt0(dot(d, t))])]));
    }
    T::check("the pieces cover the arc and nothing else", in_ccw(d, u, w).iff(any(covers)));
    for i in 0..n {
        for j in 0..i {
            T::check("pieces do not overlap", inner[i].clone().and(inner[j].clone()).not());
        }
    }
}
/// source and target angle: a direction plus a number of full turns
fn ends<T: Num>() -> ((T, T), (T, T), T, T) {
    let (u, w) = (T::unit("u"), T::unit("w"));
    let (a, b) = (radian(u), radian(w));
    let turns = |n: &str| T::k(T::choose(n, 6) as i64 - 2) * two_pi::<T>();
    (u, w, a + turns("source turns"), b + turns("target turns"))
}
/// equal angles make the full circle; angles above 4 pi count modulo 4 pi
fn full<T: Num>(a: T, b: T) -> bool {
    let m = |mut x: T| {
        while T::branch(lt0(two_pi::<T>() * T::k(2) - x)) {
            x = x - two_pi::<T>() * T::k(2);
        }
        x
    };
    let (a, b) = (m(a), m(b));
    T::branch(eq(a, b))
}
fn arc_ends<T: Num>() {
    let (c, r) = (point::<T>("c"), length::<T>("r"));
    T::assume(gt0(r));
    let (u, w, a, b) = ends::<T>();
    let (arc, s, t) = T::lib(|| {
        let k = ArcSegment2::new(CircleSegment2::new(c, r), a, b);
        (k, k.source(), k.target())
    });
    T::check("the kind is arc", lit(arc.segment_type() == Segment2Type::ArcSegment2));
    T::check("centre and radius are those given", same(arc.center(), c).and(eq(arc.radius(), r)));
    if full(a, b) {
        T::check("equal angles make the full circle", eq(arc.target_radian() - arc.source_radian(), two_pi()));
        T::check("the ends of a full circle coincide", same(s, t));
    } else {
        T::check("the source lies at the source angle", same(s, P::new(c.x() + r * u.0, c.y() + r * u.1)));
        T::check("the target lies at the target angle", same(t, P::new(c.x() + r * w.0, c.y() + r * w.1)));
    }
}
fn arc_monotone<T: Num>() {
    let (c, r) = (point::<T>("c"), length::<T>("r"));
    T::assume(gt0(r));
    let (mut u, mut w, a, b) = ends::<T>();
    if full(a, b) {
        // the full circle, starting at angle 0
        u = (T::k(1), T::k(0));
        w = u;
    }
    let v = T::lib(|| ArcSegment2::new(CircleSegment2::new(c, r), a, b).monotone());
    pieces(&v, c, r, u, w);
}
/// an arc with 0 <= source < target <= 2 pi is a top arc iff it stays in the upper half
fn arc_top<T: Num>() {
    let (c, r) = (point::<T>("c"), length::<T>("r"));
    T::assume(gt0(r));
    let turn = [0, 1, 2][T::choose("source", 3)];
    let (u, w) = (T::unit("u"), T::unit("w"));
    // the special directions 0 and pi are met exactly
    let a = match turn {
        0 => radian(u),
        1 => T::k(0),
        _ => T::pi(),
    };
    let b = match T::choose("target", 3) {
        0 => radian(w),
        1 => two_pi::<T>(),
        _ => T::pi(),
    };
    T::assume(lt0(a - b));
    let top = T::lib(|| ArcSegment2::new(CircleSegment2::new(c, r), a, b).is_top());
    T::check("a top arc ends at pi at the latest", le0(b - T::pi()).is(top));
}
/// angles that are multiples of a quarter turn
fn arc_quarters<T: Num>() {
    let (c, r) = (point::<T>("c"), length::<T>("r"));
    T::assume(gt0(r));
    let (i, j) = (T::choose("source", 12) as i64 - 4, T::choose("target", 12) as i64 - 4);
    let q = |i: i64| [(1, 0), (0, 1), (-1, 0), (0, -1)][i.rem_euclid(4) as usize];
    let (mut u, mut w) = (q(i), q(j));
    if i == j {
        u = (1, 0);
        w = u;
    }
    let dir = |u: (i64, i64)| (T::k(u.0), T::k(u.1));
    let v = T::lib(|| ArcSegment2::new(CircleSegment2::new(c, r), T::pi() * T::q(i, 2), T::pi() * T::q(j, 2)).monotone());
    pieces(&v, c, r, dir(u), dir(w));
}
fn circle_monotone<T: Num>() {
    let (c, r) = (point::<T>("c"), length::<T>("r"));
    T::assume(gt0(r));
    let k = CircleSegment2::new(c, r);
    T::check("the kind is circle", lit(k.segment_type() == Segment2Type::CircleSegment2));
    T::check("centre and radius are those given", same(k.center(), c).and(eq(k.radius(), r)));
    let v = T::lib(|| k.monotone());
    pieces(&v, c, r, (T::k(1), T::k(0)), (T::k(1), T::k(0)));
}
/// end points and equality of line segments and arcs
fn equality<T: Num>() {
    let (c, e) = (point::<T>("c"), point::<T>("e"));
    let (r, q) = (length::<T>("r"), length::<T>("q"));
    T::assume(gt0(r).and(gt0(q)));
    let (u, w, x, y) = (T::unit("u"), T::unit("w"), T::unit("x"), T::unit("y"));
    let (ru, rw, rx, ry) = (radian(u), radian(w), radian(x), radian(y));
    T::assume(ne0(ru - rw).and(ne0(rx - ry)));
    let r2 = T::lib(|| ArcSegment2::new(CircleSegment2::new(c, r), ru, rw) == ArcSegment2::new(CircleSegment2::new(e, q), rx, ry));
    T::check("arcs are equal iff circle and angles are", all(vec![same(c, e), eq(r, q), eq(u.0, x.0), eq(u.1, x.1), eq(w.0, y.0), eq(w.1, y.1)]).is(r2));
}

pub fn register(v: &mut Vec<Harness>) {
    harness!(v, "C29", "arc_ends", 0, arc_ends, "all circles, angles in [-4 pi, 8 pi)", "ArcSegment2::new/source/target");
    harness!(v, "C29", "arc_monotone", 0, arc_monotone, "all circles, angles in [-4 pi, 8 pi)", "ArcSegment2::monotone/is_top");
    harness!(v, "C29", "arc_top", 0, arc_top, "all circles, angles with 0 <= source < target <= 2 pi", "ArcSegment2::is_top");
    harness!(v, "C29", "arc_quarters", 0, arc_quarters, "all circles, angles the multiples of pi/2 in [-2 pi, 7/2 pi]", "ArcSegment2::monotone/is_top");
    harness!(v, "C29", "circle_monotone", 0, circle_monotone, "all circles", "CircleSegment2::monotone");
    harness!(v, "C29", "arc_equality", 0, equality, "all pairs of arcs with angles in [0, 2 pi)", "ArcSegment2::eq");
}
