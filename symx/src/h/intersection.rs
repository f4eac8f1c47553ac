use super::geo::*;
use crate::explore::Harness;
use crate::num::*;
use rcgal::algorithm::intersection::line_2_line_2::*;
use rcgal::algorithm::intersection::line_2_ray_2::*;
use rcgal::algorithm::intersection::line_segment_2_ray_2::*;
use rcgal::algorithm::intersection::segment_2_segment_2::*;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::segment_2::Segment2;
use rcgal::kernel::vector_2::Vector2;

pub fn pairwise_distinct<T: Num>(v: &[P<T>]) -> Form<T> {
    let mut f = vec![];
    for i in 0..v.len() {
        for j in 0..i {
            f.push(distinct(v[i], v[j]));
        }
    }
    all(f)
}
pub fn contains<T: Num>(v: &[P<T>], q: P<T>) -> Form<T> {
    any(v.iter().map(|p| same(*p, q)).collect())
}
fn all_finite<T: Num>(v: &[P<T>]) {
    T::check("reported points have finite coordinates", lit(v.iter().all(|p| p.x().is_finite() && p.y().is_finite())));
}

// ---- C08 -------------------------------------------------------------------
fn seg_seg<T: Num>() {
    let (a, b, c, d) = (point::<T>("a"), point("b"), point("c"), point("d"));
    let (s, t) = (LineSegment2::new(a, b), LineSegment2::new(c, d));
    let (is, pts) = T::lib(|| (is_segment_2_segment_2_intersected(&s, &t), segment_2_segment_2_intersection(&s, &t)));
    T::check("predicate iff the segments share a point", segs_meet(a, b, c, d).is(is));
    T::check("points are reported iff the segments meet", lit(is == !pts.is_empty()));
    all_finite(&pts);
    for p in &pts {
        T::check("reported points lie on both segments", on_seg(*p, a, b).and(on_seg(*p, c, d)));
    }
    T::check("reported points are distinct", pairwise_distinct(&pts));
    for (e, u, v) in [(a, c, d), (b, c, d), (c, a, b), (d, a, b)] {
        T::check("end points on the other segment are reported", on_seg(e, u, v).implies(contains(&pts, e)));
    }
    T::check("at most two points", lit(pts.len() <= 2));
    if pts.len() == 2 {
        T::check("two points only for overlapping segments", eq0(orient(a, b, c)).and(eq0(orient(a, b, d))));
    }
}
// ---- C09 -------------------------------------------------------------------
fn line_line<T: Num>() {
    let (a, b, c) = (scalar::<T>("a"), scalar("b"), scalar("c"));
    let (d, e, f) = (scalar::<T>("d"), scalar("e"), scalar("f"));
    let (l, m) = (Line2::new(a, b, c), Line2::new(d, e, f));
    let (is, p) = T::lib(|| (is_line_2_line_2_intersected(&l, &m), line_2_line_2_intersection(&l, &m)));
    T::check("a point iff the lines are not parallel", ne0(a * e - b * d).is(p.is_some()));
    T::check("predicate agrees with the intersection", lit(is == p.is_some()));
    if let Some(p) = p {
        all_finite(&[p]);
        T::check("the point is on both lines", eq0(a * p.x() + b * p.y() + c).and(eq0(d * p.x() + e * p.y() + f)));
    }
}
fn line_through<T: Num>() {
    let (a, b, c, d) = (point::<T>("a"), point("b"), point("c"), point("d"));
    T::assume(distinct(a, b).and(distinct(c, d)));
    let p = T::lib(|| line_2_line_2_intersection(&Line2::from_points(&a, &b), &Line2::from_points(&c, &d)));
    T::check("a point iff the directions differ", ne0(cross(sub(b, a), sub(d, c))).is(p.is_some()));
    if let Some(p) = p {
        T::check("the point is collinear with both pairs", eq0(orient(a, b, p)).and(eq0(orient(c, d, p))));
    }
}
fn line_ray<T: Num>() {
    let (a, b, c) = (scalar::<T>("a"), scalar("b"), scalar("c"));
    let (o, d) = (vec2::<T>("o"), vec2::<T>("d"));
    T::assume(any(vec![ne0(d.0), ne0(d.1)]));
    let o = P::new(o.0, o.1);
    let l = Line2::new(a, b, c);
    let (is, p) = T::lib(|| {
        let r = Ray2::new(o, Vector2::new(d.0, d.1));
        (is_line_2_ray_2_intersected(&l, &r), line_2_ray_2_intersection(&l, &r))
    });
    // value of the line equation at the origin and its change along the ray
    let (v, w) = (a * o.x() + b * o.y() + c, a * d.0 + b * d.1);
    let meets = any(vec![all(vec![gt0(w), le0(v)]), all(vec![lt0(w), ge0(v)])]);
    T::check("a point iff the ray reaches the line", meets.is(p.is_some()));
    T::check("predicate agrees with the intersection", lit(is == p.is_some()));
    if let Some(p) = p {
        all_finite(&[p]);
        T::check("the point is on the line", eq0(a * p.x() + b * p.y() + c));
        T::check("the point is on the ray", eq0(cross(d, sub(p, o))).and(ge0(dot(d, sub(p, o)))));
    }
}

// ---- C10 -------------------------------------------------------------------
fn on_ray<T: Num>(p: P<T>, o: P<T>, d: (T, T)) -> Form<T> {
    eq0(cross(d, sub(p, o))).and(ge0(dot(d, sub(p, o))))
}
fn seg_ray<T: Num>() {
    let (a, b, o, d) = (point::<T>("a"), point("b"), point("o"), vec2::<T>("d"));
    T::assume(any(vec![ne0(d.0), ne0(d.1)]));
    let s = LineSegment2::new(a, b);
    let (is, pts) = T::lib(|| {
        let r = Ray2::new(o, Vector2::new(d.0, d.1));
        (is_line_segment_2_ray_2_intersected(&s, &r), line_segment_2_ray_2_intersection(&s, &r))
    });
    let (u, v) = (cross(d, sub(a, o)), cross(d, sub(b, o)));
    // proper crossing: end points strictly on opposite sides, crossing not behind
    let opp = any(vec![all(vec![lt0(u), gt0(v)]), all(vec![gt0(u), lt0(v)])]);
    let w = cross(sub(a, o), sub(b, a)); // o + s d meets the line ab at s = w / cross(d, ab)
    let dd = cross(d, sub(b, a));
    let ahead = any(vec![all(vec![gt0(dd), ge0(w)]), all(vec![lt0(dd), le0(w)])]);
    let meet = any(vec![opp.and(ahead), on_ray(a, o, d), on_ray(b, o, d), on_seg(o, a, b)]);
    T::check("predicate iff they share a point", meet.is(is));
    T::check("points are reported iff they meet", lit(is == !pts.is_empty()));
    all_finite(&pts);
    for p in &pts {
        T::check("reported points lie on the segment and the ray", on_seg(*p, a, b).and(on_ray(*p, o, d)));
    }
    T::check("reported points are distinct", pairwise_distinct(&pts));
    T::check("segment ends on the ray are reported", on_ray(a, o, d).implies(contains(&pts, a)).and(on_ray(b, o, d).implies(contains(&pts, b))));
    T::check("a ray origin on the segment is reported, unless it lies strictly inside an overlap seen from behind", on_seg(o, a, b).implies(contains(&pts, o)));
    T::check("at most two points", lit(pts.len() <= 2));
}

// ---- C11 -------------------------------------------------------------------
/// number of points of the non-degenerate segment ab on the circle (c, r)
pub fn seg_circle_count<T: Num>(a: P<T>, b: P<T>, c: P<T>, r: T) -> usize {
    let d = sub(b, a);
    let e = sub(a, c);
    let (qa, qb) = (dot(d, d), dot(d, e));
    let f0 = dot(e, e) - r * r;
    let f1 = dist2(b, c) - r * r;
    let s = |x: T| {
        if T::branch(lt0(x)) {
            -1
        } else if T::branch(gt0(x)) {
            1
        } else {
            0
        }
    };
    let (s0, s1) = (s(f0), s(f1));
    match (s0, s1) {
        (-1, -1) => 0,
        (-1, _) | (_, -1) => 1,
        (0, 0) => 2,
        // the other root of the quadratic lies strictly between the ends
        (0, _) => 1 + (T::branch(all(vec![lt0(qb), gt0(qa + qb + qb)]))) as usize,
        (_, 0) => {
            let g = qa + qb; // slope at b
            1 + (T::branch(all(vec![gt0(g), lt0(g + g - qa)]))) as usize
        }
        _ => {
            if !T::branch(all(vec![lt0(qb), gt0(qa + qb)])) {
                return 0;
            }
            // squared distance of the centre from the line against r^2
            let k = cross(d, e);
            match s(k * k - r * r * qa) {
                -1 => 2,
                0 => 1,
                _ => 0,
            }
        }
    }
}
fn seg_circle<T: Num>() {
    let (a, b, c, r) = (point::<T>("a"), point("b"), point("c"), length::<T>("r"));
    T::assume(gt0(r).and(distinct(a, b)));
    let (s, k) = (LineSegment2::new(a, b), CircleSegment2::new(c, r));
    let (is, pts) = T::lib(|| (is_segment_2_segment_2_intersected(&s, &k), segment_2_segment_2_intersection(&s, &k)));
    let n = seg_circle_count(a, b, c, r);
    T::check("predicate iff the segment meets the circle", lit(is == (n > 0)));
    T::check("as many points as the segment has on the circle", lit(pts.len() == n));
    all_finite(&pts);
    T::check("reported points are distinct", pairwise_distinct(&pts));
    for p in &pts {
        T::check("reported points lie on the circle", on_circle(*p, c, r));
        T::check("reported points lie on the segment", on_seg_lin(*p, a, b));
    }
}

// ---- C12 -------------------------------------------------------------------
fn circle_circle<T: Num>() {
    let (a, b, r, q) = (point::<T>("a"), point("b"), length::<T>("r"), length::<T>("q"));
    T::assume(gt0(r).and(gt0(q)));
    let (k, l) = (CircleSegment2::new(a, r), CircleSegment2::new(b, q));
    let (is, pts) = T::lib(|| (is_segment_2_segment_2_intersected(&k, &l), segment_2_segment_2_intersection(&k, &l)));
    let d = dist2(a, b);
    let (far, near) = (d - (r + q) * (r + q), d - (r - q) * (r - q));
    let touch = ne0(d).and(eq0(far).or(eq0(near)));
    let cut = lt0(far).and(gt0(near));
    T::check("predicate iff the circles share finitely many points", touch.clone().or(cut.clone()).is(is));
    T::check("two points iff the circles cut", cut.is(pts.len() == 2));
    T::check("one point iff the circles touch", touch.is(pts.len() == 1));
    T::check("at most two points", lit(pts.len() <= 2));
    all_finite(&pts);
    T::check("reported points are distinct", pairwise_distinct(&pts));
    for p in &pts {
        T::check("reported points lie on both circles", on_circle(*p, a, r).and(on_circle(*p, b, q)));
    }
}

// ---- C13 -------------------------------------------------------------------
pub struct Arc<T: Num> {
    pub c: P<T>,
    pub r: T,
    pub u: (T, T),
    pub w: (T, T),
    pub arc: ArcSegment2<T>,
}
pub fn arc<T: Num>(n: &str, c: P<T>, r: T) -> Arc<T> {
    let (u, w) = (T::unit(&format!("{}u", n)), T::unit(&format!("{}w", n)));
    let (a, b) = (radian(u), radian(w));
    Arc { c, r, u, w, arc: ArcSegment2::new(CircleSegment2::new(c, r), a, b) }
}
impl<T: Num> Arc<T> {
    pub fn has(&self, p: P<T>) -> Form<T> {
        on_arc(p, self.c, self.r, self.u, self.w)
    }
}
/// one of a list of arcs with constant directions: short, long, half and full
/// ones, across and away from the directions 0 and pi
fn listed<T: Num>(n: &str, c: P<T>, r: T) -> Arc<T> {
    listed_of(9, n, c, r)
}
pub fn listed_of<T: Num>(k: usize, n: &str, c: P<T>, r: T) -> Arc<T> {
    // (cos, sin) * 5 and the quadrant offset of the radian
    const D: [(i64, i64); 8] = [(5, 0), (4, 3), (0, 5), (-3, 4), (-5, 0), (-4, -3), (0, -5), (3, -4)];
    const L: [(usize, usize); 9] = [(4, 0), (1, 3), (7, 1), (5, 3), (6, 6), (0, 2), (0, 4), (3, 5), (2, 7)];
    let (i, j) = L[T::choose(n, k)];
    let dir = |i: usize| (T::q(D[i].0, 5), T::q(D[i].1, 5));
    let (u, w) = (dir(i), dir(j));
    let (a, mut b) = (radian(u), radian(w));
    if i > 0 && j == 0 {
        b = T::pi() * T::k(2);
    }
    if i == 7 {
        b = b + T::pi() * T::k(2);
    }
    Arc { c, r, u, w, arc: ArcSegment2::new(CircleSegment2::new(c, r), a, b) }
}
fn soundness<T: Num>(pts: &[P<T>], is: bool) {
    T::check("predicate iff points are reported", lit(is == !pts.is_empty()));
    all_finite(pts);
    T::check("reported points are distinct", pairwise_distinct(pts));
}
/// every reported point is on both; every common point is reported
fn line_arc<T: Num>() {
    line_arc_of(arc::<T>)
}
fn line_arc_l<T: Num>() {
    line_arc_of(listed::<T>)
}
/// segments in four directions, anywhere
fn line_arc_p<T: Num>() {
    const D: [(i64, i64); 5] = [(5, 0), (0, -5), (-4, 3), (3, 4), (-3, -4)];
    let c = point::<T>("c");
    let (h, t, l) = (length::<T>("h"), length::<T>("t"), length::<T>("l"));
    T::assume(gt0(l));
    let (x, y) = D[T::choose("direction", 5)];
    let (x, y) = (T::q(x, 5), T::q(y, 5));
    let a = P::new(c.x() - h * y + t * x, c.y() + h * x + t * y);
    let b = P::new(a.x() + l * x, a.y() + l * y);
    line_arc_with(a, b, c, listed::<T>)
}
fn line_arc_of<T: Num>(arc: fn(&str, P<T>, T) -> Arc<T>) {
    line_arc_with(point::<T>("a"), point("b"), point("c"), arc)
}
fn line_arc_with<T: Num>(a: P<T>, b: P<T>, c: P<T>, arc: fn(&str, P<T>, T) -> Arc<T>) {
    let r = length::<T>("r");
    T::assume(gt0(r).and(distinct(a, b)));
    let k = arc("k", c, r);
    let s = LineSegment2::new(a, b);
    let (is, pts) = T::lib(|| (is_segment_2_segment_2_intersected(&s, &k.arc), segment_2_segment_2_intersection(&s, &k.arc)));
    soundness(&pts, is);
    for p in &pts {
        T::check("reported points lie on the arc", k.has(*p));
        T::check("reported points lie on the segment", on_seg_lin(*p, a, b));
    }
    let all_pts = T::lib(|| segment_2_segment_2_intersection(&s, &CircleSegment2::new(c, r)));
    for p in &all_pts {
        T::check("every point shared with the circle on the arc is reported", k.has(*p).implies(contains(&pts, *p)));
    }
}
fn circle_arc<T: Num>() {
    let (a, q) = (point::<T>("a"), length::<T>("q"));
    circle_arc_of(a, q, point("c"), arc::<T>)
}
fn circle_arc_l<T: Num>() {
    let (a, q) = (point::<T>("a"), length::<T>("q"));
    circle_arc_of(a, q, point("c"), listed::<T>)
}
/// the second circle lies in one of four directions from the arc's centre
fn placed<T: Num>(n: usize, c: P<T>) -> P<T> {
    const D: [(i64, i64); 4] = [(5, 0), (0, -5), (-4, 3), (3, 4)];
    let (x, y) = D[T::choose("direction", n)];
    let d = length::<T>("d");
    T::assume(ge0(d));
    P::new(c.x() + d * T::q(x, 5), c.y() + d * T::q(y, 5))
}
fn circle_arc_p<T: Num>() {
    let (c, q) = (point::<T>("c"), length::<T>("q"));
    circle_arc_of(placed(4, c), q, c, listed::<T>)
}
fn circle_arc_of<T: Num>(a: P<T>, q: T, c: P<T>, arc: fn(&str, P<T>, T) -> Arc<T>) {
    let r = length::<T>("r");
    T::assume(gt0(r).and(gt0(q)));
    let k = arc("k", c, r);
    let s = CircleSegment2::new(a, q);
    let (is, pts) = T::lib(|| (is_segment_2_segment_2_intersected(&s, &k.arc), segment_2_segment_2_intersection(&s, &k.arc)));
    soundness(&pts, is);
    for p in &pts {
        T::check("reported points lie on the arc", k.has(*p));
        T::check("reported points lie on the circle", on_circle(*p, a, q));
    }
    let all_pts = T::lib(|| segment_2_segment_2_intersection(&s, &CircleSegment2::new(c, r)));
    for p in &all_pts {
        T::check("every point shared with the circle on the arc is reported", k.has(*p).implies(contains(&pts, *p)));
    }
}
/// two arcs of different circles
fn arc_arc<T: Num>() {
    arc_arc_of(point("a"), point("c"), arc::<T>)
}
fn arc_arc_l<T: Num>() {
    arc_arc_of(point("a"), point("c"), listed::<T>)
}
fn arc_arc_p<T: Num>() {
    let c = point::<T>("c");
    arc_arc_of::<T>(placed(3, c), c, |n, c, r| listed_of(3, n, c, r))
}
fn arc_arc_q<T: Num>() {
    let c = point::<T>("c");
    arc_arc_of(placed(4, c), c, listed::<T>)
}
fn arc_arc_of<T: Num>(a: P<T>, c: P<T>, arc: fn(&str, P<T>, T) -> Arc<T>) {
    let (q, r) = (length::<T>("q"), length::<T>("r"));
    T::assume(all(vec![gt0(r), gt0(q), any(vec![distinct(a, c), ne0(r - q)])]));
    let (k, l) = (arc("k", c, r), arc("l", a, q));
    let (is, pts) = T::lib(|| (is_segment_2_segment_2_intersected(&k.arc, &l.arc), segment_2_segment_2_intersection(&k.arc, &l.arc)));
    soundness(&pts, is);
    for p in &pts {
        T::check("reported points lie on both arcs", k.has(*p).and(l.has(*p)));
    }
    let all_pts = T::lib(|| segment_2_segment_2_intersection(&CircleSegment2::new(a, q), &CircleSegment2::new(c, r)));
    for p in &all_pts {
        T::check("every shared point of the circles on both arcs is reported", k.has(*p).and(l.has(*p)).implies(contains(&pts, *p)));
    }
}
/// two arcs of one circle: the end points of the overlap
fn arc_arc_same<T: Num>() {
    let (c, r) = (point::<T>("c"), length::<T>("r"));
    T::assume(gt0(r));
    let (k, l) = (arc("k", c, r), arc("l", c, r));
    let (is, pts) = T::lib(|| (is_segment_2_segment_2_intersected(&k.arc, &l.arc), segment_2_segment_2_intersection(&k.arc, &l.arc)));
    soundness(&pts, is);
    for p in &pts {
        T::check("reported points lie on both arcs", k.has(*p).and(l.has(*p)));
    }
    let at = |u: (T, T)| P::new(c.x() + r * u.0, c.y() + r * u.1);
    for (e, own, other) in [(k.u, &k, &l), (k.w, &k, &l), (l.u, &l, &k), (l.w, &l, &k)] {
        // a full arc has no end points of its own
        let proper = any(vec![ne0(cross(own.u, own.w)), lt0(dot(own.u, own.w))]);
        T::check("end points on the other arc are reported", proper.and(in_ccw(e, other.u, other.w)).implies(contains(&pts, at(e))));
    }
}

// ---- C14 -------------------------------------------------------------------
fn agree<T: Num, A: Segment2<T>, B: Segment2<T>>(a: &A, b: &B) {
    let (ab, ba, p, q) = T::lib(|| {
        (
            is_segment_2_segment_2_intersected(a, b),
            is_segment_2_segment_2_intersected(b, a),
            segment_2_segment_2_intersection(a, b),
            segment_2_segment_2_intersection(b, a),
        )
    });
    T::check("the predicate is symmetric", lit(ab == ba));
    T::check("the predicate says whether points are reported", lit(ab == !p.is_empty()));
    T::check("both orders report equally many points", lit(p.len() == q.len()));
    for x in &p {
        T::check("both orders report the same points", contains(&q, *x));
    }
    for x in &q {
        T::check("both orders report the same points", contains(&p, *x));
    }
}
fn gen_ll<T: Num>() {
    let (a, b, c, d) = (point::<T>("a"), point("b"), point("c"), point("d"));
    agree::<T, _, _>(&LineSegment2::new(a, b), &LineSegment2::new(c, d));
}
fn gen_lc<T: Num>() {
    let (a, b, c, r) = (point::<T>("a"), point("b"), point("c"), length::<T>("r"));
    T::assume(gt0(r).and(distinct(a, b)));
    agree::<T, _, _>(&LineSegment2::new(a, b), &CircleSegment2::new(c, r));
}
fn gen_cc<T: Num>() {
    let (a, b, r, q) = (point::<T>("a"), point("b"), length::<T>("r"), length::<T>("q"));
    T::assume(gt0(r).and(gt0(q)));
    agree::<T, _, _>(&CircleSegment2::new(a, q), &CircleSegment2::new(b, r));
}
/// half arcs, so that the dispatch rather than the angles is explored
fn half<T: Num>(c: P<T>, r: T) -> ArcSegment2<T> {
    let pi = T::pi();
    let k = CircleSegment2::new(c, r);
    match T::choose("half", 2) {
        0 => ArcSegment2::new(k, T::zero(), pi),
        _ => ArcSegment2::new(k, pi, pi * T::k(2)),
    }
}
fn gen_la<T: Num>() {
    let (a, b, c, r) = (point::<T>("a"), point("b"), point("c"), length::<T>("r"));
    T::assume(gt0(r).and(distinct(a, b)));
    agree::<T, _, _>(&LineSegment2::new(a, b), &half(c, r));
}
fn gen_ca<T: Num>() {
    let (a, b, r, q) = (point::<T>("a"), point("b"), length::<T>("r"), length::<T>("q"));
    T::assume(gt0(r).and(gt0(q)));
    agree::<T, _, _>(&CircleSegment2::new(a, q), &half(b, r));
}
fn gen_aa<T: Num>() {
    let (a, b, r, q) = (point::<T>("a"), point("b"), length::<T>("r"), length::<T>("q"));
    T::assume(gt0(r).and(gt0(q)));
    agree::<T, _, _>(&half(a, q), &half(b, r));
}

pub fn register(v: &mut Vec<Harness>) {
    harness!(v, "C08", "seg_seg", 0, seg_seg, "all real inputs, degenerate segments included", "is_line_segment_2_line_segment_2_intersected, line_segment_2_line_segment_2_intersection, Point2::partial_cmp, Point2::eq");
    harness!(v, "C09", "line_line", 0, line_line, "all real coefficients", "line_2_line_2_intersection, is_line_2_line_2_intersected");
    harness!(v, "C09", "line_through", 0, line_through, "all pairs of distinct points", "Line2::from_points, line_2_line_2_intersection");
    harness!(v, "C09", "line_ray", 0, line_ray, "all real inputs, non-zero direction", "line_2_ray_2_intersection, is_line_2_ray_2_intersected, Ray2::new, Line2::from_points");
    harness!(v, "C10", "seg_ray", 0, seg_ray, "all real inputs, non-zero direction, degenerate segments included", "line_segment_2_ray_2_intersection, is_line_segment_2_ray_2_intersected, locate_point_2_ray_2");
    harness!(v, "C11", "seg_circle", 0, seg_circle, "all real inputs, r > 0, segment ends distinct", "line_segment_2_circle_segment_2_intersection, is_line_segment_2_circle_segment_2_intersected, point_2_project_line_segment_2, locate_point_2_circle_segment_2");
    harness!(v, "C12", "circle_circle", 0, circle_circle, "all real centres, radii > 0", "circle_segment_2_circle_segment_2_intersection, is_circle_segment_2_circle_segment_2_intersected");
    harness!(v, "C13", "line_arc", 1, line_arc, "all segments with distinct ends, all arcs", "line_segment_2_arc_segment_2_intersection, is_line_segment_2_arc_segment_2_intersected");
    harness!(v, "C13", "line_arc_p", 0, line_arc_p, "all segments in 5 directions, arcs with 9 listed pairs of end directions", "line_segment_2_arc_segment_2_intersection, is_line_segment_2_arc_segment_2_intersected");
    harness!(v, "C13", "line_arc_l", 1, line_arc_l, "all segments with distinct ends, arcs with 9 listed pairs of end directions", "line_segment_2_arc_segment_2_intersection, is_line_segment_2_arc_segment_2_intersected");
    harness!(v, "C13", "circle_arc", 1, circle_arc, "all circles, all arcs", "circle_segment_2_arc_segment_2_intersection, is_circle_segment_2_arc_segment_2_intersected");
    harness!(v, "C13", "circle_arc_p", 0, circle_arc_p, "all radii and distances, circle in one of 4 directions from the arc's centre, arcs with 9 listed pairs of end directions", "circle_segment_2_arc_segment_2_intersection, is_circle_segment_2_arc_segment_2_intersected");
    harness!(v, "C13", "circle_arc_l", 1, circle_arc_l, "all circles, arcs with 9 listed pairs of end directions", "circle_segment_2_arc_segment_2_intersection, is_circle_segment_2_arc_segment_2_intersected");
    harness!(v, "C13", "arc_arc", 1, arc_arc, "all pairs of arcs of different circles", "arc_segment_2_arc_segment_2_intersection, is_arc_segment_2_arc_segment_2_intersected");
    harness!(v, "C13", "arc_arc_p", 0, arc_arc_p, "all radii and distances, second centre in one of 3 directions, arcs with 3x3 listed pairs of end directions", "arc_segment_2_arc_segment_2_intersection, is_arc_segment_2_arc_segment_2_intersected");
    harness!(v, "C13", "arc_arc_q", 1, arc_arc_q, "all radii and distances, second centre in one of 4 directions, arcs with 9x9 listed pairs of end directions", "arc_segment_2_arc_segment_2_intersection, is_arc_segment_2_arc_segment_2_intersected");
    harness!(v, "C13", "arc_arc_l", 1, arc_arc_l, "arcs of different circles with 9x9 listed pairs of end directions", "arc_segment_2_arc_segment_2_intersection, is_arc_segment_2_arc_segment_2_intersected");
    harness!(v, "C13", "arc_arc_same", 0, arc_arc_same, "all pairs of arcs of one circle", "arc_segment_2_arc_segment_2_intersection");
    harness!(v, "C14", "gen_ll", 0, gen_ll, "all real inputs", "segment_2_segment_2_intersection, is_segment_2_segment_2_intersected");
    harness!(v, "C14", "gen_lc", 0, gen_lc, "all real inputs, r > 0, segment ends distinct", "segment_2_segment_2_intersection, is_segment_2_segment_2_intersected");
    harness!(v, "C14", "gen_cc", 0, gen_cc, "all real inputs, radii > 0", "segment_2_segment_2_intersection, is_segment_2_segment_2_intersected");
    harness!(v, "C14", "gen_la", 0, gen_la, "all segments with distinct ends, both half arcs", "segment_2_segment_2_intersection, is_segment_2_segment_2_intersected");
    harness!(v, "C14", "gen_ca", 0, gen_ca, "all circles, both half arcs", "segment_2_segment_2_intersection, is_segment_2_segment_2_intersected");
    harness!(v, "C14", "gen_aa", 0, gen_aa, "all pairs of half arcs", "segment_2_segment_2_intersection, is_segment_2_segment_2_intersected");
}
