use super::geo::*;
use crate::explore::Harness;
use crate::num::*;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::projection::*;
use rcgal::kernel::edge_2::Edge2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::segment_2::Segment2;
use rcgal::kernel::triangle_2::Triangle2;
use rcgal::kernel::util_enum::*;
use rcgal::kernel::vector_2::Vector2;
use rcgal::kernel::vertex_2::Vertex2;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::rc::Rc;

// ---- C15 -------------------------------------------------------------------
fn proj_line<T: Num>() {
    let (p, (a, b), c) = (point::<T>("p"), vec2::<T>("n"), scalar::<T>("c"));
    T::assume(any(vec![ne0(a), ne0(b)]));
    let f = T::lib(|| point_2_line_2::point_2_project_line_2(&p, &Line2::new(a, b, c)));
    T::check("the foot is finite", finite(f));
    T::check("the foot lies on the line", eq0(a * f.x() + b * f.y() + c));
    T::check("the connection is perpendicular to the line", eq0(cross(sub(p, f), (a, b))));
}
fn proj_line2<T: Num>() {
    let (p, a, b) = (point::<T>("p"), point("a"), point("b"));
    T::assume(distinct(a, b));
    let f = T::lib(|| point_2_line_2::point_2_project_line_2(&p, &Line2::from_points(&a, &b)));
    T::check("the foot is finite", finite(f));
    T::check("the foot lies on the line", eq0(orient(a, b, f)));
    T::check("the connection is perpendicular to the line", eq0(dot(sub(p, f), sub(b, a))));
}
fn proj_seg<T: Num>() {
    let (p, a, b) = (point::<T>("p"), point("a"), point("b"));
    let r = T::lib(|| point_2_line_segment_2::point_2_project_line_segment_2(&p, &LineSegment2::new(a, b)));
    let d = sub(b, a);
    let within = ge0(dot(d, sub(p, a))).and(le0(dot(d, sub(p, b))));
    T::check("a foot is given iff it belongs to the segment", within.is(r.is_some()));
    if let Some(f) = r {
        T::check("the foot is finite", finite(f));
        T::check("the foot lies on the segment", on_seg(f, a, b));
        T::check("the connection is perpendicular to the segment", eq0(dot(sub(p, f), d)));
    }
}

// ---- C16 -------------------------------------------------------------------
fn hull<T: Num, const N: usize>() {
    hull_of::<T>((0..N).map(|i| point(&format!("p{}", i))).collect());
}
const SETS: [&[[i64; 2]]; 6] = [
    &[[5, 0], [-3, 4], [4, -3], [0, 5], [-5, 0], [3, 4], [0, -5], [-4, -3]],
    &[[0, 0], [1, 0], [2, 0], [0, 1], [1, 1], [2, 1], [0, 2], [1, 2], [2, 2]],
    &[[0, 0], [3, 3], [1, 1], [-2, -2], [2, 2], [1, 1], [5, 5]],
    &[[2, 1], [2, 5], [2, 3], [2, -4], [2, 0], [2, 3]],
    &[[0, 0], [6, 0], [3, 1], [0, 0], [3, 4], [2, 1], [4, 1], [6, 0], [3, 2]],
    &[[0, 0], [10, 1], [9, 3], [7, 5], [4, 6], [1, 5], [3, 2], [8, 2], [5, 4], [2, 2], [6, 1]],
];
/// listed points (on a circle, in a grid, on a line, repeated) and one anywhere
fn hull_list<T: Num, const K: usize>() {
    let mut v: Vec<P<T>> = SETS[K].iter().map(|p| P::new(T::k(p[0]), T::k(p[1]))).collect();
    let at = T::choose("position", 3) * v.len() / 2;
    v.insert(at, point("p"));
    hull_of(v);
}
/// listed points and two anywhere
fn hull_list2<T: Num, const K: usize>() {
    let mut v: Vec<P<T>> = SETS[K].iter().take(6).map(|p| P::new(T::k(p[0]), T::k(p[1]))).collect();
    v.insert(3, point("p"));
    v.push(point("q"));
    hull_of(v);
}
/// listed sets of N points, one of which slides along a line
fn hull_slide<T: Num, const N: usize, const FROM: usize, const TO: usize>() {
    let k = (FROM + T::choose("set", TO - FROM)) as u64;
    let mut v = super::rnd::points::<T>(N, k);
    let mut g = super::rnd::Lcg::new(k);
    let (i, dx, dy) = (g.below(N), g.int(-2, 2), g.int(1, 2));
    let t = T::input("t", Group::None);
    v[i] = P::new(v[i].x() + t * T::k(dx), v[i].y() + t * T::k(dy));
    hull_of(v);
}
/// listed sets of N points and one anywhere
fn hull_random<T: Num, const N: usize, const FROM: usize, const TO: usize>() {
    let k = FROM + T::choose("set", TO - FROM);
    let mut v = super::rnd::points::<T>(N, k as u64);
    v[k % N] = point("p");
    hull_of(v);
}
fn hull_of<T: Num>(v: Vec<P<T>>) {
    let n = v.len();
    let (h, again) = T::lib(|| {
        let mut c = ConvexHull2::new(v.clone());
        (c.convex_hull(), c.convex_hull())
    });
    let m = h.len();
    T::check("asking again gives the same hull", lit(again.len() == m).and(all(h.iter().zip(&again).map(|(p, q)| same(*p, *q)).collect())));
    T::check("empty iff there are no points", lit((m == 0) == (n == 0)));
    for p in &h {
        T::check("hull points are input points", any(v.iter().map(|q| same(*p, *q)).collect()));
    }
    match m {
        0 => {}
        1 => v.iter().for_each(|q| T::check("a single point stands for identical points", same(*q, h[0]))),
        2 => {
            T::check("hull points are distinct", distinct(h[0], h[1]));
            v.iter().for_each(|q| T::check("all points lie between the two", on_seg(*q, h[0], h[1])))
        }
        _ => {
            for i in 0..m {
                let (a, b, c) = (h[i], h[(i + 1) % m], h[(i + 2) % m]);
                T::check("the hull is strictly convex and counter-clockwise", gt0(orient(a, b, c)));
                for q in &v {
                    T::check("no point lies outside", ge0(orient(a, b, *q)));
                }
            }
        }
    }
}

// ---- C17 -------------------------------------------------------------------
fn tri_area<T: Num>() {
    let v = [point::<T>("a"), point("b"), point("c")];
    let o = orient(v[0], v[1], v[2]);
    let (t, area, verts, edges) = T::lib(|| {
        let t = Triangle2::new(v[0], v[1], v[2]);
        (t.clone(), t.area(), t.vertices(), t.edges())
    });
    T::check("area is the shoelace value", eq(area * T::k(2), o));
    T::check("counter-clockwise iff positive", gt0(o).is(t.orientation() == Orientation::CounterClockwise));
    let acc = [t.a(), t.b(), t.c()];
    for i in 0..3 {
        T::check("vertices are those given", same(verts[i], v[i]).and(same(acc[i], v[i])));
        T::check("edges connect consecutive vertices", same(edges[i].source(), v[i]).and(same(edges[i].target(), v[(i + 1) % 3])));
    }
    let mut r = t.clone();
    let back = T::lib(|| {
        r.reverse_orientation();
        r.clone()
    });
    T::check("reversing flips the orientation", lit(back.orientation() != t.orientation()));
    T::check("reversing flips the sign of the area", eq0(T::lib(|| back.area()) + area));
    for i in 0..3 {
        T::check("reversing keeps the vertices", same(back.vertices()[i], v[i]));
    }
    T::lib(|| r.reverse_orientation());
    T::check("reversing twice restores", lit(r.orientation() == t.orientation()).and(eq(T::lib(|| r.area()), area)));
}
fn poly_area<T: Num, const N: usize>() {
    area_of::<T>((0..N).map(|i| point(&format!("p{}", i))).collect());
}
/// listed points, one of which is anywhere
fn poly_area_list<T: Num, const N: usize, const FROM: usize, const TO: usize>() {
    let k = FROM + T::choose("polygon", TO - FROM);
    let mut v = super::rnd::points::<T>(N, k as u64);
    v[k * 7 % N] = point("p");
    area_of(v);
}
fn area_of<T: Num>(v: Vec<P<T>>) {
    let n = v.len();
    let (area, verts, edges) = T::lib(|| {
        let p = Polygon2::new(v.clone());
        (p.area(), p.vertices(), p.edges())
    });
    let mut s = T::k(0);
    for i in 0..n {
        s = s + v[i].x() * v[(i + 1) % n].y() - v[i].y() * v[(i + 1) % n].x();
    }
    T::check("area is the shoelace value", eq(area * T::k(2), s));
    T::check("as many vertices and edges as given", lit(verts.len() == n && edges.len() == n));
    for i in 0..n {
        T::check("vertices are those given", same(verts[i], v[i]));
        T::check("edges connect consecutive vertices", same(edges[i].source(), v[i]).and(same(edges[i].target(), v[(i + 1) % n])));
    }
}

// ---- C18 -------------------------------------------------------------------
fn convex<T: Num, const N: usize>() {
    convex_of::<T>((0..N).map(|i| point(&format!("p{}", i))).collect());
}
fn convex_list<T: Num, const K: usize>() {
    convex_of(one_free::<T>(K, 2));
}
/// the hull of listed points, with a vertex on an edge or one sliding along a line
fn convex_slide<T: Num, const N: usize, const FROM: usize, const TO: usize>() {
    convex_of(super::rnd::slid_convex::<T>(N, (FROM + T::choose("polygon", TO - FROM)) as u64));
}
fn convex_of<T: Num>(v: Vec<P<T>>) {
    let n = v.len();
    assume_simple(&v);
    let c = T::lib(|| Polygon2::new(v.clone()).is_convex());
    let side = |f: fn(T) -> Form<T>| {
        let mut w = vec![];
        for i in 0..n {
            for j in 0..n {
                if j != i && j != (i + 1) % n {
                    w.push(f(orient(v[i], v[(i + 1) % n], v[j])));
                }
            }
        }
        all(w)
    };
    T::check("convex iff on one side of every edge", any(vec![side(ge0), side(le0)]).is(c));
}

// ---- C26 -------------------------------------------------------------------
fn ordering<T: Num>(a: P<T>, b: P<T>, o: Ordering, what: &str) {
    let less = any(vec![gt0(a.x() - b.x()), all(vec![eq(a.x(), b.x()), gt0(a.y() - b.y())])]);
    let greater = any(vec![lt0(a.x() - b.x()), all(vec![eq(a.x(), b.x()), lt0(a.y() - b.y())])]);
    T::check(&format!("{}: before iff right of, or above", what), less.is(o == Ordering::Less));
    T::check(&format!("{}: after iff left of, or below", what), greater.is(o == Ordering::Greater));
    T::check(&format!("{}: equal iff the same point", what), same(a, b).is(o == Ordering::Equal));
}
fn order<T: Num>() {
    let (a, b) = (point::<T>("a"), point("b"));
    let (eq1, eq2, o, po, eq3) = T::lib(|| (a == b, a.equals(&b), a.cmp(&b), a.partial_cmp(&b), b == a));
    T::check("equal iff the same point", same(a, b).is(eq1));
    T::check("equality is one relation and symmetric", lit(eq1 == eq2 && eq1 == eq3));
    T::check("the partial order is the order", lit(po == Some(o)));
    ordering(a, b, o, "points");
    let d = T::lib(|| a.distance(&b));
    T::check("the distance is the Euclidean one", ge0(d).and(eq(d * d, dist2(a, b))));
    let (v, w) = (Vertex2::new(a.x(), a.y()), Vertex2::new(b.x(), b.y()));
    let (eq1, eq2, o, po) = T::lib(|| (v == w, v.equals(&w), v.cmp(&w), v.partial_cmp(&w)));
    T::check("vertices are equal iff the same point", same(a, b).is(eq1));
    T::check("vertex equality is one relation", lit(eq1 == eq2));
    T::check("the partial order is the order", lit(po == Some(o)));
    ordering(a, b, o, "vertices");
}
fn order3<T: Num>() {
    let (a, b, c) = (point::<T>("a"), point("b"), point("c"));
    let (x, y, z, r) = T::lib(|| (a.cmp(&b), b.cmp(&c), a.cmp(&c), b.cmp(&a)));
    T::check("comparing the other way round reverses", lit(r == x.reverse()));
    if x == y || y == Ordering::Equal {
        T::check("the order is transitive", lit(z == x));
    }
    if x == Ordering::Equal {
        T::check("equal points compare alike", lit(z == y));
    }
}
fn order_tol<T: Num>() {
    let a = point::<T>("a");
    let u = T::unit("u");
    let at = |k: T| P::new(a.x() + k * u.0, a.y() + k * u.1);
    let (near, far) = (at(T::q(1, 2) * T::default_eps()), at(T::k(3) * T::default_eps()));
    T::check("points within the tolerance are equal", lit(T::lib(|| a == near && near == a)));
    T::check("points beyond the tolerance are not", lit(!T::lib(|| a == far || far == a)));
    let (near, far) = (Vertex2::new(near.x(), near.y()), Vertex2::new(far.x(), far.y()));
    let v = Vertex2::new(a.x(), a.y());
    T::check("vertices within the tolerance are equal", lit(T::lib(|| v == near && near == v)));
    T::check("vertices beyond the tolerance are not", lit(!T::lib(|| v == far || far == v)));
}

/// x coordinates within the tolerance are a tie, decided by y; beyond it they are not
fn order_tie<T: Num>() {
    let (a, h) = (point::<T>("a"), scalar::<T>("h"));
    T::assume(ne0(h));
    let k = [T::k(-3), T::q(-1, 2), T::q(1, 2), T::k(3)][T::choose("displacement", 4)];
    let b = P::new(a.x() + k * T::default_eps(), a.y() + h);
    let after = if T::branch(lt0(k * k - T::k(1))) { gt0(h) } else { gt0(k) };
    let (v, w) = (Vertex2::new(a.x(), a.y()), Vertex2::new(b.x(), b.y()));
    let (o, r, x, y) = T::lib(|| (a.cmp(&b), b.cmp(&a), v.cmp(&w), w.cmp(&v)));
    T::check("points: the one with the smaller x comes later, ties are decided by the smaller y", after.clone().is(o == Ordering::Greater));
    T::check("points: the other way round", after.clone().is(r == Ordering::Less));
    T::check("vertices order like their points", lit(x == o && y == r));
    let (p, q, z) = T::lib(|| (a == b, v == w, w == v));
    T::check("points that differ in y are not equal", lit(!p && !q && !z));
}

// ---- C28 -------------------------------------------------------------------
fn vector<T: Num>() {
    let ((a, b), (c, d), k) = (vec2::<T>("u"), vec2::<T>("v"), scalar::<T>("k"));
    let (u, v) = (Vector2::new(a, b), Vector2::new(c, d));
    let is = |what: &str, w: Vector2<T>, x: T, y: T| T::check(what, eq(w.x(), x).and(eq(w.y(), y)));
    is("components are those given", u, a, b);
    is("sum", T::lib(|| u + v), a + c, b + d);
    is("difference", T::lib(|| u - v), a - c, b - d);
    is("multiple", T::lib(|| u * k), a * k, b * k);
    T::check("dot product", eq(T::lib(|| u.dot(&v)), a * c + b * d));
    T::check("cross product", eq(T::lib(|| u.cross(&v)), a * d - b * c));
    let (p, q) = (P::new(a, b), P::new(c, d));
    is("sum of points", T::lib(|| p + q), a + c, b + d);
    is("difference of points", T::lib(|| p - q), a - c, b - d);
    is("vector of a point", T::lib(|| p.get_vector()), a, b);
    T::check("vectors are equal iff their components are", eq(a, c).and(eq(b, d)).is(T::lib(|| u == v)));
    let l = T::lib(|| u.length());
    T::check("length", ge0(l).and(eq(l * l, a * a + b * b)));
    let n = T::lib(|| u.normalize());
    if T::branch(ne0(a).or(ne0(b))) {
        T::check("normalised length is one", eq(n.x() * n.x() + n.y() * n.y(), T::k(1)));
        T::check("normalised direction is kept", eq0(a * n.y() - b * n.x()).and(gt0(a * n.x() + b * n.y())));
    } else {
        is("the zero vector stays", n, a, b);
    }
    T::assume(ne0(k));
    let w = T::lib(|| u / k);
    T::check("quotient", eq(w.x() * k, a).and(eq(w.y() * k, b)));
}
/// vectors and end points that differ by less than the tolerance are equal, by more are not
fn vector_tol<T: Num>() {
    let (a, b) = (vec2::<T>("u"), point::<T>("b"));
    let ks = [T::k(-3), T::q(-1, 2), T::k(0), T::q(1, 2), T::k(3)];
    let (i, j) = (T::choose("displacement of x", 5), T::choose("displacement of y", 5));
    let near = i % 4 != 0 && j % 4 != 0;
    let (x, y) = (a.0 + ks[i] * T::default_eps(), a.1 + ks[j] * T::default_eps());
    let (u, v) = (Vector2::new(a.0, a.1), Vector2::new(x, y));
    let (r, q) = T::lib(|| (u == v, v == u));
    T::check("vectors are equal iff they coincide within the tolerance", lit(r == near && q == near));
    let (p, w) = (P::new(a.0, a.1), P::new(x, y));
    let (r, q, z) = T::lib(|| (LineSegment2::new(p, b) == LineSegment2::new(w, b), LineSegment2::new(b, w) == LineSegment2::new(b, p), p.equals(&w)));
    // the distance of points is measured along the diagonal
    if i == 2 || j == 2 || !near {
        T::check("points are equal iff they coincide within the tolerance", lit(z == near));
    }
    T::check("line segments are equal iff both ends are", lit(r == z && q == z));
}
fn angle<T: Num>() {
    let ((a, b), (c, d)) = (vec2::<T>("u"), vec2::<T>("v"));
    T::assume(ne0(a).or(ne0(b)));
    T::assume(ne0(c).or(ne0(d)));
    let t = T::lib(|| Vector2::new(a, b).radian_to(&Vector2::new(c, d)));
    T::check("the angle is in [0, 2 pi)", ge0(t).and(lt0(t - T::pi() * T::k(2))));
    let (co, si) = (t.cos(), t.sin());
    let (x, y) = (a * c + b * d, a * d - b * c);
    // (co, si) is the direction of (x, y)
    T::check("turning by the angle leads from one to the other", eq0(co * y - si * x).and(gt0(co * x + si * y)));
}
fn line_eq<T: Num>() {
    let ((a, b), c) = (vec2::<T>("m"), scalar::<T>("c"));
    let ((d, e), f) = (vec2::<T>("n"), scalar::<T>("f"));
    T::assume(ne0(a).or(ne0(b)));
    T::assume(ne0(d).or(ne0(e)));
    let (l, m) = (Line2::new(a, b, c), Line2::new(d, e, f));
    T::check("coefficients are those given", eq(l.a(), a).and(eq(l.b(), b)).and(eq(l.c(), c)));
    let r = T::lib(|| l == m);
    // a point of the second line and its direction lie in the first
    let n2 = d * d + e * e;
    let common = all(vec![eq0(a * e - b * d), eq0(c * n2 - f * (a * d + b * e))]);
    T::check("equal iff the same set of points", common.is(r));
}
fn line_points<T: Num>() {
    let (a, b) = (point::<T>("a"), point("b"));
    T::assume(distinct(a, b));
    let (l, m) = T::lib(|| (Line2::from_points(&a, &b), Line2::from_points(&b, &a)));
    T::check("the normal is not zero", ne0(l.a()).or(ne0(l.b())));
    for p in [a, b] {
        T::check("the line contains both points", eq0(l.a() * p.x() + l.b() * p.y() + l.c()));
    }
    T::check("the line does not depend on the order of the points", lit(T::lib(|| l == m)));
}
fn ray<T: Num>() {
    let (o, (x, y)) = (point::<T>("o"), vec2::<T>("d"));
    T::assume(ne0(x).or(ne0(y)));
    let r = T::lib(|| Ray2::new(o, Vector2::new(x, y)));
    let d = r.direction();
    T::check("the origin is kept", same(r.origin(), o));
    T::check("the direction has length one", eq(d.x() * d.x() + d.y() * d.y(), T::k(1)));
    T::check("the direction is kept", eq0(cross((d.x(), d.y()), (x, y))).and(gt0(dot((d.x(), d.y()), (x, y)))));
}

// ---- C31 -------------------------------------------------------------------
fn half_edges<T: Num>() {
    let (a, b, c) = (point::<T>("a"), point("b"), point("c"));
    let vx = |p: P<T>| Rc::new(RefCell::new(Vertex2::new(p.x(), p.y())));
    let (va, vb, vc) = (vx(a), vx(b), vx(c));
    T::check("a vertex reports its coordinates", eq(va.borrow().x(), a.x()).and(eq(va.borrow().y(), a.y())));
    T::check("a vertex is its point", same(T::lib(|| va.borrow().to_point()), a));
    let mk = |s: &Rc<RefCell<Vertex2<T>>>, t: &Rc<RefCell<Vertex2<T>>>, arc: bool| {
        Rc::new(RefCell::new(if arc { Edge2::new_arc(s.clone(), t.clone()) } else { Edge2::new_segment(s.clone(), t.clone()) }))
    };
    let arc = T::choose("kind", 2) == 1;
    let e = mk(&va, &vb, arc);
    let (t, n, p) = (mk(&vb, &va, arc), mk(&vb, &vc, arc), mk(&vc, &va, arc));
    T::check("the kind is the one made", lit(e.borrow().edge_type() == if arc { Edge2Type::Arc } else { Edge2Type::Segment }));
    T::check("no links at first", lit(e.borrow().twin().is_none() && e.borrow().next().is_none() && e.borrow().prev().is_none() && e.borrow().face().is_none()));
    // link in an arbitrary order
    let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][T::choose("order", 6)];
    for k in perm {
        T::lib(|| match k {
            0 => {
                e.borrow_mut().set_twin(t.clone());
                t.borrow_mut().set_twin(e.clone());
            }
            1 => {
                e.borrow_mut().set_next(n.clone());
                n.borrow_mut().set_prev(e.clone());
            }
            _ => {
                e.borrow_mut().set_prev(p.clone());
                p.borrow_mut().set_next(e.clone());
            }
        })
    }
    let is = |x: Option<Rc<RefCell<Edge2<T>>>>, y: &Rc<RefCell<Edge2<T>>>| lit::<T>(x.map_or(false, |x| Rc::ptr_eq(&x, y)));
    T::check("the twin is the one set", is(e.borrow().twin(), &t));
    T::check("the twin's twin is the edge", is(e.borrow().twin().unwrap().borrow().twin(), &e));
    T::check("next is the one set", is(e.borrow().next(), &n));
    T::check("prev is the one set", is(e.borrow().prev(), &p));
    T::check("next and prev are inverse", is(e.borrow().next().unwrap().borrow().prev(), &e).and(is(e.borrow().prev().unwrap().borrow().next(), &e)));
    T::check("source and target are the vertices given", lit(Rc::ptr_eq(&e.borrow().source(), &va) && Rc::ptr_eq(&e.borrow().target(), &vb)));
    let s = T::lib(|| e.borrow().to_segment());
    T::check("the edge runs between its vertices", same(s.source(), a).and(same(s.target(), b)));
    if !arc {
        T::check("edges are equal iff their ends are", same(a, b).and(same(b, a)).is(T::lib(|| *e.borrow() == *t.borrow())));
        T::check("edges with one end in common", same(a, b).and(same(b, c)).is(T::lib(|| *e.borrow() == *n.borrow())));
    } else {
        let q = mk(&va, &vb, false);
        T::check("edges of different kinds differ", lit(T::lib(|| *e.borrow() != *q.borrow())));
    }
    T::lib(|| {
        e.borrow_mut().set_source(vc.clone());
        e.borrow_mut().set_target(va.clone());
    });
    let s = T::lib(|| e.borrow().to_segment());
    T::check("source and target can be replaced", same(s.source(), c).and(same(s.target(), a)));
    T::check("replacing the ends keeps the links", is(e.borrow().twin(), &t).and(is(e.borrow().next(), &n)).and(is(e.borrow().prev(), &p)));
}
fn vertex_edges<T: Num>() {
    let (a, b, c) = (point::<T>("a"), point("b"), point("c"));
    let vx = |p: P<T>| Rc::new(RefCell::new(Vertex2::new(p.x(), p.y())));
    let (va, vb, vc) = (vx(a), vx(b), vx(c));
    let e: Vec<_> = [(&va, &vb), (&va, &vc), (&vb, &vc)].iter().map(|(s, t)| Rc::new(RefCell::new(Edge2::new_segment((*s).clone(), (*t).clone())))).collect();
    let mut v = Vertex2::new(a.x(), a.y());
    T::check("a vertex has no edges at first", lit(v.edges().is_empty()));
    for x in &e {
        T::lib(|| v.add_edge(x.clone()));
    }
    let l = v.edges();
    T::check("edges are listed as added", lit(l.len() == 3 && (0..3).all(|i| Rc::ptr_eq(&l[i], &e[i]))));
    let k = T::choose("removed", 3);
    T::lib(|| v.remove_edge(e[k].clone()));
    let l = v.edges();
    // edges between the same points are equal and go together
    let ends = |i: usize| [(a, b), (a, c), (b, c)][i];
    for i in 0..3 {
        let listed = l.iter().any(|x| Rc::ptr_eq(x, &e[i]));
        let equal = same(ends(i).0, ends(k).0).and(same(ends(i).1, ends(k).1));
        T::check("an edge is listed unless removed", equal.is(!listed));
    }
}

pub fn register(v: &mut Vec<Harness>) {
    harness!(v, "C15", "proj_line", 0, proj_line, "all real inputs, non-zero normal", "point_2_project_line_2, line_2_line_2_intersection");
    harness!(v, "C15", "proj_line2", 0, proj_line2, "all real inputs, distinct points", "point_2_project_line_2, Line2::from_points");
    harness!(v, "C15", "proj_seg", 0, proj_seg, "all real inputs, degenerate segments included", "point_2_project_line_segment_2");
    harness!(v, "C16", "hull0", 0, hull[0], "no points", "ConvexHull2::convex_hull");
    harness!(v, "C16", "hull1", 0, hull[1], "all real inputs", "ConvexHull2::convex_hull");
    harness!(v, "C16", "hull2", 0, hull[2], "all real inputs", "ConvexHull2::convex_hull");
    harness!(v, "C16", "hull3", 0, hull[3], "all real inputs", "ConvexHull2::convex_hull");
    harness!(v, "C16", "hull4", 0, hull[4], "all real inputs", "ConvexHull2::convex_hull");
    harness!(v, "C16", "hull5", 1, hull[5], "all real inputs", "ConvexHull2::convex_hull");
    harness!(v, "C16", "hull_slide7", 0, hull_slide[40, 0, 4], "4 listed sets of 40 points, one of which slides along a line", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_slide8", 1, hull_slide[100, 0, 4], "4 listed sets of 100 points, one of which slides along a line", "ConvexHull2::new/convex_hull");
    harness!(v, "C18", "convex_slide6", 0, convex_slide[24, 0, 8], "8 listed convex polygons of up to 24 vertices, one of which slides along a line as long as it is simple, either orientation", "Polygon2::is_convex");
    harness!(v, "C17", "poly_area20", 0, poly_area_list[20, 0, 20], "20 listed point sequences of length 20, one of which is anywhere", "Polygon2::new/area/vertices/edges");
    harness!(v, "C17", "poly_area60", 1, poly_area_list[60, 0, 20], "20 listed point sequences of length 60, one of which is anywhere", "Polygon2::new/area/vertices/edges");
    harness!(v, "C16", "hull_slide0", 0, hull_slide[6, 0, 60], "60 listed sets of 6 points, one of which slides along a line", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_slide1", 0, hull_slide[9, 0, 40], "40 listed sets of 9 points, one of which slides along a line", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_slide2", 0, hull_slide[14, 0, 20], "20 listed sets of 14 points, one of which slides along a line", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_slide3", 1, hull_slide[6, 60, 800], "740 listed sets of 6 points, one of which slides along a line", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_slide4", 1, hull_slide[9, 40, 600], "560 listed sets of 9 points, one of which slides along a line", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_slide5", 1, hull_slide[14, 20, 300], "280 listed sets of 14 points, one of which slides along a line", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_slide6", 1, hull_slide[25, 0, 60], "60 listed sets of 25 points, one of which slides along a line", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_random0", 0, hull_random[6, 0, 6], "6 listed sets of 6 points, one of which is anywhere", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_random1", 0, hull_random[9, 0, 4], "4 listed sets of 9 points, one of which is anywhere", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_random2", 1, hull_random[6, 6, 80], "74 listed sets of 6 points, one of which is anywhere", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_random3", 1, hull_random[9, 4, 60], "56 listed sets of 9 points, one of which is anywhere", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_random4", 1, hull_random[14, 0, 30], "30 listed sets of 14 points, one of which is anywhere", "ConvexHull2::new/convex_hull");
    harness!(v, "C16", "hull_list0", 0, hull_list[0], "8 listed points on a circle and one anywhere, at the start, in the middle or at the end", "ConvexHull2::new/convex_hull, Point2::turn, Point2::cmp");
    harness!(v, "C16", "hull_list1", 0, hull_list[1], "9 listed points in a grid and one anywhere, at the start, in the middle or at the end", "ConvexHull2::new/convex_hull, Point2::turn, Point2::cmp");
    harness!(v, "C16", "hull_list2", 0, hull_list[2], "7 listed points on a line and one anywhere, at the start, in the middle or at the end", "ConvexHull2::new/convex_hull, Point2::turn, Point2::cmp");
    harness!(v, "C16", "hull_list3", 0, hull_list[3], "6 listed points on a vertical line and one anywhere, at the start, in the middle or at the end", "ConvexHull2::new/convex_hull, Point2::turn, Point2::cmp");
    harness!(v, "C16", "hull_list4", 0, hull_list[4], "9 listed points some repeated and one anywhere, at the start, in the middle or at the end", "ConvexHull2::new/convex_hull, Point2::turn, Point2::cmp");
    harness!(v, "C16", "hull_list5", 0, hull_list[5], "11 listed points scattered and one anywhere, at the start, in the middle or at the end", "ConvexHull2::new/convex_hull, Point2::turn, Point2::cmp");
    harness!(v, "C16", "hull_two0", 1, hull_list2[0], "6 listed points and two anywhere", "ConvexHull2::new/convex_hull, Point2::turn, Point2::cmp");
    harness!(v, "C16", "hull_two1", 1, hull_list2[1], "6 listed points and two anywhere", "ConvexHull2::new/convex_hull, Point2::turn, Point2::cmp");
    harness!(v, "C16", "hull_two2", 1, hull_list2[2], "6 listed points and two anywhere", "ConvexHull2::new/convex_hull, Point2::turn, Point2::cmp");
    harness!(v, "C16", "hull_two4", 1, hull_list2[4], "6 listed points and two anywhere", "ConvexHull2::new/convex_hull, Point2::turn, Point2::cmp");
    harness!(v, "C18", "convex_slide0", 0, convex_slide[6, 0, 60], "60 listed convex polygons of up to 6 vertices, one of which slides along a line as long as it is simple, either orientation", "Polygon2::is_convex");
    harness!(v, "C18", "convex_slide1", 0, convex_slide[9, 0, 40], "40 listed convex polygons of up to 9 vertices, one of which slides along a line as long as it is simple, either orientation", "Polygon2::is_convex");
    harness!(v, "C18", "convex_slide2", 0, convex_slide[12, 0, 20], "20 listed convex polygons of up to 12 vertices, one of which slides along a line as long as it is simple, either orientation", "Polygon2::is_convex");
    harness!(v, "C18", "convex_slide3", 1, convex_slide[6, 60, 600], "540 listed convex polygons of up to 6 vertices, one of which slides along a line as long as it is simple, either orientation", "Polygon2::is_convex");
    harness!(v, "C18", "convex_slide4", 1, convex_slide[9, 40, 400], "360 listed convex polygons of up to 9 vertices, one of which slides along a line as long as it is simple, either orientation", "Polygon2::is_convex");
    harness!(v, "C18", "convex_slide5", 1, convex_slide[14, 0, 200], "200 listed convex polygons of up to 14 vertices, one of which slides along a line as long as it is simple, either orientation", "Polygon2::is_convex");
    harness!(v, "C18", "convex_list0", 0, convex_list[0], "a listed polygon with 5 vertices in both orientations, one vertex anywhere as long as it is simple", "Polygon2::is_convex");
    harness!(v, "C18", "convex_list2", 0, convex_list[2], "a listed polygon with 6 vertices in both orientations, one vertex anywhere as long as it is simple", "Polygon2::is_convex");
    harness!(v, "C18", "convex_list6", 0, convex_list[6], "a listed polygon with 8 vertices in both orientations, one vertex anywhere as long as it is simple", "Polygon2::is_convex");
    harness!(v, "C18", "convex_list7", 0, convex_list[7], "a listed polygon with 9 vertices in both orientations, one vertex anywhere as long as it is simple", "Polygon2::is_convex");
    harness!(v, "C18", "convex_list9", 0, convex_list[9], "a listed polygon with 10 vertices in both orientations, one vertex anywhere as long as it is simple", "Polygon2::is_convex");
    harness!(v, "C17", "tri_area", 0, tri_area, "all real inputs", "Triangle2::new/area/orientation/reverse_orientation/vertices/edges");
    harness!(v, "C17", "poly_area3", 0, poly_area[3], "all real inputs", "Polygon2::new/area/vertices/edges");
    harness!(v, "C17", "poly_area4", 0, poly_area[4], "all real inputs", "Polygon2::new/area/vertices/edges");
    harness!(v, "C17", "poly_area5", 0, poly_area[5], "all real inputs", "Polygon2::new/area/vertices/edges");
    harness!(v, "C17", "poly_area6", 0, poly_area[6], "all real inputs", "Polygon2::new/area/vertices/edges");
    harness!(v, "C17", "poly_area8", 1, poly_area[8], "all real inputs", "Polygon2::new/area/vertices/edges");
    harness!(v, "C18", "convex3", 0, convex[3], "all non-flat triangles", "Polygon2::is_convex, Point2::turn");
    harness!(v, "C18", "convex4", 0, convex[4], "all simple quadrilaterals", "Polygon2::is_convex, Point2::turn");
    harness!(v, "C18", "convex5", 0, convex[5], "all simple pentagons", "Polygon2::is_convex, Point2::turn");
    harness!(v, "C26", "order", 0, order, "all real inputs", "Point2::equals/eq/cmp/distance, Vertex2::equals/eq/cmp");
    harness!(v, "C26", "order3", 0, order3, "all real inputs", "Point2::cmp");
    harness!(v, "C26", "order_tol", 0, order_tol, "all real inputs; infinitesimal displacement", "Point2::equals, Vertex2::equals");
    harness!(v, "C28", "vector", 0, vector, "all real inputs", "Vector2 operations");
    harness!(v, "C28", "vector_tol", 0, vector_tol, "all vectors, infinitesimal displacement", "Vector2::eq, LineSegment2::eq");
    harness!(v, "C28", "angle", 0, angle, "all non-zero vectors", "Vector2::radian_to");
    harness!(v, "C28", "line_eq", 0, line_eq, "all lines", "Line2::eq");
    harness!(v, "C28", "line_points", 0, line_points, "all pairs of distinct points", "Line2::from_points");
    harness!(v, "C28", "ray", 0, ray, "all real inputs, non-zero direction", "Ray2::new");
    harness!(v, "C26", "order_tie", 0, order_tie, "all real inputs; infinitesimal displacement in x", "Point2::cmp, Vertex2::cmp, Point2::eq, Vertex2::eq");
    harness!(v, "C31", "vertex_tie", 0, order_tie, "all real inputs; infinitesimal displacement in x", "Point2::cmp, Vertex2::cmp, Point2::eq, Vertex2::eq");
    harness!(v, "C31", "vertex_order", 0, order, "all real inputs", "Point2::cmp, Vertex2::cmp, Point2::eq, Vertex2::eq");
    harness!(v, "C31", "half_edges", 0, half_edges, "all coordinates, all linking orders of three links", "Vertex2, Edge2");
    harness!(v, "C31", "vertex_edges", 0, vertex_edges, "all coordinates, three edges, one removed", "Vertex2::add_edge/remove_edge/edges, Edge2::eq");
}
