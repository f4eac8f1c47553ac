//! Geometric vocabulary of the oracles, written independently of the library
//! (orientation predicates and polynomial conditions only).
use crate::num::*;
use rcgal::kernel::point_2::Point2;
pub type P<T> = Point2<T>;

pub fn point<T: Num>(n: &str) -> P<T> {
    P::new(T::input(&format!("{}x", n), Group::X), T::input(&format!("{}y", n), Group::Y))
}
/// a free vector (not moved by translations)
pub fn vec2<T: Num>(n: &str) -> (T, T) {
    (T::input(&format!("{}x", n), Group::None), T::input(&format!("{}y", n), Group::None))
}
pub fn scalar<T: Num>(n: &str) -> T {
    T::input(n, Group::None)
}
/// a radius, or another scalar that scales with the coordinates
pub fn length<T: Num>(n: &str) -> T {
    T::input(n, Group::Len)
}
pub fn cross<T: Num>(u: (T, T), v: (T, T)) -> T {
    u.0 * v.1 - u.1 * v.0
}
pub fn dot<T: Num>(u: (T, T), v: (T, T)) -> T {
    u.0 * v.0 + u.1 * v.1
}
pub fn sub<T: Num>(a: P<T>, b: P<T>) -> (T, T) {
    (a.x() - b.x(), a.y() - b.y())
}
/// twice the signed area of abc
pub fn orient<T: Num>(a: P<T>, b: P<T>, c: P<T>) -> T {
    cross(sub(b, a), sub(c, a))
}
pub fn dist2<T: Num>(a: P<T>, b: P<T>) -> T {
    let d = sub(a, b);
    dot(d, d)
}
pub fn same<T: Num>(a: P<T>, b: P<T>) -> Form<T> {
    all(vec![eq(a.x(), b.x()), eq(a.y(), b.y())])
}
pub fn distinct<T: Num>(a: P<T>, b: P<T>) -> Form<T> {
    any(vec![ne0(a.x() - b.x()), ne0(a.y() - b.y())])
}
pub fn on_seg<T: Num>(p: P<T>, a: P<T>, b: P<T>) -> Form<T> {
    all(vec![eq0(orient(a, b, p)), le0(dot(sub(a, p), sub(b, p)))])
}
/// the same for distinct end points, of lower degree in p
pub fn on_seg_lin<T: Num>(p: P<T>, a: P<T>, b: P<T>) -> Form<T> {
    let d = sub(b, a);
    all(vec![eq0(cross(d, sub(p, a))), ge0(dot(d, sub(p, a))), le0(dot(d, sub(p, b)))])
}
/// strictly between the end points
pub fn inside_seg<T: Num>(p: P<T>, a: P<T>, b: P<T>) -> Form<T> {
    all(vec![eq0(orient(a, b, p)), lt0(dot(sub(a, p), sub(b, p)))])
}
fn opposite<T: Num>(u: T, v: T) -> Form<T> {
    any(vec![all(vec![lt0(u), gt0(v)]), all(vec![gt0(u), lt0(v)])])
}
pub fn cross_properly<T: Num>(a: P<T>, b: P<T>, c: P<T>, d: P<T>) -> Form<T> {
    all(vec![opposite(orient(a, b, c), orient(a, b, d)), opposite(orient(c, d, a), orient(c, d, b))])
}
/// do the closed segments ab and cd share a point? (degenerate segments are points)
pub fn segs_meet<T: Num>(a: P<T>, b: P<T>, c: P<T>, d: P<T>) -> Form<T> {
    any(vec![cross_properly(a, b, c, d), on_seg(c, a, b), on_seg(d, a, b), on_seg(a, c, d), on_seg(b, c, d)])
}
pub fn finite<T: Num>(p: P<T>) -> Form<T> {
    lit(p.x().is_finite() && p.y().is_finite())
}
/// the angle in [0, 2 pi) of a unit vector
pub fn radian<T: Num>(u: (T, T)) -> T {
    let a = u.1.atan2(u.0);
    if T::branch(lt0(u.1)) {
        a + T::pi() * T::k(2)
    } else {
        a
    }
}
/// direction d lies on the counter-clockwise sweep from u to w (u = w: full turn)
pub fn in_ccw<T: Num>(d: (T, T), u: (T, T), w: (T, T)) -> Form<T> {
    let c = cross(u, w);
    let (cu, cw) = (cross(u, d), cross(d, w));
    any(vec![
        all(vec![gt0(c), ge0(cu), ge0(cw)]),
        all(vec![lt0(c), all(vec![lt0(cw), lt0(cu)]).not()]),
        all(vec![eq0(c), gt0(dot(u, w))]),
        all(vec![eq0(c), lt0(dot(u, w)), ge0(cu)]),
    ])
}
pub fn on_circle<T: Num>(p: P<T>, c: P<T>, r: T) -> Form<T> {
    eq0(dist2(p, c) - r * r)
}
pub fn on_arc<T: Num>(p: P<T>, c: P<T>, r: T, u: (T, T), w: (T, T)) -> Form<T> {
    on_circle(p, c, r).and(in_ccw(sub(p, c), u, w))
}
/// closed polygon without repeated or touching edges
pub fn simple<T: Num>(v: &[P<T>]) -> Form<T> {
    let n = v.len();
    let mut f = vec![];
    for i in 0..n {
        let (a, b, c) = (v[i], v[(i + 1) % n], v[(i + 2) % n]);
        f.push(distinct(a, b));
        // consecutive edges share only their common vertex
        f.push(any(vec![ne0(orient(a, b, c)), lt0(dot(sub(a, b), sub(c, b)))]));
        for j in i + 2..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            f.push(segs_meet(a, b, v[j], v[(j + 1) % n]).not());
        }
    }
    if n == 3 {
        f.push(ne0(orient(v[0], v[1], v[2])));
    }
    all(f)
}
/// strictly convex, counter-clockwise
pub fn convex_ccw<T: Num>(v: &[P<T>]) -> Form<T> {
    let n = v.len();
    let mut f = vec![];
    for i in 0..n {
        for j in 0..n {
            if j != i && j != (i + 1) % n {
                f.push(gt0(orient(v[i], v[(i + 1) % n], v[j])));
            }
        }
    }
    all(f)
}
/// crossing parity of a simple polygon for a point off its boundary (forks)
pub fn inside_simple<T: Num>(p: P<T>, v: &[P<T>]) -> bool {
    let n = v.len();
    let below: Vec<bool> = v.iter().map(|q| T::branch(le(q.y(), p.y()))).collect();
    let mut r = false;
    for i in 0..n {
        let j = (i + 1) % n;
        if below[i] != below[j] {
            // the crossing with the horizontal through p is right of p
            let o = orient(v[i], v[j], p);
            if T::branch(if below[i] { gt0(o) } else { lt0(o) }) {
                r = !r;
            }
        }
    }
    r
}
/// fork on the sign of a value
pub fn sign_of<T: Num>(x: T) -> i32 {
    if T::branch(gt0(x)) {
        1
    } else if T::branch(lt0(x)) {
        -1
    } else {
        0
    }
}
/// assume that v is a simple polygon, forking on the orientations that matter
pub fn assume_simple<T: Num>(v: &[P<T>]) {
    let n = v.len();
    for i in 0..n {
        let (a, b, c) = (v[i], v[(i + 1) % n], v[(i + 2) % n]);
        T::assume(distinct(a, b));
        if sign_of(orient(a, b, c)) == 0 {
            T::assume(lt0(dot(sub(a, b), sub(c, b))));
        }
    }
    if n == 3 {
        T::assume(ne0(orient(v[0], v[1], v[2])));
    }
    for i in 0..n {
        for j in i + 2..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            let (a, b, c, d) = (v[i], v[(i + 1) % n], v[j], v[(j + 1) % n]);
            for o in [orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)] {
                sign_of(o);
            }
            T::assume(segs_meet(a, b, c, d).not());
        }
    }
}

/// listed simple polygons: convex, notched, stepped, starred, spiral, with straight angles
pub const POLYGONS: [&[[i64; 2]]; 10] = [
    &[[0, 0], [4, 0], [4, 4], [0, 4], [-2, 2]],
    &[[0, 0], [6, 0], [6, 6], [3, 2], [0, 6]],
    &[[0, 0], [6, 0], [6, 6], [4, 6], [4, 2], [0, 2]],
    &[[0, 0], [2, 1], [6, 0], [5, 2], [6, 6], [2, 5]],
    &[[0, 0], [8, 0], [8, 6], [6, 6], [6, 2], [2, 2], [2, 6], [0, 6]],
    &[[4, 0], [5, 3], [8, 4], [5, 5], [4, 8], [3, 5], [0, 4], [3, 3]],
    &[[5, 0], [4, 3], [3, 4], [0, 5], [-4, 3], [-5, 0], [-3, -4], [4, -3]],
    &[[0, 0], [2, 0], [4, 0], [6, 2], [6, 4], [4, 6], [2, 6], [0, 4], [0, 2]],
    &[[0, 0], [10, 0], [10, 8], [2, 8], [2, 3], [6, 3], [6, 5], [4, 5], [4, 6], [8, 6], [8, 2], [0, 2]],
    &[[0, 0], [4, 0], [4, 2], [5, 2], [5, 0], [9, 0], [9, 4], [5, 4], [4, 4], [0, 4]],
];
pub fn listed_polygon<T: Num>(k: usize) -> Vec<P<T>> {
    POLYGONS[k].iter().map(|p| P::new(T::k(p[0]), T::k(p[1]))).collect()
}
/// a listed polygon, in one or both orientations, one vertex of which is anywhere
pub fn one_free<T: Num>(k: usize, turns: usize) -> Vec<P<T>> {
    let mut v = listed_polygon::<T>(k);
    let n = v.len();
    v[T::choose("vertex", n)] = point("v");
    if T::choose("reversed", turns) == 1 {
        v.reverse();
    }
    v
}
