use super::geo::*;
use crate::explore::Harness;
use crate::num::*;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use super::intersection::{seg_circle_count, Arc};
use rcgal::algorithm::intersection::segment_2_segment_2::segment_2_segment_2_intersection;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::polygon_2::Polygon2;

// ---- C19 -------------------------------------------------------------------
fn polygon<T: Num>(n: usize) -> Vec<P<T>> {
    (0..n).map(|i| point(&format!("v{}", i))).collect()
}
fn is_simple<T: Num, const N: usize>() {
    let v = polygon::<T>(N);
    for i in 0..N {
        T::assume(distinct(v[i], v[(i + 1) % N]));
    }
    let r = T::lib(|| Polygon2::new(v.clone()).is_simple());
    T::check("simple iff no two edges share more than their common vertex", simple(&v).is(r));
}

// ---- C20 -------------------------------------------------------------------
/// n-2 triples that all have the polygon's orientation and whose boundaries add up to the
/// polygon's boundary: every point then lies in as many triangles as the polygon winds around it
fn triangulated<T: Num>(v: &[P<T>]) {
    let n = v.len();
    let mut t = T::lib(|| earcut_2(Polygon2::new(v.to_vec())));
    // the order of the three indices does not matter
    t.iter_mut().for_each(|x| x.sort());
    T::check("there are n-2 triangles", lit(t.len() == n - 2));
    T::check("triples name three different vertices", lit(t.iter().all(|x| x.len() == 3 && x[0] < x[1] && x[1] < x[2] && x[2] < n)));
    let mut m = vec![vec![0i32; n]; n];
    for x in &t {
        for (i, j) in [(x[0], x[1]), (x[1], x[2]), (x[2], x[0])] {
            m[i][j] += 1;
            m[j][i] -= 1;
        }
    }
    for i in 0..n {
        for j in 0..n {
            let want = if j == (i + 1) % n { 1 } else if i == (j + 1) % n { -1 } else { 0 };
            T::check("the triangles' sides are the polygon's edges and shared diagonals", lit(m[i][j] == want));
        }
    }
    let area = (1..n - 1).fold(T::k(0), |s, i| s + orient(v[0], v[i], v[i + 1]));
    let g = sign_of(area);
    for x in &t {
        T::check("triangles have the polygon's orientation", ge0(T::k(g as i64) * orient(v[x[0]], v[x[1]], v[x[2]])));
    }
}
fn earcut<T: Num, const N: usize>() {
    let v = polygon::<T>(N);
    assume_simple(&v);
    triangulated(&v);
}

fn is_simple_list<T: Num, const K: usize>() {
    let v = one_free::<T>(K, 1);
    let n = v.len();
    for i in 0..n {
        T::assume(distinct(v[i], v[(i + 1) % n]));
    }
    let r = T::lib(|| Polygon2::new(v.clone()).is_simple());
    T::check("simple iff no two edges share more than their common vertex", simple(&v).is(r));
}
fn earcut_list<T: Num, const K: usize>() {
    let v = one_free::<T>(K, 2);
    assume_simple(&v);
    triangulated(&v);
}

/// listed simple polygons with N vertices, one of which slides along a line
fn earcut_slide<T: Num, const N: usize, const FROM: usize, const TO: usize>() {
    let v = super::rnd::slid::<T>(N, (FROM + T::choose("polygon", TO - FROM)) as u64);
    assume_simple(&v);
    triangulated(&v);
}
fn is_simple_slide<T: Num, const N: usize, const FROM: usize, const TO: usize>() {
    let v = super::rnd::slid::<T>(N, (FROM + T::choose("polygon", TO - FROM)) as u64);
    for i in 0..N {
        T::assume(distinct(v[i], v[(i + 1) % N]));
    }
    let r = T::lib(|| Polygon2::new(v.clone()).is_simple());
    T::check("simple iff no two edges share more than their common vertex", simple(&v).is(r));
}

// ---- C21 -------------------------------------------------------------------
type S<T> = (P<T>, P<T>);
fn run<T: Num>(s: &[S<T>]) -> Vec<P<T>> {
    let mut w = SweepSegment2Intersection::new();
    for (a, b) in s {
        w.push_segment(&LineSegment2::new(*a, *b));
    }
    w.intersection()
}
fn sweep_order<T: Num>(p: P<T>, q: P<T>) -> Form<T> {
    any(vec![gt0(p.x() - q.x()), all(vec![eq(p.x(), q.x()), gt0(p.y() - q.y())])])
}
fn sweep_lines<T: Num>(s: &[S<T>]) {
    let n = s.len();
    let r = T::lib(|| run(s));
    T::check("reported points have finite coordinates", lit(r.iter().all(|p| p.x().is_finite() && p.y().is_finite())));
    for k in 1..r.len() {
        T::check("points are reported once and in sweep order", sweep_order(r[k - 1], r[k]));
    }
    let on = |p: P<T>, i: usize| on_seg(p, s[i].0, s[i].1);
    for p in &r {
        let mut f = vec![];
        for i in 0..n {
            for j in 0..i {
                let ends = [s[i].0, s[i].1, s[j].0, s[j].1];
                f.push(all(vec![
                    on(*p, i),
                    on(*p, j),
                    any(vec![
                        ne0(cross(sub(s[i].1, s[i].0), sub(s[j].1, s[j].0))),
                        any(ends.iter().map(|e| same(*p, *e)).collect()),
                    ]),
                ]));
            }
        }
        T::check("a reported point is where two segments meet, or the end of an overlap", any(f));
    }
    for i in 0..n {
        for j in 0..n {
            if i == j {
                continue;
            }
            for e in [s[i].0, s[i].1] {
                T::check("an end point on another segment is reported", on(e, j).implies(any(r.iter().map(|p| same(*p, e)).collect())));
            }
            if j < i {
                let both = any(r.iter().map(|p| on(*p, i).and(on(*p, j))).collect());
                T::check("a crossing is reported", cross_properly(s[i].0, s[i].1, s[j].0, s[j].1).implies(both));
            }
        }
    }
}
fn same_list<T: Num>(a: &[P<T>], b: &[P<T>]) -> Form<T> {
    if a.len() != b.len() {
        return lit(false);
    }
    all((0..a.len()).map(|i| same(a[i], b[i])).collect())
}
fn seg<T: Num>(n: &str) -> S<T> {
    (point(&format!("{}s", n)), point(&format!("{}t", n)))
}
fn fixed<T: Num>(v: &[[i64; 4]]) -> Vec<S<T>> {
    v.iter().map(|s| (P::new(T::k(s[0]), T::k(s[1])), P::new(T::k(s[2]), T::k(s[3])))).collect()
}
fn sweep2<T: Num>() {
    sweep_lines(&[seg::<T>("a"), seg("b")]);
}
fn sweep2_order<T: Num>() {
    let (a, b) = (seg::<T>("a"), seg("b"));
    let (x, y, z, u) = T::lib(|| {
        let mut w = SweepSegment2Intersection::new();
        w.push_segment(&LineSegment2::new(a.0, a.1));
        w.push_segment(&LineSegment2::new(b.0, b.1));
        let x = w.intersection();
        let y = w.intersection();
        (x, y, run(&[b, a]), run(&[(a.1, a.0), b]))
    });
    T::check("asking again gives the same points", same_list(&x, &y));
    T::check("the order of adding does not matter", same_list(&x, &z));
    T::check("the direction of a segment does not matter", same_list(&x, &u));
}
const TRIPLES: [&[[i64; 4]]; 8] = [
    &[[0, 0, 4, 4], [0, 4, 4, 0]],
    &[[0, 0, 4, 0], [1, 0, 3, 0]],
    &[[0, 0, 4, 0], [0, 0, 0, 4]],
    &[[2, 0, 2, 4], [2, 1, 2, 6]],
    &[[0, 0, 4, 1], [0, 2, 4, 3]],
    &[[1, 0, 1, 2], [1, 0, 1, 2]],
    &[[0, 0, 3, 0], [2, 1, 2, 1]],
    &[[0, 0, 4, 2], [2, 1, 4, 0]],
];
fn sweep3<T: Num, const K: usize>() {
    let mut s = fixed::<T>(TRIPLES[K]);
    s.push(seg("a"));
    sweep_lines(&s);
}
fn sweep3_sym<T: Num>() {
    sweep_lines(&[seg::<T>("a"), seg("b"), seg("c")]);
}

const LISTS: [&[[i64; 4]]; 5] = [
    &[[0, 0, 4, 4], [0, 4, 4, 0], [0, 2, 4, 2], [2, 0, 2, 4]],
    &[[0, 0, 4, 0], [0, 1, 4, 1], [0, 2, 4, 0], [1, 0, 3, 0], [0, 3, 4, 3]],
    &[[0, 0, 3, 3], [0, 0, 3, 1], [0, 0, 3, -1], [3, 3, 3, -1], [1, 1, 3, 3]],
    &[[1, 0, 1, 3], [1, 1, 1, 4], [3, 1, 3, 1], [0, 0, 4, 1], [0, 4, 4, 2]],
    &[[0, 0, 4, 2], [0, 2, 4, 0], [1, 0, 5, 2], [1, 2, 5, 0], [0, 1, 5, 1]],
];
/// a listed arrangement of segments and one that slides and tilts
fn sweep_list<T: Num, const K: usize>() {
    let mut s = fixed::<T>(LISTS[K]);
    let (d, e) = (scalar::<T>("d"), scalar::<T>("e"));
    let t = (P::new(d, T::k(-1)), P::new(e, T::k(5)));
    s.insert(T::choose("position", 2) * s.len(), t);
    sweep_lines(&s);
}

/// n pseudo-random lattice segments with coordinates in 0..=m (the k-th such arrangement)
fn lattice(k: usize, n: usize, m: u64, axes: bool) -> Vec<[i64; 4]> {
    let mut x = (k as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 20) % (m + 1)
    };
    (0..n)
        .map(|_| {
            let mut v = [0; 4].map(|_| next() as i64);
            if axes {
                // every other segment vertical, horizontal, or from a common point
                match next() * 2 % 7 {
                    0 | 1 => v[2] = v[0],
                    2 => v[3] = v[1],
                    3 => (v[0], v[1]) = (m as i64 / 2, m as i64 / 2),
                    _ => {}
                }
            }
            v
        })
        .collect()
}
/// A listed arrangement of segments (crossing, touching, overlapping, vertical, without length),
/// one of which slides along a line or has an end that does
fn sweep_slide<T: Num, const N: usize, const M: u64, const FROM: usize, const TO: usize, const AXES: bool>() {
    let k = FROM + T::choose("arrangement", TO - FROM);
    let mut s = fixed::<T>(&lattice(k, N, M, AXES));
    let t = T::input("t", Group::None);
    let (dx, dy) = [(1, 0), (0, 1), (2, 1), (-1, 2)][k / 2 % 4];
    let mv = |p: P<T>| P::new(p.x() + t * T::k(dx), p.y() + t * T::k(dy));
    if k % 2 == 0 {
        s[0].0 = mv(s[0].0);
    } else {
        s[0] = (mv(s[0].0), mv(s[0].1));
    }
    if k % 3 == 0 {
        let x = s.remove(0);
        s.push(x);
    }
    sweep_lines(&s);
}

/// one object asked again and again while the segments of such an arrangement are added; the
/// same segments in another order and direction
fn sweep_again<T: Num, const N: usize, const M: u64, const FROM: usize, const TO: usize, const AXES: bool>() {
    let k = FROM + T::choose("arrangement", TO - FROM);
    let mut s = fixed::<T>(&lattice(k, N, M, AXES));
    let t = T::input("t", Group::None);
    let (dx, dy) = [(1, 0), (0, 1), (2, 1), (-1, 2)][k / 2 % 4];
    s[0].0 = P::new(s[0].0.x() + t * T::k(dx), s[0].0.y() + t * T::k(dy));
    if k % 3 == 0 {
        let x = s.remove(0);
        s.push(x);
    }
    let mut w = SweepSegment2Intersection::new();
    for (i, (a, b)) in s.iter().enumerate() {
        let (x, y) = T::lib(|| {
            w.push_segment(&LineSegment2::new(*a, *b));
            let x = if i % 2 == k % 2 || i == N - 1 { Some(w.intersection()) } else { None };
            (x, if i == N - 1 { Some(w.intersection()) } else { None })
        });
        if let Some(x) = x {
            T::check("adding segments after a query is as adding them before", same_list(&x, &T::lib(|| run(&s[..=i]))));
            if let Some(y) = y {
                T::check("asking again gives the same points", same_list(&x, &y));
                let mut z = s.clone();
                z.reverse();
                T::check("the order of adding does not matter", same_list(&x, &T::lib(|| run(&z))));
                z.rotate_left(N / 2);
                for (j, e) in z.iter_mut().enumerate() {
                    if j % 2 == 0 {
                        *e = (e.1, e.0);
                    }
                }
                T::check("the direction of a segment does not matter", same_list(&x, &T::lib(|| run(&z))));
            }
        }
    }
}

// ---- C22 -------------------------------------------------------------------
enum G<T: Num> {
    L(P<T>, P<T>),
    C(P<T>, T),
    A(Arc<T>),
}
impl<T: Num> G<T> {
    fn push(&self, w: &mut SweepSegment2Intersection<T>) {
        match self {
            G::L(a, b) => w.push_segment(&LineSegment2::new(*a, *b)),
            G::C(c, r) => w.push_segment(&CircleSegment2::new(*c, *r)),
            G::A(a) => w.push_segment(&a.arc),
        }
    }
    fn on(&self, p: P<T>) -> Form<T> {
        match self {
            G::L(a, b) => on_seg_lin(p, *a, *b),
            G::C(c, r) => on_circle(p, *c, *r),
            G::A(a) => a.has(p),
        }
    }
    fn circle(&self) -> Option<(P<T>, T)> {
        match self {
            G::L(..) => None,
            G::C(c, r) => Some((*c, *r)),
            G::A(a) => Some((a.c, a.r)),
        }
    }
}
fn circle_count<T: Num>(a: P<T>, q: T, b: P<T>, r: T) -> usize {
    let d = dist2(a, b);
    match sign_of(d - (r + q) * (r + q)) {
        1 => 0,
        0 => 1,
        _ => match sign_of(d - (r - q) * (r - q)) {
            1 => 2,
            0 => 1,
            _ => 0,
        },
    }
}
/// the points common to the supporting segment / circles of x and y: as computed by the library,
/// and checked to be right
fn common<T: Num>(x: &G<T>, y: &G<T>) -> Vec<P<T>> {
    let (v, n) = match (x, y) {
        (G::L(a, b), G::L(c, d)) => {
            let v = T::lib(|| segment_2_segment_2_intersection(&LineSegment2::new(*a, *b), &LineSegment2::new(*c, *d)));
            let n = v.len();
            T::check("line segments: a point iff they meet", segs_meet(*a, *b, *c, *d).is(n > 0));
            for e in [a, b] {
                T::check("line segments: ends", on_seg_lin(*e, *c, *d).implies(any(v.iter().map(|p| same(*p, *e)).collect())));
            }
            for e in [c, d] {
                T::check("line segments: ends", on_seg_lin(*e, *a, *b).implies(any(v.iter().map(|p| same(*p, *e)).collect())));
            }
            (v, n)
        }
        (G::L(a, b), o) | (o, G::L(a, b)) => {
            let (c, r) = o.circle().unwrap();
            (T::lib(|| segment_2_segment_2_intersection(&LineSegment2::new(*a, *b), &CircleSegment2::new(c, r))), seg_circle_count(*a, *b, c, r))
        }
        _ => {
            let ((a, q), (b, r)) = (x.circle().unwrap(), y.circle().unwrap());
            (T::lib(|| segment_2_segment_2_intersection(&CircleSegment2::new(a, q), &CircleSegment2::new(b, r))), circle_count(a, q, b, r))
        }
    };
    T::check("the common points of two segments are known", lit(v.len() == n));
    for i in 0..v.len() {
        T::check("a common point is on both", support(x, v[i]).and(support(y, v[i])));
        for j in 0..i {
            T::check("common points are distinct", distinct(v[i], v[j]));
        }
    }
    v
}
fn support<T: Num>(x: &G<T>, p: P<T>) -> Form<T> {
    match x {
        G::A(a) => on_circle(p, a.c, a.r),
        x => x.on(p),
    }
}
fn sweep_curves<T: Num>(s: &[G<T>]) {
    let r = T::lib(|| {
        let mut w = SweepSegment2Intersection::new();
        for x in s {
            x.push(&mut w);
        }
        w.intersection()
    });
    T::check("reported points have finite coordinates", lit(r.iter().all(|p| p.x().is_finite() && p.y().is_finite())));
    for k in 1..r.len() {
        T::check("points are reported once and in sweep order", sweep_order(r[k - 1], r[k]));
    }
    let mut want = vec![];
    for i in 0..s.len() {
        for j in 0..i {
            for p in common(&s[i], &s[j]) {
                let both = all([&s[i], &s[j]].iter().map(|x| if let G::A(a) = x { a.has(p) } else { Form::True }).collect());
                T::check("a meeting point is reported", both.clone().implies(any(r.iter().map(|q| same(p, *q)).collect())));
                want.push((p, both));
            }
        }
    }
    for q in &r {
        T::check("a reported point is a meeting point", any(want.iter().map(|(p, f)| f.clone().and(same(*p, *q))).collect()));
    }
}
fn circ<T: Num>(x: i64, y: i64, r: i64) -> G<T> {
    G::C(P::new(T::k(x), T::k(y)), T::k(r))
}
fn lin<T: Num>(a: i64, b: i64, c: i64, d: i64) -> G<T> {
    G::L(P::new(T::k(a), T::k(b)), P::new(T::k(c), T::k(d)))
}
fn sym_seg<T: Num>() -> G<T> {
    let (a, b) = (point("a"), point("b"));
    T::assume(distinct(a, b));
    G::L(a, b)
}
fn sym_circle<T: Num>() -> G<T> {
    let r = length::<T>("r");
    T::assume(gt0(r));
    G::C(point("c"), r)
}
/// a segment in one of five directions, anywhere
fn dir_seg<T: Num>(n: usize) -> G<T> {
    const D: [(i64, i64); 5] = [(5, 0), (0, -5), (-4, 3), (3, 4), (-3, -4)];
    let (h, t, l) = (length::<T>("h"), length::<T>("t"), length::<T>("l"));
    T::assume(gt0(l));
    let (x, y) = D[T::choose("direction", n)];
    let (x, y) = (T::q(x, 5), T::q(y, 5));
    let a = P::new(t * x - h * y, h * x + t * y);
    G::L(a, P::new(a.x() + l * x, a.y() + l * y))
}
/// a circle with its centre in one of four directions from the origin
fn dir_circle<T: Num>(n: usize) -> G<T> {
    const D: [(i64, i64); 4] = [(5, 0), (0, -5), (-4, 3), (3, 4)];
    let (x, y) = D[T::choose("direction", n)];
    let (d, r) = (length::<T>("d"), length::<T>("r"));
    T::assume(ge0(d).and(gt0(r)));
    G::C(P::new(d * T::q(x, 5), d * T::q(y, 5)), r)
}
fn different<T: Num>(s: &[G<T>]) {
    for i in 0..s.len() {
        for j in 0..i {
            if let (Some((a, q)), Some((b, r))) = (s[i].circle(), s[j].circle()) {
                T::assume(distinct(a, b).or(ne0(q - r)));
            }
        }
    }
}
fn curve_lc<T: Num>() {
    sweep_curves(&[circ(0, 0, 5), dir_seg::<T>(5)]);
}
fn curve_cl<T: Num>() {
    sweep_curves(&[lin(-3, 0, 3, 0), sym_circle::<T>()]);
}
fn curve_cl2<T: Num>() {
    sweep_curves(&[lin(-3, 0, 3, 0), lin(-2, -1, 2, 1), sym_circle::<T>()]);
}
fn curve_cl3<T: Num>() {
    sweep_curves(&[lin(0, -2, 0, 2), lin(-2, 0, 2, 0), sym_circle::<T>()]);
}
fn curve_cc<T: Num>() {
    let s = [circ(0, 0, 5), dir_circle::<T>(4)];
    different(&s);
    sweep_curves(&s);
}
fn curve_ccl<T: Num>() {
    let s = [circ(0, 0, 5), lin(-6, 0, 6, 0), dir_circle::<T>(4)];
    different(&s);
    sweep_curves(&s);
}
fn curve_lcc<T: Num>() {
    sweep_curves(&[circ(0, 0, 5), circ(3, 0, 2), dir_seg::<T>(5)]);
}
/// one of n listed arcs around the point
fn arc_at<T: Num>(n: usize, c: P<T>, r: T) -> G<T> {
    G::A(super::intersection::listed_of(n, "arc", c, r))
}
/// a point that moves along one of n lines through the origin
fn moving<T: Num>(n: usize) -> P<T> {
    const D: [(i64, i64); 4] = [(5, 0), (0, 5), (-4, 3), (3, 4)];
    let (x, y) = D[T::choose("direction", n)];
    let d = length::<T>("d");
    P::new(d * T::q(x, 5), d * T::q(y, 5))
}
fn curve_la<T: Num>() {
    sweep_curves(&[arc_at(9, P::new(T::k(0), T::k(0)), T::k(5)), dir_seg::<T>(2)]);
}
fn curve_ca<T: Num>() {
    let s = [arc_at(9, P::new(T::k(0), T::k(0)), T::k(5)), G::C(moving::<T>(4), T::k(3))];
    sweep_curves(&s);
}
fn curve_aa<T: Num>() {
    let s = [arc_at(9, P::new(T::k(0), T::k(0)), T::k(5)), arc_at(9, moving::<T>(4), T::k(3))];
    sweep_curves(&s);
}
fn curve_aa_q<T: Num>() {
    let s = [arc_at(9, P::new(T::k(0), T::k(0)), T::k(5)), G::A(super::intersection::listed_of(2, "arc2", moving::<T>(2), T::k(3)))];
    sweep_curves(&s);
}
fn curve_mix<T: Num, const N: usize>() {
    let m = moving::<T>(N);
    let s = match T::choose("mix", 4) {
        0 => vec![circ(0, 0, 5), lin(-6, 0, 6, 0), G::C(m, T::k(3))],
        1 => vec![circ(0, 0, 5), circ(3, 0, 2), G::C(m, T::k(3))],
        2 => vec![circ(0, 0, 5), lin(-5, -5, 5, 5), lin(3, -6, 3, 6), G::C(m, T::k(3))],
        _ => vec![arc_at(9, P::new(T::k(0), T::k(0)), T::k(5)), lin(-4, 0, 6, 0), lin(0, -6, 0, 6), G::C(m, T::k(2))],
    };
    sweep_curves(&s);
}

/// the arc between two multiples of pi/2
fn quarter<T: Num>(x: i64, y: i64, r: i64, i: i64, j: i64) -> G<T> {
    arc_between(P::new(T::k(x), T::k(y)), T::k(r), i, j)
}
fn arc_between<T: Num>(c: P<T>, r: T, i: i64, j: i64) -> G<T> {
    const D: [(i64, i64); 4] = [(1, 0), (0, 1), (-1, 0), (0, -1)];
    let dir = |i: i64| (T::k(D[i as usize % 4].0), T::k(D[i as usize % 4].1));
    let ang = |i: i64| T::pi() * T::q(i, 2);
    G::A(Arc { c, r, u: dir(i), w: dir(j), arc: ArcSegment2::new(CircleSegment2::new(c, r), ang(i), ang(j)) })
}
/// A listed arrangement of N circles, arcs and segments on a lattice, one of which slides
fn curve_slide<T: Num, const N: usize, const FROM: usize, const TO: usize>() {
    sweep_curves(&slid_curves::<T>(FROM + T::choose("arrangement", TO - FROM), N));
}
fn slid_curves<T: Num>(k: usize, n: usize) -> Vec<G<T>> {
    let t = length::<T>("t");
    let (dx, dy) = [(T::k(1), T::k(0)), (T::k(0), T::k(1)), (T::q(3, 5), T::q(4, 5))][k % 3];
    let raw = lattice(k + 7, 2 * n, 4, false);
    let mut s: Vec<G<T>> = vec![];
    for i in 0..n {
        let (a, b) = (raw[2 * i], raw[2 * i + 1]);
        let z = if i == 0 { t } else { T::k(0) };
        let p = P::new(T::k(a[0]) + z * dx, T::k(a[1]) + z * dy);
        // the sliding one is a circle, an arc or a segment in turn
        let kind = if i == 0 { k as i64 } else { a[2] };
        let r = T::k(1 + a[3] % 3);
        s.push(match kind % 3 {
            0 => G::C(p, r),
            1 => arc_between(p, r, b[0] % 4, b[1] % 4 + b[0] % 4 + 1),
            _ => G::L(p, P::new(p.x() + T::k(b[0] - 2), p.y() + T::k(2 * b[1] - 3))),
        });
    }
    different(&s);
    if k % 2 == 1 {
        let x = s.remove(0);
        s.push(x);
    }
    s
}
/// circles, arcs and a segment that touch each other in one point, of different extent, and
/// a segment that slides across them
fn curve_tangent<T: Num, const N: usize, const FROM: usize, const TO: usize>() {
    let k = FROM + T::choose("arrangement", TO - FROM);
    let t = length::<T>("t");
    // direction of the common tangent
    let (dx, dy) = [(1, 0), (4, 3), (0, 1), (3, -4)][k % 4];
    let n = if k % 2 == 0 { 1 } else { 5 };
    let raw = lattice(k + 11, 2 * N + 2, 6, false);
    let mut radii = vec![3, -2, 1, 2, -3, -1, 4, -4];
    let mut s: Vec<G<T>> = vec![];
    for i in 0..N {
        let (a, b) = (raw[2 * i], raw[2 * i + 1]);
        if i == 0 && k % 3 == 0 {
            let (x, y) = (1 + a[0] % 3, 1 + a[1] % 6);
            s.push(G::L(P::new(T::q(-dx * x, n), T::q(-dy * x, n)), P::new(T::q(dx * y, n), T::q(dy * y, n))));
            continue;
        }
        let m = radii.remove(a[0] as usize % radii.len());
        let c = P::new(T::q(-dy * m, n), T::q(dx * m, n));
        let r = T::k(m.abs());
        s.push(if b[0] % 3 == 0 { G::C(c, r) } else { arc_between(c, r, b[1] % 4, b[1] % 4 + 1 + b[2] % 3) });
    }
    let (a, b) = (raw[2 * N], raw[2 * N + 1]);
    let p = P::new(T::k(a[0] - 2) + t * T::k(b[2] % 2), T::k(a[1] - 3) + t * T::k(1 - b[2] % 2));
    s.push(G::L(p, P::new(p.x() + T::k(b[0] - 2), p.y() + T::k(2 * b[1] - 5))));
    different(&s);
    if k % 5 < 2 {
        s.reverse();
    }
    sweep_curves(&s);
}
/// curves of different extent that leave one point in the same direction, in several orders,
/// and a long segment that slides across them
fn curve_fan<T: Num, const N: usize, const FROM: usize, const TO: usize>() {
    let k = FROM + T::choose("arrangement", TO - FROM);
    let t = length::<T>("t");
    let raw = lattice(k + 5, N + 1, 5, false);
    let mut radii = vec![3, -1, 1, -2, 2, -3, 4, -4];
    let mut s: Vec<G<T>> = vec![];
    for (i, a) in raw[..N].iter().enumerate() {
        if i == 1 && k % 4 == 0 {
            s.push(G::L(P::new(T::k(-a[0] % 2), T::k(0)), P::new(T::k(1 + a[1]), T::k(0))));
            continue;
        }
        let m = radii.remove(a[0] as usize % radii.len());
        let (c, r) = (P::new(T::k(0), T::k(m)), T::k(m.abs()));
        // from the lowest or to the highest point of its circle, a quarter or more
        s.push(match (m > 0, a[1] % 3) {
            (true, 0) => arc_between(c, r, 2, 4),
            (true, 1) => arc_between(c, r, 3, 5),
            (true, _) => arc_between(c, r, 3, 4),
            (false, 0) => arc_between(c, r, 0, 2),
            (false, 1) => arc_between(c, r, 3, 5),
            (false, _) => arc_between(c, r, 0, 1),
        });
    }
    // long enough to be active when the others start
    let b = raw[N];
    let y = t * T::q(1, 2);
    s.push(G::L(P::new(T::k(-1 - b[0] % 2), y), P::new(T::k(4), y + T::q(2 * b[1] - 5, 2))));
    different(&s);
    if k % 3 == 1 {
        s.reverse();
    }
    if k % 2 == 1 {
        s.swap(0, 1);
    }
    sweep_curves(&s);
}
/// the same, one object asked after every segment, circle or arc that is added
fn curve_again<T: Num, const N: usize, const FROM: usize, const TO: usize>() {
    let s = slid_curves::<T>(FROM + T::choose("arrangement", TO - FROM), N);
    let mut w = SweepSegment2Intersection::new();
    let mut r = vec![];
    T::lib(|| {
        for x in &s {
            x.push(&mut w);
            r = w.intersection();
        }
    });
    T::check("asking again gives the same points", same_list(&r, &T::lib(|| w.intersection())));
    let fresh = T::lib(|| {
        let mut w = SweepSegment2Intersection::new();
        s.iter().for_each(|x| x.push(&mut w));
        w.intersection()
    });
    T::check("adding segments after a query is as adding them before", same_list(&r, &fresh));
}
/// arrangements on which rounding once made the sweep lose points (replayed on the f64 code)
fn curve_rec<T: Num>() {
    let s: Vec<G<T>> = match T::choose("arrangement", 2) {
        0 => vec![quarter(1, 3, 1, 0, 3), circ(2, 3, 2), quarter(0, 3, 1, 2, 5)],
        _ => vec![quarter(0, 1, 2, 0, 1), lin(4, 1, 0, 0), circ(3, 1, 3), circ(2, 1, 2)],
    };
    let r = T::lib(|| {
        let mut w = SweepSegment2Intersection::new();
        for x in &s {
            x.push(&mut w);
        }
        w.intersection()
    });
    for i in 0..s.len() {
        for j in 0..i {
            for p in common(&s[i], &s[j]) {
                if [&s[i], &s[j]].iter().all(|x| if let G::A(a) = x { T::holds(a.has(p)) } else { true }) {
                    T::check("a meeting point is reported", lit(r.iter().any(|q| T::holds(same(p, *q)))));
                }
            }
        }
    }
}

pub fn register(v: &mut Vec<Harness>) {
    harness!(v, "C22", "curve_rec", 3, curve_rec, "2 recorded arrangements", "SweepSegment2Intersection");
    harness!(v, "C19", "is_simple3", 0, is_simple[3], "all triangles with distinct consecutive vertices", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C19", "is_simple4", 0, is_simple[4], "all quadrilaterals with distinct consecutive vertices", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C19", "is_simple5", 1, is_simple[5], "all pentagons with distinct consecutive vertices", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C19", "is_simple_list0", 0, is_simple_list[0], "a listed polygon with 5 vertices, any one of which is anywhere", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C19", "is_simple_list1", 0, is_simple_list[1], "a listed polygon with 5 vertices, any one of which is anywhere", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C19", "is_simple_list2", 0, is_simple_list[2], "a listed polygon with 6 vertices, any one of which is anywhere", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C19", "is_simple_list3", 0, is_simple_list[3], "a listed polygon with 6 vertices, any one of which is anywhere", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C19", "is_simple_list4", 0, is_simple_list[4], "a listed polygon with 8 vertices, any one of which is anywhere", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C19", "is_simple_list5", 0, is_simple_list[5], "a listed polygon with 8 vertices, any one of which is anywhere", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C20", "earcut_slide0", 0, earcut_slide[6, 0, 60], "60 listed simple polygons with 6 vertices, one of which slides along a line as long as it is simple", "earcut_2, Polygon2::is_simple");
    harness!(v, "C19", "is_simple_slide0", 0, is_simple_slide[6, 0, 60], "60 listed polygons with 6 vertices, one of which slides along a line", "Polygon2::is_simple");
    harness!(v, "C20", "earcut_slide1", 0, earcut_slide[7, 0, 40], "40 listed simple polygons with 7 vertices, one of which slides along a line as long as it is simple", "earcut_2, Polygon2::is_simple");
    harness!(v, "C19", "is_simple_slide1", 0, is_simple_slide[7, 0, 40], "40 listed polygons with 7 vertices, one of which slides along a line", "Polygon2::is_simple");
    harness!(v, "C20", "earcut_slide2", 0, earcut_slide[8, 0, 40], "40 listed simple polygons with 8 vertices, one of which slides along a line as long as it is simple", "earcut_2, Polygon2::is_simple");
    harness!(v, "C19", "is_simple_slide2", 0, is_simple_slide[8, 0, 40], "40 listed polygons with 8 vertices, one of which slides along a line", "Polygon2::is_simple");
    harness!(v, "C20", "earcut_slide3", 0, earcut_slide[10, 0, 50], "50 listed simple polygons with 10 vertices, one of which slides along a line as long as it is simple", "earcut_2, Polygon2::is_simple");
    harness!(v, "C19", "is_simple_slide3", 0, is_simple_slide[10, 0, 20], "20 listed polygons with 10 vertices, one of which slides along a line", "Polygon2::is_simple");
    harness!(v, "C20", "earcut_slide4", 0, earcut_slide[12, 0, 30], "30 listed simple polygons with 12 vertices, one of which slides along a line as long as it is simple", "earcut_2, Polygon2::is_simple");
    harness!(v, "C19", "is_simple_slide4", 0, is_simple_slide[12, 0, 10], "10 listed polygons with 12 vertices, one of which slides along a line", "Polygon2::is_simple");
    harness!(v, "C20", "earcut_slide5", 1, earcut_slide[6, 60, 600], "540 listed simple polygons with 6 vertices, one of which slides along a line as long as it is simple", "earcut_2, Polygon2::is_simple");
    harness!(v, "C19", "is_simple_slide5", 1, is_simple_slide[6, 60, 600], "540 listed polygons with 6 vertices, one of which slides along a line", "Polygon2::is_simple");
    harness!(v, "C20", "earcut_slide6", 1, earcut_slide[7, 40, 400], "360 listed simple polygons with 7 vertices, one of which slides along a line as long as it is simple", "earcut_2, Polygon2::is_simple");
    harness!(v, "C19", "is_simple_slide6", 1, is_simple_slide[7, 40, 400], "360 listed polygons with 7 vertices, one of which slides along a line", "Polygon2::is_simple");
    harness!(v, "C20", "earcut_slide7", 1, earcut_slide[8, 40, 400], "360 listed simple polygons with 8 vertices, one of which slides along a line as long as it is simple", "earcut_2, Polygon2::is_simple");
    harness!(v, "C19", "is_simple_slide7", 1, is_simple_slide[8, 40, 400], "360 listed polygons with 8 vertices, one of which slides along a line", "Polygon2::is_simple");
    harness!(v, "C20", "earcut_slide8", 1, earcut_slide[10, 50, 200], "150 listed simple polygons with 10 vertices, one of which slides along a line as long as it is simple", "earcut_2, Polygon2::is_simple");
    harness!(v, "C19", "is_simple_slide8", 1, is_simple_slide[10, 20, 200], "180 listed polygons with 10 vertices, one of which slides along a line", "Polygon2::is_simple");
    harness!(v, "C20", "earcut_slide9", 1, earcut_slide[12, 30, 130], "100 listed simple polygons with 12 vertices, one of which slides along a line as long as it is simple", "earcut_2, Polygon2::is_simple");
    harness!(v, "C19", "is_simple_slide9", 1, is_simple_slide[12, 10, 100], "90 listed polygons with 12 vertices, one of which slides along a line", "Polygon2::is_simple");
    harness!(v, "C20", "earcut_slide10", 1, earcut_slide[16, 0, 30], "30 listed simple polygons with 16 vertices, one of which slides along a line as long as it is simple", "earcut_2, Polygon2::is_simple");
    harness!(v, "C19", "is_simple_slide10", 1, is_simple_slide[16, 0, 30], "30 listed polygons with 16 vertices, one of which slides along a line", "Polygon2::is_simple");
    harness!(v, "C20", "earcut3", 0, earcut[3], "all triangles", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C20", "earcut4", 0, earcut[4], "all simple quadrilaterals", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C20", "earcut5", 1, earcut[5], "all simple pentagons", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C20", "earcut_list0", 0, earcut_list[0], "a listed polygon with 5 vertices in both orientations, any one vertex anywhere as long as it is simple", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C20", "earcut_list1", 0, earcut_list[1], "a listed polygon with 5 vertices in both orientations, any one vertex anywhere as long as it is simple", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C20", "earcut_list2", 0, earcut_list[2], "a listed polygon with 6 vertices in both orientations, any one vertex anywhere as long as it is simple", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C20", "earcut_list3", 0, earcut_list[3], "a listed polygon with 6 vertices in both orientations, any one vertex anywhere as long as it is simple", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C20", "earcut_list4", 0, earcut_list[4], "a listed polygon with 8 vertices in both orientations, any one vertex anywhere as long as it is simple", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C20", "earcut_list5", 0, earcut_list[5], "a listed polygon with 8 vertices in both orientations, any one vertex anywhere as long as it is simple", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C19", "is_simple_list6", 1, is_simple_list[6], "a listed polygon with 8 vertices, any one of which is anywhere", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C20", "earcut_list6", 1, earcut_list[6], "a listed polygon with 8 vertices in both orientations, any one vertex anywhere as long as it is simple", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C19", "is_simple_list7", 1, is_simple_list[7], "a listed polygon with 9 vertices, any one of which is anywhere", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C20", "earcut_list7", 1, earcut_list[7], "a listed polygon with 9 vertices in both orientations, any one vertex anywhere as long as it is simple", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C19", "is_simple_list8", 1, is_simple_list[8], "a listed polygon with 12 vertices, any one of which is anywhere", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C20", "earcut_list8", 1, earcut_list[8], "a listed polygon with 12 vertices in both orientations, any one vertex anywhere as long as it is simple", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C19", "is_simple_list9", 1, is_simple_list[9], "a listed polygon with 10 vertices, any one of which is anywhere", "Polygon2::is_simple, SweepSegment2Intersection, AVLTree, PriorityQueue, line_segment_2_line_segment_2_intersection");
    harness!(v, "C20", "earcut_list9", 1, earcut_list[9], "a listed polygon with 10 vertices in both orientations, any one vertex anywhere as long as it is simple", "earcut_2, get_vertex_type, init_vertex_type, Polygon2::is_simple, Polygon2::area, CircularDoubleLinkedList");
    harness!(v, "C20", "earcut_slide11", 0, earcut_slide[24, 0, 2], "2 listed simple polygons with 24 vertices, one of which slides along a line as long as it stays simple", "earcut_2");
    harness!(v, "C20", "earcut_slide12", 1, earcut_slide[40, 0, 8], "8 listed simple polygons with 40 vertices, one of which slides along a line as long as it stays simple", "earcut_2");
    harness!(v, "C19", "is_simple_slide11", 0, is_simple_slide[20, 0, 3], "3 listed polygons with 20 vertices, one of which slides along a line", "Polygon2::is_simple");
    harness!(v, "C21", "sweep_slide12", 1, sweep_slide[14, 12, 30, 32, false], "2 listed arrangements of 14 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection");
    harness!(v, "C21", "sweep_axes8", 0, sweep_slide[16, 10, 0, 2, true], "2 listed arrangements of 16 segments, many vertical, horizontal or from one point, one of which slides along a line", "SweepSegment2Intersection::new/push_segment/intersection");
    harness!(v, "C21", "sweep_again0", 0, sweep_again[4, 3, 0, 60, true], "60 listed arrangements of 4 segments, one end of which slides along a line; queries between the additions, other orders and directions", "SweepSegment2Intersection::new/push_segment/intersection");
    harness!(v, "C21", "sweep_again1", 0, sweep_again[6, 4, 0, 12, true], "12 listed arrangements of 6 segments, one end of which slides along a line; queries between the additions, other orders and directions", "SweepSegment2Intersection::new/push_segment/intersection");
    harness!(v, "C21", "sweep_again2", 1, sweep_again[4, 3, 60, 600, false], "540 listed arrangements of 4 segments, one end of which slides along a line; queries between the additions, other orders and directions", "SweepSegment2Intersection::new/push_segment/intersection");
    harness!(v, "C21", "sweep_again3", 1, sweep_again[7, 4, 0, 100, true], "100 listed arrangements of 7 segments, one end of which slides along a line; queries between the additions, other orders and directions", "SweepSegment2Intersection::new/push_segment/intersection");
    harness!(v, "C22", "curve_tangent0", 0, curve_tangent[2, 0, 24], "24 listed arrangements of 2 circles, arcs and segments that touch in one point and a segment that slides across them", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_mid_value");
    harness!(v, "C22", "curve_tangent1", 0, curve_tangent[3, 0, 8], "8 listed arrangements of 3 circles, arcs and segments that touch in one point and a segment that slides across them", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_mid_value");
    harness!(v, "C22", "curve_tangent2", 1, curve_tangent[3, 8, 150], "142 listed arrangements of 3 circles, arcs and segments that touch in one point and a segment that slides across them", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_mid_value");
    harness!(v, "C22", "curve_fan0", 0, curve_fan[2, 0, 48], "48 listed pairs of arcs and segments that leave one point in the same direction and a long segment that slides across them", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_mid_value");
    harness!(v, "C22", "curve_fan1", 0, curve_fan[3, 0, 10], "10 listed triples of arcs and segments that leave one point in the same direction and a long segment that slides across them", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_mid_value");
    harness!(v, "C22", "curve_fan2", 1, curve_fan[3, 10, 150], "140 listed triples of arcs and segments that leave one point in the same direction and a long segment that slides across them", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_mid_value");
    harness!(v, "C22", "curve_again0", 0, curve_again[2, 0, 18], "18 listed arrangements of 2 circles, arcs and segments, one of which slides along a line; queries between the additions", "SweepSegment2Intersection::new/push_segment/intersection");
    harness!(v, "C22", "curve_again1", 1, curve_again[3, 0, 24], "24 listed arrangements of 3 circles, arcs and segments, one of which slides along a line; queries between the additions", "SweepSegment2Intersection::new/push_segment/intersection");
    harness!(v, "C21", "sweep_slide0", 0, sweep_slide[4, 3, 0, 160, false], "160 listed arrangements of 4 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_slide1", 0, sweep_slide[5, 4, 0, 80, false], "80 listed arrangements of 5 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_slide2", 0, sweep_slide[6, 5, 0, 50, false], "50 listed arrangements of 6 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_slide3", 0, sweep_slide[8, 6, 0, 16, false], "16 listed arrangements of 8 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_slide4", 0, sweep_slide[10, 8, 0, 6, false], "6 listed arrangements of 10 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_slide5", 1, sweep_slide[4, 3, 160, 1000, false], "840 listed arrangements of 4 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_slide6", 1, sweep_slide[5, 4, 80, 500, false], "420 listed arrangements of 5 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_slide7", 1, sweep_slide[6, 4, 0, 400, false], "400 listed arrangements of 6 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_slide8", 1, sweep_slide[8, 6, 16, 200, false], "184 listed arrangements of 8 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_slide9", 1, sweep_slide[10, 8, 6, 100, false], "94 listed arrangements of 10 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_slide10", 1, sweep_slide[14, 12, 0, 30, false], "30 listed arrangements of 14 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_slide11", 1, sweep_slide[20, 15, 0, 10, false], "10 listed arrangements of 20 segments, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_axes0", 0, sweep_slide[5, 4, 0, 300, true], "300 listed arrangements of 5 segments, many vertical, horizontal or from one point, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_axes1", 0, sweep_slide[7, 4, 0, 200, true], "200 listed arrangements of 7 segments, many vertical, horizontal or from one point, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_axes2", 0, sweep_slide[9, 6, 0, 60, true], "60 listed arrangements of 9 segments, many vertical, horizontal or from one point, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_axes3", 0, sweep_slide[12, 8, 0, 10, true], "10 listed arrangements of 12 segments, many vertical, horizontal or from one point, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_axes4", 1, sweep_slide[5, 4, 300, 2000, true], "1700 listed arrangements of 5 segments, many vertical, horizontal or from one point, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_axes5", 1, sweep_slide[7, 4, 200, 1000, true], "800 listed arrangements of 7 segments, many vertical, horizontal or from one point, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_axes6", 1, sweep_slide[9, 6, 60, 400, true], "340 listed arrangements of 9 segments, many vertical, horizontal or from one point, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_axes7", 1, sweep_slide[12, 8, 10, 100, true], "90 listed arrangements of 12 segments, many vertical, horizontal or from one point, one of which slides along a line (or one end of it does)", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep2", 0, sweep2, "all pairs of segments, degenerate ones included", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep2_order", 0, sweep2_order, "all pairs of segments: order of adding, direction, repeated query", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep3_0", 0, sweep3[0], "two listed segments (crossing, overlapping, touching, parallel, equal or degenerate) and one anywhere", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep3_1", 0, sweep3[1], "two listed segments (crossing, overlapping, touching, parallel, equal or degenerate) and one anywhere", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep3_2", 0, sweep3[2], "two listed segments (crossing, overlapping, touching, parallel, equal or degenerate) and one anywhere", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep3_3", 0, sweep3[3], "two listed segments (crossing, overlapping, touching, parallel, equal or degenerate) and one anywhere", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep3_4", 0, sweep3[4], "two listed segments (crossing, overlapping, touching, parallel, equal or degenerate) and one anywhere", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep3_5", 0, sweep3[5], "two listed segments (crossing, overlapping, touching, parallel, equal or degenerate) and one anywhere", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep3_6", 0, sweep3[6], "two listed segments (crossing, overlapping, touching, parallel, equal or degenerate) and one anywhere", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep3_7", 0, sweep3[7], "two listed segments (crossing, overlapping, touching, parallel, equal or degenerate) and one anywhere", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_list0", 0, sweep_list[0], "four or five listed segments and one with ends anywhere on y = -1 and y = 5, added first or last", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_list1", 1, sweep_list[1], "four or five listed segments and one with ends anywhere on y = -1 and y = 5, added first or last", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_list2", 0, sweep_list[2], "four or five listed segments and one with ends anywhere on y = -1 and y = 5, added first or last", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_list3", 1, sweep_list[3], "four or five listed segments and one with ends anywhere on y = -1 and y = 5, added first or last", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep_list4", 1, sweep_list[4], "four or five listed segments and one with ends anywhere on y = -1 and y = 5, added first or last", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C21", "sweep3_sym", 1, sweep3_sym, "all triples of segments", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection");
    harness!(v, "C22", "curve_slide0", 0, curve_slide[2, 0, 60], "60 listed arrangements of 2 circles, arcs and segments, one of which slides along a line", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_slide1", 0, curve_slide[3, 0, 12], "12 listed arrangements of 3 circles, arcs and segments, one of which slides along a line", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_slide2", 1, curve_slide[2, 60, 300], "240 listed arrangements of 2 circles, arcs and segments, one of which slides along a line", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_slide3", 1, curve_slide[3, 12, 80], "68 listed arrangements of 3 circles, arcs and segments, one of which slides along a line", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_slide4", 1, curve_slide[4, 0, 30], "30 listed arrangements of 4 circles, arcs and segments, one of which slides along a line", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_lc", 0, curve_lc, "a circle and all segments in 5 directions", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_cl", 0, curve_cl, "a segment and all circles", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_cl2", 1, curve_cl2, "two segments crossing at a sharp angle and all circles", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_cl3", 0, curve_cl3, "a vertical and a horizontal segment and all circles", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_cc", 0, curve_cc, "a circle and all circles with a centre in 4 directions from its centre", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_ccl", 1, curve_ccl, "a circle, a segment and all circles with a centre in 4 directions", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_lcc", 1, curve_lcc, "two touching circles and all segments in 5 directions", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_la", 0, curve_la, "9 listed arcs and all segments in 2 directions", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_ca", 0, curve_ca, "9 listed arcs and a circle moving along 4 lines", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_aa", 1, curve_aa, "9 listed arcs and 9 listed arcs moving along 4 lines", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_aa_q", 2, curve_aa_q, "9 listed arcs and a listed arc moving along 2 lines", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_mix", 1, curve_mix[4], "4 arrangements of circles, arcs and segments, and a circle moving along 4 lines", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
    harness!(v, "C22", "curve_mix_q", 2, curve_mix[2], "4 arrangements of circles, arcs and segments, and a circle moving along 2 lines", "SweepSegment2Intersection::new/push_segment/intersection, compare_segments, calculate_segment_value, AVLTree, PriorityQueue, segment_2_segment_2_intersection, ArcSegment2::monotone, leaving_direction, calculate_mid_value");
}
