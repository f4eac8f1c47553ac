//! Pseudo-random lattice polygons and point sets (the same in every run): one vertex of each is
//! made symbolic by the harnesses.
use super::geo::*;
use crate::num::*;

pub struct Lcg(pub u64);
impl Lcg {
    pub fn new(seed: u64) -> Lcg {
        let mut g = Lcg(seed.wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15));
        g.below(2);
        g
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) as usize % n
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
}
type Q = [i64; 2];
fn area(a: Q, b: Q, c: Q) -> i64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}
fn on(p: Q, a: Q, b: Q) -> bool {
    area(a, b, p) == 0 && (0..2).all(|k| p[k] >= a[k].min(b[k]) && p[k] <= a[k].max(b[k]))
}
fn meet(a: Q, b: Q, c: Q, d: Q) -> bool {
    let s = |x: i64| x.signum();
    (s(area(a, b, c)) * s(area(a, b, d)) < 0 && s(area(c, d, a)) * s(area(c, d, b)) < 0) || on(c, a, b) || on(d, a, b) || on(a, c, d) || on(b, c, d)
}
/// two edges that share a point they should not share
fn clash(v: &[Q]) -> Option<(usize, usize)> {
    let n = v.len();
    for i in 0..n {
        for j in i + 1..n {
            let (a, b, c, d) = (v[i], v[(i + 1) % n], v[j], v[(j + 1) % n]);
            let bad = if j == i + 1 {
                on(d, a, b) || on(a, c, d)
            } else if i == 0 && j == n - 1 {
                on(c, a, b) || on(b, c, d)
            } else {
                meet(a, b, c, d)
            };
            if bad {
                return Some((i, j));
            }
        }
    }
    None
}
/// a simple polygon with n vertices on a lattice: random points, untangled
pub fn polygon(n: usize, seed: u64) -> Vec<Q> {
    let mut g = Lcg::new(seed * 1000003 + n as u64);
    let size = if g.below(3) == 0 { n / 2 + 1 } else { 2 * n };
    loop {
        let mut v: Vec<Q> = vec![];
        while v.len() < n {
            let p = [g.int(0, size as i64), g.int(0, size as i64)];
            if !v.contains(&p) {
                v.push(p);
            }
        }
        for _ in 0..200 {
            match clash(&v) {
                None => return v,
                Some((i, j)) => {
                    if j == i + 1 || (i == 0 && j == n - 1) {
                        let k = g.below(n);
                        v.swap(i, k);
                    } else {
                        v[i + 1..=j].reverse();
                    }
                }
            }
        }
    }
}
/// such a polygon, one vertex of which slides along a line
pub fn slid<T: Num>(n: usize, seed: u64) -> Vec<P<T>> {
    let v = polygon(n, seed);
    let mut g = Lcg::new(seed * 7 + 3);
    let (k, d) = (g.below(n), [g.int(-3, 3), g.int(-3, 3)]);
    let d = if d == [0, 0] { [1, 0] } else { d };
    let t = T::input("t", Group::None);
    let mut w: Vec<P<T>> = v.iter().map(|p| P::new(T::k(p[0]), T::k(p[1]))).collect();
    w[k] = P::new(w[k].x() + t * T::k(d[0]), w[k].y() + t * T::k(d[1]));
    w
}
/// n lattice points, many of them collinear or equal if `dense`
pub fn points<T: Num>(n: usize, seed: u64) -> Vec<P<T>> {
    let mut g = Lcg::new(seed * 31 + n as u64);
    let s = [3, 6, 12, 40][g.below(4)];
    (0..n).map(|_| P::new(T::k(g.int(0, s)), T::k(g.int(0, s)))).collect()
}
/// the hull of lattice points (straight angles kept), one vertex of which slides along a line
pub fn slid_convex<T: Num>(n: usize, seed: u64) -> Vec<P<T>> {
    let mut g = Lcg::new(seed * 17 + n as u64);
    let mut h: Vec<Q>;
    loop {
        let s = [4, 8, 20][g.below(3)];
        let mut p: Vec<Q> = (0..3 * n).map(|_| [g.int(0, s), g.int(0, s)]).collect();
        p.sort();
        p.dedup();
        h = vec![];
        for turn in 0..2 {
            let base = h.len();
            for q in p.iter() {
                while h.len() >= base + 2 && area(h[h.len() - 2], h[h.len() - 1], *q) < 0 {
                    h.pop();
                }
                h.push(*q);
            }
            h.pop();
            if turn == 0 {
                p.reverse();
            }
        }
        while h.len() > n {
            h.remove(g.below(h.len()));
        }
        if h.len() >= 4 && clash(&h).is_none() {
            break;
        }
    }
    let m = h.len();
    h.rotate_left(g.below(m));
    if g.below(2) == 0 {
        h.reverse();
    }
    let (k, dx, dy) = (g.below(m), g.int(-2, 2), g.int(1, 2));
    let t = T::input("t", Group::None);
    let mut w: Vec<P<T>> = h.iter().map(|p| P::new(T::k(p[0]), T::k(p[1]))).collect();
    w[k] = P::new(w[k].x() + t * T::k(dx), w[k].y() + t * T::k(dy));
    w
}
