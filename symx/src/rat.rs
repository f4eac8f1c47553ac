//! Exact rationals on i128 with checked arithmetic.  An overflow is never
//! silently wrapped: it aborts the path as "unsupported" (inconclusive).
use crate::engine::abort_unsupported;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    n: i128,
    d: i128,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

fn ck(x: Option<i128>) -> i128 {
    match x {
        Some(v) => v,
        None => abort_unsupported("rational overflow"),
    }
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0);
        let g = gcd(n, d);
        if g == 0 {
            return Rat::ZERO;
        }
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * (n / g), d: s * (d / g) }
    }
    /// Exact value of a finite f64 (all f64 literals are dyadic rationals).
    pub fn from_f64(v: f64) -> Option<Rat> {
        if !v.is_finite() {
            return None;
        }
        if v == 0.0 {
            return Some(Rat::ZERO);
        }
        let bits = v.to_bits();
        let sign: i128 = if bits >> 63 == 1 { -1 } else { 1 };
        let e = ((bits >> 52) & 0x7ff) as i32;
        let m = (bits & ((1u64 << 52) - 1)) as i128;
        let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1i128 << 52), e - 1075) };
        while m & 1 == 0 {
            m >>= 1;
            e += 1;
        }
        if e >= 0 {
            if e > 70 {
                return None;
            }
            Some(Rat { n: sign * (m << e), d: 1 })
        } else {
            if -e > 120 {
                return None;
            }
            Some(Rat { n: sign * m, d: 1i128 << (-e) })
        }
    }
    pub fn num(&self) -> i128 {
        self.n
    }
    pub fn den(&self) -> i128 {
        self.d
    }
    pub fn is_zero(&self) -> bool {
        self.n == 0
    }
    pub fn is_one(&self) -> bool {
        self.n == 1 && self.d == 1
    }
    pub fn signum(&self) -> i32 {
        self.n.signum() as i32
    }
    pub fn add(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: ck(self.n.checked_add(o.n)), d: 1 };
        }
        let a = ck(self.n.checked_mul(o.d));
        let b = ck(o.n.checked_mul(self.d));
        Rat::new(ck(a.checked_add(b)), ck(self.d.checked_mul(o.d)))
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Rat) -> Rat {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: ck(self.n.checked_mul(o.n)), d: 1 };
        }
        Rat::new(ck(self.n.checked_mul(o.n)), ck(self.d.checked_mul(o.d)))
    }
    pub fn inv(self) -> Rat {
        Rat::new(self.d, self.n)
    }
    pub fn div(self, o: Rat) -> Rat {
        self.mul(o.inv())
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    /// Exact square root when it is rational.
    pub fn sqrt_exact(self) -> Option<Rat> {
        fn isq(n: i128) -> Option<i128> {
            if n < 0 {
                return None;
            }
            let mut r = (n as f64).sqrt() as i128;
            while r * r > n {
                r -= 1;
            }
            while (r + 1) * (r + 1) <= n {
                r += 1;
            }
            if r * r == n {
                Some(r)
            } else {
                None
            }
        }
        Some(Rat { n: isq(self.n)?, d: isq(self.d)? })
    }
    pub fn is_int(&self) -> bool {
        self.d == 1
    }
    pub fn lcm_den(a: i128, r: Rat) -> i128 {
        let g = gcd(a, r.d);
        ck((a / g).checked_mul(r.d))
    }
    pub fn gcd_num(a: i128, r: Rat) -> i128 {
        gcd(a, r.n)
    }
}
