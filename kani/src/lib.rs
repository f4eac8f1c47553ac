//! Bit-precise checks of the f32 and f64 instances: each check is a plain function over
//! bit patterns, decided for all of them by Kani (CBMC) and run natively on a counterexample.
#![allow(dead_code, static_mut_refs)]
#![recursion_limit = "512"]
use rcgal::kernel::number_type::*;
use rcgal::kernel::point_2::Point2;
use std::cmp::Ordering;

fn ensure(c: bool, what: &str) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(what.to_string())
    }
}

macro_rules! checks {
    ($m:ident, $f:ident, $u:ident, $eps:expr, $pi:expr) => {
        pub mod $m {
            use super::*;
            type F = $f;
            type U = $u;
            fn same(a: F, b: F) -> bool {
                a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
            }
            pub fn equality(v: &[u64]) -> Result<(), String> {
                let (a, b) = (F::from_bits(v[0] as U), F::from_bits(v[1] as U));
                let e = NumberType::equals(a, b);
                ensure(e == ((a - b).abs() < $eps), "equal exactly if within the tolerance")
            }
            pub fn symmetry(v: &[u64]) -> Result<(), String> {
                let (a, b) = (F::from_bits(v[0] as U), F::from_bits(v[1] as U));
                ensure(NumberType::equals(a, b) == NumberType::equals(b, a), "equality is symmetric")
            }
            pub fn reflexivity(v: &[u64]) -> Result<(), String> {
                let a = F::from_bits(v[0] as U);
                ensure(!a.is_finite() || NumberType::equals(a, a), "a finite number equals itself")
            }
            pub fn absolute(v: &[u64]) -> Result<(), String> {
                let a = F::from_bits(v[0] as U);
                let r = NumberType::abs(a);
                ensure(a.is_nan() == r.is_nan(), "the absolute value is undefined for undefined numbers only")?;
                ensure(a.is_nan() || (r >= 0.0 && (r == a || r == -a)), "absolute value")
            }
            pub fn constants(_: &[u64]) -> Result<(), String> {
                ensure(<F as DefaultNumberValueTrait>::default() == 0.0, "default is zero")?;
                ensure(<F as DefaultNumberValueTrait>::zero() == 0.0, "zero is zero")?;
                ensure(<F as DefaultNumberValueTrait>::default_eps() == $eps, "the tolerance")?;
                let pi = <F as DefaultNumberValueTrait>::pi();
                ensure(pi == $pi, "pi")
            }
            pub fn conversion(v: &[u64]) -> Result<(), String> {
                let x = f64::from_bits(v[0]);
                let r = <F as DefaultNumberValueTrait>::from_f64(x);
                ensure(r.is_nan() == x.is_nan(), "conversion keeps the undefined")?;
                ensure(x.is_nan() || r == x as F, "conversion rounds to nearest")
            }
            pub fn sqrt(v: &[u64]) -> Result<(), String> {
                let a = F::from_bits(v[0] as U);
                ensure(same(NumberType::sqrt(a), a.sqrt()), "square root")
            }
            pub fn sin(v: &[u64]) -> Result<(), String> {
                let a = F::from_bits(v[0] as U);
                ensure(same(NumberType::sin(a), a.sin()), "sine")
            }
            pub fn cos(v: &[u64]) -> Result<(), String> {
                let a = F::from_bits(v[0] as U);
                ensure(same(NumberType::cos(a), a.cos()), "cosine")
            }
            pub fn acos(v: &[u64]) -> Result<(), String> {
                let a = F::from_bits(v[0] as U);
                ensure(same(NumberType::acos(a), a.acos()), "arc cosine")
            }
            pub fn atan(v: &[u64]) -> Result<(), String> {
                let a = F::from_bits(v[0] as U);
                ensure(same(NumberType::atan(a), a.atan()), "arc tangent")
            }
            pub fn atan2(v: &[u64]) -> Result<(), String> {
                let (a, b) = (F::from_bits(v[0] as U), F::from_bits(v[1] as U));
                ensure(same(NumberType::atan2(a, b), a.atan2(b)), "arc tangent of a quotient")
            }
            /// order of points whose coordinates differ by at least the tolerance or not at all
            pub fn order(v: &[u64]) -> Result<(), String> {
                let c: Vec<F> = v.iter().map(|x| F::from_bits(*x as U)).collect();
                if !c.iter().all(|x| x.is_finite()) {
                    return Ok(());
                }
                let (dx, dy) = ((c[0] - c[2]).abs(), (c[1] - c[3]).abs());
                if (dx > 0.0 && dx < $eps) || (dy > 0.0 && dy < $eps) {
                    return Ok(());
                }
                let (p, q) = (Point2::new(c[0], c[1]), Point2::new(c[2], c[3]));
                let want = if c[0] != c[2] {
                    if c[0] < c[2] { Ordering::Greater } else { Ordering::Less }
                } else if c[1] != c[3] {
                    if c[1] < c[3] { Ordering::Greater } else { Ordering::Less }
                } else {
                    Ordering::Equal
                };
                ensure(p.cmp(&q) == want, "the sweep order is by x, then by y")?;
                ensure(q.cmp(&p) == want.reverse(), "comparing in the other order gives the reverse")
            }
            /// the order is antisymmetric for all finite coordinates, however close
            pub fn antisymmetry(v: &[u64]) -> Result<(), String> {
                let c: Vec<F> = v.iter().map(|x| F::from_bits(*x as U)).collect();
                if !c.iter().all(|x| x.is_finite()) {
                    return Ok(());
                }
                let (p, q) = (Point2::new(c[0], c[1]), Point2::new(c[2], c[3]));
                ensure(p.cmp(&q) == q.cmp(&p).reverse(), "comparing in the other order gives the reverse")?;
                ensure(p.cmp(&p) == Ordering::Equal, "a point compares equal to itself")
            }
        }
    };
}
checks!(f64_, f64, u64, 1e-10, 3.141592653589793);
checks!(f32_, f32, u32, 1e-6, 3.1415927);

/// name, number of inputs, function
pub const CHECKS: &[(&str, fn(&[u64]) -> Result<(), String>)] = &[
    ("f64_equality", f64_::equality), ("f32_equality", f32_::equality),
    ("f64_symmetry", f64_::symmetry), ("f32_symmetry", f32_::symmetry),
    ("f64_reflexivity", f64_::reflexivity), ("f32_reflexivity", f32_::reflexivity),
    ("f64_absolute", f64_::absolute), ("f32_absolute", f32_::absolute),
    ("f64_constants", f64_::constants), ("f32_constants", f32_::constants),
    ("f64_conversion", f64_::conversion), ("f32_conversion", f32_::conversion),
    ("f64_sqrt", f64_::sqrt), ("f32_sqrt", f32_::sqrt),
    ("f64_sin", f64_::sin), ("f32_sin", f32_::sin),
    ("f64_cos", f64_::cos), ("f32_cos", f32_::cos),
    ("f64_acos", f64_::acos), ("f32_acos", f32_::acos),
    ("f64_atan", f64_::atan), ("f32_atan", f32_::atan),
    ("f64_atan2", f64_::atan2), ("f32_atan2", f32_::atan2),
    ("f64_order", f64_::order), ("f32_order", f32_::order),
    ("f64_antisymmetry", f64_::antisymmetry), ("f32_antisymmetry", f32_::antisymmetry),
];

#[cfg(kani)]
mod proofs {
    use super::*;
    // the standard library's functions, uninterpreted: equal arguments give equal results
    macro_rules! unary {
        ($($n:ident $f:ident)*) => { $( fn $n(x: $f) -> $f {
            static mut MEMO: Option<($f, $f)> = None;
            unsafe {
                match MEMO {
                    Some((a, r)) if a.to_bits() == x.to_bits() => r,
                    _ => { let r: $f = kani::any(); MEMO = Some((x, r)); r }
                }
            }
        } )* };
    }
    unary!(sin64 f64 cos64 f64 acos64 f64 atan64 f64 sqrt64 f64 sin32 f32 cos32 f32 acos32 f32 atan32 f32 sqrt32 f32);
    macro_rules! binary {
        ($($n:ident $f:ident)*) => { $( fn $n(y: $f, x: $f) -> $f {
            static mut MEMO: Option<($f, $f, $f)> = None;
            unsafe {
                match MEMO {
                    Some((a, b, r)) if a.to_bits() == y.to_bits() && b.to_bits() == x.to_bits() => r,
                    _ => { let r: $f = kani::any(); MEMO = Some((y, x, r)); r }
                }
            }
        } )* };
    }
    binary!(atan2_64 f64 atan2_32 f32);
    fn sin_cos64(x: f64) -> (f64, f64) {
        (x.sin(), x.cos())
    }
    fn sin_cos32(x: f32) -> (f32, f32) {
        (x.sin(), x.cos())
    }
    macro_rules! proof {
        ($n:ident, $m:ident :: $c:ident, $k:expr) => {
            #[kani::proof]
            #[kani::stub(f64::sin, sin64)]
            #[kani::stub(f64::cos, cos64)]
            #[kani::stub(f64::acos, acos64)]
            #[kani::stub(f64::atan, atan64)]
            #[kani::stub(f64::atan2, atan2_64)]
            #[kani::stub(f64::sin_cos, sin_cos64)]
            #[kani::stub(f64::sqrt, sqrt64)]
            #[kani::stub(f32::sin, sin32)]
            #[kani::stub(f32::cos, cos32)]
            #[kani::stub(f32::acos, acos32)]
            #[kani::stub(f32::atan, atan32)]
            #[kani::stub(f32::atan2, atan2_32)]
            #[kani::stub(f32::sin_cos, sin_cos32)]
            #[kani::stub(f32::sqrt, sqrt32)]
            fn $n() {
                let v: [u64; $k] = kani::any();
                assert!($m::$c(&v).is_ok(), "CONTRACT");
            }
        };
    }
    proof!(f64_equality, f64_::equality, 2);
    proof!(f64_symmetry, f64_::symmetry, 2);
    proof!(f64_reflexivity, f64_::reflexivity, 1);
    proof!(f64_absolute, f64_::absolute, 1);
    proof!(f64_constants, f64_::constants, 1);
    proof!(f64_conversion, f64_::conversion, 1);
    proof!(f64_sqrt, f64_::sqrt, 1);
    proof!(f64_sin, f64_::sin, 1);
    proof!(f64_cos, f64_::cos, 1);
    proof!(f64_acos, f64_::acos, 1);
    proof!(f64_atan, f64_::atan, 1);
    proof!(f64_atan2, f64_::atan2, 2);
    proof!(f64_order, f64_::order, 4);
    proof!(f64_antisymmetry, f64_::antisymmetry, 4);
    proof!(f32_equality, f32_::equality, 2);
    proof!(f32_symmetry, f32_::symmetry, 2);
    proof!(f32_reflexivity, f32_::reflexivity, 1);
    proof!(f32_absolute, f32_::absolute, 1);
    proof!(f32_constants, f32_::constants, 1);
    proof!(f32_conversion, f32_::conversion, 1);
    proof!(f32_sqrt, f32_::sqrt, 1);
    proof!(f32_sin, f32_::sin, 1);
    proof!(f32_cos, f32_::cos, 1);
    proof!(f32_acos, f32_::acos, 1);
    proof!(f32_atan, f32_::atan, 1);
    proof!(f32_atan2, f32_::atan2, 2);
    proof!(f32_order, f32_::order, 4);
    proof!(f32_antisymmetry, f32_::antisymmetry, 4);
}
