//! The interface a harness is written against: one generic function per
//! property, run at `T = Sym` (symbolic execution) and at `T = f64` (replay).
pub use crate::engine::Group;
use crate::engine::{self, f_and, f_or, F, NEG, POS, ZERO};
use crate::native;
use crate::poly::Poly;
use crate::rat::Rat;
use crate::sym::Sym;
use rcgal::kernel::number_type::NumberType;

#[derive(Clone, Debug)]
pub enum Form<T> {
    True,
    False,
    /// sign(value) is in the mask
    A(T, u8),
    And(Vec<Form<T>>),
    Or(Vec<Form<T>>),
    Not(Box<Form<T>>),
}

impl<T: Num> Form<T> {
    pub fn and(self, o: Form<T>) -> Form<T> {
        Form::And(vec![self, o])
    }
    pub fn or(self, o: Form<T>) -> Form<T> {
        Form::Or(vec![self, o])
    }
    pub fn not(self) -> Form<T> {
        Form::Not(Box::new(self))
    }
    pub fn implies(self, o: Form<T>) -> Form<T> {
        self.not().or(o)
    }
    pub fn iff(self, o: Form<T>) -> Form<T> {
        Form::And(vec![self.clone().implies(o.clone()), o.implies(self)])
    }
    /// formula <-> concrete boolean
    pub fn is(self, b: bool) -> Form<T> {
        if b {
            self
        } else {
            self.not()
        }
    }
}
pub fn lit<T>(b: bool) -> Form<T> {
    if b {
        Form::True
    } else {
        Form::False
    }
}
pub fn all<T>(v: Vec<Form<T>>) -> Form<T> {
    Form::And(v)
}
pub fn any<T>(v: Vec<Form<T>>) -> Form<T> {
    Form::Or(v)
}
pub fn lt0<T>(x: T) -> Form<T> {
    Form::A(x, NEG)
}
pub fn le0<T>(x: T) -> Form<T> {
    Form::A(x, NEG | ZERO)
}
pub fn eq0<T>(x: T) -> Form<T> {
    Form::A(x, ZERO)
}
pub fn ne0<T>(x: T) -> Form<T> {
    Form::A(x, NEG | POS)
}
pub fn gt0<T>(x: T) -> Form<T> {
    Form::A(x, POS)
}
pub fn ge0<T>(x: T) -> Form<T> {
    Form::A(x, POS | ZERO)
}
pub fn eq<T: Num>(a: T, b: T) -> Form<T> {
    eq0(a - b)
}
pub fn lt<T: Num>(a: T, b: T) -> Form<T> {
    lt0(a - b)
}
pub fn le<T: Num>(a: T, b: T) -> Form<T> {
    le0(a - b)
}

pub trait Num: NumberType + 'static {
    const SYMBOLIC: bool;
    fn input(name: &str, g: Group) -> Self;
    /// (cos, sin) of an arbitrary direction
    fn unit(name: &str) -> (Self, Self);
    fn q(n: i64, d: i64) -> Self;
    fn k(n: i64) -> Self {
        Self::q(n, 1)
    }
    fn assume(f: Form<Self>);
    fn check(name: &str, f: Form<Self>);
    /// branch of the harness (oracle) on a formula
    fn branch(f: Form<Self>) -> bool;
    fn choose(name: &str, n: usize) -> usize;
    fn is_finite(self) -> bool;
    /// record that this path exhibits the named situation (vacuity guard)
    fn witness(name: &str);
    /// mark a library call
    fn lib<R>(f: impl FnOnce() -> R) -> R;
    fn allow_panic(b: bool);
    /// is the formula implied on this path? (solver query; used only for matching,
    /// never to skip an assertion) - at f64 the definite truth value
    fn holds(f: Form<Self>) -> bool;
    fn fail(name: &str) {
        Self::check(name, Form::False)
    }
}

fn lower(c: &mut engine::Ctx, f: &Form<Sym>, pos: bool) -> F {
    match f {
        Form::True => {
            if pos {
                F::T
            } else {
                F::Fa
            }
        }
        Form::False => {
            if pos {
                F::Fa
            } else {
                F::T
            }
        }
        Form::A(v, m) => {
            if c.val(*v).bad != 0 {
                return if pos { F::Fa } else { F::T };
            }
            c.val_sign(v.0, if pos { *m } else { 7 ^ *m })
        }
        Form::And(v) | Form::Or(v) => {
            let is_and = matches!(f, Form::And(_)) == pos;
            let mut w = vec![];
            for x in v {
                let y = lower(c, x, pos);
                let y = c.simplify(&y);
                if is_and && y == F::Fa {
                    return F::Fa;
                }
                if !is_and && y == F::T {
                    return F::T;
                }
                w.push(y);
            }
            if is_and {
                f_and(w)
            } else {
                f_or(w)
            }
        }
        Form::Not(g) => lower(c, g, !pos),
    }
}

impl Num for Sym {
    const SYMBOLIC: bool = true;
    fn input(name: &str, g: Group) -> Sym {
        engine::with(|c| {
            let v = match c.inputs.get(name) {
                Some(v) => *v,
                None => {
                    let v = c.new_var(engine::VarKind::Input { name: name.to_string(), group: g });
                    c.inputs.insert(name.to_string(), v);
                    // a new input is unconstrained: any value extends a model
                    c.extend_models(name, if name.ends_with("_cos") { 1.0 } else { 0.0 });
                    v
                }
            };
            c.of_poly(Poly::var(v))
        })
    }
    fn unit(name: &str) -> (Sym, Sym) {
        let c0 = Self::input(&format!("{}_cos", name), Group::None);
        engine::with(|c| {
            let n = format!("{}_sin", name);
            let v = match c.inputs.get(&n) {
                Some(v) => *v,
                None => {
                    let cv = c.inputs[&format!("{}_cos", name)];
                    let v = c.new_var(engine::VarKind::UnitS { name: n.clone(), cos: cv });
                    c.inputs.insert(n.clone(), v);
                    c.extend_models(&n, 0.0);
                    v
                }
            };
            (c0, c.of_poly(Poly::var(v)))
        })
    }
    fn q(n: i64, d: i64) -> Sym {
        engine::with(|c| c.konst(Rat::new(n as i128, d as i128)))
    }
    fn assume(f: Form<Sym>) {
        engine::with(|c| {
            let g = lower(c, &f, true);
            c.assume(g)
        })
    }
    fn check(name: &str, f: Form<Sym>) {
        engine::with(|c| {
            let g = lower(c, &f, true);
            c.check(name, g)
        })
    }
    fn branch(f: Form<Sym>) -> bool {
        engine::with(|c| {
            let g = lower(c, &f, true);
            c.decide(g)
        })
    }
    fn choose(_name: &str, n: usize) -> usize {
        engine::with(|c| c.choose(n))
    }
    fn is_finite(self) -> bool {
        engine::with(|c| c.val(self).bad == 0)
    }
    fn witness(name: &str) {
        engine::with(|c| *c.stats.witnessed.entry(name.to_string()).or_default() += 1)
    }
    fn lib<R>(f: impl FnOnce() -> R) -> R {
        engine::with(|c| c.in_lib = true);
        let r = f();
        engine::with(|c| c.in_lib = false);
        r
    }
    fn allow_panic(b: bool) {
        engine::with(|c| c.expect_panic = b)
    }
    fn holds(f: Form<Sym>) -> bool {
        engine::with(|c| {
            let g = lower(c, &f, false);
            let g = c.simplify(&g);
            match g {
                F::Fa => true,
                F::T => false,
                g => matches!(c.query(&g, 0), crate::smt::Answer::Unsat),
            }
        })
    }
}

/// tolerance of the f64 replay: |v| below it is neither zero nor non-zero
const TOL: f64 = 2e-10;
/// assumptions and branches of the oracle take values below the tolerance as zero
pub fn native_rounded(f: &Form<f64>) -> bool {
    match f {
        Form::True => true,
        Form::False => false,
        Form::A(v, m) => {
            let s = if v.abs() < TOL { ZERO } else if *v > 0.0 { POS } else { NEG };
            v.is_finite() && s & m != 0
        }
        Form::And(v) => v.iter().all(native_rounded),
        Form::Or(v) => v.iter().any(native_rounded),
        Form::Not(g) => !native_rounded(g),
    }
}
pub fn native_eval(f: &Form<f64>) -> Option<bool> {
    match f {
        Form::True => Some(true),
        Form::False => Some(false),
        Form::A(v, m) => {
            if !v.is_finite() {
                return Some(false);
            }
            let s = if *v == 0.0 {
                ZERO
            } else if v.abs() < TOL {
                return if m & 7 == 7 { Some(true) } else { None };
            } else if *v > 0.0 {
                POS
            } else {
                NEG
            };
            Some(s & m != 0)
        }
        Form::And(v) => {
            let mut r = Some(true);
            for x in v {
                match native_eval(x) {
                    Some(false) => return Some(false),
                    None => r = None,
                    _ => {}
                }
            }
            r
        }
        Form::Or(v) => {
            let mut r = Some(false);
            for x in v {
                match native_eval(x) {
                    Some(true) => return Some(true),
                    None => r = None,
                    _ => {}
                }
            }
            r
        }
        Form::Not(g) => native_eval(g).map(|b| !b),
    }
}

impl Num for f64 {
    const SYMBOLIC: bool = false;
    fn input(name: &str, _g: Group) -> f64 {
        native::input(name)
    }
    fn unit(name: &str) -> (f64, f64) {
        let c = native::input(&format!("{}_cos", name));
        let s = native::input(&format!("{}_sin", name));
        let a = s.atan2(c);
        // axis directions exactly, otherwise a correctly rounded unit vector
        let h = (c * c + s * s).sqrt();
        let _ = a;
        if c.abs() < 1e-12 {
            return (0.0, s.signum());
        }
        if s.abs() < 1e-12 {
            return (c.signum(), 0.0);
        }
        (c / h, s / h)
    }
    fn q(n: i64, d: i64) -> f64 {
        n as f64 / d as f64
    }
    fn assume(f: Form<f64>) {
        native::assume(Some(native_rounded(&f)))
    }
    fn check(name: &str, f: Form<f64>) {
        native::check(name, native_eval(&f), native_rounded(&f))
    }
    fn branch(f: Form<f64>) -> bool {
        native_rounded(&f)
    }
    fn choose(_name: &str, n: usize) -> usize {
        native::choose(n)
    }
    fn is_finite(self) -> bool {
        f64::is_finite(self)
    }
    fn witness(_: &str) {}
    fn lib<R>(f: impl FnOnce() -> R) -> R {
        native::set_lib(true);
        let r = f();
        native::set_lib(false);
        r
    }
    fn allow_panic(b: bool) {
        native::allow_panic(b)
    }
    fn holds(f: Form<f64>) -> bool {
        // matching on f64 is tolerant
        fn tol(f: &Form<f64>, pos: bool) -> bool {
            match f {
                Form::True => pos,
                Form::False => !pos,
                Form::A(v, m) => {
                    let m = if pos { *m } else { 7 ^ *m };
                    if !v.is_finite() {
                        return !pos;
                    }
                    (m & ZERO != 0 && v.abs() < 1e-7) || (m & POS != 0 && *v > 0.0) || (m & NEG != 0 && *v < 0.0)
                }
                Form::And(v) => {
                    if pos {
                        v.iter().all(|x| tol(x, pos))
                    } else {
                        v.iter().any(|x| tol(x, pos))
                    }
                }
                Form::Or(v) => {
                    if pos {
                        v.iter().any(|x| tol(x, pos))
                    } else {
                        v.iter().all(|x| tol(x, pos))
                    }
                }
                Form::Not(g) => tol(g, !pos),
            }
        }
        tol(&f, true)
    }
}
