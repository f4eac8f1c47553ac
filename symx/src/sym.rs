//! `Sym`: the number type at which the library under test is instantiated.
//! A value is an exact rational function of the inputs (with square roots and
//! angles as auxiliary variables); comparisons fork the symbolic execution.
use crate::engine::*;
use crate::poly::Poly;
use crate::rat::Rat;
use rcgal::kernel::number_type::{DefaultNumberValueTrait, NumberType};
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "sym")
    }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "sym")
    }
}

type Fac = Option<(Rat, Vec<(PolyId, u32)>)>;

impl Ctx {
    fn tick(&mut self) {
        self.ops += 1;
        if self.ops > self.max_ops {
            std::panic::panic_any(Abort::Bound("operation bound exceeded".into()));
        }
        if self.in_lib {
            self.stats.lib_ops += 1;
        }
    }
    pub fn mk(&mut self, num: PolyId, fac: Fac, den: Vec<(PolyId, u32)>) -> Sym {
        let (num, fac, den) = self.cancel(num, fac, den);
        self.note(num, &den);
        self.vals.push(Val { num, fac, den, bad: 0, abs: false });
        Sym((self.vals.len() - 1) as u32)
    }
    pub fn mk_bad(&mut self, b: u8) -> Sym {
        let z = self.pconst(Rat::ZERO);
        if self.in_lib {
            self.path_inexact = true;
        }
        self.vals.push(Val { num: z, fac: None, den: vec![], bad: b, abs: false });
        Sym((self.vals.len() - 1) as u32)
    }
    /// bookkeeping for the statement "f64 computes exactly this on integer inputs"
    fn note(&mut self, num: PolyId, den: &[(PolyId, u32)]) {
        if !self.in_lib {
            return;
        }
        let p = &self.polys[num as usize];
        let exact = den.is_empty()
            && p.all_int()
            && p.t.iter().all(|(m, _)| m.iter().all(|(v, _)| matches!(self.vars[*v as usize], VarKind::Input { .. } | VarKind::Eps)));
        if !exact {
            self.stats.inexact_ops += 1;
            self.path_inexact = true;
            return;
        }
        let d = p.total_degree();
        if d > 0 {
            // sum|c| * (2^b)^d <= 2^53
            let l = p.sum_abs_coeffs().log2().ceil();
            let b = ((53.0 - l) / d as f64).floor().max(0.0) as u32;
            self.path_bits = self.path_bits.min(b);
        }
    }
    fn cancel(&mut self, num: PolyId, fac: Fac, mut den: Vec<(PolyId, u32)>) -> (PolyId, Fac, Vec<(PolyId, u32)>) {
        if den.is_empty() {
            return (num, fac, den);
        }
        if self.polys[num as usize].is_zero() {
            return (num, None, vec![]);
        }
        if let Some((k, mut fs)) = fac {
            // factored numerator: cancel factor by factor
            let mut ch = false;
            for (d, e) in den.iter_mut() {
                for (f, g) in fs.iter_mut() {
                    if f == d {
                        let m = (*e).min(*g);
                        if m > 0 {
                            *e -= m;
                            *g -= m;
                            ch = true;
                        }
                    }
                }
            }
            if ch {
                den.retain(|x| x.1 > 0);
                fs.retain(|x| x.1 > 0);
                let mut n = self.pconst(k);
                for (f, e) in &fs {
                    for _ in 0..*e {
                        n = self.pmul(n, *f);
                    }
                }
                let f2 = if fs.is_empty() { None } else { Some((k, fs)) };
                return self.cancel(n, f2, den);
            }
            return (num, Some((k, fs)), den);
        }
        let mut num = num;
        let mut ch = false;
        for (d, e) in den.iter_mut() {
            while *e > 0 {
                let (a, b) = (self.polys[num as usize].clone(), self.polys[*d as usize].clone());
                if a.t.len() > 150 || b.t.len() > 40 {
                    break;
                }
                match a.div_exact(&b) {
                    Some(q) => {
                        num = self.intern(q);
                        *e -= 1;
                        ch = true;
                    }
                    None => break,
                }
            }
        }
        if ch {
            den.retain(|x| x.1 > 0);
        }
        (num, None, den)
    }
    pub fn val(&self, s: Sym) -> Val {
        self.vals[s.0 as usize].clone()
    }
    /// resolve a lazy |x|
    fn res(&mut self, s: Sym) -> Val {
        let v = self.val(s);
        if !v.abs || v.bad != 0 {
            return v;
        }
        let mut w = v;
        w.abs = false;
        self.vals.push(w.clone());
        let id = (self.vals.len() - 1) as u32;
        let f = self.val_sign(id, NEG);
        if self.decide(f) {
            let n = self.polys[w.num as usize].neg();
            w.num = self.intern(n);
            w.fac = w.fac.map(|(k, f)| (k.neg(), f));
        }
        self.vals[s.0 as usize] = w.clone();
        w
    }
    fn dprod(&mut self, den: &[(PolyId, u32)]) -> PolyId {
        let mut n = self.pconst(Rat::ONE);
        for (f, e) in den {
            for _ in 0..*e {
                n = self.pmul(n, *f);
            }
        }
        n
    }
    /// numerators over the least common (positive) denominator
    fn common(&mut self, a: &Val, b: &Val) -> (PolyId, PolyId, Vec<(PolyId, u32)>) {
        if a.den == b.den {
            return (a.num, b.num, a.den.clone());
        }
        let mut l = a.den.clone();
        for (f, e) in &b.den {
            match l.iter_mut().find(|x| x.0 == *f) {
                Some(x) => x.1 = x.1.max(*e),
                None => l.push((*f, *e)),
            }
        }
        let miss = |d: &[(PolyId, u32)]| -> Vec<(PolyId, u32)> {
            l.iter()
                .filter_map(|(f, e)| {
                    let h = d.iter().find(|x| x.0 == *f).map(|x| x.1).unwrap_or(0);
                    if e > &h {
                        Some((*f, e - h))
                    } else {
                        None
                    }
                })
                .collect()
        };
        let (ma, mb) = (miss(&a.den), miss(&b.den));
        let (pa, pb) = (self.dprod(&ma), self.dprod(&mb));
        (self.pmul(a.num, pa), self.pmul(b.num, pb), l)
    }
    pub fn add(&mut self, a: Sym, b: Sym, sub: bool) -> Sym {
        self.tick();
        let (x, y) = (self.res(a), self.res(b));
        if x.bad != 0 || y.bad != 0 {
            let k = if x.bad == 1 || y.bad == 1 { 1 } else { 2 };
            return self.mk_bad(k);
        }
        let (p, q, l) = self.common(&x, &y);
        let r = if sub { self.polys[p as usize].sub(&self.polys[q as usize]) } else { self.polys[p as usize].add(&self.polys[q as usize]) };
        let r = self.intern(r);
        self.mk(r, None, l)
    }
    fn fac_of(&mut self, v: &Val) -> (Rat, Vec<(PolyId, u32)>) {
        if let Some(f) = &v.fac {
            return f.clone();
        }
        if let Some(c) = self.polys[v.num as usize].as_const() {
            return (c, vec![]);
        }
        let (k, p) = self.canonical(v.num);
        (k, vec![(p, 1)])
    }
    fn fmerge(a: &[(PolyId, u32)], b: &[(PolyId, u32)]) -> Vec<(PolyId, u32)> {
        let mut r = a.to_vec();
        for (f, e) in b {
            match r.iter_mut().find(|x| x.0 == *f) {
                Some(x) => x.1 += e,
                None => r.push((*f, *e)),
            }
        }
        r
    }
    pub fn mul(&mut self, a: Sym, b: Sym) -> Sym {
        self.tick();
        let (x, y) = (self.res(a), self.res(b));
        if x.bad != 0 || y.bad != 0 {
            let k = if x.bad == 1 || y.bad == 1 { 1 } else { 2 };
            return self.mk_bad(k);
        }
        let num = self.pmul(x.num, y.num);
        let (fx, fy) = (self.fac_of(&x), self.fac_of(&y));
        let fs = Self::fmerge(&fx.1, &fy.1);
        let simple = fs.len() <= 1 && fs.iter().all(|f| f.1 == 1);
        // a factor whose square was rewritten (roots) must not be kept factored
        let rooty = fs.iter().any(|f| f.1 > 1 && self.polys[f.0 as usize].t.len() == 1 && {
            let m = &self.polys[f.0 as usize].t[0].0;
            m.iter().any(|(v, _)| matches!(self.vars[*v as usize], VarKind::Sqrt { .. }))
        });
        let eps = self.is_eps(num);
        let zero = self.polys[num as usize].is_zero();
        let fac = if simple || rooty || eps || zero { None } else { Some((fx.0.mul(fy.0), fs)) };
        let den = Self::fmerge(&x.den, &y.den);
        // squares of roots in the denominator
        let den = self.norm_den(den);
        self.mk(num, fac, den)
    }
    /// s^2 in a denominator becomes P
    fn norm_den(&mut self, den: Vec<(PolyId, u32)>) -> Vec<(PolyId, u32)> {
        let mut out: Vec<(PolyId, u32)> = vec![];
        for (f, e) in den {
            if e >= 2 {
                let p = self.polys[f as usize].clone();
                if p.t.len() == 1 && p.t[0].0.len() == 1 && p.t[0].0[0].1 == 1 {
                    if let VarKind::Sqrt { of } = self.vars[p.t[0].0[0].0 as usize] {
                        let (k, c) = self.canonical(of);
                        if k.is_one() {
                            out = Self::fmerge(&out, &[(c, e / 2)]);
                            if e % 2 == 1 {
                                out = Self::fmerge(&out, &[(f, 1)]);
                            }
                            continue;
                        }
                    }
                }
            }
            out = Self::fmerge(&out, &[(f, e)]);
        }
        out
    }
    pub fn div(&mut self, a: Sym, b: Sym) -> Sym {
        self.tick();
        let (x, y) = (self.res(a), self.res(b));
        if x.bad != 0 || y.bad != 0 {
            if x.bad == 0 && y.bad == 2 {
                let z = self.pconst(Rat::ZERO);
                return self.mk(z, None, vec![]);
            }
            let k = if x.bad == 2 && y.bad == 0 { 2 } else { 1 };
            return self.mk_bad(k);
        }
        if let Some(c) = self.polys[y.num as usize].as_const() {
            if !c.is_zero() {
                let inv = c.inv();
                let n0 = self.polys[x.num as usize].scale(inv);
                let n0 = self.intern(n0);
                let fac = x.fac.map(|(k, f)| (k.mul(inv), f));
                let dp = self.dprod(&y.den);
                let num = self.pmul(n0, dp);
                let fac = if y.den.is_empty() { fac } else { None };
                return self.mk(num, fac, x.den);
            }
        }
        self.vals.push(y.clone());
        let yi = (self.vals.len() - 1) as u32;
        let fz = self.val_sign(yi, ZERO);
        if self.decide(fz) {
            self.vals.push(x.clone());
            let xi = (self.vals.len() - 1) as u32;
            let fx = self.val_sign(xi, ZERO);
            let k = if self.decide(fx) { 1 } else { 2 };
            return self.mk_bad(k);
        }
        let fneg = self.val_sign(yi, NEG);
        let neg = self.decide(fneg);
        // numerator * (den of y) ; factors
        let mut yfs: Vec<(PolyId, u32)>;
        let mut k;
        match &y.fac {
            Some((kk, fs)) if fs.iter().all(|f| f.1 % 2 == 0 || fs.len() == 1) => {
                // powers of a single sign: keep factored with positive base
                k = *kk;
                yfs = vec![];
                for (f, e) in fs.clone() {
                    if e % 2 == 0 {
                        // f^e = (f^2)^(e/2) > 0
                        let f2 = self.pmul(f, f);
                        let (kc, fc) = self.canonical(f2);
                        for _ in 0..e / 2 {
                            k = k.mul(kc);
                        }
                        yfs.push((fc, e / 2));
                    } else {
                        let pos = self.atom(f, POS);
                        let pos = self.simplify(&pos) == F::T;
                        let (kc, fc) = if pos { (Rat::ONE, f) } else {
                            let g = self.polys[f as usize].neg();
                            (Rat::int(-1), self.intern(g))
                        };
                        k = k.mul(kc);
                        yfs.push((fc, e));
                    }
                }
            }
            _ => {
                let (kk, p) = self.canonical(y.num);
                if (kk.signum() < 0) != neg {
                    // canonical polynomial is negative: use its negation
                    let g = self.polys[p as usize].neg();
                    k = kk.neg();
                    yfs = vec![(self.intern(g), 1)];
                } else {
                    k = kk;
                    yfs = vec![(p, 1)];
                }
            }
        }
        if (k.signum() < 0) != neg {
            // sign bookkeeping went wrong; fall back to the expanded form
            let p = if neg { let g = self.polys[y.num as usize].neg(); self.intern(g) } else { y.num };
            k = if neg { Rat::int(-1) } else { Rat::ONE };
            yfs = vec![(p, 1)];
        }
        let ki = k.inv();
        let dp = self.dprod(&y.den);
        let n = self.pmul(x.num, dp);
        let n = self.polys[n as usize].scale(ki);
        let n = self.intern(n);
        let fac = match (&x.fac, y.den.is_empty()) {
            (Some((kx, fs)), true) => Some((kx.mul(ki), fs.clone())),
            _ => None,
        };
        let den = Self::fmerge(&x.den, &yfs);
        let den = self.norm_den(den);
        self.mk(n, fac, den)
    }
    pub fn cmp(&mut self, a: Sym, b: Sym, mask: u8) -> F {
        self.tick();
        let (x, y) = (self.val(a), self.val(b));
        if x.bad == 1 || y.bad == 1 {
            return F::Fa;
        }
        if x.bad == 2 || y.bad == 2 {
            abort_unsupported("comparison with an infinity");
        }
        let flip = |m: u8| (m & ZERO) | ((m & NEG) << 2) | ((m & POS) >> 2);
        let pure = |s: &Self, v: &Val| -> Option<i32> {
            // zero: 0; k*eps: sign(k)
            if v.abs || !v.den.is_empty() {
                return None;
            }
            let p = &s.polys[v.num as usize];
            if p.is_zero() {
                return Some(0);
            }
            if let Some(e) = s.eps {
                if p.t.len() == 1 && p.t[0].0 == vec![(e, 1)] {
                    return Some(p.t[0].1.signum());
                }
            }
            None
        };
        let has_eps = |s: &Self, v: &Val| s.is_eps(v.num) || v.den.iter().any(|d| s.is_eps(d.0));
        if let Some(k) = pure(self, &y) {
            if k == 0 || !has_eps(self, &x) {
                // sign(a - k*eps): sign(a), or -k at a = 0
                let at0 = match k {
                    0 => ZERO,
                    1 => NEG,
                    _ => POS,
                };
                let m = (mask & (NEG | POS)) | if mask & at0 != 0 { ZERO } else { 0 };
                return self.val_sign(a.0, m);
            }
        }
        if pure(self, &x).is_some() {
            if let Some(k) = pure(self, &x) {
                if k == 0 || !has_eps(self, &y) {
                    return self.cmp(b, a, flip(mask));
                }
            }
        }
        let d = self.add(a, b, true);
        self.val_sign(d.0, mask)
    }
    pub fn konst(&mut self, r: Rat) -> Sym {
        let p = self.pconst(r);
        let l = self.in_lib;
        self.in_lib = false;
        let s = self.mk(p, None, vec![]);
        self.in_lib = l;
        s
    }
    pub fn of_poly(&mut self, p: Poly) -> Sym {
        let p = self.intern(p);
        self.mk(p, None, vec![])
    }
    pub fn sqrt(&mut self, a: Sym) -> Sym {
        self.tick();
        let x = self.res(a);
        if x.bad != 0 {
            return self.mk_bad(x.bad);
        }
        self.vals.push(x.clone());
        let xi = (self.vals.len() - 1) as u32;
        let f = self.val_sign(xi, NEG);
        if self.decide(f) {
            return self.mk_bad(1);
        }
        // sqrt(n / prod f^e) = sqrt(n * prod_{e odd} f) / prod f^ceil(e/2)
        let mut n = x.num;
        let mut den = vec![];
        for (f, e) in &x.den {
            if e % 2 == 1 {
                n = self.pmul(n, *f);
            }
            den.push((*f, (e + 1) / 2));
        }
        let q = if self.polys[n as usize].is_zero() { Some(Poly::zero()) } else { self.polys[n as usize].sqrt_exact() };
        if let Some(q) = q {
            let q = self.intern(q);
            let r = self.mk(q, None, den);
            return self.abs(r);
        }
        // pull out a rational square content
        let (k, c) = self.canonical(n);
        let (coef, base) = match if k.signum() > 0 { k.sqrt_exact() } else { None } {
            Some(r) => (r, c),
            None => (Rat::ONE, n),
        };
        let v = match self.sqrt_memo.get(&base) {
            Some(v) => *v,
            None => {
                let v = self.new_var(VarKind::Sqrt { of: base });
                self.sqrt_memo.insert(base, v);
                v
            }
        };
        let p = Poly::var(v).scale(coef);
        let p = self.intern(p);
        self.mk(p, None, den)
    }
    pub fn abs(&mut self, a: Sym) -> Sym {
        self.tick();
        let mut x = self.val(a);
        if x.bad != 0 || x.abs {
            return a;
        }
        if let Some(c) = self.polys[x.num as usize].as_const() {
            if c.signum() >= 0 {
                return a;
            }
        }
        x.abs = true;
        self.vals.push(x);
        Sym((self.vals.len() - 1) as u32)
    }
    /// remove known-positive common factors of a direction
    fn dir_simplify(&mut self, x: PolyId, y: PolyId) -> (PolyId, PolyId) {
        let (mut x, mut y) = (x, y);
        loop {
            let (px, py) = (self.polys[x as usize].clone(), self.polys[y as usize].clone());
            // monomial content with known sign
            let mut vs = std::collections::BTreeSet::new();
            px.vars(&mut vs);
            py.vars(&mut vs);
            let mut ch = false;
            for v in vs {
                let pv = Poly::var(v);
                if let (Some(a), Some(b)) = (px.div_exact(&pv), py.div_exact(&pv)) {
                    let pvi = self.intern(pv);
                    if self.known_pos(pvi) {
                        x = self.intern(a);
                        y = self.intern(b);
                        ch = true;
                        break;
                    }
                }
            }
            if ch {
                continue;
            }
            // rational content
            let nz = if px.is_zero() { &py } else { &px };
            if !nz.is_zero() {
                let k = {
                    let (kx, _) = px.canonical();
                    let (ky, _) = py.canonical();
                    if px.is_zero() {
                        Rat::new(ky.num().abs(), ky.den())
                    } else if py.is_zero() {
                        Rat::new(kx.num().abs(), kx.den())
                    } else {
                        let l = Rat::lcm_den(kx.den(), ky);
                        let g = Rat::gcd_num(kx.mul(Rat::int(l)).num(), ky.mul(Rat::int(l)));
                        Rat::new(g.abs(), l)
                    }
                };
                if !k.is_one() && !k.is_zero() {
                    let a = px.scale(k.inv());
                    let b = py.scale(k.inv());
                    x = self.intern(a);
                    y = self.intern(b);
                }
            }
            return (x, y);
        }
    }
    pub fn atan2(&mut self, y: Sym, x: Sym) -> Sym {
        self.tick();
        let (vy, vx) = (self.res(y), self.res(x));
        if vx.bad != 0 || vy.bad != 0 {
            if vx.bad == 2 || vy.bad == 2 {
                abort_unsupported("atan2 of an infinity");
            }
            return self.mk_bad(1);
        }
        if self.has_angle(vx.num) || self.has_angle(vy.num) {
            abort_unsupported("atan2 of an angle");
        }
        let (px, py, _) = self.common(&vx, &vy);
        let (px, py) = self.dir_simplify(px, py);
        let (cx, cy) = (self.polys[px as usize].as_const(), self.polys[py as usize].as_const());
        if let (Some(a), Some(b)) = (cx, cy) {
            let q = match (a.signum(), b.signum()) {
                (1, 0) | (0, 0) => Some(0),
                (-1, 0) => Some(4),
                (0, 1) => Some(2),
                (0, -1) => Some(-2),
                _ if a == b => Some(if a.signum() > 0 { 1 } else { -3 }),
                _ if a == b.neg() => Some(if a.signum() > 0 { -1 } else { 3 }),
                _ => None,
            };
            if let Some(q) = q {
                let pi = self.pi_var();
                let p = Poly::var(pi).scale(Rat::new(q, 4));
                return self.of_poly(p);
            }
        }
        let v = self.angle_var(px, py);
        self.of_poly(Poly::var(v))
    }
    pub fn cos_sin(&mut self, a: Sym) -> (Sym, Sym) {
        self.tick();
        let x = self.res(a);
        if x.bad != 0 {
            let b = self.mk_bad(1);
            return (b, b);
        }
        if !x.den.is_empty() {
            abort_unsupported("trigonometric function of a quotient");
        }
        let (dir, lens) = self.angle_dir(x.num);
        let (mut c, mut s) = (self.mk(dir.0, None, vec![]), self.mk(dir.1, None, vec![]));
        for l in lens {
            if self.polys[l as usize].as_const() == Some(Rat::ONE) {
                continue;
            }
            let lv = self.mk(l, None, vec![]);
            let h = self.sqrt(lv);
            c = self.div(c, h);
            s = self.div(s, h);
        }
        (c, s)
    }
}

impl Add for Sym {
    type Output = Sym;
    fn add(self, o: Sym) -> Sym {
        with(|c| Ctx::add(c, self, o, false))
    }
}
impl Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym {
        with(|c| Ctx::add(c, self, o, true))
    }
}
impl Mul for Sym {
    type Output = Sym;
    fn mul(self, o: Sym) -> Sym {
        with(|c| Ctx::mul(c, self, o))
    }
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        with(|c| Ctx::div(c, self, o))
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        with(|c| {
            let m = c.konst(Rat::int(-1));
            Ctx::mul(c, m, self)
        })
    }
}
fn dec(a: Sym, b: Sym, mask: u8) -> bool {
    with(|c| {
        let f = c.cmp(a, b, mask);
        c.decide(f)
    })
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        dec(*self, *o, ZERO)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<std::cmp::Ordering> {
        let nan = with(|c| c.val(*self).bad == 1 || c.val(*o).bad == 1);
        if nan {
            return None;
        }
        Some(if dec(*self, *o, NEG) {
            std::cmp::Ordering::Less
        } else if dec(*self, *o, ZERO) {
            std::cmp::Ordering::Equal
        } else {
            std::cmp::Ordering::Greater
        })
    }
    fn lt(&self, o: &Sym) -> bool {
        dec(*self, *o, NEG)
    }
    fn le(&self, o: &Sym) -> bool {
        dec(*self, *o, NEG | ZERO)
    }
    fn gt(&self, o: &Sym) -> bool {
        dec(*self, *o, POS)
    }
    fn ge(&self, o: &Sym) -> bool {
        dec(*self, *o, POS | ZERO)
    }
}
// what code over f64 can do besides
macro_rules! assign {
    ($($t:ident $f:ident $op:tt)*) => { $(impl std::ops::$t for Sym { fn $f(&mut self, o: Sym) { *self = *self $op o; } })* };
}
assign! { AddAssign add_assign + SubAssign sub_assign - MulAssign mul_assign * DivAssign div_assign / }
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(konst(0), |a, b| a + b)
    }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(konst(1), |a, b| a * b)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        konst(0)
    }
}
impl From<f64> for Sym {
    fn from(v: f64) -> Sym {
        <Sym as DefaultNumberValueTrait>::from_f64(v)
    }
}
fn konst(n: i64) -> Sym {
    with(|c| c.konst(Rat::int(n as i128)))
}
fn nan(x: Sym) -> bool {
    with(|c| c.val(x).bad == 1)
}
#[allow(dead_code)]
impl Sym {
    pub fn abs(self) -> Sym {
        NumberType::abs(self)
    }
    pub fn sqrt(self) -> Sym {
        NumberType::sqrt(self)
    }
    pub fn sin(self) -> Sym {
        NumberType::sin(self)
    }
    pub fn cos(self) -> Sym {
        NumberType::cos(self)
    }
    pub fn acos(self) -> Sym {
        NumberType::acos(self)
    }
    pub fn atan(self) -> Sym {
        NumberType::atan(self)
    }
    pub fn atan2(self, o: Sym) -> Sym {
        NumberType::atan2(self, o)
    }
    pub fn tan(self) -> Sym {
        NumberType::sin(self) / NumberType::cos(self)
    }
    pub fn asin(self) -> Sym {
        let d = konst(1) - self * self;
        NumberType::atan2(self, NumberType::sqrt(d))
    }
    pub fn sin_cos(self) -> (Sym, Sym) {
        (NumberType::sin(self), NumberType::cos(self))
    }
    pub fn min(self, o: Sym) -> Sym {
        if nan(self) || o < self { o } else { self }
    }
    pub fn max(self, o: Sym) -> Sym {
        if nan(self) || o > self { o } else { self }
    }
    pub fn clamp(self, a: Sym, b: Sym) -> Sym {
        if self < a { a } else if self > b { b } else { self }
    }
    pub fn signum(self) -> Sym {
        if nan(self) { self } else if self < konst(0) { konst(-1) } else { konst(1) }
    }
    pub fn copysign(self, o: Sym) -> Sym {
        if o < konst(0) { -NumberType::abs(self) } else { NumberType::abs(self) }
    }
    pub fn powi(self, n: i32) -> Sym {
        let p = (0..n.unsigned_abs()).fold(konst(1), |a, _| a * self);
        if n < 0 { konst(1) / p } else { p }
    }
    pub fn recip(self) -> Sym {
        konst(1) / self
    }
    pub fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    pub fn hypot(self, o: Sym) -> Sym {
        NumberType::sqrt(self * self + o * o)
    }
    pub fn to_degrees(self) -> Sym {
        self * konst(180) / <Sym as DefaultNumberValueTrait>::pi()
    }
    pub fn to_radians(self) -> Sym {
        self * <Sym as DefaultNumberValueTrait>::pi() / konst(180)
    }
    pub fn is_nan(self) -> bool {
        nan(self)
    }
    pub fn is_finite(self) -> bool {
        with(|c| c.val(self).bad == 0)
    }
    pub fn is_infinite(self) -> bool {
        !self.is_finite() && !nan(self)
    }
    pub fn is_normal(self) -> bool {
        self.is_finite() && self != konst(0)
    }
    pub fn is_sign_negative(self) -> bool {
        self < konst(0)
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    pub fn fract(self) -> Sym {
        self.whole()
    }
    pub fn rem_euclid(self, _: Sym) -> Sym {
        self.whole()
    }
    pub fn div_euclid(self, _: Sym) -> Sym {
        self.whole()
    }
    pub fn powf(self, _: Sym) -> Sym {
        self.whole()
    }
    pub fn exp(self) -> Sym {
        self.whole()
    }
    pub fn ln(self) -> Sym {
        self.whole()
    }
    pub fn cbrt(self) -> Sym {
        self.whole()
    }
    pub fn total_cmp(&self, o: &Sym) -> std::cmp::Ordering {
        match (nan(*self), nan(*o)) {
            (false, false) => self.partial_cmp(o).unwrap(),
            (a, b) => a.cmp(&b),
        }
    }
    pub fn round(self) -> Sym {
        self.whole()
    }
    pub fn floor(self) -> Sym {
        self.whole()
    }
    pub fn ceil(self) -> Sym {
        self.whole()
    }
    pub fn trunc(self) -> Sym {
        self.whole()
    }
    fn whole(self) -> Sym {
        abort_unsupported("operation outside the encoding")
    }
}

include!("../../.build/gen_num/num_extra.rs");

impl DefaultNumberValueTrait for Sym {
    extra_DefaultNumberValueTrait! {}
    fn default() -> Sym {
        Self::zero()
    }
    fn default_eps() -> Sym {
        with(|c| {
            let e = c.eps_var();
            c.of_poly(Poly::var(e))
        })
    }
    fn zero() -> Sym {
        with(|c| c.konst(Rat::ZERO))
    }
    fn from_f64(v: f64) -> Sym {
        with(|c| {
            if v == std::f64::consts::PI {
                let p = c.pi_var();
                return c.of_poly(Poly::var(p));
            }
            match Rat::from_f64(v) {
                Some(r) => c.konst(r),
                None if v.is_nan() => c.mk_bad(1),
                None => abort_unsupported("unrepresentable constant"),
            }
        })
    }
    fn pi() -> Sym {
        with(|c| {
            let p = c.pi_var();
            c.of_poly(Poly::var(p))
        })
    }
}
impl NumberType for Sym {
    extra_NumberType! {}
    fn equals(self, o: Sym) -> bool {
        let d = self - o;
        let e = <Sym as DefaultNumberValueTrait>::default_eps();
        NumberType::abs(d) < e
    }
    fn sqrt(self) -> Sym {
        with(|c| Ctx::sqrt(c, self))
    }
    fn abs(self) -> Sym {
        with(|c| Ctx::abs(c, self))
    }
    fn sin(self) -> Sym {
        with(|c| c.cos_sin(self).1)
    }
    fn cos(self) -> Sym {
        with(|c| c.cos_sin(self).0)
    }
    fn acos(self) -> Sym {
        with(|c| {
            let one = c.konst(Rat::ONE);
            let q = Ctx::mul(c, self, self);
            let d = Ctx::add(c, one, q, true);
            let s = Ctx::sqrt(c, d);
            c.atan2(s, self)
        })
    }
    fn atan(self) -> Sym {
        with(|c| {
            let one = c.konst(Rat::ONE);
            c.atan2(self, one)
        })
    }
    fn atan2(self, o: Sym) -> Sym {
        with(|c| c.atan2(self, o))
    }
}
