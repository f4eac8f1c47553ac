//! Multivariate polynomials over Q in normal form.
use crate::rat::Rat;
use std::collections::BTreeMap;

pub type VarId = u16;
/// sorted by variable id, exponents > 0
pub type Mono = Vec<(VarId, u16)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    /// sorted by monomial (Ord on the vector); no zero coefficients
    pub t: Vec<(Mono, Rat)>,
}

fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    r
}

/// a / b as monomials, if b divides a.
fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = Vec::with_capacity(a.len());
    let mut j = 0;
    for &(v, e) in a {
        if j < b.len() && b[j].0 == v {
            if e < b[j].1 {
                return None;
            }
            if e > b[j].1 {
                r.push((v, e - b[j].1));
            }
            j += 1;
        } else {
            if j < b.len() && b[j].0 < v {
                return None;
            }
            r.push((v, e));
        }
    }
    if j < b.len() {
        return None;
    }
    Some(r)
}

/// lexicographic monomial order (smaller variable id = more significant); a
/// genuine monomial order, needed for exact division.
fn mono_cmp_lex(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let (mut i, mut j) = (0, 0);
    loop {
        match (a.get(i), b.get(j)) {
            (None, None) => return Equal,
            (Some(_), None) => return Greater,
            (None, Some(_)) => return Less,
            (Some(x), Some(y)) => {
                if x.0 < y.0 {
                    return Greater;
                } else if x.0 > y.0 {
                    return Less;
                } else if x.1 != y.1 {
                    return x.1.cmp(&y.1);
                }
            }
        }
        i += 1;
        j += 1;
    }
}

impl Poly {
    pub fn zero() -> Poly {
        Poly { t: vec![] }
    }
    pub fn constant(r: Rat) -> Poly {
        if r.is_zero() {
            Poly::zero()
        } else {
            Poly { t: vec![(vec![], r)] }
        }
    }
    pub fn var(v: VarId) -> Poly {
        Poly { t: vec![(vec![(v, 1)], Rat::ONE)] }
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_const(&self) -> Option<Rat> {
        match self.t.len() {
            0 => Some(Rat::ZERO),
            1 if self.t[0].0.is_empty() => Some(self.t[0].1),
            _ => None,
        }
    }
    fn from_map(m: BTreeMap<Mono, Rat>) -> Poly {
        Poly { t: m.into_iter().filter(|(_, c)| !c.is_zero()).collect() }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() {
                r.push(self.t[i].clone());
                i += 1;
            } else if i >= self.t.len() {
                r.push(o.t[j].clone());
                j += 1;
            } else {
                match self.t[i].0.cmp(&o.t[j].0) {
                    std::cmp::Ordering::Less => {
                        r.push(self.t[i].clone());
                        i += 1;
                    }
                    std::cmp::Ordering::Greater => {
                        r.push(o.t[j].clone());
                        j += 1;
                    }
                    std::cmp::Ordering::Equal => {
                        let c = self.t[i].1.add(o.t[j].1);
                        if !c.is_zero() {
                            r.push((self.t[i].0.clone(), c));
                        }
                        i += 1;
                        j += 1;
                    }
                }
            }
        }
        Poly { t: r }
    }
    pub fn scale(&self, k: Rat) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        if k.is_one() {
            return self.clone();
        }
        Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c.mul(k))).collect() }
    }
    pub fn neg(&self) -> Poly {
        self.scale(Rat::int(-1))
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if let Some(k) = self.as_const() {
            return o.scale(k);
        }
        if let Some(k) = o.as_const() {
            return self.scale(k);
        }
        let mut m: BTreeMap<Mono, Rat> = BTreeMap::new();
        for (a, ca) in &self.t {
            for (b, cb) in &o.t {
                let k = mono_mul(a, b);
                let c = ca.mul(*cb);
                match m.get_mut(&k) {
                    Some(e) => *e = e.add(c),
                    None => {
                        m.insert(k, c);
                    }
                }
            }
        }
        Poly::from_map(m)
    }
    pub fn degree_in(&self, v: VarId) -> u16 {
        self.t.iter().flat_map(|(m, _)| m.iter()).filter(|x| x.0 == v).map(|x| x.1).max().unwrap_or(0)
    }
    pub fn total_degree(&self) -> u32 {
        self.t.iter().map(|(m, _)| m.iter().map(|x| x.1 as u32).sum()).max().unwrap_or(0)
    }
    pub fn vars(&self, out: &mut std::collections::BTreeSet<VarId>) {
        for (m, _) in &self.t {
            for (v, _) in m {
                out.insert(*v);
            }
        }
    }
    /// Replace v^2 by `by` until the degree in v is at most 1.
    pub fn reduce_square(&self, v: VarId, by: &Poly) -> Poly {
        let mut cur = self.clone();
        while cur.degree_in(v) >= 2 {
            let mut lo: Vec<(Mono, Rat)> = vec![];
            let mut acc = Poly::zero();
            for (m, c) in &cur.t {
                match m.iter().find(|x| x.0 == v) {
                    Some(&(_, e)) if e >= 2 => {
                        let m2: Mono = m
                            .iter()
                            .filter_map(|&(w, f)| {
                                if w == v {
                                    if f > 2 {
                                        Some((w, f - 2))
                                    } else {
                                        None
                                    }
                                } else {
                                    Some((w, f))
                                }
                            })
                            .collect();
                        acc = acc.add(&by.mul(&Poly { t: vec![(m2, *c)] }));
                    }
                    _ => lo.push((m.clone(), *c)),
                }
            }
            cur = Poly { t: lo }.add(&acc);
        }
        cur
    }
    /// Split by powers of v: result[k] is the coefficient of v^k.
    pub fn coeffs_of(&self, v: VarId) -> Vec<Poly> {
        let mut r: Vec<Vec<(Mono, Rat)>> = vec![vec![]; self.degree_in(v) as usize + 1];
        for (m, c) in &self.t {
            let e = m.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(0);
            let m2: Mono = m.iter().filter(|x| x.0 != v).cloned().collect();
            r[e as usize].push((m2, *c));
        }
        r.into_iter()
            .map(|mut t| {
                t.sort_by(|a, b| a.0.cmp(&b.0));
                Poly { t }
            })
            .collect()
    }
    fn lead_lex(&self) -> &(Mono, Rat) {
        self.t.iter().max_by(|a, b| mono_cmp_lex(&a.0, &b.0)).unwrap()
    }
    /// Exact division: Some(q) with self = q*d.
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if d.is_zero() {
            return None;
        }
        if let Some(k) = d.as_const() {
            return Some(self.scale(k.inv()));
        }
        if self.t.len() > 400 {
            return None;
        }
        let (dm, dc) = d.lead_lex().clone();
        let mut rem = self.clone();
        let mut q = Poly::zero();
        let mut guard = 0;
        while !rem.is_zero() {
            guard += 1;
            if guard > 600 || rem.t.len() > 800 {
                return None;
            }
            let (rm, rc) = rem.lead_lex().clone();
            let m = mono_div(&rm, &dm)?;
            let t = Poly { t: vec![(m, rc.div(dc))] };
            rem = rem.sub(&t.mul(d));
            q = q.add(&t);
        }
        Some(q)
    }
    /// (content, primitive part) with content > 0 or < 0 such that the primitive
    /// part has coprime integer coefficients and a positive leading coefficient.
    pub fn canonical(&self) -> (Rat, Poly) {
        if self.is_zero() {
            return (Rat::ONE, Poly::zero());
        }
        let mut l = 1i128;
        for (_, c) in &self.t {
            l = Rat::lcm_den(l, *c);
        }
        let mut g = 0i128;
        for (_, c) in &self.t {
            g = Rat::gcd_num(g, c.mul(Rat::int(l)));
        }
        let mut k = Rat::new(g, l);
        if self.t.last().unwrap().1.signum() < 0 {
            k = k.neg();
        }
        (k, self.scale(k.inv()))
    }
    pub fn eval(&self, f: &dyn Fn(VarId) -> f64) -> (f64, f64) {
        // value and magnitude (sum of |terms|) for a relative zero test
        let mut v = 0.0;
        let mut mag = 0.0;
        for (m, c) in &self.t {
            let mut x = c.to_f64();
            for &(w, e) in m {
                x *= f(w).powi(e as i32);
            }
            v += x;
            mag += x.abs();
        }
        (v, mag)
    }
    /// p(x + t*shift) == p(x)?  `shift` = variables moved together.
    pub fn shift_invariant(&self, is_shift: &dyn Fn(VarId) -> bool) -> bool {
        // directional derivative along the shift must vanish identically; for
        // polynomials this is equivalent to invariance.
        let mut d: BTreeMap<Mono, Rat> = BTreeMap::new();
        for (m, c) in &self.t {
            for (i, &(v, e)) in m.iter().enumerate() {
                if is_shift(v) {
                    let mut m2 = m.clone();
                    if e == 1 {
                        m2.remove(i);
                    } else {
                        m2[i].1 -= 1;
                    }
                    let k = c.mul(Rat::int(e as i128));
                    match d.get_mut(&m2) {
                        Some(x) => *x = x.add(k),
                        None => {
                            d.insert(m2, k);
                        }
                    }
                }
            }
        }
        d.values().all(|c| c.is_zero())
    }
    pub fn substitute_zero(&self, v: VarId) -> Poly {
        Poly { t: self.t.iter().filter(|(m, _)| !m.iter().any(|x| x.0 == v)).cloned().collect() }
    }
    /// q with q*q = self, if self is a perfect square.
    pub fn sqrt_exact(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        if self.t.len() > 60 {
            return None;
        }
        let (lm, lc) = self.lead_lex().clone();
        let half: Option<Mono> = lm.iter().map(|&(v, e)| if e % 2 == 0 { Some((v, e / 2)) } else { None }).collect();
        let lead = Poly { t: vec![(half?, lc.sqrt_exact()?)] };
        let (dm, dc) = (lead.t[0].0.clone(), lead.t[0].1.mul(Rat::int(2)));
        let mut q = lead;
        for _ in 0..20 {
            let rem = self.sub(&q.mul(&q));
            if rem.is_zero() {
                return Some(q);
            }
            let (rm, rc) = rem.lead_lex().clone();
            let m = mono_div(&rm, &dm)?;
            if mono_cmp_lex(&m, &dm) != std::cmp::Ordering::Less {
                return None;
            }
            q = q.add(&Poly { t: vec![(m, rc.div(dc))] });
        }
        None
    }
    /// self = sum of d_i * l_i^2 with d_i > 0 and l_i linear or constant
    pub fn sum_of_squares(&self) -> Option<Vec<Poly>> {
        if self.total_degree() != 2 || self.t.len() > 60 {
            return None;
        }
        let mut p = self.clone();
        let mut out = vec![];
        loop {
            if let Some(c) = p.as_const() {
                if c.signum() < 0 {
                    return None;
                }
                if c.signum() > 0 {
                    out.push(Poly::constant(c));
                }
                return Some(out);
            }
            let v = p.t.iter().find(|(m, _)| m.len() == 1 && m[0].1 == 2)?.0[0].0;
            let cs = p.coeffs_of(v);
            let c = cs[2].as_const()?;
            if c.signum() <= 0 {
                return None;
            }
            let h = cs[1].scale(c.inv().mul(Rat::new(1, 2)));
            out.push(Poly::var(v).add(&h));
            p = cs[0].sub(&h.mul(&h).scale(c));
        }
    }
    pub fn sum_abs_coeffs(&self) -> f64 {
        self.t.iter().map(|(_, c)| c.to_f64().abs()).sum()
    }
    pub fn all_int(&self) -> bool {
        self.t.iter().all(|(_, c)| c.is_int())
    }
}
