//! Symbolic-execution engine: one path at a time, by re-execution.
//!
//! The library under test is generic over its number type; it is compiled at
//! `T = Sym`, so every comparison it makes reaches `Ctx::decide`, which asks the
//! SMT solver which outcomes are possible for *some* input that satisfies the
//! path condition, takes one and queues the other.  Assertions are discharged by
//! the solver under the complete path condition.
use crate::poly::{Poly, VarId};
use crate::rat::Rat;
use crate::smt::{Answer, Smt};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::sync::Arc;

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub type PolyId = u32;

/// Formula in negation normal form; an atom says "sign(poly) is in the mask".
#[derive(Clone, Debug, PartialEq)]
pub enum F {
    T,
    Fa,
    A(PolyId, u8),
    And(Vec<F>),
    Or(Vec<F>),
}

impl F {
    pub fn neg(&self) -> F {
        match self {
            F::T => F::Fa,
            F::Fa => F::T,
            F::A(p, m) => F::A(*p, 7 ^ m),
            F::And(v) => F::Or(v.iter().map(|f| f.neg()).collect()),
            F::Or(v) => F::And(v.iter().map(|f| f.neg()).collect()),
        }
    }
    fn polys(&self, out: &mut BTreeSet<PolyId>) {
        match self {
            F::A(p, _) => {
                out.insert(*p);
            }
            F::And(v) | F::Or(v) => v.iter().for_each(|f| f.polys(out)),
            _ => {}
        }
    }
}

pub fn f_and(v: Vec<F>) -> F {
    let mut o = vec![];
    for f in v {
        match f {
            F::T => {}
            F::Fa => return F::Fa,
            F::And(w) => o.extend(w),
            f => o.push(f),
        }
    }
    match o.len() {
        0 => F::T,
        1 => o.pop().unwrap(),
        _ => F::And(o),
    }
}
pub fn f_or(v: Vec<F>) -> F {
    let mut o = vec![];
    for f in v {
        match f {
            F::Fa => {}
            F::T => return F::T,
            F::Or(w) => o.extend(w),
            f => o.push(f),
        }
    }
    match o.len() {
        0 => F::Fa,
        1 => o.pop().unwrap(),
        _ => F::Or(o),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Group {
    X,
    Y,
    /// a scalar that scales with the coordinates (a radius)
    Len,
    None,
}

#[derive(Clone, Debug)]
pub enum VarKind {
    Input { name: String, group: Group },
    Eps,
    Pi,
    Sqrt { of: PolyId },
    /// sine of an input direction whose cosine is the variable `cos`
    UnitS { name: String, cos: VarId },
    /// value of atan2(y, x) in (-pi, pi]; x, y polynomials with a common positive
    /// scale removed.  Never reaches the solver: every comparison of a linear
    /// combination of angles is rewritten to signs of polynomials.
    Angle { x: PolyId, y: PolyId },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    B { v: bool, implied: bool },
    C(usize),
}

pub type Model = Arc<Vec<(String, f64)>>;

#[derive(Clone, Debug)]
pub struct Item {
    pub harness: usize,
    pub prefix: Vec<Dec>,
    pub models: Vec<Model>,
}

#[derive(Debug)]
pub enum Abort {
    Infeasible,
    Unsupported(String),
    Bound(String),
    Violated,
    Budget,
}

pub fn abort_unsupported(m: &str) -> ! {
    std::panic::panic_any(Abort::Unsupported(m.to_string()))
}

#[derive(Clone, Debug)]
pub struct Val {
    pub num: PolyId,
    /// known factorisation of the numerator: k * prod f^e (f canonical)
    pub fac: Option<(Rat, Vec<(PolyId, u32)>)>,
    /// denominator: product of polynomials that are > 0 under the path condition
    pub den: Vec<(PolyId, u32)>,
    /// 0 finite, 1 NaN, 2 infinite (or derived from an infinity)
    pub bad: u8,
    /// the value is |num/den| (sign resolved lazily)
    pub abs: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub harness: usize,
    pub what: String,
    pub inputs: Vec<(String, f64)>,
    pub choices: Vec<usize>,
    pub confirmed: bool,
    pub native: String,
    pub detail: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub decisions: u64,
    pub implied: u64,
    pub max_depth: usize,
    pub asserts: u64,
    pub asserts_simplified: u64,
    pub asserts_solver: u64,
    pub unknown_branch: u64,
    pub unknown_assert: u64,
    pub unknown_sample: Vec<String>,
    pub queries: u64,
    pub solver_time: f64,
    pub max_query: f64,
    pub per_assert: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub unsupported: Vec<String>,
    pub unsupported_n: u64,
    pub native_runs: u64,
    pub native_agree: u64,
    pub native_disagree: Vec<String>,
    pub native_disagree_n: u64,
    pub lib_ops: u64,
    pub inexact_ops: u64,
    pub exact_paths: u64,
    pub bounded: Vec<String>,
    pub bounded_n: u64,
    pub exact_bits: Option<u32>,
    pub smt_errors: Vec<String>,
    pub samples: Vec<String>,
    pub witnessed: BTreeMap<String, u64>,
}

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.infeasible += o.infeasible;
        self.decisions += o.decisions;
        self.implied += o.implied;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.asserts += o.asserts;
        self.asserts_simplified += o.asserts_simplified;
        self.asserts_solver += o.asserts_solver;
        self.unknown_branch += o.unknown_branch;
        self.unknown_assert += o.unknown_assert;
        self.unknown_sample.extend(o.unknown_sample.iter().cloned());
        self.unknown_sample.truncate(10);
        self.queries += o.queries;
        self.solver_time += o.solver_time;
        self.max_query = self.max_query.max(o.max_query);
        for (k, v) in &o.per_assert {
            *self.per_assert.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.witnessed {
            *self.witnessed.entry(k.clone()).or_default() += v;
        }
        self.violations.extend(o.violations.iter().cloned());
        self.unsupported.extend(o.unsupported.iter().cloned());
        self.unsupported.truncate(10);
        self.native_runs += o.native_runs;
        self.native_agree += o.native_agree;
        self.native_disagree_n += o.native_disagree_n;
        self.native_disagree.extend(o.native_disagree.iter().cloned());
        self.native_disagree.truncate(10);
        self.lib_ops += o.lib_ops;
        self.inexact_ops += o.inexact_ops;
        self.exact_paths += o.exact_paths;
        self.bounded_n += o.bounded_n;
        self.bounded.extend(o.bounded.iter().cloned());
        self.bounded.truncate(10);
        self.unsupported_n += o.unsupported_n;
        if let Some(b) = o.exact_bits {
            self.exact_bits = Some(self.exact_bits.map_or(b, |x| x.min(b)));
        }
        self.smt_errors.extend(o.smt_errors.iter().cloned());
        self.smt_errors.truncate(10);
        if self.samples.len() < 6 {
            self.samples.extend(o.samples.iter().cloned());
            self.samples.truncate(6);
        }
    }
}

pub type NativeFn = fn(usize, &[(String, f64)], &[usize]) -> crate::native::Outcome;

pub struct Ctx {
    pub harness: usize,
    pub vals: Vec<Val>,
    pub polys: Vec<Poly>,
    pub pmap: HashMap<Poly, PolyId>,
    pub canon: HashMap<PolyId, (Rat, PolyId)>,
    pub vars: Vec<VarKind>,
    pub inputs: HashMap<String, VarId>,
    pub sqrt_memo: HashMap<PolyId, VarId>,
    pub angle_memo: HashMap<(PolyId, PolyId), VarId>,
    pub ops: u64,
    pub atoms: u64,
    pub max_ops: u64,
    pub sqrt_elim_deg: u32,
    pub eps: Option<VarId>,
    pub sos: HashMap<PolyId, Option<Vec<PolyId>>>,
    pub pi: Option<VarId>,
    pub pc: Vec<F>,
    pub pc_vars: Vec<BTreeSet<VarId>>,
    pub signs: HashMap<PolyId, u8>,
    pub forced: Vec<Dec>,
    pub pos: usize,
    pub log: Vec<Dec>,
    pub models: Vec<Model>,
    pub alts: Vec<Item>,
    pub choices: Vec<usize>,
    pub smt: Smt,
    pub stats: Stats,
    pub in_lib: bool,
    pub timeout_ms: u64,
    pub max_decisions: usize,
    pub expect_panic: bool,
    pub native: NativeFn,
    pub path_asserts: Vec<String>,
    pub no_alts: bool,
    pub fork_roots: bool,
    pub deadline: std::time::Instant,
    pub path_inexact: bool,
    pub path_bits: u32,
}

thread_local! {
    pub static CX: RefCell<Option<Ctx>> = RefCell::new(None);
    pub static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CX.with(|c| f(c.borrow_mut().as_mut().expect("no symbolic context")))
}

impl Ctx {
    pub fn new(harness: usize, smt: Smt, native: NativeFn, timeout_ms: u64) -> Ctx {
        Ctx {
            harness,
            vals: vec![],
            polys: vec![],
            pmap: HashMap::new(),
            canon: HashMap::new(),
            vars: vec![],
            inputs: HashMap::new(),
            sqrt_memo: HashMap::new(),
            angle_memo: HashMap::new(),
            ops: 0,
            atoms: 0,
            max_ops: 2_000_000,
            sqrt_elim_deg: 8,
            eps: None,
            sos: HashMap::new(),
            pi: None,
            pc: vec![],
            pc_vars: vec![],
            signs: HashMap::new(),
            forced: vec![],
            pos: 0,
            log: vec![],
            models: vec![],
            alts: vec![],
            choices: vec![],
            smt,
            stats: Stats::default(),
            in_lib: false,
            timeout_ms,
            max_decisions: 6000,
            expect_panic: false,
            native,
            path_asserts: vec![],
            no_alts: false,
            fork_roots: std::env::var("SYMX_NOFORK").is_err(),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(86400),
            path_inexact: false,
            path_bits: 53,
        }
    }

    // ---------------------------------------------------------------- polynomials
    pub fn intern(&mut self, p: Poly) -> PolyId {
        if let Some(&i) = self.pmap.get(&p) {
            return i;
        }
        if self.polys.len() % 16 == 0 && std::time::Instant::now() > self.deadline {
            std::panic::panic_any(Abort::Budget);
        }
        if p.t.len() > 3000 {
            abort_unsupported("polynomial too large");
        }
        let i = self.polys.len() as PolyId;
        self.polys.push(p.clone());
        self.pmap.insert(p, i);
        i
    }
    pub fn canonical(&mut self, p: PolyId) -> (Rat, PolyId) {
        if let Some(&r) = self.canon.get(&p) {
            return r;
        }
        let (k, q) = self.polys[p as usize].canonical();
        let qi = self.intern(q);
        self.canon.insert(p, (k, qi));
        self.canon.insert(qi, (Rat::ONE, qi));
        (k, qi)
    }
    pub fn new_var(&mut self, k: VarKind) -> VarId {
        self.vars.push(k);
        (self.vars.len() - 1) as VarId
    }
    pub fn eps_var(&mut self) -> VarId {
        if self.eps.is_none() {
            let v = self.new_var(VarKind::Eps);
            self.eps = Some(v);
        }
        self.eps.unwrap()
    }
    pub fn pi_var(&mut self) -> VarId {
        if self.pi.is_none() {
            let v = self.new_var(VarKind::Pi);
            self.pi = Some(v);
        }
        self.pi.unwrap()
    }
    /// Multiply and bring to normal form (squares of square roots and of sines are rewritten).
    pub fn pmul(&mut self, a: PolyId, b: PolyId) -> PolyId {
        let p = self.polys[a as usize].mul(&self.polys[b as usize]);
        let p = self.reduce(p);
        self.intern(p)
    }
    pub fn reduce(&mut self, mut p: Poly) -> Poly {
        loop {
            let mut vs = BTreeSet::new();
            p.vars(&mut vs);
            let mut changed = false;
            // innermost last: later variables may be defined from earlier ones
            for v in vs.into_iter().rev() {
                match self.vars[v as usize].clone() {
                    VarKind::Sqrt { of } => {
                        if p.degree_in(v) >= 2 {
                            let by = self.polys[of as usize].clone();
                            p = p.reduce_square(v, &by);
                            changed = true;
                            break;
                        }
                    }
                    VarKind::UnitS { cos, .. } => {
                        if p.degree_in(v) >= 2 {
                            let by = Poly::constant(Rat::ONE).sub(&Poly::var(cos).mul(&Poly::var(cos)));
                            p = p.reduce_square(v, &by);
                            changed = true;
                            break;
                        }
                    }
                    _ => {}
                }
            }
            if !changed {
                return p;
            }
        }
    }
    pub fn padd(&mut self, a: PolyId, b: PolyId) -> PolyId {
        let p = self.polys[a as usize].add(&self.polys[b as usize]);
        self.intern(p)
    }
    pub fn pconst(&mut self, r: Rat) -> PolyId {
        self.intern(Poly::constant(r))
    }

    // ---------------------------------------------------------------- sign formulas
    fn flip(m: u8) -> u8 {
        (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
    }
    /// formula "sign(p) in mask" for a polynomial without epsilon
    pub fn atom(&mut self, p: PolyId, mask: u8) -> F {
        self.atoms += 1;
        if self.atoms % 256 == 0 && std::time::Instant::now() > self.deadline {
            std::panic::panic_any(Abort::Budget);
        }
        let mask = mask & 7;
        if mask == 7 {
            return F::T;
        }
        if mask == 0 {
            return F::Fa;
        }
        if let Some(c) = self.polys[p as usize].as_const() {
            let s = match c.signum() {
                0 => ZERO,
                1 => POS,
                _ => NEG,
            };
            return if s & mask != 0 { F::T } else { F::Fa };
        }
        if self.has_angle(p) {
            return self.angle_sign(p, mask);
        }
        let (k, q) = self.canonical(p);
        let mask = if k.signum() < 0 { Self::flip(mask) } else { mask };
        if self.is_plain_pi(q) {
            return self.atom_pi(q, mask);
        }
        // sqrt rewriting: q = a*s + b with a constant and a single root s
        let poly = self.polys[q as usize].clone();
        let mut vs = BTreeSet::new();
        poly.vars(&mut vs);
        if let Some(e) = self.eps {
            // roots of infinitesimal expressions are always eliminated (the reals
            // with an infinitesimal are an ordered field), then lexicographic signs
            for v in vs.iter().rev() {
                if let VarKind::Sqrt { of } = self.vars[*v as usize] {
                    if self.is_eps(of) {
                        let cs = poly.coeffs_of(*v);
                        if cs.len() != 2 {
                            abort_unsupported("root of an infinitesimal expression");
                        }
                        return self.sqrt_general(of, cs[1].clone(), cs[0].clone(), mask);
                    }
                }
            }
            if vs.contains(&e) {
                return self.lexi(q, e, mask);
            }
        }
        for v in vs.iter().rev() {
            if let VarKind::Sqrt { of } = self.vars[*v as usize] {
                let cs = poly.coeffs_of(*v);
                if cs.len() == 2 {
                    if let Some(a) = cs[1].as_const() {
                        // a*s + b ; normalise to s - c with c = -b/a
                        let m = if a.signum() < 0 { Self::flip(mask) } else { mask };
                        let c = cs[0].scale(a.inv().neg());
                        return self.sqrt_cmp(of, c, m);
                    }
                    if self.fork_roots {
                        let s = match self.fork_sign(q) {
                            0 => ZERO,
                            1 => POS,
                            _ => NEG,
                        };
                        return if s & mask != 0 { F::T } else { F::Fa };
                    }
                    let (sa, sb) = (cs[1].total_degree(), cs[0].total_degree());
                    let dp = self.polys[of as usize].total_degree();
                    if (2 * sa + dp).max(2 * sb) <= self.sqrt_elim_deg {
                        return self.sqrt_general(of, cs[1].clone(), cs[0].clone(), mask);
                    }
                }
                break;
            }
        }
        self.note_sos(q);
        match self.signs.get(&q) {
            Some(k) if k & mask == 0 => F::Fa,
            Some(k) if k & !mask == 0 => F::T,
            _ => F::A(q, mask),
        }
    }
    /// sums of squares are never negative and vanish with all their terms
    fn note_sos(&mut self, q: PolyId) {
        if self.sos.contains_key(&q) {
            return;
        }
        let d = self.polys[q as usize].sum_of_squares();
        let d = d.map(|ls| {
            ls.into_iter()
                .map(|l| {
                    let i = self.intern(l);
                    self.canonical(i).1
                })
                .collect::<Vec<_>>()
        });
        if let Some(ls) = &d {
            let strict = ls.iter().any(|l| self.polys[*l as usize].as_const().is_some());
            let k = self.signs.entry(q).or_insert(7);
            *k &= if strict { POS } else { POS | ZERO };
        }
        self.sos.insert(q, d);
    }
    /// does the value depend on the infinitesimal?
    pub fn is_eps(&self, p: PolyId) -> bool {
        if self.eps.is_none() {
            return false;
        }
        self.polys[p as usize].t.iter().any(|(m, _)| {
            m.iter().any(|(v, _)| match &self.vars[*v as usize] {
                VarKind::Eps => true,
                VarKind::Sqrt { of } => self.is_eps(*of),
                VarKind::Angle { x, y } => self.is_eps(*x) || self.is_eps(*y),
                _ => false,
            })
        })
    }
    /// lexicographic sign for an infinitesimal epsilon > 0
    fn lexi(&mut self, p: PolyId, e: VarId, mask: u8) -> F {
        let cs = self.polys[p as usize].coeffs_of(e);
        let mut acc = if mask & ZERO != 0 { F::T } else { F::Fa };
        for c in cs.into_iter().rev() {
            let ci = self.intern(c);
            let here = self.atom(ci, mask & (NEG | POS));
            let z = self.atom(ci, ZERO);
            acc = f_or(vec![here, f_and(vec![z, acc])]);
        }
        acc
    }
    /// sign(a*sqrt(P) + b) in mask, with the root eliminated
    fn sqrt_general(&mut self, of: PolyId, a: Poly, b: Poly, mask: u8) -> F {
        let aa = self.reduce(a.mul(&a));
        let aap = self.reduce(aa.mul(&self.polys[of as usize].clone()));
        let bb = self.reduce(b.mul(&b));
        let d = self.intern(aap.sub(&bb));
        let (a, b) = (self.intern(a), self.intern(b));
        let mut alts = vec![];
        let at = |s: &mut Self, p: PolyId, m: u8| s.atom(p, m);
        // same signs (or one zero)
        let (a_nn, a_np) = (at(self, a, POS | ZERO), at(self, a, NEG | ZERO));
        let (b_p, b_n) = (at(self, b, POS), at(self, b, NEG));
        let (a_p, a_n) = (at(self, a, POS), at(self, a, NEG));
        let (b_nn, b_np) = (at(self, b, POS | ZERO), at(self, b, NEG | ZERO));
        let (d_p, d_z, d_n) = (at(self, d, POS), at(self, d, ZERO), at(self, d, NEG));
        if mask & POS != 0 {
            alts.push(f_and(vec![a_nn.clone(), b_p.clone()]));
            alts.push(f_and(vec![a_p.clone(), d_p.clone()]));
            alts.push(f_and(vec![a_np.clone(), b_p.clone(), d_n.clone()]));
        }
        if mask & NEG != 0 {
            alts.push(f_and(vec![a_np.clone(), b_n.clone()]));
            alts.push(f_and(vec![a_n.clone(), d_p.clone()]));
            alts.push(f_and(vec![a_nn.clone(), b_n.clone(), d_n.clone()]));
        }
        if mask & ZERO != 0 {
            alts.push(f_and(vec![a_nn, b_np, d_z.clone()]));
            alts.push(f_and(vec![a_np, b_nn, d_z]));
        }
        f_or(alts)
    }
    pub fn has_angle(&self, p: PolyId) -> bool {
        self.polys[p as usize].t.iter().any(|(m, _)| m.iter().any(|(v, _)| matches!(self.vars[*v as usize], VarKind::Angle { .. })))
    }
    /// k*pi + c with k, c constants
    fn is_plain_pi(&self, p: PolyId) -> bool {
        match self.pi {
            None => false,
            Some(pi) => self.polys[p as usize].t.iter().all(|(m, _)| m.is_empty() || (m.len() == 1 && m[0] == (pi, 1))),
        }
    }
    fn atom_pi(&mut self, p: PolyId, mask: u8) -> F {
        let lo = Rat::new(3141592653589793, 1000000000000000);
        let hi = Rat::new(3141592653589794, 1000000000000000);
        let (mut k, mut c) = (Rat::ZERO, Rat::ZERO);
        for (m, q) in &self.polys[p as usize].t {
            if m.is_empty() {
                c = *q
            } else {
                k = *q
            }
        }
        let (a, b) = (k.mul(lo).add(c).signum(), k.mul(hi).add(c).signum());
        if a != b || a == 0 {
            abort_unsupported("comparison too close to a multiple of pi");
        }
        if mask & (if a > 0 { POS } else { NEG }) != 0 {
            F::T
        } else {
            F::Fa
        }
    }
    /// (sum of n_i * angle_i, k) with the value = scale * (sum + k*pi), scale > 0
    fn angle_parts(&mut self, p: PolyId) -> (Rat, Vec<(VarId, i64)>, Rat) {
        let poly = self.polys[p as usize].clone();
        let mut parts: Vec<(VarId, Rat)> = vec![];
        let mut k = Rat::ZERO;
        for (m, c) in &poly.t {
            if m.len() == 1 && m[0].1 == 1 {
                if Some(m[0].0) == self.pi {
                    k = *c;
                    continue;
                }
                if matches!(self.vars[m[0].0 as usize], VarKind::Angle { .. }) {
                    parts.push((m[0].0, *c));
                    continue;
                }
            }
            abort_unsupported("angle arithmetic outside the linear fragment");
        }
        let mut l = 1i128;
        let mut g = 0i128;
        for (_, c) in &parts {
            l = Rat::lcm_den(l, *c);
        }
        for (_, c) in &parts {
            g = Rat::gcd_num(g, c.mul(Rat::int(l)));
        }
        let sc = if g == 0 { Rat::ONE } else { Rat::new(g.abs(), l) };
        let v = parts.into_iter().map(|(v, c)| (v, c.div(sc).num() as i64)).collect();
        (sc, v, k.div(sc))
    }
    fn dir_neg(&mut self, d: (PolyId, PolyId)) -> (PolyId, PolyId) {
        let a = self.polys[d.0 as usize].neg();
        let b = self.polys[d.1 as usize].neg();
        (self.intern(a), self.intern(b))
    }
    fn dir_mul(&mut self, a: (PolyId, PolyId), b: (PolyId, PolyId)) -> (PolyId, PolyId) {
        let (xx, yy) = (self.pmul(a.0, b.0), self.pmul(a.1, b.1));
        let (xy, yx) = (self.pmul(a.0, b.1), self.pmul(a.1, b.0));
        let x = self.polys[xx as usize].sub(&self.polys[yy as usize]);
        let y = self.polys[xy as usize].add(&self.polys[yx as usize]);
        (self.intern(x), self.intern(y))
    }
    fn quarter(&mut self, k: Rat) -> (i64, Option<(PolyId, PolyId)>) {
        let q = k.mul(Rat::int(4));
        if !q.is_int() {
            abort_unsupported("angle offset is not a multiple of pi/4");
        }
        let n = q.num();
        let m = n.div_euclid(4) as i64;
        let (z, o, no) = (self.pconst(Rat::ZERO), self.pconst(Rat::ONE), self.pconst(Rat::int(-1)));
        (m, [None, Some((o, o)), Some((z, o)), Some((no, o))][n.rem_euclid(4) as usize])
    }
    /// sign of a linear combination of angles: every angle is m*pi + phi with phi
    /// in [0, pi) given by a direction; sums of directions are complex products.
    fn angle_sign(&mut self, p: PolyId, mask: u8) -> F {
        let (_, parts, k) = self.angle_parts(p);
        let rooty = parts.iter().any(|(v, _)| match self.vars[*v as usize] {
            VarKind::Angle { x, y } => self.has_root(x) || self.has_root(y),
            _ => false,
        });
        if rooty {
            let s = self.angle_fork(parts, k);
            let b = match s {
                0 => ZERO,
                1 => POS,
                _ => NEG,
            };
            return if b & mask != 0 { F::T } else { F::Fa };
        }
        let (m0, d0) = self.quarter(k);
        // (guard, m, direction or None for phi = 0)
        let mut alts: Vec<(F, i64, Option<(PolyId, PolyId)>)> = vec![(F::T, m0, d0)];
        for (v, n) in parts {
            let (x, y) = match self.vars[v as usize] {
                VarKind::Angle { x, y } => (x, y),
                _ => unreachable!(),
            };
            if n.abs() > 4 {
                abort_unsupported("large angle multiple");
            }
            let nx = self.polys[x as usize].neg();
            let nx = self.intern(nx);
            let ny = self.polys[y as usize].neg();
            let ny = self.intern(ny);
            for _ in 0..n.abs() {
                let (gp, gn, gz) = (self.atom(y, POS), self.atom(y, NEG), self.atom(y, ZERO));
                let (gxn, gxp) = (self.atom(x, NEG), self.atom(x, POS | ZERO));
                let cases = if n > 0 {
                    vec![(gp, 0, Some((x, y))), (gn, -1, Some((nx, ny))), (f_and(vec![gz.clone(), gxp]), 0, None), (f_and(vec![gz, gxn]), 1, None)]
                } else {
                    vec![(gp, -1, Some((nx, y))), (gn, 0, Some((x, ny))), (f_and(vec![gz.clone(), gxp]), 0, None), (f_and(vec![gz, gxn]), -1, None)]
                };
                let mut next = vec![];
                for (g, m, d) in &alts {
                    for (h, m2, d2) in &cases {
                        let gh = f_and(vec![g.clone(), h.clone()]);
                        let gh = self.simplify(&gh);
                        if gh == F::Fa {
                            continue;
                        }
                        match (d, d2) {
                            (None, e) | (e, None) => next.push((gh, m + m2, *e)),
                            (Some(a), Some(b)) => {
                                let c = self.dir_mul(*a, *b);
                                let nc = self.dir_neg(c);
                                let (yp, yn, yz) = (self.atom(c.1, POS), self.atom(c.1, NEG), self.atom(c.1, ZERO));
                                for (t, mm, dd) in [(yp, m + m2, Some(c)), (yn, m + m2 + 1, Some(nc)), (yz, m + m2 + 1, None)] {
                                    let t = f_and(vec![gh.clone(), t]);
                                    let t = self.simplify(&t);
                                    if t != F::Fa {
                                        next.push((t, mm, dd));
                                    }
                                }
                            }
                        }
                    }
                }
                alts = next;
            }
        }
        let mut pos: [Vec<F>; 3] = [vec![], vec![], vec![]];
        for (g, m, d) in alts {
            let s = if m < 0 {
                0
            } else if m == 0 && d.is_none() {
                1
            } else {
                2
            };
            pos[s].push(g);
        }
        let mut out = vec![];
        for s in 0..3 {
            if mask & (1 << s) != 0 {
                out.append(&mut pos[s]);
            }
        }
        f_or(out)
    }
    fn has_root(&self, p: PolyId) -> bool {
        self.polys[p as usize].t.iter().any(|(m, _)| m.iter().any(|(v, _)| matches!(self.vars[*v as usize], VarKind::Sqrt { .. })))
    }
    /// sign of a polynomial on this path, by forking on atomic sign conditions
    fn fork_sign(&mut self, p: PolyId) -> i32 {
        if let Some(c) = self.polys[p as usize].as_const() {
            return c.signum();
        }
        let mut vs = BTreeSet::new();
        self.polys[p as usize].vars(&mut vs);
        for v in vs.iter().rev() {
            if let VarKind::Sqrt { of } = self.vars[*v as usize] {
                let cs = self.polys[p as usize].coeffs_of(*v);
                if cs.len() != 2 {
                    break;
                }
                let (a, b) = (cs[1].clone(), cs[0].clone());
                let (ai, bi) = (self.intern(a.clone()), self.intern(b.clone()));
                let (mut sa, sb) = (self.fork_sign(ai), self.fork_sign(bi));
                if sa != 0 && self.fork_sign(of) == 0 {
                    sa = 0;
                }
                if sa == 0 || sa == sb {
                    return sb;
                }
                if sb == 0 {
                    return sa;
                }
                let aa = self.reduce(a.mul(&a));
                let aap = self.reduce(aa.mul(&self.polys[of as usize].clone()));
                let bb = self.reduce(b.mul(&b));
                let d = self.intern(aap.sub(&bb));
                let sd = self.fork_sign(d);
                return if sd > 0 {
                    sa
                } else if sd < 0 {
                    sb
                } else {
                    0
                };
            }
        }
        let f = self.atom(p, POS);
        if self.decide(f) {
            return 1;
        }
        let f = self.atom(p, NEG);
        if self.decide(f) {
            return -1;
        }
        0
    }
    /// sign of a linear combination of angles with roots in their directions
    fn angle_fork(&mut self, parts: Vec<(VarId, i64)>, k: Rat) -> i32 {
        let (mut m, mut dir) = self.quarter(k);
        for (v, n) in parts {
            let (x, y) = match self.vars[v as usize] {
                VarKind::Angle { x, y } => (x, y),
                _ => unreachable!(),
            };
            if n.abs() > 4 {
                abort_unsupported("large angle multiple");
            }
            let neg = |s: &mut Self, p: PolyId| {
                let q = s.polys[p as usize].neg();
                s.intern(q)
            };
            let (nx, ny) = (neg(self, x), neg(self, y));
            let sy = self.fork_sign(y);
            let sx = if sy == 0 { self.fork_sign(x) } else { 0 };
            for _ in 0..n.abs() {
                let (m2, d2) = match (sy, n > 0) {
                    (1, true) => (0, Some((x, y))),
                    (-1, true) => (-1, Some((nx, ny))),
                    (1, false) => (-1, Some((nx, y))),
                    (-1, false) => (0, Some((x, ny))),
                    (_, true) => (if sx < 0 { 1 } else { 0 }, None),
                    (_, false) => (if sx < 0 { -1 } else { 0 }, None),
                };
                m += m2;
                dir = match (dir, d2) {
                    (None, e) | (e, None) => e,
                    (Some(a), Some(b)) => {
                        let c = self.dir_mul(a, b);
                        let nc = self.dir_neg(c);
                        match self.fork_sign(c.1) {
                            1 => Some(c),
                            -1 => {
                                m += 1;
                                Some(nc)
                            }
                            _ => {
                                m += 1;
                                None
                            }
                        }
                    }
                };
            }
        }
        if m < 0 {
            -1
        } else if m == 0 && dir.is_none() {
            0
        } else {
            1
        }
    }
    /// direction (cos, sin) numerators of a linear combination of angles and the
    /// squared lengths of the factors
    pub fn angle_dir(&mut self, p: PolyId) -> ((PolyId, PolyId), Vec<PolyId>) {
        let (sc, parts, k) = self.angle_parts(p);
        if !sc.is_one() {
            abort_unsupported("fraction of an angle");
        }
        let (m, d) = self.quarter(k);
        let (z, o) = (self.pconst(Rat::ZERO), self.pconst(Rat::ONE));
        let mut dir = d.unwrap_or((o, z));
        if m.rem_euclid(2) == 1 {
            dir = self.dir_neg(dir);
        }
        let mut lens = vec![];
        let l2 = |s: &mut Self, d: (PolyId, PolyId)| {
            let (a, b) = (s.pmul(d.0, d.0), s.pmul(d.1, d.1));
            s.padd(a, b)
        };
        let q = l2(self, dir);
        lens.push(q);
        for (v, n) in parts {
            let (x, y) = match self.vars[v as usize] {
                VarKind::Angle { x, y } => (x, y),
                _ => unreachable!(),
            };
            let yy = if n < 0 {
                let ny = self.polys[y as usize].neg();
                self.intern(ny)
            } else {
                y
            };
            for _ in 0..n.abs() {
                dir = self.dir_mul(dir, (x, yy));
                let q = l2(self, (x, y));
                lens.push(q);
            }
        }
        (dir, lens)
    }
    pub fn angle_var(&mut self, x: PolyId, y: PolyId) -> VarId {
        if let Some(v) = self.angle_memo.get(&(x, y)) {
            return *v;
        }
        let v = self.new_var(VarKind::Angle { x, y });
        self.angle_memo.insert((x, y), v);
        v
    }
    /// is poly known to be strictly positive on this path?
    pub fn known_pos(&mut self, p: PolyId) -> bool {
        if let Some(c) = self.polys[p as usize].as_const() {
            return c.signum() > 0;
        }
        if self.has_angle(p) {
            return false;
        }
        let f = self.atom(p, POS);
        self.simplify(&f) == F::T
    }
    /// sign(sqrt(P) - c) in mask
    fn sqrt_cmp(&mut self, of: PolyId, c: Poly, mask: u8) -> F {
        let cc = self.reduce(c.mul(&c));
        let d = self.polys[of as usize].sub(&cc);
        let d = self.intern(d);
        let c = self.intern(c);
        let mut alts = vec![];
        if mask & POS != 0 {
            let a = self.atom(c, NEG);
            let b = self.atom(d, POS);
            alts.push(f_or(vec![a, b]));
        }
        if mask & ZERO != 0 {
            let a = self.atom(c, POS | ZERO);
            let b = self.atom(d, ZERO);
            alts.push(f_and(vec![a, b]));
        }
        if mask & NEG != 0 {
            let a = self.atom(c, POS);
            let b = self.atom(d, NEG);
            alts.push(f_and(vec![a, b]));
        }
        f_or(alts)
    }
    fn atom_factors(&mut self, fs: &[(PolyId, u32)], mask: u8) -> F {
        if fs.is_empty() {
            return if mask & POS != 0 { F::T } else { F::Fa };
        }
        let (f, e) = fs[0];
        let rest = &fs[1..];
        if e % 2 == 0 {
            // f^e is > 0 or 0
            let z = self.atom(f, ZERO);
            let nz = self.atom(f, NEG | POS);
            let r = self.atom_factors(rest, mask);
            let zc = if mask & ZERO != 0 { z } else { F::Fa };
            return f_or(vec![zc, f_and(vec![nz, r])]);
        }
        if rest.is_empty() {
            return self.atom(f, mask);
        }
        let p = self.atom(f, POS);
        let n = self.atom(f, NEG);
        let z = self.atom(f, ZERO);
        let rp = self.atom_factors(rest, mask);
        let rn = self.atom_factors(rest, Self::flip(mask));
        let zc = if mask & ZERO != 0 { z } else { F::Fa };
        f_or(vec![zc, f_and(vec![p, rp]), f_and(vec![n, rn])])
    }
    /// formula "sign(value) in mask"
    pub fn val_sign(&mut self, v: u32, mask: u8) -> F {
        let val = self.vals[v as usize].clone();
        if val.bad == 1 {
            return F::Fa;
        }
        if val.bad == 2 {
            abort_unsupported("comparison with an infinity");
        }
        if val.abs {
            let mut v2 = val.clone();
            v2.abs = false;
            self.vals.push(v2);
            let w = (self.vals.len() - 1) as u32;
            let m = (mask & ZERO) | if mask & POS != 0 { POS | NEG } else { 0 };
            return self.val_sign(w, m);
        }
        if let Some((k, fs)) = &val.fac {
            if fs.len() > 1 || fs.iter().any(|f| f.1 > 1) {
                let m = if k.signum() < 0 { Self::flip(mask) } else { mask };
                return self.atom_factors(&fs.clone(), m);
            }
        }
        self.atom(val.num, mask)
    }

    // ---------------------------------------------------------------- simplification
    pub fn simplify(&self, f: &F) -> F {
        match f {
            F::A(p, m) => {
                let k = self.signs.get(p).copied().unwrap_or(7);
                if k & m == 0 {
                    F::Fa
                } else if k & !m == 0 {
                    F::T
                } else {
                    F::A(*p, *m & k)
                }
            }
            F::And(v) => f_and(v.iter().map(|x| self.simplify(x)).collect()),
            F::Or(v) => f_or(v.iter().map(|x| self.simplify(x)).collect()),
            f => f.clone(),
        }
    }
    fn learn(&mut self, f: &F) {
        match f {
            F::A(p, m) => {
                let k = self.signs.entry(*p).or_insert(7);
                *k &= *m;
                if *k == ZERO {
                    if let Some(Some(ls)) = self.sos.get(p) {
                        for l in ls.clone() {
                            *self.signs.entry(l).or_insert(7) &= ZERO;
                        }
                    }
                }
            }
            F::And(v) => {
                for x in v.clone() {
                    self.learn(&x);
                }
            }
            _ => {}
        }
    }
    fn push_pc(&mut self, f: F, implied: bool) {
        self.learn(&f);
        if !implied {
            let mut vs = BTreeSet::new();
            self.form_vars(&f, &mut vs);
            self.pc.push(f);
            self.pc_vars.push(vs);
        }
    }

    // ---------------------------------------------------------------- evaluation
    pub fn var_values(&self, m: &Model) -> Option<Vec<f64>> {
        let mut r = vec![f64::NAN; self.vars.len()];
        for i in 0..self.vars.len() {
            r[i] = match &self.vars[i] {
                VarKind::Input { name, .. } => m.iter().find(|x| &x.0 == name).map(|x| x.1)?,
                VarKind::Eps => 0.0,
                VarKind::Pi => std::f64::consts::PI,
                VarKind::Sqrt { of } => {
                    let (v, mag) = self.polys[*of as usize].eval(&|w| r[w as usize]);
                    if v < 0.0 && v > -1e-9 * mag {
                        0.0
                    } else {
                        v.sqrt()
                    }
                }
                VarKind::UnitS { name, .. } => m.iter().find(|x| &x.0 == name).map(|x| x.1)?,
                VarKind::Angle { x, y } => {
                    let (xv, _) = self.polys[*x as usize].eval(&|w| r[w as usize]);
                    let (yv, ym) = self.polys[*y as usize].eval(&|w| r[w as usize]);
                    let yv = if yv.abs() < 1e-12 * ym { 0.0 } else { yv };
                    yv.atan2(xv)
                }
            };
        }
        Some(r)
    }
    fn eval_form(&self, f: &F, vals: &[f64]) -> Option<bool> {
        match f {
            F::T => Some(true),
            F::Fa => Some(false),
            F::A(p, m) => {
                let (v, mag) = self.polys[*p as usize].eval(&|w| vals[w as usize]);
                if v.is_nan() {
                    return None;
                }
                let s = if v == 0.0 || v.abs() < 1e-13 * mag {
                    ZERO
                } else if v.abs() < 1e-8 * mag {
                    return None;
                } else if v > 0.0 {
                    POS
                } else {
                    NEG
                };
                Some(s & m != 0)
            }
            F::And(v) => {
                let mut r = Some(true);
                for x in v {
                    match self.eval_form(x, vals) {
                        Some(false) => return Some(false),
                        None => r = None,
                        _ => {}
                    }
                }
                r
            }
            F::Or(v) => {
                let mut r = Some(false);
                for x in v {
                    match self.eval_form(x, vals) {
                        Some(true) => return Some(true),
                        None => r = None,
                        _ => {}
                    }
                }
                r
            }
        }
    }

    // ---------------------------------------------------------------- solver queries
    fn form_vars(&self, f: &F, out: &mut BTreeSet<VarId>) {
        let mut ps = BTreeSet::new();
        f.polys(&mut ps);
        for p in ps {
            self.polys[p as usize].vars(out);
        }
        self.close_vars(out);
    }
    /// add the variables that definitions of auxiliary variables mention
    fn close_vars(&self, out: &mut BTreeSet<VarId>) {
        let mut work: Vec<VarId> = out.iter().cloned().collect();
        while let Some(v) = work.pop() {
            let mut add = BTreeSet::new();
            match &self.vars[v as usize] {
                VarKind::Sqrt { of } => self.polys[*of as usize].vars(&mut add),
                VarKind::UnitS { cos, .. } => {
                    add.insert(*cos);
                }
                _ => {}
            }
            for a in add {
                if out.insert(a) {
                    work.push(a);
                }
            }
        }
    }
    fn smt_poly(&self, p: &Poly) -> String {
        let mut l = 1i128;
        for (_, c) in &p.t {
            l = Rat::lcm_den(l, *c);
        }
        let mut s = String::new();
        if p.t.is_empty() {
            return "0.0".into();
        }
        if p.t.len() > 1 {
            s.push_str("(+");
        }
        for (m, c) in &p.t {
            let k = c.mul(Rat::int(l)).num();
            s.push(' ');
            let ks = if k < 0 { format!("(- {}.0)", -k) } else { format!("{}.0", k) };
            let n: u32 = m.iter().map(|x| x.1 as u32).sum();
            if n == 0 {
                s.push_str(&ks);
                continue;
            }
            if k == 1 && n == 1 {
                let _ = write!(s, "v{}", m[0].0);
                continue;
            }
            s.push_str("(*");
            if k != 1 {
                s.push(' ');
                s.push_str(&ks);
            }
            for (v, e) in m {
                for _ in 0..*e {
                    let _ = write!(s, " v{}", v);
                }
            }
            s.push(')');
        }
        if p.t.len() > 1 {
            s.push(')');
        }
        s
    }
    fn smt_form(&self, f: &F, margin: bool, out: &mut String) {
        match f {
            F::T => out.push_str("true"),
            F::Fa => out.push_str("false"),
            F::A(p, m) if !margin && *m != 7 && matches!(self.sos.get(p), Some(Some(_))) => {
                let ls = self.sos[p].clone().unwrap();
                if m & ZERO != 0 {
                    // p >= 0 always: p <= 0 and p = 0 say the same, p >= 0 says nothing
                    if m & POS != 0 {
                        out.push_str("true");
                    } else {
                        out.push_str("(and true");
                        for l in ls {
                            let _ = write!(out, " (= {} 0.0)", self.smt_poly(&self.polys[l as usize]));
                        }
                        out.push(')');
                    }
                } else if m & POS != 0 {
                    out.push_str("(or false");
                    for l in ls {
                        let _ = write!(out, " (not (= {} 0.0))", self.smt_poly(&self.polys[l as usize]));
                    }
                    out.push(')');
                } else {
                    out.push_str("false");
                }
            }
            F::A(p, m) => {
                let e = format!("p{}", p);
                let mg = if self.vars.iter().any(|v| matches!(v, VarKind::UnitS { .. })) { "0.0625" } else { "1.0" };
                let (mp, mn) = (format!("(>= {{}} {})", mg), format!("(<= {{}} (- {}))", mg));
                let (pos, neg) = if margin { (mp.as_str(), mn.as_str()) } else { ("(> {} 0.0)", "(< {} 0.0)") };
                let t = match *m {
                    NEG => neg.replace("{}", &e),
                    ZERO => format!("(= {} 0.0)", e),
                    POS => pos.replace("{}", &e),
                    3 => format!("(<= {} 0.0)", e),
                    6 => format!("(>= {} 0.0)", e),
                    5 => {
                        if margin {
                            format!("(or {} {})", pos.replace("{}", &e), neg.replace("{}", &e))
                        } else {
                            format!("(not (= {} 0.0))", e)
                        }
                    }
                    _ => "true".into(),
                };
                out.push_str(&t);
            }
            F::And(v) | F::Or(v) => {
                out.push_str(if matches!(f, F::And(_)) { "(and" } else { "(or" });
                for x in v {
                    out.push(' ');
                    self.smt_form(x, margin, out);
                }
                out.push(')');
            }
        }
    }
    /// twice the degree in the lengths, if the polynomial is homogeneous in them
    fn degree2(&self, p: PolyId) -> Option<u32> {
        let mut d: Option<u32> = None;
        for (m, _) in &self.polys[p as usize].t {
            let mut k = 0;
            for (v, e) in m {
                k += *e as u32
                    * match &self.vars[*v as usize] {
                        VarKind::Input { group: Group::None, .. } | VarKind::UnitS { .. } | VarKind::Pi => 0,
                        VarKind::Input { .. } => 2,
                        VarKind::Sqrt { of } => {
                            let d = self.degree2(*of)?;
                            if d % 2 != 0 {
                                return None;
                            }
                            d / 2
                        }
                        _ => return None,
                    };
            }
            if *d.get_or_insert(k) != k {
                return None;
            }
        }
        Some(d.unwrap_or(0))
    }
    /// Is PC and `goal` satisfiable?  mode: 0 plain, 1 margin (counterexample
    /// polishing), 2 integer inputs in a small box (counterexample polishing).
    pub fn query(&mut self, goal: &F, mode: u8) -> Answer {
        if std::time::Instant::now() > self.deadline {
            std::panic::panic_any(Abort::Budget);
        }
        // cone of influence: PC conjuncts that share variables with the goal
        let mut vs: BTreeSet<VarId> = BTreeSet::new();
        self.form_vars(goal, &mut vs);
        let mut used = vec![false; self.pc.len()];
        loop {
            let mut ch = false;
            for i in 0..self.pc.len() {
                if !used[i] && (mode > 0 || self.pc_vars[i].iter().any(|v| Some(*v) != self.pi && vs.contains(v))) {
                    used[i] = true;
                    ch = true;
                    vs.extend(self.pc_vars[i].iter().cloned());
                }
            }
            if !ch {
                break;
            }
        }
        // atomic facts about one polynomial are merged into a single sign condition
        let mut forms: Vec<F> = vec![];
        let mut merged: BTreeSet<PolyId> = BTreeSet::new();
        for (i, f) in self.pc.iter().enumerate() {
            if used[i] {
                match f {
                    F::A(p, m) => {
                        if merged.insert(*p) {
                            forms.push(F::A(*p, self.signs.get(p).copied().unwrap_or(7) & m));
                        }
                    }
                    f => forms.push(f.clone()),
                }
            }
        }
        forms.push(goal.clone());
        let mut ps = BTreeSet::new();
        for f in forms.iter() {
            f.polys(&mut ps);
        }
        for p in &ps {
            self.polys[*p as usize].vars(&mut vs);
        }
        self.close_vars(&mut vs);
        // definitions of auxiliary variables
        let mut defs = String::new();
        let mut def_polys: Vec<PolyId> = vec![];
        let mut nonlinear = false;
        for v in &vs {
            match &self.vars[*v as usize] {
                VarKind::Sqrt { of } => {
                    nonlinear = true;
                    def_polys.push(*of);
                    let p = &self.polys[*of as usize];
                    let mut l = 1i128;
                    for (_, c) in &p.t {
                        l = Rat::lcm_den(l, *c);
                    }
                    let _ = writeln!(defs, "(assert (>= v{} 0.0))\n(assert (= (* {}.0 v{} v{}) {}))", v, l, v, v, self.smt_poly(p));
                }
                VarKind::UnitS { cos, .. } => {
                    nonlinear = true;
                    let (c, s) = (*cos, *v);
                    let _ = writeln!(defs, "(assert (= (+ (* v{} v{}) (* v{} v{})) 1.0))", c, c, s, s);
                }
                VarKind::Pi => {
                    let _ = writeln!(defs, "(assert (> v{} (/ 3141592653.0 1000000000.0)))\n(assert (< v{} (/ 3141592654.0 1000000000.0)))", v, v);
                }
                _ => {}
            }
        }
        for p in &ps {
            if self.polys[*p as usize].total_degree() > 1 {
                nonlinear = true;
            }
        }
        let int_mode = mode == 2;
        let mut body = String::new();
        for v in &vs {
            let _ = writeln!(body, "(declare-const v{} Real)", v);
        }
        // translation symmetry, verified polynomial by polynomial
        let mut anchored: BTreeSet<VarId> = BTreeSet::new();
        if mode == 0 {
            for g in [Group::X, Group::Y] {
                // anchor the point that occurs in most polynomials at the origin
                let first = vs
                    .iter()
                    .cloned()
                    .filter(|v| matches!(&self.vars[*v as usize], VarKind::Input{group,..} if *group==g))
                    .max_by_key(|v| {
                        let o = v - if g == Group::Y { 1 } else { 0 };
                        let n = ps.iter().filter(|p| { let q = &self.polys[**p as usize]; q.degree_in(o) > 0 || q.degree_in(o + 1) > 0 }).count();
                        (n, std::cmp::Reverse(*v))
                    });
                if let Some(first) = first {
                    let inv = |p: &PolyId| {
                        self.polys[*p as usize].shift_invariant(&|v| matches!(&self.vars[v as usize], VarKind::Input{group,..} if *group==g))
                    };
                    if ps.iter().all(|p| inv(p)) && def_polys.iter().all(|p| inv(p)) {
                        let _ = writeln!(body, "(assert (= v{} 0.0))", first);
                        anchored.insert(first);
                    }
                }
            }
        }
        // scaling symmetry, likewise: all polynomials homogeneous in the lengths
        let mut unit_len: Option<VarId> = None;
        if mode == 0 {
            unit_len = vs.iter().cloned().find(|v| {
                matches!(&self.vars[*v as usize], VarKind::Input { group: Group::Len, .. })
                    && self.pmap.get(&Poly::var(*v)).map_or(false, |p| self.signs.get(p) == Some(&POS))
            });
            if unit_len.is_some() && !ps.iter().chain(def_polys.iter()).all(|p| self.degree2(*p).is_some()) {
                unit_len = None;
            }
        }
        if int_mode {
            for v in &vs {
                if matches!(self.vars[*v as usize], VarKind::Input { .. }) {
                    let _ = writeln!(body, "(declare-const i{} Int)\n(assert (and (>= i{} (- 12)) (<= i{} 12)))\n(assert (= v{} (to_real i{})))", v, v, v, v, v);
                }
            }
        }
        body.push_str(&defs);
        let mut alt = unit_len.map(|v| format!("{}(assert (= v{} 1.0))\n", body, v));
        for p in &ps {
            let mut q = self.polys[*p as usize].clone();
            if !anchored.is_empty() {
                q.t.retain(|(m, _)| !m.iter().any(|(v, _)| anchored.contains(v)));
            }
            let _ = writeln!(body, "(define-fun p{} () Real {})", p, self.smt_poly(&q));
            if let (Some(u), Some(alt)) = (unit_len, &mut alt) {
                q.t.iter_mut().for_each(|(m, _)| m.retain(|(v, _)| *v != u));
                let _ = writeln!(alt, "(define-fun p{} () Real {})", p, self.smt_poly(&q));
            }
        }
        for f in &forms {
            let mut t = String::from("(assert ");
            self.smt_form(f, mode >= 1, &mut t);
            t.push_str(")\n");
            body.push_str(&t);
            if let Some(a) = &mut alt {
                a.push_str(&t);
            }
        }
        let names: Vec<String> = vs
            .iter()
            .filter(|v| matches!(self.vars[**v as usize], VarKind::Input { .. } | VarKind::UnitS { .. }))
            .map(|v| format!("v{}", v))
            .collect();
        let to = if mode > 0 { self.timeout_ms.min(6000) } else { self.timeout_ms };
        self.smt.deadline = self.deadline;
        let ans = self.smt.check(&body, alt.as_deref(), &names, nonlinear && !int_mode, to);
        match ans {
            Answer::Sat(vals) if vals.is_empty() && !names.is_empty() => Answer::Sat(vec![]),
            Answer::Sat(vals) => {
                // complete with the current model for inputs outside the cone
                let mut m: Vec<(String, f64)> = vec![];
                let base = self.models.first().cloned();
                for (i, k) in self.vars.iter().enumerate() {
                    if let VarKind::Input { name, .. } | VarKind::UnitS { name, .. } = k {
                        let key = format!("v{}", i);
                        let v = vals.iter().find(|x| x.0 == key).map(|x| x.1).or_else(|| base.as_ref().and_then(|b| b.iter().find(|x| &x.0 == name).map(|x| x.1)));
                        let v = match v {
                            Some(v) => v,
                            None => return Answer::Sat(vec![]),
                        };
                        m.push((name.clone(), v));
                    }
                }
                Answer::Sat(m)
            }
            a => a,
        }
    }

    // ---------------------------------------------------------------- branching
    pub fn decide(&mut self, f: F) -> bool {
        let f = self.simplify(&f);
        match f {
            F::T => return true,
            F::Fa => return false,
            _ => {}
        }
        if self.log.len() >= self.max_decisions {
            std::panic::panic_any(Abort::Bound("decision bound exceeded".into()));
        }
        if self.pos < self.forced.len() {
            let d = self.forced[self.pos].clone();
            self.pos += 1;
            match d {
                Dec::B { v, implied } => {
                    self.log.push(Dec::B { v, implied });
                    let g = if v { f } else { f.neg() };
                    self.push_pc(g.clone(), implied);
                    if self.pos == self.forced.len() {
                        self.filter_models();
                    }
                    return v;
                }
                _ => abort_unsupported("replay mismatch (choice expected a branch)"),
            }
        }
        self.stats.decisions += 1;
        let mut t_models = vec![];
        let mut f_models = vec![];
        for m in &self.models {
            if let Some(vals) = self.var_values(m) {
                match self.eval_form(&f, &vals) {
                    Some(true) => t_models.push(m.clone()),
                    Some(false) => f_models.push(m.clone()),
                    None => {}
                }
            }
        }
        let nf = f.neg();
        let (mut can_t, mut can_f) = (!t_models.is_empty(), !f_models.is_empty());
        let mut q = |s: &mut Self, g: &F, ms: &mut Vec<Model>| -> bool {
            match s.query(g, 0) {
                Answer::Sat(m) => {
                    if !m.is_empty() {
                        ms.push(Arc::new(m));
                    }
                    true
                }
                Answer::Unsat => false,
                Answer::Unknown => {
                    s.stats.unknown_branch += 1;
                    true
                }
            }
        };
        if !can_t && !can_f {
            can_t = q(self, &f, &mut t_models);
            if can_t {
                can_f = q(self, &nf, &mut f_models);
            } else {
                can_f = true; // PC is satisfiable
            }
        } else if !can_t {
            can_t = q(self, &f, &mut t_models);
        } else if !can_f {
            can_f = q(self, &nf, &mut f_models);
        }
        let v = can_t;
        let implied = !(can_t && can_f);
        if implied {
            self.stats.implied += 1;
        } else if !self.no_alts {
            let mut p = self.log.clone();
            p.push(Dec::B { v: false, implied: false });
            self.alts.push(Item { harness: self.harness, prefix: p, models: f_models.clone() });
        }
        self.log.push(Dec::B { v, implied });
        self.models = if v { t_models } else { f_models };
        if self.models.len() > 24 {
            self.models.truncate(24);
        }
        self.push_pc(if v { f } else { nf }, implied);
        v
    }
    pub fn extend_models(&mut self, name: &str, v: f64) {
        // while a prefix is replayed, a model that lacks the input is incomplete
        if self.pos < self.forced.len() {
            return;
        }
        for m in self.models.iter_mut() {
            if !m.iter().any(|x| x.0 == name) {
                let mut w = (**m).clone();
                w.push((name.to_string(), v));
                *m = Arc::new(w);
            }
        }
        if self.models.is_empty() && self.pc.is_empty() && self.vars.len() <= 2 {
            self.models.push(Arc::new(vec![(name.to_string(), v)]));
        }
    }
    fn filter_models(&mut self) {
        // models handed over with a work item: keep those with all inputs known
    }
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            self.choices.push(0);
            return 0;
        }
        let r = if self.pos < self.forced.len() {
            let d = self.forced[self.pos].clone();
            self.pos += 1;
            match d {
                Dec::C(k) => k,
                _ => abort_unsupported("replay mismatch (branch expected a choice)"),
            }
        } else {
            self.stats.decisions += 1;
            for k in (1..n).rev() {
                let mut p = self.log.clone();
                p.push(Dec::C(k));
                self.alts.push(Item { harness: self.harness, prefix: p, models: self.models.clone() });
            }
            0
        };
        self.log.push(Dec::C(r));
        self.choices.push(r);
        r
    }
    pub fn assume(&mut self, f: F) {
        let f = self.simplify(&f);
        match f {
            F::T => return,
            F::Fa => std::panic::panic_any(Abort::Infeasible),
            _ => {}
        }
        let replaying = self.pos < self.forced.len();
        let mut keep = vec![];
        for m in &self.models {
            if let Some(vals) = self.var_values(m) {
                if self.eval_form(&f, &vals) == Some(true) {
                    keep.push(m.clone());
                }
            } else if replaying {
                keep.push(m.clone());
            }
        }
        if !replaying {
            if keep.is_empty() {
                match self.query(&f, 0) {
                    Answer::Sat(m) if !m.is_empty() => keep.push(Arc::new(m)),
                    Answer::Sat(_) => {}
                    Answer::Unsat => std::panic::panic_any(Abort::Infeasible),
                    Answer::Unknown => self.stats.unknown_branch += 1,
                }
            }
            self.models = keep;
        }
        self.push_pc(f, false);
    }
    pub fn check(&mut self, name: &str, goal: F) {
        let goal = self.simplify(&goal);
        self.stats.asserts += 1;
        *self.stats.per_assert.entry(name.to_string()).or_default() += 1;
        self.path_asserts.push(name.to_string());
        let parts = match goal {
            F::T => {
                self.stats.asserts_simplified += 1;
                return;
            }
            F::And(v) => v,
            g => vec![g],
        };
        for g in parts {
            let ng = g.neg();
            match self.query(&ng, 0) {
                Answer::Unsat => self.stats.asserts_solver += 1,
                Answer::Unknown => {
                    self.stats.unknown_assert += 1;
                    if self.stats.unknown_sample.len() < 5 {
                        let s = format!("{} models={:?}", name, self.models.first());
                        self.stats.unknown_sample.push(s);
                    }
                }
                Answer::Sat(m) => {
                    let incomplete = m.is_empty() && self.vars.iter().any(|v| matches!(v, VarKind::Input { .. } | VarKind::UnitS { .. }));
                    self.report(name, m, &ng, "");
                    if incomplete && self.stats.violations.last().map_or(false, |v| !v.confirmed) {
                        // the path condition itself was not decided: no verdict
                        self.stats.violations.pop();
                        self.stats.unknown_assert += 1;
                        continue;
                    }
                    std::panic::panic_any(Abort::Violated);
                }
            }
        }
    }
    /// A satisfying assignment of PC and not(goal): polish it, replay it on the
    /// real f64 code, and record it.
    pub fn report(&mut self, name: &str, m: Vec<(String, f64)>, ng: &F, detail: &str) {
        let mut cands = vec![m.clone()];
        // try scaled copies first (all predicates are homogeneous in practice)
        for k in [16.0, 1024.0, 1.0 / 16.0] {
            let plain = !self.vars.iter().any(|v| matches!(v, VarKind::UnitS { .. }));
            if plain {
                cands.push(m.iter().map(|x| (x.0.clone(), x.1 * k)).collect());
            }
        }
        let mut best: Option<(Vec<(String, f64)>, String)> = None;
        let mut last = String::new();
        let mut rounded: Option<(Vec<(String, f64)>, String)> = None;
        for stage in 0..3 {
            if stage > 0 {
                cands = match self.query(ng, stage) {
                    Answer::Sat(m) => vec![m],
                    _ => vec![],
                };
            }
            for c in &cands {
                let o = (self.native)(self.harness, c, &self.choices);
                last = o.describe();
                if o.violates() {
                    best = Some((c.clone(), last.clone()));
                    break;
                }
                if rounded.is_none() && o.violates_rounded(name) {
                    rounded = Some((c.clone(), last.clone()));
                }
            }
            if best.is_some() {
                break;
            }
        }
        let (inputs, native, confirmed) = match best.or(rounded) {
            Some((i, n)) => (i, n, true),
            None => (m, last, false),
        };
        self.stats.violations.push(Violation {
            harness: self.harness,
            what: name.to_string(),
            inputs,
            choices: self.choices.clone(),
            confirmed,
            native,
            detail: detail.to_string(),
        });
    }

}
