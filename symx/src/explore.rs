//! Exhaustive depth-first exploration of all feasible paths of a harness.
use crate::engine::*;
use crate::native;
use crate::smt::Smt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Harness {
    pub name: &'static str,
    pub prop: &'static str,
    /// 0: quick and thorough, 1: thorough only, 2: quick only, 3: recorded inputs, replayed only
    pub tier: u8,
    pub sym: fn(),
    pub nat: fn(),
    pub bounds: &'static str,
    pub funcs: &'static str,
}

pub struct Shared {
    pub q: Mutex<(Vec<Item>, usize)>,
    pub cv: Condvar,
    pub stop: AtomicBool,
    pub stats: Mutex<Vec<Stats>>,
}

pub struct Cfg {
    pub threads: usize,
    pub timeout: f64,
    pub query_ms: u64,
    pub max_violations: usize,
    pub verbose: bool,
}

fn natfn(h: usize, i: &[(String, f64)], c: &[usize]) -> native::Outcome {
    native::run(crate::registry()[h].nat, i, c)
}

/// Returns per-harness statistics and the number of unexplored work items.
pub fn explore(hs: &[usize], cfg: &Cfg) -> (Vec<(usize, Stats)>, usize) {
    let n = crate::registry().len();
    let sh = Arc::new(Shared {
        q: Mutex::new((hs.iter().rev().map(|h| Item { harness: *h, prefix: vec![], models: vec![] }).collect(), 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        stats: Mutex::new(vec![Stats::default(); n]),
    });
    let end = Instant::now() + Duration::from_secs_f64(cfg.timeout);
    let mut ths = vec![];
    for _ in 0..cfg.threads {
        let sh = sh.clone();
        let (qms, maxv, verbose) = (cfg.query_ms, cfg.max_violations, cfg.verbose);
        ths.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || worker(sh, end, qms, maxv, verbose))
                .unwrap(),
        );
    }
    for t in ths {
        let _ = t.join();
    }
    let items = std::mem::take(&mut sh.q.lock().unwrap().0);
    let left = items.len();
    let mut st = sh.stats.lock().unwrap();
    // work left over when the time ran out: each item carries a model of its prefix
    let end = Instant::now() + Duration::from_secs(20);
    let stopped = sh.stop.load(Ordering::SeqCst);
    for i in items.iter().rev() {
        if stopped || Instant::now() > end {
            break;
        }
        let choices: Vec<usize> = i.prefix.iter().filter_map(|d| if let Dec::C(k) = d { Some(*k) } else { None }).collect();
        for m in &i.models {
            let o = natfn(i.harness, m, &choices);
            st[i.harness].native_runs += 1;
            if o.violates() {
                st[i.harness].violations.push(Violation {
                    harness: i.harness,
                    what: o.failing(),
                    inputs: (**m).clone(),
                    choices: choices.clone(),
                    confirmed: true,
                    native: o.describe(),
                    detail: "left over when the time ran out; its inputs fail on the real code".into(),
                });
                break;
            }
        }
    }
    (hs.iter().map(|h| (*h, st[*h].clone())).collect(), left)
}

fn worker(sh: Arc<Shared>, end: Instant, qms: u64, maxv: usize, verbose: bool) {
    let mut smt = Some(Smt::new());
    loop {
        let item = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::SeqCst) || Instant::now() >= end {
                    sh.cv.notify_all();
                    return;
                }
                if let Some(i) = g.0.pop() {
                    g.1 += 1;
                    break i;
                }
                if g.1 == 0 {
                    sh.cv.notify_all();
                    return;
                }
                g = sh.cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
            }
        };
        let h = item.harness;
        let (stats, alts, s) = run_path(item, smt.take().unwrap(), qms, verbose, end);
        smt = Some(s);
        {
            let mut st = sh.stats.lock().unwrap();
            st[h].merge(&stats);
            let nv: usize = st.iter().map(|s| s.violations.iter().filter(|v| v.confirmed).count()).sum();
            let nu: usize = st.iter().map(|s| s.violations.len()).sum();
            if nv >= maxv || nu >= 40 || st.iter().any(|s| s.violations.iter().any(|v| v.native.contains("terminate"))) {
                sh.stop.store(true, Ordering::SeqCst);
            }
        }
        {
            let mut g = sh.q.lock().unwrap();
            g.0.extend(alts);
            g.1 -= 1;
        }
        sh.cv.notify_all();
    }
}

pub fn run_path(item: Item, smt: Smt, qms: u64, verbose: bool, end: Instant) -> (Stats, Vec<Item>, Smt) {
    let h = item.harness;
    let f = crate::registry()[h].sym;
    let (q0, t0) = (smt.queries, smt.time);
    let mut ctx = Ctx::new(h, smt, natfn, qms);
    ctx.forced = item.prefix;
    ctx.models = item.models;
    ctx.deadline = end + Duration::from_secs(15);
    CX.with(|c| *c.borrow_mut() = Some(ctx));
    let r = catch_unwind(AssertUnwindSafe(f));
    let mut c = CX.with(|c| c.borrow_mut().take().unwrap());
    c.stats.max_depth = c.log.len();
    c.deadline = Instant::now() + Duration::from_secs(60);
    match r {
        Ok(()) => {
            finish(&mut c);
            if c.stats.unknown_assert > 0 && c.stats.violations.is_empty() {
                replay_undecided(&mut c, "an assertion on this path was not decided by the solver");
            }
        }
        Err(e) => {
            if let Some(a) = e.downcast_ref::<Abort>() {
                match a {
                    Abort::Infeasible => c.stats.infeasible += 1,
                    Abort::Unsupported(m) => {
                        c.stats.unsupported_n += 1;
                        let s = format!("{} [{:?}]", m, c.models.first());
                        c.stats.unsupported.push(s);
                        if c.stats.violations.is_empty() {
                            replay_undecided(&mut c, m);
                        }
                    }
                    Abort::Bound(m) => {
                        // a path that makes no end of decisions or operations: does the
                        // real code terminate on this input?
                        let m = m.clone();
                        let model = match c.models.first() {
                            Some(m) => Some((**m).clone()),
                            None => match c.query(&F::T, 0) {
                                crate::smt::Answer::Sat(v) => Some(v),
                                _ => None,
                            },
                        };
                        let mut hang = false;
                        if let Some(md) = model {
                            let o = (c.native)(h, &md, &c.choices);
                            if o.hang {
                                hang = true;
                                let v = Violation {
                                    harness: h,
                                    what: "terminates".into(),
                                    inputs: md,
                                    choices: c.choices.clone(),
                                    confirmed: true,
                                    native: o.describe(),
                                    detail: m.clone(),
                                };
                                c.stats.violations.push(v);
                            }
                        }
                        if !hang {
                            c.stats.bounded_n += 1;
                            c.stats.bounded.push(m);
                        }
                    }
                    Abort::Violated => {}
                    Abort::Budget => {
                        c.stats.bounded_n += 1;
                        c.stats.bounded.push("time".into());
                    }
                }
            } else {
                let msg = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".into()
                };
                let loc = PANIC_MSG.with(|p| p.borrow().clone());
                if c.expect_panic {
                    finish(&mut c);
                } else {
                    let m = match c.models.first() {
                        Some(m) => Some((**m).clone()),
                        None => match c.query(&F::T, 0) {
                            crate::smt::Answer::Sat(v) => Some(v),
                            _ => None,
                        },
                    };
                    match m {
                        Some(m) => c.report("no-panic", m, &F::T, &format!("{} at {}", msg, loc)),
                        None => c.stats.unknown_assert += 1,
                    }
                }
            }
        }
    }
    if c.pos < c.forced.len() && c.stats.violations.is_empty() && c.stats.infeasible == 0 && c.stats.unsupported_n == 0 {
        c.stats.unsupported_n += 1;
        c.stats.unsupported.push("replay ended before its prefix (nondeterministic harness)".into());
    }
    c.stats.queries = c.smt.queries - q0;
    c.stats.solver_time = c.smt.time - t0;
    c.stats.max_query = c.smt.max_time;
    c.stats.smt_errors = std::mem::take(&mut c.smt.errors);
    if verbose && c.stats.paths > 0 {
        eprintln!("[{}] path depth={} q={} t={:.2}", crate::registry()[h].name, c.log.len(), c.stats.queries, c.stats.solver_time);
    }
    let alts = std::mem::take(&mut c.alts);
    (c.stats, alts, c.smt)
}

/// A path the encoding cannot finish is not decided.  Its own inputs (solver models of its
/// path condition) are still run on the real code: a definite failure there is a violation.
fn replay_undecided(c: &mut Ctx, why: &str) {
    let mut models: Vec<Vec<(String, f64)>> = c.models.iter().map(|m| (**m).clone()).collect();
    c.deadline = Instant::now() + Duration::from_secs(20);
    for mode in [1, 2, 0] {
        if mode > 0 || models.is_empty() {
            match catch_unwind(AssertUnwindSafe(|| c.query(&F::T, mode))) {
                Ok(crate::smt::Answer::Sat(m)) => models.push(m),
                _ => {}
            }
        }
    }
    for m in models {
        let o = (c.native)(c.harness, &m, &c.choices);
        c.stats.native_runs += 1;
        if o.violates() {
            let what = o.failing();
            c.stats.violations.push(Violation {
                harness: c.harness,
                what,
                inputs: m,
                choices: c.choices.clone(),
                confirmed: true,
                native: o.describe(),
                detail: format!("path not decided ({}), its inputs fail on the real code", why),
            });
            return;
        }
    }
}

fn finish(c: &mut Ctx) {
    c.stats.paths += 1;
    if !c.path_inexact {
        c.stats.exact_paths += 1;
        c.stats.exact_bits = Some(c.path_bits);
    }
    // validate the path on the real f64 code with one of its own inputs
    if c.models.is_empty() && c.stats.native_runs < 1 {
        if let crate::smt::Answer::Sat(m) = c.query(&F::T, 0) {
            c.models.push(Arc::new(m));
        }
    }
    if let Some(m) = c.models.first().cloned() {
        let o = (c.native)(c.harness, &m, &c.choices);
        c.stats.native_runs += 1;
        let bad = o.hang || o.assume_failed || (o.panic.is_some() && !o.panic_allowed) || o.checks.iter().any(|x| x.1 == Some(false));
        if bad {
            c.stats.native_disagree_n += 1;
            c.stats.native_disagree.push(format!("{} inputs={:?}", o.describe(), m));
        } else {
            c.stats.native_agree += 1;
        }
        if c.stats.samples.is_empty() {
            c.stats.samples.push(format!("{:?} choices={:?} asserts={}", m, c.choices, c.path_asserts.len()));
        }
    }
}
