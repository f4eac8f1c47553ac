//! Replay of one concrete input on the real code at `T = f64`.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::channel;
use std::time::Duration;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub assume_failed: bool,
    pub assume_unknown: bool,
    /// name, definite truth value (within the rounding error: none), value with tiny numbers as zero
    pub checks: Vec<(String, Option<bool>, bool)>,
    pub panic: Option<String>,
    pub panic_allowed: bool,
    pub hang: bool,
    pub missing: bool,
}

impl Outcome {
    pub fn describe(&self) -> String {
        if self.hang {
            return "does not terminate (10 s)".into();
        }
        if let Some(p) = &self.panic {
            return format!("panic: {}", p);
        }
        if self.assume_failed {
            return "assumption does not hold at f64".into();
        }
        let bad: Vec<&str> = self.checks.iter().filter(|c| c.1 == Some(false) || (c.1.is_none() && !c.2)).map(|c| c.0.as_str()).collect();
        if bad.is_empty() {
            format!("{} checks hold", self.checks.len())
        } else {
            format!("fails: {}", bad.join(", "))
        }
    }
    /// does the real code violate something on this input?
    pub fn violates(&self) -> bool {
        if self.assume_failed {
            return false;
        }
        if self.hang {
            return true;
        }
        if self.panic.is_some() && !self.panic_allowed {
            return true;
        }
        self.checks.iter().any(|c| c.1 == Some(false))
    }
    /// what `violates` is about
    pub fn failing(&self) -> String {
        if self.hang {
            return "terminates".into();
        }
        if self.panic.is_some() && !self.panic_allowed {
            return "no-panic".into();
        }
        self.checks.iter().find(|c| c.1 == Some(false)).map(|c| c.0.clone()).unwrap_or_default()
    }
    /// does the named check, which exact arithmetic refutes, fail up to rounding?
    pub fn violates_rounded(&self, name: &str) -> bool {
        self.violates() || (!self.assume_failed && self.checks.iter().any(|c| c.0 == name && !c.2))
    }
}

#[derive(Default)]
struct State {
    inputs: Vec<(String, f64)>,
    choices: Vec<usize>,
    pos: usize,
    out: Outcome,
    in_lib: bool,
    allow: bool,
}

thread_local! {
    static ST: RefCell<Option<State>> = RefCell::new(None);
}
pub struct Stop;

pub fn active() -> bool {
    ST.with(|s| s.borrow().is_some())
}
pub fn input(name: &str) -> f64 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut().unwrap();
        match s.inputs.iter().find(|x| x.0 == name) {
            Some(x) => x.1,
            None => {
                s.out.missing = true;
                f64::NAN
            }
        }
    })
    .tap_missing()
}
trait Tap {
    fn tap_missing(self) -> Self;
}
impl<A> Tap for A {
    /// an input the symbolic path never reached: what was checked so far stands
    fn tap_missing(self) -> Self {
        if ST.with(|s| s.borrow().as_ref().unwrap().out.missing) {
            std::panic::panic_any(Stop);
        }
        self
    }
}
pub fn choose(n: usize) -> usize {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut().unwrap();
        let r = s.choices.get(s.pos).copied();
        s.pos += 1;
        match r {
            Some(r) if r < n => r,
            _ => {
                s.out.missing = true;
                0
            }
        }
    })
    .tap_missing()
}
pub fn assume(r: Option<bool>) {
    let stop = ST.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut().unwrap();
        match r {
            Some(true) => false,
            None => {
                s.out.assume_unknown = true;
                false
            }
            Some(false) => {
                s.out.assume_failed = true;
                true
            }
        }
    });
    if stop {
        std::panic::panic_any(Stop);
    }
}
pub fn check(name: &str, r: Option<bool>, rounded: bool) {
    ST.with(|s| s.borrow_mut().as_mut().unwrap().out.checks.push((name.to_string(), r, rounded)));
}
pub fn set_lib(b: bool) {
    ST.with(|s| s.borrow_mut().as_mut().unwrap().in_lib = b);
}
pub fn allow_panic(b: bool) {
    ST.with(|s| s.borrow_mut().as_mut().unwrap().allow = b);
}

pub fn run(f: fn(), inputs: &[(String, f64)], choices: &[usize]) -> Outcome {
    let (tx, rx) = channel();
    let inputs = inputs.to_vec();
    let choices = choices.to_vec();
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        ST.with(|s| *s.borrow_mut() = Some(State { inputs, choices, ..Default::default() }));
        let r = catch_unwind(AssertUnwindSafe(f));
        let mut st = ST.with(|s| s.borrow_mut().take().unwrap());
        if let Err(e) = r {
            if e.downcast_ref::<Stop>().is_none() {
                let m = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "unknown panic".into()
                };
                st.out.panic = Some(m);
                st.out.panic_allowed = st.allow;
            }
        }
        let _ = tx.send(st.out);
    });
    match rx.recv_timeout(Duration::from_secs(10)) {
        Ok(o) => {
            if let Ok(h) = h {
                let _ = h.join();
            }
            o
        }
        Err(_) => Outcome { hang: true, ..Default::default() },
    }
}
