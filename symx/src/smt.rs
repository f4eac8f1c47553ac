//! A long-lived SMT solver process (z3) driven over pipes.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

pub enum Answer {
    Sat(Vec<(String, f64)>),
    Unsat,
    Unknown,
}

pub struct Smt {
    bin: String,
    child: Option<(Child, ChildStdin, Receiver<String>)>,
    pub queries: u64,
    pub time: f64,
    pub max_time: f64,
    pub unknown: u64,
    pub errors: Vec<String>,
    pub dump: Option<String>,
    pub deadline: Instant,
}

impl Smt {
    pub fn new() -> Smt {
        Smt {
            bin: std::env::var("SYMX_Z3").unwrap_or_else(|_| "z3-new".into()),
            child: None,
            queries: 0,
            time: 0.0,
            max_time: 0.0,
            unknown: 0,
            errors: vec![],
            deadline: Instant::now() + Duration::from_secs(86400),
            dump: std::env::var("SYMX_DUMP").ok(),
        }
    }
    fn spawn(&mut self) {
        let mut c = Command::new(&self.bin)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start the SMT solver");
        let stdin = c.stdin.take().unwrap();
        let out = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.child = Some((c, stdin, rx));
    }
    pub fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    fn talk(&mut self, script: &str, wall: Duration) -> Option<Vec<String>> {
        if self.child.is_none() {
            self.spawn();
        }
        let ok = {
            let (_, stdin, _) = self.child.as_mut().unwrap();
            stdin.write_all(script.as_bytes()).and_then(|_| stdin.write_all(b"\n(echo \"<done>\")\n")).and_then(|_| stdin.flush()).is_ok()
        };
        if !ok {
            self.kill();
            return None;
        }
        let end = Instant::now() + wall;
        let mut lines = vec![];
        loop {
            let left = end.saturating_duration_since(Instant::now());
            let r = self.child.as_mut().unwrap().2.recv_timeout(left);
            match r {
                Ok(l) => {
                    if l.contains("<done>") {
                        return Some(lines);
                    }
                    lines.push(l);
                }
                Err(_) => {
                    self.kill();
                    return None;
                }
            }
        }
    }
    /// `body`: declarations and assertions; `vars`: names to evaluate on sat.
    pub fn check(&mut self, body: &str, alt: Option<&str>, vars: &[String], nonlinear: bool, timeout_ms: u64) -> Answer {
        let t0 = Instant::now();
        self.queries += 1;
        let mut res = Answer::Unknown;
        let nl = |params: &str, ms: u64| {
            if params.is_empty() {
                format!("(check-sat-using (try-for qfnra-nlsat {}))", ms)
            } else {
                format!("(check-sat-using (try-for (using-params qfnra-nlsat {}) {}))", params, ms)
            }
        };
        let (t2, t3) = (timeout_ms / 2, timeout_ms / 3);
        let b2 = alt.unwrap_or(body);
        let mut stages: Vec<(&str, String, u64)> = vec![];
        if nonlinear {
            stages.push((body, nl("", 300), 300));
            if alt.is_some() {
                stages.push((b2, nl("", 300), 300));
            }
            stages.push((body, nl(":seed 7", 400), 400));
            stages.push((body, nl(":reorder false", 400), 400));
            stages.push((body, "(check-sat-using (try-for smt 1200))".to_string(), 1200));
            if alt.is_some() {
                stages.push((b2, nl(":seed 7", 400), 400));
            }
            stages.push((body, nl(":seed 3 :shuffle_vars true", 1000), 1000));
            stages.push((body, nl("", t2), t2));
            stages.push((body, nl(":seed 7", t3), t3));
            if alt.is_some() {
                stages.push((b2, nl("", t2), t2));
            }
            stages.push((body, nl(":reorder false", t3), t3));
        }
        stages.push((body, format!("(set-option :timeout {})\n(check-sat)", timeout_ms), timeout_ms));
        for (body, cmd, ms) in stages {
            if Instant::now() > self.deadline {
                break;
            }
            let script = format!(
                "(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n{}\n{}",
                body, cmd
            );
            let lines = match self.talk(&script, Duration::from_millis(ms + 4000)) {
                Some(l) => l,
                None => continue,
            };
            let mut st = "";
            for l in &lines {
                if l.starts_with("(error") {
                    self.errors.push(l.clone());
                } else if l == "sat" || l == "unsat" || l == "unknown" {
                    st = if l == "sat" { "sat" } else if l == "unsat" { "unsat" } else { "unknown" };
                }
            }
            if lines.iter().any(|l| l.starts_with("(error")) {
                continue;
            }
            if st == "unsat" {
                res = Answer::Unsat;
                break;
            }
            if st == "sat" {
                let mut vals = vec![];
                if !vars.is_empty() {
                    let q = format!("(get-value ({}))", vars.join(" "));
                    if let Some(ls) = self.talk(&q, Duration::from_millis(5000)) {
                        vals = parse_values(&ls.join(" "), vars);
                    }
                }
                res = Answer::Sat(vals);
                break;
            }
        }
        if matches!(res, Answer::Unknown) {
            self.unknown += 1;
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if let (Some(d), true) = (&self.dump, dt > 3.0 || matches!(res, Answer::Unknown)) {
            let _ = std::fs::write(format!("{}/slow-{}-{}.smt2", d, std::process::id(), self.queries), format!("; {:.1}s\n{}\n(check-sat)\n", dt, body));
        }
        if dt > self.max_time {
            self.max_time = dt;
        }
        res
    }
}

impl Drop for Smt {
    fn drop(&mut self) {
        self.kill();
    }
}

#[derive(Debug)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}

fn parse_sx(s: &[u8], i: &mut usize) -> Sx {
    while *i < s.len() && (s[*i] as char).is_whitespace() {
        *i += 1;
    }
    if *i < s.len() && s[*i] == b'(' {
        *i += 1;
        let mut v = vec![];
        loop {
            while *i < s.len() && (s[*i] as char).is_whitespace() {
                *i += 1;
            }
            if *i >= s.len() {
                return Sx::L(v);
            }
            if s[*i] == b')' {
                *i += 1;
                return Sx::L(v);
            }
            v.push(parse_sx(s, i));
        }
    }
    let st = *i;
    while *i < s.len() && !(s[*i] as char).is_whitespace() && s[*i] != b'(' && s[*i] != b')' {
        *i += 1;
    }
    Sx::A(String::from_utf8_lossy(&s[st..*i]).to_string())
}

fn num(s: &Sx) -> Option<f64> {
    match s {
        Sx::A(a) => a.trim_end_matches('?').parse::<f64>().ok(),
        Sx::L(v) => {
            let op = match v.first() {
                Some(Sx::A(a)) => a.as_str(),
                _ => return None,
            };
            match (op, v.len()) {
                ("-", 2) => Some(-num(&v[1])?),
                ("-", 3) => Some(num(&v[1])? - num(&v[2])?),
                ("+", 3) => Some(num(&v[1])? + num(&v[2])?),
                ("/", 3) => Some(num(&v[1])? / num(&v[2])?),
                ("*", 3) => Some(num(&v[1])? * num(&v[2])?),
                ("to_real", 2) => num(&v[1]),
                _ => None,
            }
        }
    }
}

fn parse_values(s: &str, vars: &[String]) -> Vec<(String, f64)> {
    let mut i = 0;
    let mut out = vec![];
    if let Sx::L(v) = parse_sx(s.as_bytes(), &mut i) {
        for p in v {
            if let Sx::L(kv) = p {
                if kv.len() == 2 {
                    if let (Sx::A(k), Some(x)) = (&kv[0], num(&kv[1])) {
                        if vars.contains(k) {
                            out.push((k.clone(), x));
                        }
                    }
                }
            }
        }
    }
    out
}
