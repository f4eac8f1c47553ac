mod engine;
mod explore;
mod h;
mod native;
mod num;
mod poly;
mod rat;
mod smt;
mod sym;
#[cfg(feature = "wasm")]
#[path = "../../.build/gen/f64/mod.rs"]
mod wasm_f64;
#[cfg(feature = "wasm")]
#[path = "../../.build/gen/sym/mod.rs"]
mod wasm_sym;

use explore::{Cfg, Harness};
use std::fmt::Write as _;
use std::sync::OnceLock;

pub fn registry() -> &'static Vec<Harness> {
    static R: OnceLock<Vec<Harness>> = OnceLock::new();
    R.get_or_init(h::all)
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}
fn jm(m: &std::collections::BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","))
}
fn jin(v: &[(String, f64)]) -> String {
    format!("{{{}}}", v.iter().map(|(k, x)| format!("{}:\"{}:{:?}\"", js(k), format!("{:016x}", x.to_bits()), x)).collect::<Vec<_>>().join(","))
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        engine::PANIC_MSG.with(|p| *p.borrow_mut() = l);
    }));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for h in registry() {
                println!("{}\t{}\t{}\t{}", h.prop, h.name, h.tier, h.bounds);
            }
        }
        Some("replay") => {
            // symx replay --harness NAME --inputs name=hex,... --choices 1,2
            let name = get("--harness").unwrap();
            let hi = match registry().iter().position(|h| h.name == name) {
                Some(i) => i,
                None => {
                    println!("{{\"error\":\"no such harness\"}}");
                    return;
                }
            };
            let mut inputs = vec![];
            for p in get("--inputs").unwrap_or_default().split(',').filter(|s| !s.is_empty()) {
                let (k, v) = p.split_once('=').unwrap();
                let f = match v.strip_prefix("0x") {
                    Some(x) => f64::from_bits(u64::from_str_radix(x, 16).unwrap()),
                    None => v.parse().unwrap(),
                };
                inputs.push((k.to_string(), f));
            }
            let choices: Vec<usize> = get("--choices").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let o = native::run(registry()[hi].nat, &inputs, &choices);
            let failing: Vec<String> = o.checks.iter().filter(|c| c.1 == Some(false)).map(|c| c.0.clone()).collect();
            println!(
                "\n{{\"violates\":{},\"what\":{},\"failing\":{},\"panic\":{},\"hang\":{},\"assume_failed\":{},\"missing\":{}}}",
                o.violates_rounded(&get("--what").unwrap_or_default()),
                js(&o.describe()),
                jl(&failing),
                o.panic.as_ref().map(|p| js(p)).unwrap_or("null".into()),
                o.hang,
                o.assume_failed,
                o.missing
            );
            std::process::exit(0);
        }
        Some("run") => {
            let tier = get("--tier").unwrap_or("quick".into());
            let prop = get("--prop");
            let only = get("--harness");
            let hs: Vec<usize> = registry()
                .iter()
                .enumerate()
                .filter(|(_, h)| prop.as_ref().map_or(true, |p| p == h.prop))
                .filter(|(_, h)| only.as_ref().map_or(true, |n| n.split(',').any(|x| x == h.name)))
                .filter(|(_, h)| only.is_some() || h.tier != 3 && ((tier == "quick" && h.tier != 1) || (tier == "thorough" && h.tier != 2)))
                .map(|(i, _)| i)
                .collect();
            let cfg = Cfg {
                threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
                timeout: get("--timeout").and_then(|s| s.parse().ok()).unwrap_or(600.0),
                query_ms: get("--query-ms").and_then(|s| s.parse().ok()).unwrap_or(20000),
                max_violations: get("--max-violations").and_then(|s| s.parse().ok()).unwrap_or(3),
                verbose: args.iter().any(|a| a == "-v"),
            };
            let t0 = std::time::Instant::now();
            let (st, left) = explore::explore(&hs, &cfg);
            let mut o = String::from("{\n\"harnesses\":[");
            for (i, (h, s)) in st.iter().enumerate() {
                let hh = &registry()[*h];
                if i > 0 {
                    o.push(',');
                }
                let _ = write!(
                    o,
                    "\n{{\"name\":{},\"prop\":{},\"bounds\":{},\"funcs\":{},\"paths\":{},\"infeasible\":{},\"decisions\":{},\"implied\":{},\"max_depth\":{},\"asserts\":{},\"asserts_simplified\":{},\"asserts_solver\":{},\"unknown_branch\":{},\"unknown_assert\":{},\"unknown_sample\":{},\"queries\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"per_assert\":{},\"witnessed\":{},\"unsupported_n\":{},\"unsupported\":{},\"bounded_n\":{},\"bounded\":{},\"native_runs\":{},\"native_agree\":{},\"native_disagree_n\":{},\"native_disagree\":{},\"lib_ops\":{},\"inexact_ops\":{},\"exact_paths\":{},\"exact_bits\":{},\"smt_errors\":{},\"samples\":{},\"violations\":[",
                    js(hh.name), js(hh.prop), js(hh.bounds), js(hh.funcs),
                    s.paths, s.infeasible, s.decisions, s.implied, s.max_depth, s.asserts, s.asserts_simplified, s.asserts_solver,
                    s.unknown_branch, s.unknown_assert, jl(&s.unknown_sample), s.queries, s.solver_time, s.max_query, jm(&s.per_assert), jm(&s.witnessed),
                    s.unsupported_n, jl(&s.unsupported), s.bounded_n, jl(&s.bounded), s.native_runs, s.native_agree, s.native_disagree_n, jl(&s.native_disagree),
                    s.lib_ops, s.inexact_ops, s.exact_paths, s.exact_bits.map(|b| b.to_string()).unwrap_or("null".into()), jl(&s.smt_errors), jl(&s.samples)
                );
                for (j, v) in s.violations.iter().enumerate() {
                    if j > 0 {
                        o.push(',');
                    }
                    let _ = write!(
                        o,
                        "{{\"harness\":{},\"what\":{},\"inputs\":{},\"choices\":{:?},\"confirmed\":{},\"native\":{},\"detail\":{}}}",
                        js(registry()[v.harness].name), js(&v.what), jin(&v.inputs), v.choices, v.confirmed, js(&v.native), js(&v.detail)
                    );
                }
                o.push_str("]}");
            }
            let _ = write!(o, "\n],\"unexplored\":{},\"wall\":{:.2}}}\n", left, t0.elapsed().as_secs_f64());
            match get("--out") {
                Some(p) => std::fs::write(p, o).unwrap(),
                None => println!("{}", o),
            }
            std::process::exit(0);
        }
        _ => {
            eprintln!("usage: symx list|run|replay");
            std::process::exit(2);
        }
    }
}
