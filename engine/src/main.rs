//! jsym: symbolic execution of linked LLVM IR with an SMT solver behind it.
mod exec;
mod ir;
mod poly;
mod selftest;
mod solver;
mod sweep;
mod term;

use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::rc::Rc;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let _ = write!(o, "\\u{:04x}", (c as u32).min(0xffff));
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn run(m: &Rc<ir::Module>, line: &str) -> String {
    // id entry key=value...
    let mut it = line.split_whitespace();
    let id = it.next().unwrap_or("").to_string();
    let entry = it.next().unwrap_or("").to_string();
    let kv: HashMap<String, String> = it.filter_map(|x| x.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
    let num = |k: &str, d: u64| kv.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let list = |k: &str| -> Vec<u64> { kv.get(k).map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default() };
    let o = exec::Opts {
        params: list("p"),
        max_paths: num("paths", 200_000),
        max_steps: num("steps", 400_000_000),
        max_total: num("total", 4_000_000_000),
        time_ms: num("time", 300_000),
        concrete: kv.get("concrete").map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()),
        max_viol: num("maxviol", 3) as usize,
        ite_addr: num("ite", 64) as usize,
    };
    let t0 = std::time::Instant::now();
    let mut e = exec::Exec::new(m.clone(), o, num("quick", 3000), num("long", 60_000));
    let started = e.start(&entry);
    if started.is_ok() {
        e.run();
    }
    let mut out = String::new();
    let st = &e.s.stats;
    let status = if let Err(_) = started {
        "error"
    } else if !e.violations.is_empty() {
        "violation"
    } else if !e.inconclusive.is_empty() {
        "inconclusive"
    } else {
        "ok"
    };
    let _ = write!(
        out,
        "{{\"id\":{},\"entry\":{},\"status\":{},\"paths\":{},\"panic_paths\":{},\"pruned\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"obligations\":{},\"terms\":{},\"wall_ms\":{},",
        js(&id),
        js(&entry),
        js(status),
        e.paths,
        e.paths_panic,
        e.paths_killed,
        e.forks,
        e.steps,
        e.asserts,
        e.obligations,
        e.a.len(),
        t0.elapsed().as_millis()
    );
    let _ = write!(
        out,
        "\"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallback\":{},\"time_ms\":{:.0},\"max_ms\":{:.0}}},",
        st.queries, st.sat, st.unsat, st.unknown, st.fallback, st.time_ms, st.max_ms
    );
    let w = &e.sweep;
    let _ = write!(out, "\"sweep\":{{\"calls\":{},\"nodes\":{},\"lemmas\":{},\"merged\":{},\"refuted\":{},\"gave_up\":{}}},", w.calls, w.nodes, w.lemmas, w.merged, w.refuted, w.gave_up);
    let mut fs: Vec<String> = e.funcs.iter().map(|s| exec::demangle(&m.syms[*s].name)).filter(|n| n.contains("jester_") || n.contains("num_bigint")).collect();
    fs.sort();
    fs.dedup();
    let _ = write!(out, "\"functions\":{},\"nfunctions\":{},", jl(&fs), e.funcs.len());
    let r: Vec<String> = e.reached.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(out, "\"reached\":{{{}}},", r.join(","));
    let tr: Vec<String> = e.traces.iter().map(|(i, t)| format!("[{},{}]", jl(i), jl(t))).collect();
    let _ = write!(out, "\"traces\":[{}],", tr.join(","));
    let mut inc = e.inconclusive.clone();
    if let Err(x) = started {
        inc.push(x)
    }
    let _ = write!(out, "\"inconclusive\":{},", jl(&inc));
    let vs: Vec<String> = e
        .violations
        .iter()
        .map(|v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"stack\":{}}}", js(&v.kind), js(&v.msg), jl(&v.inputs), jl(&v.stack)))
        .collect();
    let _ = write!(out, "\"violations\":[{}]}}", vs.join(","));
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 2 && args[1] == "selftest" {
        let n = |i: usize, d: u64| args.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
        std::process::exit(selftest::run(n(2, 1), n(3, 400) as usize));
    }
    if args.len() < 3 {
        eprintln!("usage: jsym IR.ll serve | jsym IR.ll ID ENTRY key=value...");
        std::process::exit(2);
    }
    let text = match std::fs::read(&args[1]) {
        Ok(t) => String::from_utf8_lossy(&t).into_owned(),
        Err(e) => {
            eprintln!("{}: {}", args[1], e);
            std::process::exit(2)
        }
    };
    // deep recursion is not used, but parsing and drop of nested values is recursive
    let serve = args[2] == "serve";
    let rest = args[2..].join(" ");
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let m = Rc::new(ir::Module::load(text));
            if serve {
                for l in std::io::stdin().lock().lines() {
                    let l = match l {
                        Ok(l) => l,
                        Err(_) => break,
                    };
                    if l.trim().is_empty() {
                        continue;
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&m, &l)));
                    let s = match r {
                        Ok(s) => s,
                        Err(p) => {
                            let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            format!("{{\"id\":{},\"status\":\"error\",\"inconclusive\":[{}]}}", js(l.split_whitespace().next().unwrap_or("")), js(&msg))
                        }
                    };
                    println!("{}", s);
                    let _ = std::io::stdout().flush();
                }
            } else {
                println!("{}", run(&m, &rest));
            }
        })
        .unwrap();
    let _ = h.join();
}
