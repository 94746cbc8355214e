//! symex: bounded symbolic execution of LLVM IR produced from the crates under test.
//! usage: symex --ll FILE --fn NAME [--params a,b,..] [--time SECONDS] [--seed N]
//! prints one JSON object on stdout.
#![allow(clippy::all)]
mod builtins;
mod eval;
mod exec;
mod ir;
mod lin;
mod solver;
mod term;
use eval::Eval;
use exec::*;
use std::fmt::Write;
use std::time::{Duration, Instant};
use term::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
/// inputs of the harness, then inputs of the stubs
fn nums(v: &[u64], kinds: &[u8]) -> (String, String) { let f = |st: bool| format!("[{}]", v.iter().zip(kinds).filter(|x| *x.1 != 3 && (*x.1 == 2) == st).map(|x| format!("\"{:x}\"", x.0)).collect::<Vec<_>>().join(",")); (f(false), f(true)) }

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real).unwrap();
    match h.join() { Ok(c) => std::process::exit(c), Err(_) => { println!("{{\"status\":\"inconclusive\",\"reason\":\"internal error\"}}"); std::process::exit(0) } }
}

fn real() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let ll = get("--ll").expect("--ll"); let name = get("--fn").expect("--fn");
    let params: Vec<u64> = get("--params").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<i128>().expect("param") as u64).collect();
    let secs: f64 = get("--time").and_then(|s| s.parse().ok()).unwrap_or(600.0);
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let qms: u64 = get("--query-ms").and_then(|s| s.parse().ok()).unwrap_or(20000);
    let t0 = Instant::now();
    let m = match ir::Module::load(&ll) { Ok(m) => m, Err(e) => { println!("{{\"status\":\"inconclusive\",\"reason\":{}}}", js(&format!("load: {}", e))); return 0 } };
    let t_load = t0.elapsed().as_secs_f64();
    let fi = match m.fidx.get(&format!("@{}", name)) { Some(i) => *i, None => { println!("{{\"status\":\"inconclusive\",\"reason\":{}}}", js(&format!("no function {}", name))); return 0 } };
    let mut cx = Ctx::new(&m);
    cx.params = params;
    cx.sv.timeout_ms = qms;
    let dl = t0 + Duration::from_secs_f64(secs);
    cx.deadline = Some(dl); cx.sv.deadline = Some(dl);
    let mut work: Vec<Vec<(u32, bool)>> = vec![vec![]];
    let mut status = "ok"; let mut reason = String::new();
    let (mut runs, mut ends, mut dead) = (0u64, 0u64, 0u64);
    let mut wit: Vec<((String, String), Vec<String>)> = vec![];
    let mut nvars = 0usize; let mut rounds: Vec<usize> = vec![]; let mut maxpc = 0;
    while let Some(sp) = work.pop() {
        cx.reset_run();
        cx.split = sp.clone();
        if !sp.is_empty() { let a: Vec<Lit> = sp.iter().map(|(n, v)| *n << 1 | !*v as u32).collect(); if let solver::Verdict::Unsat = cx.refute_here(&a, true) { dead += 1; continue } }
        for (n, v) in &sp { let l = *n << 1 | !*v as u32; cx.pc.push(l); cx.push_known(l); }
        runs += 1;
        let r = cx.call(fi, vec![]);
        nvars = nvars.max(cx.vars.len()); maxpc = maxpc.max(cx.pc.len());
        match r {
            Ok(v) => {
                if v.is_some() { ends += 1 } else { dead += 1 }
                let pcs: Option<Vec<Lit>> = if v.is_some() { Some(cx.pc.clone()) } else if cx.panic_seen { cx.panic_pc.clone() } else { None };
                if let Some(pc) = pcs { if wit.len() < 2 {
                    cx.pc = pc;
                    if let Some(w) = cx.witness(seed.wrapping_add(runs)) {
                        let obs: Vec<(u32, Val)> = cx.observed.clone();
                        let mut out = vec![];
                        if v.is_some() { for (id, x) in obs { let f = id >> 31 == 1; let t = match cx.tv(&x) { Ok(t) => t, Err(_) => continue }; let mut e = Eval::new(&cx.ts, &w); let r = e.tv(t) as u64; out.push(if f { format!("f{:x}", r) } else { format!("i{:x}", r) }) } }
                        let kinds: Vec<u8> = cx.vars.iter().map(|v| v.kind).collect(); wit.push((nums(&w, &kinds), out));
                    }
                } }
            }
            Err(Stop::Split(n)) => {
                cx.st.splits += 1;
                if sp.iter().any(|s| s.0 == n) { status = "inconclusive"; reason = "repeated split".into(); break }
                if work.len() > 5000 { status = "inconclusive"; reason = "too many splits".into(); break }
                for b in [true, false] { let mut s = sp.clone(); s.push((n, b)); work.push(s) }
                rounds.push(sp.len());
            }
            Err(Stop::Found) => { status = "violation"; break }
            Err(Stop::Fail(e)) => { status = "inconclusive"; reason = format!("{} [in {}]", e, cx.where_().join(" < ")); break }
            Err(Stop::Done) => { ends += 1 }
        }
    }
    if status == "ok" && !cx.unresolved.is_empty() { status = "inconclusive"; let u = &cx.unresolved[0]; reason = format!("undecided: {} in {}", u.what, u.stack.join(" < ")) }
    // sums recognised as equal are proven equal by the solver, as many as the budget allows
    let (mut xor_tried, mut xor_proven) = (0u64, 0u64);
    if status == "ok" {
        let mut ms: Vec<(u64, u32)> = cx.ts.merges.iter().map(|(a, b)| (*a, *b)).collect();
        ms.sort();
        let budget = std::env::var("SYMEX_XOR").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(if secs > 200.0 { secs * 0.1 } else { 0.4 });
        let step = (ms.len() / 4000).max(1) | 1;
        let tx = Instant::now();
        cx.sv.timeout_ms = 1000;
        for j in 0..ms.len() {
            let ((k, n), _) = (ms[(j * step * 7919) % ms.len()], 0);
            if tx.elapsed().as_secs_f64() > budget || Instant::now() > dl || xor_tried >= 4000 { break }
            match cx.sv.xor_identity(&cx.ts, (k >> 32) as u32, k as u32, n, 4000) {
                None => {}
                Some(solver::Verdict::Sat(_)) => { status = "inconclusive"; reason = "the solver refutes a recognised sum".into(); break }
                Some(v) => { xor_tried += 1; if matches!(v, solver::Verdict::Unsat) { xor_proven += 1 } }
            }
        }
    }
    if status == "ok" && ends == 0 && wit.is_empty() { status = "inconclusive"; reason = "vacuous: no path completes".into() }
    let mut o = String::from("{");
    let _ = write!(o, "\"status\":{},\"reason\":{}", js(status), js(&reason));
    if let Some((w, v)) = &cx.found { let kinds: Vec<u8> = cx.vars.iter().map(|v| v.kind).collect(); let (a, b) = nums(v, &kinds); let _ = write!(o, ",\"what\":{},\"model\":{},\"stub_model\":{}", js(w), a, b); }
    let _ = write!(o, ",\"runs\":{},\"ends\":{},\"dead\":{},\"vars\":{},\"instructions\":{},\"forks\":{},\"splits\":{},\"panics_reached\":{},\"panics_refuted\":{},\"checks\":{},\"checks_structural\":{},\"checks_solver\":{},\"lemmas\":{},\"lemma_hits\":{},\"confirm_tried\":{},\"confirmed\":{},\"max_path_condition\":{},\"undetermined_codewords\":{},\"xor_sums\":{},\"xor_tried\":{},\"xor_proven\":{}", runs, ends, dead, nvars, cx.st.instrs, cx.st.forks, cx.st.splits, cx.st.panics_reached, cx.st.panic_refuted, cx.st.checks, cx.st.checks_structural, cx.st.checks_solver, cx.st.lemmas, cx.st.lemma_hits, cx.st.confirm_tried, cx.st.confirmed, maxpc, cx.st.havocs, cx.ts.merges.len(), xor_tried, xor_proven);
    let s = &cx.sv.stats;
    let _ = write!(o, ",\"queries\":{},\"cached\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_time\":{:.3},\"max_query\":{:.3}", s.queries, s.cached, s.unsat, s.sat, s.unknown, s.time, s.max_time);
    let _ = write!(o, ",\"load_time\":{:.3},\"time\":{:.3},\"bool_nodes\":{},\"word_nodes\":{}", t_load, t0.elapsed().as_secs_f64(), cx.ts.b.len(), cx.ts.t.len());
    let mut ck: Vec<_> = cx.check_names.iter().collect(); ck.sort();
    let _ = write!(o, ",\"check_ids\":{{{}}}", ck.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let mut fs: Vec<(u64, usize)> = cx.fcount.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, c)| (*c, i)).collect(); fs.sort_by(|a, b| b.cmp(a));
    let _ = write!(o, ",\"functions\":{{{}}}", fs.iter().map(|(c, i)| format!("{}:{}", js(m.funcs[*i].name.trim_start_matches('@')), c)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"unresolved\":[{}]", cx.unresolved.iter().map(|u| js(&format!("{} in {}", u.what, u.stack.join(" < ")))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"witnesses\":[{}]", wit.iter().map(|(w, ob)| format!("{{\"model\":{},\"stub_model\":{},\"observed\":[{}]}}", w.0, w.1, ob.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    o.push('}');
    println!("{}", o);
    0
}
