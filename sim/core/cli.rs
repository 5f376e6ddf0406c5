//! Commands: check, replay, probe, selfcheck.
use crate::child;
use crate::engine::*;
use crate::hooks;
use crate::json::J;
use crate::plan::Plan;
use crate::props;
use crate::session::{self, Factory};
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};

extern "C" {
    fn personality(p: u64) -> i32;
    fn execv(p: *const u8, a: *const *const u8) -> i32;
}

/// Addresses of code and stack are a function of the build, not of the run.
fn fixed_layout() {
    unsafe {
        let p = personality(0xffffffff);
        if p >= 0 && p as u64 & 0x40000 == 0 && personality(p as u64 | 0x40000) >= 0 && std::env::var("SIM_REEXEC").is_err() {
            std::env::set_var("SIM_REEXEC", "1");
            let a: Vec<Vec<u8>> = std::env::args().map(|s| { let mut v = s.into_bytes(); v.push(0); v }).collect();
            let mut q: Vec<*const u8> = a.iter().map(|s| s.as_ptr()).collect();
            q.push(std::ptr::null());
            execv(b"/proc/self/exe\0".as_ptr(), q.as_ptr());
        }
    }
}

fn arg(v: &[String], k: &str) -> Option<String> { v.iter().position(|a| a == k).and_then(|i| v.get(i + 1).cloned()) }

fn share_edges() { unsafe { hooks::EDGES = child::shared(hooks::EDGE_MAX) as *mut AtomicU8 } }

fn edges() -> (u64, u64, u64, u64, u64) {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe {
        for i in 0..hooks::EDGE_MAX { let x = (*hooks::EDGES.add(i)).load(Relaxed); a += (x & 1 != 0) as u64; b += (x & 2 != 0) as u64; c += (x & 4 != 0) as u64; d += (x & 8 != 0) as u64 }
        (a, b, c, d, hooks::GUARDS as u64)
    }
}

pub fn main(f: Factory) {
    fixed_layout();
    session::set_factory(f);
    session::install_panic_hook();
    let v: Vec<String> = std::env::args().skip(1).collect();
    let root = arg(&v, "--root").unwrap_or("/verif".into());
    let code = match v.first().map(|s| s.as_str()) {
        Some("check") => check(&v, &root),
        Some("replay") => replay(&v),
        Some("probe") => probe(&v),
        Some("selfcheck") => selfcheck(&v),
        Some("texts") => { let n: u64 = arg(&v, "--runs").and_then(|s| s.parse().ok()).unwrap_or(100); for i in 0..n { let mut r = crate::prng::Rng::new(i); let api = props::pick_api(&mut r); let t = props::text_for(&mut r, api, 6, 4); println!("{}", J::Arr(vec![J::s(api), J::s(&t)]).text()) } 0 }
        Some("lex") | Some("run") => { let (api, t) = if v[0] == "lex" { ("lex".to_string(), v[1].clone()) } else { (v[1].clone(), v[2].clone()) }; match session::solo(&api, &t.replace("\\n", "\n").replace("\\r", "\r"), session::TICKS_MAX) { Ok(s) => { for o in &s.out { println!("{}", o) } println!("ticks {} reads {} allocs {} left {}", s.ticks, s.reads, s.allocs, s.left) } Err(e) => println!("{}", e.describe()) } 0 }
        _ => { eprintln!("usage: check PROP [--tier quick|thorough] [--seed N] [--runs N] | replay FILE | selfcheck PROP | probe"); 2 }
    };
    std::process::exit(code)
}

fn find(id: &str) -> Box<dyn Prop> {
    for p in props::all() { if p.id() == id { return p } }
    eprintln!("no such property {}", id);
    std::process::exit(2)
}

/// Entries of the known-findings file: finding names listed per property.
fn listed(root: &str, id: &str) -> Vec<String> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    t.lines().filter_map(|l| { let mut w = l.split_whitespace(); if w.next() == Some("known:") && w.next() == Some(&format!("property={}", id)) { w.next().and_then(|x| x.strip_prefix("id=")).map(|s| s.to_string()) } else { None } }).collect()
}

fn check(v: &[String], root: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let id = v.get(1).cloned().unwrap_or_default();
    let p = find(&id);
    let tier = arg(v, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = arg(v, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs = arg(v, "--runs").and_then(|s| s.parse().ok()).unwrap_or(p.runs(thorough));
    let workers = arg(v, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8usize);
    println!("property {} tier {} seed {} runs {} workers {}", id, tier, seed, runs, workers);
    share_edges();
    let deadline = if thorough { 4.0 * 3600.0 } else { 600.0 };
    let b = batch(&*p, seed, 0, runs, workers, thorough, deadline);
    if let Some(e) = b.err { eprintln!("harness error: {}", e); return 2 }
    let mut code = 0;
    let mut violations = 0;
    let mut known = vec![];
    let list = listed(root, &id);
    for (name, what, fails) in p.known() {
        if !fails { continue }
        if list.contains(&name) { println!("KNOWN-FINDING: property={} {}: {}", id, name, what); known.push(J::s(&name)) }
    }
    let mut minimised = J::Null;
    if let Some(f) = &b.found {
        violations = 1;
        println!("run {} of seed {} breaks {}: [{}] {}", f.idx, seed, id, f.v.class, f.v.detail);
        let (q, w, k) = minimise(&*p, f, 600, 90.0);
        println!("minimised in {} executions: [{}] {}", k, w.class, w.detail);
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-seed{}-run{}.json", dir, id, seed, f.idx);
        let j = q.json().set("class", J::s(&w.class)).set("violation", J::s(&w.detail)).set("found_in_run", J::Int(f.idx as i64)).set("unminimised", f.plan.json());
        if std::fs::write(&path, j.text()).is_err() { eprintln!("harness error: cannot write {}", path); return 2 }
        let again = std::process::Command::new("/proc/self/exe").env_remove("SIM_REEXEC").args(["replay", &path, "--root", root]).output();
        match again { Ok(o) if o.status.code() == Some(1) => println!("replay in a fresh process: same violation"), _ => println!("replay in a fresh process: NOT reproduced (code under test depends on something outside the simulator)") }
        minimised = J::s(&path);
        println!("VIOLATION property={} replay={}", id, path);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let (e1, e2, e3, e4, g) = edges();
    let ev = b.st.n.get("evaluations").copied().unwrap_or(0);
    let mut faults = J::obj();
    let mut reach = J::obj();
    let mut other = J::obj();
    for (k, x) in &b.st.n {
        if let Some(n) = k.strip_prefix("fault_") { faults.put(n, J::i(*x)) } else if let Some(n) = k.strip_prefix("reach_") { reach.put(n, J::i(*x)) } else if k != "evaluations" { other.put(k, J::i(*x)) }
    }
    let mut cov = J::obj().set("evaluations", J::i(ev)).set("distinct_nontrivial", J::i(b.st.distinct.len() as u64)).set("rule", J::s(p.rule()))
        .set("samples", J::Arr(b.st.samples.iter().take(6).map(|s| J::s(s)).collect()))
        .set("simulated_runs", J::i(b.runs)).set("seeds", J::s(&format!("run i uses the stream (seed {}, property, i), i = 0..{}", seed, runs)))
        .set("runs_per_hour", J::Num((b.runs as f64 / b.wall.max(0.001) * 3600.0).round()))
        .set("simulated_time_basic_blocks", J::i(b.st.ticks))
        .set("faults_injected", faults).set("rare_conditions_reached", reach).set("counters", other)
        .set("basic_block_edges_instrumented", J::i(g)).set("basic_block_edges_reached", J::i(e1))
        .set("event_log_hash", J::s(&format!("{:016x}", b.st.log))).set("components", J::s(p.components()));
    if e2 > 0 { cov.put("distinct_preemption_points", J::i(e2)) }
    if e3 > 0 { cov.put("distinct_cancellation_points", J::i(e3)) }
    if e4 > 0 { cov.put("distinct_allocation_refusal_points", J::i(e4)) }
    if !known.is_empty() { cov.put("known_findings_confirmed", J::Arr(known)) }
    if violations > 0 { cov.put("replay", minimised) }
    let doc = J::obj().set("property", J::s(&id)).set("tier", J::s(if thorough { "thorough" } else { "quick" })).set("seed", J::Int(seed as i64)).set("level", J::s("exploration")).set("coverage", cov)
        .set("assumptions", J::Arr(vec![J::s("sampling: a clean batch is evidence, not proof"), J::s("one basic block edge of the code under test is one tick; code of the Rust standard library that is not instantiated in the crate is atomic"), J::s("texts: generated programs of the grammar this parser supports, their damaged forms, and random token soup")]))
        .set("wall_s", J::Num((wall * 100.0).round() / 100.0)).set("violations", J::Int(violations));
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if std::fs::write(format!("{}/evidence/{}.json", root, id), doc.text()).is_err() { eprintln!("harness error: cannot write evidence"); return 2 }
    println!("{} runs, {} evaluations, {} distinct, {} ticks, {}/{} edges, log {:016x}, {:.1} s", b.runs, ev, b.st.distinct.len(), b.st.ticks, e1, g, b.st.log, wall);
    if b.st.n.get("stopped_by_wall_clock").is_some() { println!("note: stopped by the wall clock before all runs were done") }
    code
}

fn replay(v: &[String]) -> i32 {
    let path = v.get(1).cloned().unwrap_or_default();
    let t = match std::fs::read_to_string(&path) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", path, e); return 2 } };
    let j = match J::parse(&t) { Ok(j) => j, Err(e) => { eprintln!("{}: {}", path, e); return 2 } };
    let pl = Plan::from(&j);
    let p = find(&pl.prop);
    share_edges();
    let mut st = Stats::default();
    match exec(&*p, &pl, &mut st) {
        Ok(()) => { println!("the property holds in this run (event log {:016x})", st.log); 0 }
        Err(w) => {
            println!("[{}] {}", w.class, w.detail);
            println!("event log {:016x}", st.log);
            println!("VIOLATION property={} replay={}", pl.prop, path);
            1
        }
    }
}

/// The same seeds twice, at different worker counts: the event logs must agree.
fn selfcheck(v: &[String]) -> i32 {
    let id = v.get(1).cloned().unwrap_or_default();
    let n: u64 = arg(v, "--runs").and_then(|s| s.parse().ok()).unwrap_or(300);
    let p = find(&id);
    share_edges();
    let mut bad = 0;
    for seed in 1..=arg(v, "--seeds").and_then(|s| s.parse().ok()).unwrap_or(4u64) {
        let mut logs = vec![];
        for w in [1usize, 3, 8, 8] { let b = batch(&*p, seed, 0, n, w, false, 3600.0); logs.push((b.st.log, b.st.ticks, b.runs, b.found.is_some())) }
        let same = logs.iter().all(|x| *x == logs[0]);
        println!("{} seed {}: log {:016x} ticks {} {}", id, seed, logs[0].0, logs[0].1, if same { "same at 1, 3, 8 and 8 workers" } else { "DIFFERS" });
        if !same { bad += 1; println!("{:?}", logs) }
    }
    if bad > 0 { 1 } else { 0 }
}

fn probe(v: &[String]) -> i32 {
    let n: u64 = arg(v, "--runs").and_then(|s| s.parse().ok()).unwrap_or(300);
    let show: usize = arg(v, "--show").and_then(|s| s.parse().ok()).unwrap_or(10);
    let (mut ok, mut shown) = (0, 0);
    for i in 0..n {
        let p = crate::gen::program(i + 1000, 1, 0);
        let l = crate::gen::layout(&p, &[]);
        match session::solo("file", &l.text, session::TICKS_MAX) {
            Ok(s) if s.out[0].starts_with("Ok(") => ok += 1,
            Ok(s) => if shown < show { shown += 1; println!("{:?}\n   {}", l.text, s.out[0]) },
            Err(e) => println!("{:?}\n   {}", l.text, e.describe()),
        }
    }
    println!("accepted {} of {}", ok, n);
    0
}
