//! The properties. Each turns into plans (workload, schedule, faults) and a check of what one plan did.
pub use crate::child::{fork_run, End};
pub use crate::damage;
pub use crate::engine::{viol, Prop, Stats, Viol};
pub use crate::gen::{self, Laid};
pub use crate::hooks::*;
pub use crate::oracle::{self, Out};
pub use crate::plan::Plan;
pub use crate::prng::{hash_bytes, mix, Rng};
pub use crate::session::*;
pub use crate::val::V;
pub use std::sync::atomic::Ordering::Relaxed;

pub mod c01; pub mod c02; pub mod c03; pub mod c04; pub mod c05; pub mod c06;
pub mod c07; pub mod c08; pub mod c09; pub mod c10; pub mod c11; pub mod c12; pub mod c13; pub mod c14; pub mod c15; pub mod c16; pub mod rewrite;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(c01::P), Box::new(c02::P), Box::new(c03::P), Box::new(c04::P), Box::new(c05::P), Box::new(c06::P),
         Box::new(c07::P), Box::new(c08::P), Box::new(c09::P), Box::new(c10::P), Box::new(c11::P), Box::new(c12::P), Box::new(c13::P), Box::new(c14::P), Box::new(c15::P), Box::new(c16::P)]
}

pub const METHODS: [&str; 11] = ["m:tfp", "m:atom", "m:atom_expr", "m:test", "m:named", "m:star", "m:comparison", "m:simple", "m:arglist", "m:star_list", "m:stmt"];

pub fn pick_api(r: &mut Rng) -> &'static str {
    match r.below(16) { 0..=3 => "lex", 4..=6 => "stmt", 7..=10 => "file", 11 => "eval", 12 => "single", 13 => "functype", _ => METHODS[r.below(METHODS.len())] }
}

/// The same, or a client of the inner entry points.
pub fn pick_any_api(r: &mut Rng) -> &'static str { if r.chance(1, 4) { CLAUSES[r.below(CLAUSES.len())] } else { pick_api(r) } }
pub const CLAUSES: [&str; 12] = ["c:0", "c:1", "c:2", "c:3", "c:4", "c:5", "c:6", "c:7", "c:8", "c:9", "c:10", "c:11"];

/// Program text for an entry point: intact, damaged or soup.
pub fn text_for(r: &mut Rng, api: &str, max_stmts: usize, damage_of_10: usize) -> String {
    let laid = match api {
        a if matches!(a, "lex" | "stmt" | "file") || a.starts_with("c:") => { let s = r.u64() & !127; let p = gen::program(s, max_stmts, 0); gen::layout(&p, &[]) }
        _ => { let s = r.u64(); let p = gen::expression(s, api); gen::layout(&p, &[]) }
    };
    if !r.chance(damage_of_10, 10) { return laid.text }
    match r.below(6) { 0 => { let n = r.heavy(30); return gen::soup(r, n) } 1 | 2 => return gen::edit_tokens(r, &laid), _ => {} }
    let base = laid.text;
    let ops = damage::random(r, &base, 4, &damage::ALL);
    damage::apply(&base, &ops)
}

/// The same, now and then with something very long in front.
pub fn text_big(r: &mut Rng, api: &str, max_stmts: usize, damage_of_10: usize) -> String {
    let t = text_for(r, api, max_stmts, damage_of_10);
    if matches!(api, "lex" | "stmt" | "file") && r.chance(1, 150) { return gen::pad_text(r) + &t }
    // (the parser takes a while for these)
    if api == "lex" && r.chance(1, 60) { return gen::nest_text(r, 1025) + &t }
    if matches!(api, "stmt" | "file" | "eval") && r.chance(1, 300) { return gen::nest_text(r, 260) }
    t
}

/// A text that is nearly the same: as long, or with the same beginning or end - what a key made of a part of a text cannot tell apart.
pub fn near(r: &mut Rng, text: &str) -> String {
    let mut c = chars(text);
    if c.is_empty() { return "a".into() }
    let other = |r: &mut Rng, x: char| -> char {
        let set: &[char] = if x.is_ascii_digit() { &['0', '1', '7'] } else if x == ' ' || x == '\t' { &[' ', '\t'] } else if x.is_alphabetic() || x == '_' { &['a', 'b', 'x', 'é', '_'] } else if x == '\n' || x == '\r' { &['\n', '\r', ' '] } else if "'\"".contains(x) { &['\'', '"', 'a'] } else { &['+', '-', '(', ')', ':', ',', '.', 'a', ' '] };
        *r.pick(set)
    };
    match r.below(6) {
        0 => { let i = r.below(c.len()); c.truncate(i) }
        1 => c.push(*r.pick(&['\n', 'a', ' ', ')', '$', '"'])),
        2 => { let i = r.below(c.len()); let x = other(r, c[i]); c[i] = x; if r.chance(1, 2) { let n = c.len(); for x in c[i..].iter_mut() { if n > 0 && r.chance(1, 3) { *x = *r.pick(&['a', ' ', '1', '\n']) } } } }
        3 => { let (i, j) = (r.below(c.len()), r.below(c.len())); c.swap(i, j) }
        _ => { for _ in 0..1 + r.heavy(6) { let i = r.below(c.len()); let x = other(r, c[i]); c[i] = x } }
    }
    c.into_iter().collect()
}

pub fn golden(st: &mut Stats, api: &str, text: &str) -> Option<Solo> {
    match solo(api, text, TICKS_MAX) {
        Ok(s) => { st.ticks += s.ticks; st.note_v(&s.out); st.note(s.ticks); Some(s) }
        Err(e) => { harness(&e); if std::env::var("SIM_DEBUG").is_ok() { eprintln!("solo run died: {} {} {:?}", e.describe(), api, text) } st.hit("skipped_because_solo_run_died"); None }
    }
}

pub fn harness(e: &End) { if e.harness_error() { eprintln!("harness error in child"); die(DIE_HARNESS) } }

/// Runs `f` in a pristine child, on a big-stack thread; anything but a clean end is a violation.
pub fn pristine(st: &mut Stats, what: &str, f: &mut (dyn FnMut() -> Vec<u8> + Send)) -> Result<Vec<u8>, Viol> {
    let e = fork_run(WALL, &mut || { base_ambient(); on_thread(|| f()) });
    harness(&e);
    match e {
        End::Ok(b) => { let h = hash_bytes(&b); st.note(h); Ok(b) }
        End::Code(DIE_TICKS) | End::Timeout => viol("hang", format!("{}: {}", what, e.describe())),
        End::Code(DIE_MEM) => viol("memory", format!("{}: {}", what, e.describe())),
        End::Code(DIE_DEADLOCK) => viol("deadlock", format!("{}: {}", what, e.describe())),
        o => viol("crash", format!("{}: {}", what, o.describe())),
    }
}

pub fn first_diff(a: &[String], b: &[String]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y { return Some(format!("result {}: expected {}, got {}", i, clip(x.map(|s| s.as_str()).unwrap_or("nothing")), clip(y.map(|s| s.as_str()).unwrap_or("nothing")))) }
    }
    None
}

pub fn clip(s: &str) -> String { if s.chars().count() > 300 { let a: String = s.chars().take(300).collect(); format!("{}...", a) } else { s.to_string() } }

/// The program a plan builds: statements named by its [90, i] operations.
pub fn built(p: &Plan) -> Option<Laid> {
    let s = p.num("gseed");
    if s == 0 { return None }
    let prog = gen::program(s as u64, p.num("gmax").max(1) as usize, 0);
    let mut keep = vec![false; prog.stmts.len()];
    for o in &p.ops { if o[0] == 90 { if let Some(k) = keep.get_mut(o[1] as usize) { *k = true } } }
    Some(gen::layout(&prog, &keep))
}

pub fn put_built(r: &mut Rng, p: &mut Plan, max: usize) {
    let s = ((r.u64() >> 1) & !127) as i64 | if r.chance(1, 150) { 77 } else { 1 };
    p.put("gseed", s);
    p.put("gmax", max as i64);
    let prog = gen::program(s as u64, max, 0);
    for i in 0..prog.stmts.len() { p.ops.push(vec![90, i as i64]) }
}

pub fn ops_of(p: &Plan, k: i64) -> Vec<&Vec<i64>> { p.ops.iter().filter(|o| o[0] == k).collect() }
pub fn chars(s: &str) -> Vec<char> { s.chars().collect() }

pub fn probe_out(st: &mut Stats, o: &[Out]) {
    for x in o { match x { Out::Err(m) => { let k: String = m.chars().filter(|c| !c.is_ascii_digit()).take(48).collect(); st.hit(&format!("reach_error_{}", k.split(", found").next().unwrap_or(""))) } Out::Tok(t) if t.kind == "AtomString" => { st.hit(if t.prefix.is_some() { "reach_prefixed_string" } else { "reach_string" }) } Out::Tok(t) if t.spanless => st.hit("reach_indent_dedent"), _ => {} } }
}
