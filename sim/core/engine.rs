//! The search: seeded runs spread over worker processes, first violation in run order wins, minimised and replayed.
use crate::child;
use crate::json::J;
use crate::plan::Plan;
use crate::prng::{mix, Rng};
use crate::session::{R, W};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[derive(Clone, Debug)]
pub struct Viol { pub class: String, pub detail: String }
pub fn viol<T>(class: &str, detail: String) -> Result<T, Viol> {
    let n = detail.chars().count();
    let detail = if n > 1600 { let c: Vec<char> = detail.chars().collect(); format!("{} ... {}", c[..900].iter().collect::<String>(), c[n - 600..].iter().collect::<String>()) } else { detail };
    Err(Viol { class: class.into(), detail })
}

#[derive(Default, Clone)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub distinct: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
    pub ticks: u64,
    pub log: u64,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, k: &str, v: u64) { if v > 0 { *self.n.entry(k.to_string()).or_insert(0) += v } }
    pub fn hit(&mut self, k: &str) { self.add(k, 1) }
    pub fn state(&mut self, h: u64) { if self.states.len() < 400_000 { self.states.insert(h); } }
    pub fn note(&mut self, x: u64) { self.log = mix(self.log, x) }
    pub fn note_v(&mut self, v: &[String]) { for s in v { let h = crate::prng::hash_bytes(s.as_bytes()); self.note(h) } }
    fn enc(&self, w: &mut W) {
        w.u(self.n.len() as u64);
        for (k, v) in &self.n { w.s(k).u(*v); }
        w.n(&self.distinct.iter().copied().collect::<Vec<_>>());
        w.n(&self.states.iter().copied().collect::<Vec<_>>());
        w.u(self.ticks).u(self.log).v(&self.samples);
    }
    fn dec(r: &mut R) -> Stats {
        let mut s = Stats::default();
        let k = r.u();
        for _ in 0..k { let a = r.s(); let b = r.u(); s.n.insert(a, b); }
        s.distinct = r.n().into_iter().collect();
        s.states = r.n().into_iter().collect();
        s.ticks = r.u();
        s.log = r.u();
        s.samples = r.v();
        s
    }
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.n { if k.starts_with("max_") { let e = self.n.entry(k).or_insert(0); *e = (*e).max(v) } else { *self.n.entry(k).or_insert(0) += v } }
        self.distinct.extend(o.distinct);
        self.states.extend(o.states);
        self.ticks += o.ticks;
        self.log ^= o.log;
        self.samples.extend(o.samples);
    }
    pub fn max(&mut self, k: &str, v: u64) { let e = self.n.entry(format!("max_{}", k)).or_insert(0); *e = (*e).max(v) }
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// Number of runs per tier.
    fn runs(&self, thorough: bool) -> u64;
    fn gen(&self, r: &mut Rng, idx: u64, thorough: bool) -> Plan;
    /// Executes one plan. Err: the property is broken.
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol>;
    fn rule(&self) -> &'static str;
    /// Fixed probes for known findings: (name, description, still fails?)
    fn known(&self) -> Vec<(String, String, bool)> { vec![] }
    fn components(&self) -> &'static str { "" }
}

pub fn plan_of(p: &dyn Prop, seed: u64, idx: u64, thorough: bool) -> Plan {
    let mut r = Rng::new(mix(mix(seed, crate::prng::hash_bytes(p.id().as_bytes())), idx));
    let mut pl = p.gen(&mut r, idx, thorough);
    pl.prop = p.id().into();
    pl.seed = seed;
    pl.idx = idx;
    pl
}

pub fn exec(p: &dyn Prop, pl: &Plan, st: &mut Stats) -> Result<(), Viol> { p.exec(pl, st) }

pub struct Found { pub idx: u64, pub plan: Plan, pub v: Viol }
pub struct Batch { pub st: Stats, pub runs: u64, pub found: Option<Found>, pub err: Option<String>, pub wall: f64 }

pub fn batch(p: &dyn Prop, seed: u64, from: u64, to: u64, workers: usize, thorough: bool, deadline_s: f64) -> Batch {
    let t0 = std::time::Instant::now();
    let best = unsafe { &*(child::shared(4096) as *const AtomicU64) };
    best.store(u64::MAX, SeqCst);
    let mut ws = vec![];
    for w in 0..workers as u64 {
        ws.push(child::spawn(&mut || {
            let mut total = Stats::default();
            let mut runs = 0u64;
            let mut found: Option<(u64, Plan, Viol)> = None;
            let mut i = from + w;
            // a small heap makes forks cheap
            extern "C" { fn mallopt(a: i32, b: i32) -> i32; fn malloc_trim(n: usize) -> i32; }
            unsafe { mallopt(-3, 1 << 17); mallopt(-1, 1 << 17); }
            while i < to {
                if runs % 16 == 0 { unsafe { malloc_trim(0); } }
                if best.load(SeqCst) < i { break }
                if t0.elapsed().as_secs_f64() > deadline_s { total.hit("stopped_by_wall_clock"); break }
                let pl = plan_of(p, seed, i, thorough);
                let mut st = Stats::default();
                let r = exec(p, &pl, &mut st);
                runs += 1;
                // the log is a sum over runs, so that it does not depend on how runs are spread over workers
                let h = mix(mix(st.log, i), st.ticks);
                st.log = h;
                if total.samples.len() > 2 { st.samples.clear() }
                total.merge(st);
                if let Err(v) = r {
                    best.fetch_min(i, SeqCst);
                    found = Some((i, pl, v));
                    break
                }
                i += workers as u64;
            }
            let mut o = W(vec![]);
            total.enc(&mut o);
            o.u(runs);
            match &found { None => { o.u(0); } Some((i, pl, v)) => { o.u(1).u(*i).s(&pl.json().text()).s(&v.class).s(&v.detail); } }
            o.0
        }));
    }
    let mut b = Batch { st: Stats::default(), runs: 0, found: None, err: None, wall: 0.0 };
    for w in ws {
        match child::collect(w) {
            Err(e) => b.err = Some(e),
            Ok(v) => {
                let mut r = R(&v);
                b.st.merge(Stats::dec(&mut r));
                b.runs += r.u();
                if r.u() == 1 {
                    let i = r.u();
                    let pl = Plan::from(&J::parse(&r.s()).unwrap_or(J::Null));
                    let v = Viol { class: r.s(), detail: r.s() };
                    if b.found.as_ref().map(|f| f.idx > i).unwrap_or(true) { b.found = Some(Found { idx: i, plan: pl, v }) }
                }
            }
        }
    }
    b.wall = t0.elapsed().as_secs_f64();
    b
}

/// Shrinks a failing plan while the class of the violation stays the same.
pub fn minimise(p: &dyn Prop, f: &Found, max_execs: usize, wall_s: f64) -> (Plan, Viol, usize) {
    let t0 = std::time::Instant::now();
    let mut best = f.plan.clone();
    let mut bv = f.v.clone();
    let mut k = 0usize;
    let mut st = Stats::default();
    macro_rules! attempt { ($q:expr) => {{
        let q: Plan = $q;
        if q == best || k >= max_execs || t0.elapsed().as_secs_f64() > wall_s { false } else {
            k += 1;
            match exec(p, &q, &mut st) { Err(v) if v.class == bv.class => { best = q; bv = v; true } _ => false }
        }
    }} }
    loop {
        let before = best.size() + best.nums.iter().filter(|x| !x.0.contains("seed")).map(|x| x.1.unsigned_abs() as usize % 1_000_000).sum::<usize>();
        // operations: remove chunks
        let mut n = best.ops.len() / 2;
        while n >= 1 {
            let mut i = 0;
            while i < best.ops.len() {
                let mut q = best.clone();
                let e = (i + n).min(q.ops.len());
                q.ops.drain(i..e);
                if !attempt!(q) { i += n }
            }
            n /= 2;
        }
        // texts: empty whole texts, then remove chunks of characters
        for t in 0..best.texts.len() {
            let mut q = best.clone();
            q.texts[t].text.clear();
            if attempt!(q) { continue }
            let mut n = best.texts[t].text.chars().count() / 2;
            while n >= 1 {
                let mut i = 0;
                loop {
                    let c: Vec<char> = best.texts[t].text.chars().collect();
                    if i >= c.len() { break }
                    let mut d = c.clone();
                    d.drain(i..(i + n).min(c.len()));
                    let mut q = best.clone();
                    q.texts[t].text = d.into_iter().collect();
                    if !attempt!(q) { i += n }
                }
                n /= 2;
            }
        }
        // numbers and operation arguments: towards zero
        for i in 0..best.nums.len() {
            if best.nums[i].0.contains("seed") { continue }
            for d in [0, 2, 4, 8] { let mut q = best.clone(); let v = q.nums[i].1; q.nums[i].1 = if d == 0 { 0 } else { v - v / d }; attempt!(q); }
            for _ in 0..8 { let mut q = best.clone(); if q.nums[i].1 <= 1 { break } q.nums[i].1 -= 1; if !attempt!(q) { break } }
        }
        for i in 0..best.ops.len() {
            for j in 1..best.ops.get(i).map(|o| o.len()).unwrap_or(0) {
                let mut q = best.clone();
                q.ops[i][j] /= 2;
                attempt!(q);
            }
        }
        let after = best.size() + best.nums.iter().filter(|x| !x.0.contains("seed")).map(|x| x.1.unsigned_abs() as usize % 1_000_000).sum::<usize>();
        if after >= before || k >= max_execs || t0.elapsed().as_secs_f64() > wall_s { break }
    }
    (best, bv, k)
}
