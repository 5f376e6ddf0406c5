use super::*;
use crate::sched;
pub struct P;

struct Shared { runs: Vec<Run>, done: Vec<bool>, bad: Vec<String> }
struct Ptr(*mut Shared);
unsafe impl Sync for Ptr {}
impl Ptr { #[allow(clippy::mut_from_ref)] fn get(&self) -> &mut Shared { unsafe { &mut *self.0 } } }

impl Prop for P {
    fn id(&self) -> &'static str { "C01" }
    fn runs(&self, th: bool) -> u64 { if th { 250_000 } else { 12_000 } }
    fn rule(&self) -> &'static str { "2-6 sessions (lexers, stepwise and whole-input parsers, over intact, damaged and random texts) on 1-4 real threads; a seeded scheduler decides after how many basic blocks which thread continues, which thread serves the next requests of which session (migration), and how requests interleave on one thread; every session must return exactly what it returns alone in a pristine process. Non-trivial: at least one preemption inside a request or one interleaved request; distinct by the hash of the executed (thread, basic block) preemption sequence." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C01", "threads");
        let n = r.range(2, 6);
        let shape = r.below(4);
        for i in 0..n {
            if i > 0 && r.chance(1, 4) { let t = p.texts[r.below(i)].clone(); let api = if r.chance(1, 2) { t.api.clone() } else { pick_any_api(r).to_string() }; let x = if r.chance(1, 3) { near(r, &t.text) } else { t.text }; p.text(&api, &x); continue }
            let api = if shape == 0 { "lex" } else if shape == 1 { "stmt" } else { pick_any_api(r) };
            let t = text_big(r, api, 6, 4);
            p.text(api, &t);
        }
        // now and then very many sessions live at once
        let many = r.chance(1, 25);
        if many { p.texts.truncate(3); let k = if p.texts.iter().any(|t| t.text.len() > 20_000) { 2 } else { *r.pick(&[10, 30, 90, 100, 400]) }; p.put("copies", k) ; p.put("stride", r.range(1, 4) as i64) }
        let n = p.texts.len();
        let threads = if r.chance(1, 4) { 1 } else if r.chance(1, 10) { r.range(5, 8) } else { r.range(2, 4) };
        p.put("threads", threads as i64);
        p.put("tail", if r.chance(1, 2) { r.range(1, 300) } else { r.range(100, 20_000) } as i64);
        p.put("keep", r.below(2) as i64);
        // work: who serves the next requests of which session
        if threads == 1 || r.chance(2, 3) {
            let k = r.heavy(40);
            for _ in 0..k { let (t, s, c) = (r.below(threads), r.below(n), r.heavy(8)); p.ops.push(vec![1, t as i64, s as i64, c as i64]) }
        }
        if threads > 1 {
            let k = r.heavy(200);
            let fine = r.heavy(3000);
            for _ in 0..k { let (t, b) = (r.below(threads), r.heavy(fine)); p.ops.push(vec![0, t as i64, b as i64]) }
        }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let mut gold = vec![];
        for t in &p.texts { match golden(st, &t.api, &t.text) { Some(g) => gold.push(g), None => return Ok(()) } }
        let threads = p.num("threads").clamp(1, 8) as usize;
        let slices: Vec<(usize, u64)> = ops_of(p, 0).iter().map(|o| (o[1] as usize % threads, o[2].max(1) as u64)).collect();
        if p.texts.is_empty() { return Ok(()) }
        let copies = p.num("copies").clamp(1, 1000) as usize;
        let n = p.texts.len() * copies;
        let mut items: Vec<(usize, usize, usize)> = ops_of(p, 1).iter().map(|o| (o[1] as usize % threads, o[2] as usize % n, o[3] as usize)).collect();
        if copies > 1 { for _ in 0..3 { for s in 0..n { items.push((s % threads, s, p.num("stride").max(1) as usize)) } } }
        for s in 0..n { items.push((s % threads, s, usize::MAX)) }
        let keep = p.num("keep") != 0;
        // switching threads costs real time: no more than some 20000 turns after the planned slices
        let tail = (p.num("tail").max(1) as u64).max(gold.iter().map(|g| g.ticks).sum::<u64>() * copies as u64 / 20_000);
        let e = fork_run(WALL, &mut || {
            base_ambient();
            let mut sh = Shared { runs: vec![], done: vec![false; items.len()], bad: vec![] };
            for i in 0..n {
                let (t, i) = (&p.texts[i % p.texts.len()], i);
                let mut r = Run::new(i as u64 + 1, &t.api, &t.text);
                r.ctx.tick_limit = gold[i % gold.len()].ticks * 4 + 1_000_000;
                r.keep = keep;
                r.ctx.mem_limit = 3 << 30;
                sh.runs.push(r)
            }
            let ptr = Ptr(&mut sh);
            let mut before: Vec<Option<usize>> = vec![];
            { let mut at = vec![None; n]; for (k, x) in items.iter().enumerate() { before.push(at[x.1]); at[x.1] = Some(k) } }
            let ready = |k: usize| before[k].map(|j| ptr.get().done[j]).unwrap_or(true);
            let body = |me: usize, slot: *mut sched::Slot| {
                for (k, it) in items.iter().enumerate() {
                    if it.0 != me { continue }
                    while !ready(k) { sched::wait_session(slot, k) }
                    let r = &mut ptr.get().runs[it.1];
                    let mut c = 0;
                    while c < it.2 { sched::boundary(slot); if !r.step() { break } c += 1 }
                    ptr.get().done[k] = true;
                }
            };
            let ran = sched::run(threads, &slices, tail, STACK, &body, &|k| !ready(k));
            for r in sh.runs.iter_mut() {
                let again: Vec<String> = r.kept.iter().map(|k| k.show()).collect();
                if keep && again.iter().zip(r.out.iter()).any(|(a, b)| a != b) { sh.bad.push("a result that was handed out changed later".into()) }
                r.kept.clear();
            }
            let mut w = W(vec![]);
            for r in &sh.runs { w.v(&r.result()).u(r.ctx.ticks); }
            w.v(&sh.bad).u(ran.preempts).u(ran.switches).u(ran.blocks).u(ran.sig);
            w.0
        });
        harness(&e);
        let b = match e {
            End::Ok(b) => b,
            End::Code(DIE_DEADLOCK) => return viol("deadlock", format!("sessions that finish alone {} together", "deadlock")),
            End::Code(DIE_TICKS) | End::Timeout => return viol("hang", "a session that finishes alone does not finish next to others".into()),
            o => return viol("crash", format!("sessions that finish alone end like this together: {}", o.describe())),
        };
        let mut r = R(&b);
        let h = hash_bytes(&b);
        st.note(h);
        for i in 0..n {
            let g = &gold[i % gold.len()];
            let out = r.v();
            st.ticks += r.u();
            if let Some(d) = first_diff(&g.out, &out) { let t = &p.texts[i % gold.len()]; return viol("differs", format!("session {} ({} on {:?}) differs from its run alone: {}", i, t.api, clip(&t.text), d)) }
        }
        let bad = r.v();
        if let Some(b) = bad.first() { return viol("changed", b.clone()) }
        let (pre, sw, bl, sig) = (r.u(), r.u(), r.u(), r.u());
        st.hit("evaluations");
        if n > 50 { st.hit("reach_more_than_50_live_sessions") }
        st.add("fault_preemption_inside_a_request", pre);
        st.add("fault_thread_switch", sw);
        st.add("fault_lock_wait", bl);
        st.add("fault_interleaved_or_migrated_request_group", ops_of(p, 1).len() as u64);
        if pre > 0 || items.len() > n { let mut k = sig; if pre == 0 { k = hash_bytes(format!("{:?}{:?}", p.ops, p.texts).as_bytes()) } st.distinct.insert(k); }
        if st.samples.is_empty() { st.samples.push(format!("{} sessions on {} threads, {} preemptions, {} switches; first text {:?}", n, threads, pre, sw, clip(&p.texts[0].text))) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, parser, tokens, nodes, OS threads. simulated: scheduler (who runs, preemption at every basic block), futex waits, allocator, clock, environment, random source" }
}
