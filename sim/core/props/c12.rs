use super::*;
pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str { "C12" }
    fn runs(&self, th: bool) -> u64 { if th { 60_000 } else { 2_600 } }
    fn rule(&self) -> &'static str { "Storms of 1-6000 sessions (now and then of 66 000) that finish, fail, are dropped or are unwound at seeded source reads run in one thread (or several), between requests of a healthy session and before fresh ones; every victim must return what it returns in a pristine process, with no more than twice the work. Non-trivial: every run; distinct by (texts, storms)." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C12", "storm");
        let api = *r.pick(&["lex", "stmt", "file", "stmt", "file"]);
        let m = r.heavy(5);
        let t = text_for(r, api, m, 2);
        p.text(api, &t);
        let n = r.range(1, 5);
        for _ in 0..n {
            let api = pick_any_api(r);
            let t = match r.below(8) {
                // nearly the text of another session
                6 | 7 => { let k = r.below(p.texts.len()); let t = p.texts[k].text.clone(); let a = p.texts[k].api.clone(); let t = near(r, &t); p.text(&a, &t); continue }
                0 => { let k = r.heavy(8); gen::soup(r, k) }
                1 => (*r.pick(&["'", "\"\"\"a", "0x", "(", "[{(", "  a\n b\n", "if a:\n  b\n c\n", "try:\n a\nexcept* b:\n c\n", "try:\n a\nexcept:\n c\n", "def f(:", "a = ", "\\", "$", "1__", "match a:\n", "class A(", "import ", "from . import (", "((((((((", "lambda", "a\u{0}b"])).to_string(),
                _ => text_for(r, api, 2, 7),
            };
            p.text(api, &t);
        }
        let big = r.chance(1, 6);
        for _ in 0..r.range(1, 5) { let c = if big { r.range(500, 6000) } else { r.heavy(300) }; p.ops.push(vec![r.below(5) as i64, r.range(1, n) as i64, c as i64, r.below(10_000) as i64]) }
        // now and then so many that a counter of two bytes wraps: of sessions that have next to nothing to do
        if r.chance(1, 200) {
            let t = *r.pick(&["", "$", "  a\n", " (\n", "'", "a\n", "\n# c\n a", "if a:\n  b", "a\n\tb\n", "[]"]);
            p.text("lex", t);
            p.ops.push(vec![r.below(2) as i64, p.texts.len() as i64 - 1, r.range(65_400, 67_000) as i64, 0]);
        }
        p.put("threads", if r.chance(1, 3) { 2 } else { 1 });
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        if p.texts.is_empty() { return Ok(()) }
        let mut gold = vec![];
        for t in &p.texts { match golden(st, &t.api, &t.text) { Some(g) => gold.push(g), None => return Ok(()) } }
        let n = p.texts.len();
        let ops = p.ops.clone();
        let two = p.num("threads") > 1;
        let ctx0 = |d: &str| format!("{} on {:?} {}", p.texts[0].api, clip(&p.texts[0].text), d);
        let b = pristine(st, &ctx0("after a storm of failing sessions"), &mut || {
            let mut healthy = Run::new(1, &p.texts[0].api, &p.texts[0].text);
            healthy.ctx.tick_limit = gold[0].ticks * 8 + 1_000_000;
            let (mut count, mut ended, mut cancelled, mut ticks) = (0u64, 0u64, 0u64, 0u64);
            healthy.step();
            for o in &ops {
                if o.len() < 4 { continue }
                let s = o[1].max(0) as usize % n;
                let t = &p.texts[s];
                // as many sessions as the storm asks for, or as 150 million basic blocks allow
                let many = (o[2].max(0) as u64).min(150_000_000 / gold[s].ticks.max(1) + 1);
                let mut storm = || {
                    for k in 0..many {
                        let mut r = Run::new(2 + count % 1000, &t.api, &t.text);
                        r.ctx.tick_limit = gold[s].ticks * 8 + 1_000_000;
                        match o[0] {
                            0 | 1 => r.finish(),
                            2 => { for _ in 0..(o[3] as u64 + k) % 7 { if !r.step() { break } } }
                            3 => { r.ctx.cancel_at = 1 + (o[3] as u64 * gold[s].reads) / 10_000; r.finish() }
                            _ => { r.ctx.cancel_at = 1 + mix(o[3] as u64, k) % gold[s].reads.max(1); r.finish() }
                        }
                        if r.state == State::Cancelled { cancelled += 1 } else { ended += 1 }
                        count += 1;
                        ticks += r.ctx.ticks;
                        r.drop_session();
                        // the storm's own sessions must not drift either
                        if o[0] < 2 && (k + 1 == many || (gold[s].out.len() < 12 && gold[s].ticks < 3000)) && r.result() != gold[s].out { return Some(format!("session {} of a storm of {:?} differs: {}", k, clip(&t.text), first_diff(&gold[s].out, &r.result()).unwrap_or_default())) }
                    }
                    None
                };
                let bad = if two { struct B<T>(T); unsafe impl<T> Send for B<T> {} let b = B(&mut storm); std::thread::scope(|sc| std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || { let b = b; (b.0)() }).expect("spawn").join().unwrap_or_else(|_| die(DIE_HARNESS))) } else { storm() };
                if let Some(b) = bad { let mut w = W(vec![]); w.u(1).s(&b); return w.0 }
                healthy.step();
            }
            healthy.finish();
            healthy.drop_session();
            let mut w = W(vec![]);
            w.u(0).v(&healthy.result()).u(healthy.ctx.ticks);
            for t in &p.texts {
                let mut r = Run::new(5000, &t.api, &t.text);
                r.ctx.tick_limit = TICKS_MAX;
                r.finish();
                r.drop_session();
                w.v(&r.result()).u(r.ctx.ticks).u(r.ctx.allocs).u(r.ctx.bytes);
            }
            w.u(ended).u(cancelled).u(ticks);
            w.0
        })?;
        let mut r = R(&b);
        st.hit("evaluations");
        if r.u() == 1 { return viol("drift", r.s()) }
        let (h, _ht) = (r.v(), r.u());
        if let Some(d) = first_diff(&gold[0].out, &h) { return viol("nested", ctx0(&format!("with storms between its requests: {}", d))) }
        for (i, t) in p.texts.iter().enumerate() {
            let (o, tk, al, by) = (r.v(), r.u(), r.u(), r.u());
            st.ticks += tk;
            let g = &gold[i];
            if let Some(d) = first_diff(&g.out, &o) { return viol("residue", format!("{} on {:?} after the storms: {}", t.api, clip(&t.text), d)) }
            if tk > 2 * g.ticks + 2000 { return viol("cost", format!("{} on {:?} takes {} basic blocks after the storms, {} in a fresh process", t.api, clip(&t.text), tk, g.ticks)) }
            if al > 2 * g.allocs + 50 || by > 2 * g.bytes + 8192 { return viol("cost", format!("{} on {:?} takes {} allocations ({} bytes) after the storms, {} ({}) in a fresh process", t.api, clip(&t.text), al, by, g.allocs, g.bytes)) }
        }
        let (en, ca, tk) = (r.u(), r.u(), r.u());
        st.ticks += tk;
        st.add("fault_storm_session_finished_failed_or_dropped", en);
        st.add("fault_storm_session_unwound", ca);
        st.distinct.insert(hash_bytes(format!("{:?}{:?}", p.texts, p.ops).as_bytes()));
        if st.samples.is_empty() { st.samples.push(ctx0(&format!("after {} sessions ({} unwound)", en + ca, ca))) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, parser, unwinding, OS threads. simulated: clients, cancellation at source reads, storage faults, allocator, clock" }
}
