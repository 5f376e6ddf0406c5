use super::*;
pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str { "C07" }
    fn runs(&self, th: bool) -> u64 { if th { 200_000 } else { 60_000 } }
    fn rule(&self) -> &'static str { "A session runs while the allocator refuses one request (by number, or by the program path that leads to it, rare paths as often as common ones), every request from some point on, or every request above a size; each refusal runs in its own process; besides, allocation sites of each text are refused one by one in one process where the abort is replaced by unwinding to the harness, and what looks wrong there is repeated in a process of its own with the real abort before it counts. Accepted outcomes: abort, reported error after a correct beginning, panic, or the correct result. Non-trivial: a refusal actually happened; distinct by (text, entry point, refusal)." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C07", "refuse");
        let api = pick_api(r);
        let m = r.heavy(6);
        let t = if matches!(api, "lex" | "stmt" | "file") && r.below(4) == 0 { gen::grown(r) } else { text_big(r, api, m, 2) };
        p.text(api, &t);
        { p.ops.push(vec![5, r.below(1 << 30) as i64, if _th { 4_000_000 } else { 500_000 }]) }
        for _ in 0..r.range(1, 3) {
            match r.below(9) {
                5.. => p.ops.push(vec![4, r.below(10_000) as i64, r.below(10_000) as i64]),
                0 | 1 => p.ops.push(vec![0, r.below(10_000) as i64]),
                2 => p.ops.push(vec![1, r.below(10_000) as i64]),
                3 => p.ops.push(vec![2, *r.pick(&[1, 2, 4, 5, 8, 9, 16, 17, 24, 32, 33, 48, 64, 65, 96, 128, 129, 200, 256, 257, 400, 512, 800, 1024, 4096]) as i64]),
                _ => p.ops.push(vec![3, r.below(10_000) as i64, r.range(2, 6) as i64]),
            }
        }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let t = match p.texts.first() { Some(t) => t.clone(), None => return Ok(()) };
        // the undisturbed run, with the path that led to each allocation request
        let e = fork_run(WALL, &mut || {
            base_ambient();
            on_thread(|| {
                let mut r = Run::new(1, &t.api, &t.text);
                r.ctx.tick_limit = TICKS_MAX;
                r.ctx.sigs = Vec::with_capacity(60_000);
                let b = Solo::of(&mut r).enc();
                let mut w = W(vec![]);
                w.n(&r.ctx.sigs.iter().map(|x| *x as u64).collect::<Vec<_>>());
                w.0.extend(b);
                w.0
            })
        });
        let (g, sigs) = match e { End::Ok(b) => { let mut r = R(&b); let q = r.n(); (Solo::dec(r.0), q) } e => { harness(&e); st.hit("skipped_because_solo_run_died"); return Ok(()) } };
        st.ticks += g.ticks; st.note_v(&g.out); st.note(g.ticks);
        if g.panicked { return Ok(()) }
        let mut paths: std::collections::BTreeMap<u64, u64> = Default::default();
        for x in &sigs { *paths.entry(*x).or_insert(0) += 1 }
        let mut paths: Vec<(u64, u64)> = paths.into_iter().map(|(k, n)| (n, k)).collect();
        paths.sort();
        st.max("allocation_paths_in_one_run", paths.len() as u64);
        for o in &p.ops {
            if o[0] == 5 { self.screen(&t, &g, o.get(1).copied().unwrap_or(0) as u64, o.get(2).copied().unwrap_or(0).max(0) as u64, st)?; continue }
            let a = o.get(1).copied().unwrap_or(0).max(0) as u64;
            let at = 1 + a * g.allocs.max(1) / 10_000;
            if o[0] == 4 && paths.is_empty() { continue }
            let (many, path) = paths.get((a as usize * paths.len() / 10_000).min(paths.len().max(1) - 1)).copied().unwrap_or((1, 1));
            let nth = o.get(2).copied().unwrap_or(0).max(0) as u64 * many / 10_000;
            let e = fork_run(WALL, &mut || {
                base_ambient();
                on_thread(|| {
                    let mut r = Run::new(1, &t.api, &t.text);
                    r.ctx.tick_limit = g.ticks * 4 + 1_000_000;
                    match o[0] { 0 => r.ctx.fail_one = at, 1 => r.ctx.fail_from = at, 2 => r.ctx.fail_size = a.max(1), 4 => { r.ctx.fail_sig = path as u32; r.ctx.fail_nth = nth } _ => { r.ctx.fail_from = at; r.ctx.fail_until = at + o.get(2).copied().unwrap_or(2).max(1) as u64 } }
                    r.finish();
                    r.ctx.fail_one = 0; r.ctx.fail_from = 0; r.ctx.fail_size = 0; r.ctx.fail_sig = 0;
                    r.drop_session();
                    let mut w = W(vec![]);
                    w.v(&r.out).u(matches!(r.state, State::Panicked(_)) as u64).u(r.ctx.refused).u(r.ctx.ticks);
                    w.0
                })
            });
            harness(&e);
            st.hit("evaluations");
            let name = ["one", "from_here_on", "above_size", "a_few", "by_path"][o[0] as usize % 5];
            let ctx = |d: String| format!("{} on {:?}, refused {} ({}): {}", t.api, clip(&t.text), name, match o[0] { 2 => a, 4 => path, _ => at }, d);
            match e {
                End::Ok(b) => {
                    let mut r = R(&b);
                    let (out, pan, refused, tk) = (r.v(), r.u() != 0, r.u(), r.u());
                    st.ticks += tk;
                    let h = hash_bytes(&b);
                    st.note(h);
                    if refused > 0 { st.add(&format!("fault_refused_{}", name), refused); st.hit("reach_survived_refusal"); st.distinct.insert(hash_bytes(format!("{:?}{:?}", t, o).as_bytes())); }
                    if out == g.out && !pan { continue }
                    let m = out.len();
                    let failed = pan || out.last().map(|s| s.starts_with("Err(") || s.starts_with("<lexical error>")).unwrap_or(false);
                    let begin = if pan { m } else { m.saturating_sub(1) };
                    if refused == 0 { return viol("differs", ctx("no request was refused, yet the result differs".into())) }
                    if !failed || begin > g.out.len() || out[..begin] != g.out[..begin] { return viol("wrong", ctx(first_diff(&g.out, &out).unwrap_or_default())) }
                }
                End::Signal(6) | End::Signal(4) => { st.hit(&format!("fault_refused_{}", name)); st.hit("reach_aborted_on_refusal"); st.note(o[0] as u64); st.distinct.insert(hash_bytes(format!("{:?}{:?}", t, o).as_bytes())); }
                End::Code(DIE_TICKS) | End::Timeout => return viol("hang", ctx("the session does not end".into())),
                End::Code(DIE_MEM) => return viol("memory", ctx("memory grew without bound".into())),
                End::Code(DIE_DEADLOCK) => return viol("hang", ctx("deadlock".into())),
                x => return viol("crash", ctx(x.describe())),
            }
        }
        if st.samples.is_empty() { st.samples.push(format!("{} on {:?} with refusals {:?} of {} requests", t.api, clip(&t.text), p.ops, g.allocs)) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, parser, Rust runtime's allocation failure path. simulated: allocator, clock" }
}

const SITE: u64 = 0x3f_ffff;
struct Try { sig: u32, nth: u64, on: bool }
impl P {
    /// The allocation sites of a text (by the last steps before the request, and its size), in seeded order.
    fn sites(&self, r: &mut Run, seed: u64) -> Vec<Try> {
        let mut rnd = Rng::new(seed);
        let mut n: std::collections::BTreeMap<u32, u64> = Default::default();
        for x in &r.ctx.sigs { *n.entry(*x).or_insert(0) += 1 }
        let mut v: Vec<Try> = n.into_iter().map(|(sig, many)| Try { sig, nth: rnd.below(many as usize) as u64, on: rnd.below(5) == 0 }).collect();
        for i in (1..v.len()).rev() { let j = rnd.below(i + 1); v.swap(i, j) }
        v
    }
    fn record(&self, t: &crate::plan::T) -> Run {
        let mut r = Run::new(1, &t.api, &t.text);
        r.ctx.tick_limit = TICKS_MAX;
        r.ctx.sig_mask = SITE;
        r.ctx.sigs = Vec::with_capacity(60_000);
        r.finish();
        r.drop_session();
        r
    }
    fn attempt(&self, t: &crate::plan::T, g: &Solo, k: &Try, survive: bool) -> Run {
        let mut r = Run::new(1, &t.api, &t.text);
        r.ctx.tick_limit = g.ticks * 4 + 1_000_000;
        r.ctx.sig_mask = SITE;
        r.ctx.survive = survive;
        r.ctx.fail_sig = k.sig;
        r.ctx.fail_nth = k.nth;
        r.ctx.fail_then = k.on;
        r.finish();
        r.ctx.fail_sig = 0; r.ctx.fail_from = 0;
        r.drop_session();
        r
    }
    fn wrong(&self, g: &Solo, out: &[String], pan: bool) -> bool {
        if out == &g.out[..] && !pan { return false }
        let m = out.len();
        let failed = pan || out.last().map(|s| s.starts_with("Err(") || s.starts_with("<lexical error>")).unwrap_or(false);
        let begin = if pan { m } else { m.saturating_sub(1) };
        !failed || begin > g.out.len() || out[..begin] != g.out[..begin]
    }
    /// Many refusals in one process: where the runtime would abort, the session is unwound to the harness instead. What looks
    /// wrong here is only a suspicion; it counts if it happens again in a process of its own, with a real abort.
    fn screen(&self, t: &crate::plan::T, g: &Solo, seed: u64, budget: u64, st: &mut Stats) -> Result<(), Viol> {
        let e = fork_run(WALL, &mut || {
            base_ambient();
            on_thread(|| {
                let mut r = self.record(t);
                let v = self.sites(&mut r, seed);
                let (mut used, mut tried, mut died, mut bad) = (0, 0, 0, vec![]);
                for (i, k) in v.iter().enumerate() {
                    if used >= budget || bad.len() >= 4 { break }
                    let r = self.attempt(t, g, k, true);
                    used += r.ctx.ticks;
                    tried += (r.ctx.refused > 0) as u64;
                    if r.ctx.died { died += 1; continue }
                    if self.wrong(g, &r.out, matches!(r.state, State::Panicked(_))) { bad.push(i as u64) }
                }
                let mut w = W(vec![]);
                w.u(used).u(tried).u(died).n(&bad);
                w.0
            })
        });
        harness(&e);
        st.hit("evaluations");
        let suspects = match &e {
            End::Ok(b) => {
                let mut r = R(b);
                let (used, tried, died) = (r.u(), r.u(), r.u());
                st.ticks += used; st.note(used); st.note(tried);
                st.add("fault_refused_screened", tried);
                st.add("reach_aborted_on_refusal", died);
                st.add("reach_survived_refusal", tried - died);
                st.distinct.insert(hash_bytes(format!("{:?}{}", t, seed).as_bytes()));
                r.n()
            }
            // the process did not survive: look at the refusals one by one
            _ => (0..400).collect(),
        };
        for i in suspects {
            let e = fork_run(WALL, &mut || {
                base_ambient();
                on_thread(|| {
                    let mut r = self.record(t);
                    let v = self.sites(&mut r, seed);
                    let mut w = W(vec![]);
                    match v.get(i as usize) {
                        None => { w.v(&[]).u(0).u(0).u(1); }
                        Some(k) => {
                            let r = self.attempt(t, g, k, false);
                            w.v(&r.out).u(matches!(r.state, State::Panicked(_)) as u64).u(r.ctx.refused).u(0);
                        }
                    }
                    w.0
                })
            });
            harness(&e);
            let ctx = |d: String| format!("{} on {:?}, refused at site {} of {}: {}", t.api, clip(&t.text), i, seed, d);
            match e {
                End::Ok(b) => {
                    let mut r = R(&b);
                    let (out, pan, refused) = (r.v(), r.u() != 0, r.u());
                    if r.u() != 0 { break }
                    if refused > 0 && self.wrong(g, &out, pan) { return viol("wrong", ctx(first_diff(&g.out, &out).unwrap_or_default())) }
                }
                End::Signal(6) | End::Signal(4) => {}
                End::Code(DIE_TICKS) | End::Timeout => return viol("hang", ctx("the session does not end".into())),
                End::Code(DIE_MEM) => return viol("memory", ctx("memory grew without bound".into())),
                End::Code(DIE_DEADLOCK) => return viol("hang", ctx("deadlock".into())),
                x => return viol("crash", ctx(x.describe())),
            }
        }
        Ok(())
    }
}
