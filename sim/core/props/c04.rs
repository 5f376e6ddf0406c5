use super::*;
pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str { "C04" }
    fn runs(&self, th: bool) -> u64 { if th { 500_000 } else { 80_000 } }
    fn rule(&self) -> &'static str { "A history of 1-60 client operations on one lexing session (next token, bursts, position queries, moving the session to another thread, dropping it, looking again at results handed out earlier, many requests after the end or after an error) over intact and damaged texts, compared with the plain run. Non-trivial: at least one operation other than asking for the next token before the end; distinct by (text, history)." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C04", "history");
        let t = text_big(r, "lex", 5, 7);
        p.text("lex", &t);
        let k = r.heavy(60);
        let eager = r.range(1, 6);
        for _ in 0..k {
            match r.below(10) {
                0..=2 => p.ops.push(vec![0, r.range(1, eager) as i64]),
                3 | 4 => p.ops.push(vec![0, r.heavy(40) as i64]),
                5 | 6 => p.ops.push(vec![1, r.range(1, 4) as i64]),
                7 => p.ops.push(vec![2]),
                8 => p.ops.push(vec![3]),
                _ => p.ops.push(vec![0, 1]),
            }
        }
        if r.chance(2, 3) { p.ops.push(vec![0, 400]); if r.chance(1, 30) { p.ops.push(vec![0, if r.chance(1, 10) { 66_000 } else { r.heavy(9000) as i64 }]) } for _ in 0..r.range(1, 6) { p.ops.push(vec![0, r.range(1, 5) as i64]); if r.chance(1, 2) { p.ops.push(vec![1, 1]) } } }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let text = p.texts.first().map(|t| t.text.clone()).unwrap_or_default();
        let c = chars(&text);
        let g = match golden(st, "lex", &text) { Some(g) => g, None => return Ok(()) };
        if g.panicked { return Ok(()) }
        let ops = p.ops.clone();
        let limit = g.ticks * 20 + 30_000_000;
        let e = fork_run(WALL, &mut || {
            base_ambient();
            struct S { r: Run, log: Vec<String>, pos: Vec<u64>, stale: Vec<String> }
            struct Mv(*mut S);
            unsafe impl Send for Mv {}
            let mut s = S { r: Run::new(1, "lex", &text), log: vec![], pos: vec![], stale: vec![] };
            s.r.keep = true;
            s.r.ctx.tick_limit = limit;
            let m = Mv(&mut s);
            let mut i = 0;
            // each turn of this loop is another thread
            while i < ops.len() {
                let (m2, st0) = (Mv(m.0), i);
                let ops = &ops;
                i = on_thread(move || {
                    let m2 = m2;
                    let s = unsafe { &mut *m2.0 };
                    if s.r.state == State::Fresh { s.r.open() }
                    let mut i = st0;
                    while i < ops.len() && !matches!(s.r.state, State::Panicked(_)) {
                        let o = &ops[i];
                        i += 1;
                        let a = o.get(1).copied().unwrap_or(1).max(0);
                        match o[0] {
                            0 => for _ in 0..a { let before = s.r.out.len(); if s.r.raw_step().is_none() { break } if s.r.out.len() > before { s.log.push(s.r.out[before].clone()); let q = s.r.pos().unwrap_or(u32::MAX) as u64; s.pos.push(q) } if s.r.out.len() > s.r.cap + 70_000 { break } },
                            1 => for _ in 0..a { let q = s.r.pos().unwrap_or(u32::MAX) as u64; s.pos.push(q | 1 << 40) },
                            2 => return i,
                            _ => for (k, v) in s.r.kept.iter().zip(s.r.out.iter()) { let x = k.show(); if x != *v { s.stale.push(format!("was {}, now {}", v, x)); break } },
                        }
                    }
                    if matches!(s.r.state, State::Panicked(_)) { ops.len() } else { i }
                });
            }
            // results outlive the session
            if !matches!(s.r.state, State::Panicked(_)) { s.r.sess = None; }
            for (k, v) in s.r.kept.iter().zip(s.r.out.iter()) { let x = k.show(); if x != *v { s.stale.push(format!("was {}, now {} (session gone)", v, x)); break } }
            s.r.kept.clear();
            let mut w = W(vec![]);
            w.v(&s.r.result()).n(&s.pos).v(&s.stale).u(s.r.ctx.ticks);
            w.0
        });
        harness(&e);
        let ctx = |d: String| format!("text {:?}: {}", clip(&text), d);
        let b = match e { End::Ok(b) => b, End::Code(DIE_TICKS) | End::Timeout => return viol("hang", ctx("a request does not return".into())), o => return viol("crash", ctx(o.describe())) };
        let h = hash_bytes(&b);
        st.note(h);
        let mut r = R(&b);
        let (out, pos, stale, tk) = (r.v(), r.n(), r.v(), r.u());
        st.ticks += tk;
        st.hit("evaluations");
        if let Some(x) = stale.first() { return viol("changed", ctx(format!("a token handed out earlier changed: {}", x))) }
        // position queries change nothing and never point past the end
        let mut k = 0usize;
        let mut cur: Option<u64> = None;
        for q in &pos {
            let v = q & 0xffff_ffff;
            if v > oracle::far_end(&c) { return viol("position", ctx(format!("position {} after {} requests, the text has {} characters", v, k, c.len()))) }
            if q >> 40 == 0 { k += 1; cur = Some(v); if k <= g.step_pos.len() && g.step_pos[k - 1] != v { return viol("position", ctx(format!("position after request {} is {}, without position queries it is {}", k, v, g.step_pos[k - 1]))) } }
            else if let Some(x) = cur { if x != v { return viol("position", ctx(format!("position changed from {} to {} without a request", x, v))) } st.hit("fault_position_query") }
        }
        let n = g.out.len();
        if let Some(m) = out.last().filter(|m| m.starts_with("<<panic")) { return viol("crash", ctx(format!("request {}: {}", out.len(), m))) }
        for i in 0..out.len().min(n) { if out[i] != g.out[i] { return viol("differs", ctx(format!("request {}: expected {}, got {}", i, g.out[i], out[i]))) } }
        if out.len() > n && n > 0 {
            match oracle::out(&g.out[n - 1]) {
                Out::Tok(e) if e.kind == "EOF" => {
                    st.add("fault_request_after_end", (out.len() - n) as u64);
                    for x in &out[n..] { match oracle::out(x) { Out::Tok(t) if t.kind == "EOF" && t.start == e.start => {} o => return viol("sticky", ctx(format!("after the end of text came {:?}", o))) } }
                }
                Out::Err(_) => {
                    st.add("fault_request_after_error", (out.len() - n) as u64);
                    let mut far = 0;
                    for x in oracle::outs(&out) {
                        if let Out::Tok(t) = x {
                            for v in &t.trivia {
                                if v.start < far || v.end > c.len() { return viol("again", ctx(format!("trivia {}..{} delivered although everything before {} was delivered already", v.start, v.end, far))) }
                                far = far.max(v.end)
                            }
                            if t.spanless { continue }
                            let mut t = t.clone();
                            if oracle::crlf(&c, t.start, t.end, &t.kind) { st.hit("runs_with_the_known_crlf_finding_at_their_end"); t.end -= 1 }
                            if t.start < far || t.end as u64 > oracle::far_end(&c) { return viol("again", ctx(format!("token {} {}..{} delivered although everything before {} was delivered already", t.kind, t.start, t.end, far))) }
                            far = far.max(t.end)
                        }
                    }
                    // the same requests, and nothing but requests, on one thread: position queries and moves make no difference to those after the error either
                    if p.ops.iter().any(|o| o[0] != 0) {
                        let want = out.len();
                        let e = fork_run(WALL, &mut || {
                            base_ambient();
                            on_thread(|| {
                                let mut x = Run::new(1, "lex", &text);
                                x.ctx.tick_limit = limit;
                                x.open();
                                while x.out.len() < want { if x.raw_step().is_none() { break } }
                                let mut w = W(vec![]);
                                w.v(&x.result());
                                w.0
                            })
                        });
                        harness(&e);
                        if let End::Ok(b) = e {
                            let plain = R(&b).v();
                            if let Some(i) = (0..want).find(|i| plain.get(*i) != out.get(*i)) { return viol("differs", ctx(format!("request {} (after the error): without position queries the answer is {}, with them {}", i, plain.get(i).cloned().unwrap_or_default(), out[i]))) }
                            st.hit("plain_runs_past_an_error");
                        }
                    }
                }
                _ => {}
            }
        }
        st.add("fault_session_moved_to_another_thread", ops_of(p, 2).len() as u64);
        if p.ops.iter().any(|o| o[0] != 0) || out.len() > n { st.distinct.insert(hash_bytes(format!("{:?}{:?}", text, p.ops).as_bytes())); }
        if st.samples.is_empty() { st.samples.push(format!("{:?} with {} operations, {} answers ({} in the plain run)", clip(&text), p.ops.len(), out.len(), n)) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, tokens, OS threads. simulated: client, hand-over between threads, storage faults, allocator, clock" }
}
