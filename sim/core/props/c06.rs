use super::*;
pub struct P;

/// The same text with other names, numbers and words of the same width, so that every round sees new ones.
fn salted(text: &str, round: u64) -> String {
    let mut c: Vec<char> = text.chars().collect();
    let word = |x: char| x.is_ascii_alphanumeric() || x == '_';
    let mut i = 0;
    while i < c.len() {
        if !word(c[i]) || (i > 0 && (c[i - 1] == '\\' || !c[i - 1].is_ascii())) { i += 1; continue }
        let mut e = i;
        while e < c.len() && word(c[e]) { e += 1 }
        let w: String = c[i..e].iter().collect();
        let exponent = i > 1 && c[i - 1] == '.' && c[i - 2].is_ascii_digit();
        if e - i >= 3 && !exponent && !gen::is_kw(&w) && w != "type" && w != "ignore" {
            let number = w.chars().all(|x| x.is_ascii_digit());
            if number || !c[i].is_ascii_digit() {
                for k in 0..40u64 {
                    let (b, n) = if number { (b'0', 10) } else { (b'a', 26) };
                    let v = round + 67 * k;
                    c[i + 1] = (b + (v % n) as u8) as char;
                    c[i + 2] = (b + (v / n % n) as u8) as char;
                    if !gen::is_kw(&c[i..e].iter().collect::<String>()) { break }
                }
            }
        }
        i = e;
    }
    c.into_iter().collect()
}

impl Prop for P {
    fn id(&self) -> &'static str { "C06" }
    fn runs(&self, th: bool) -> u64 { if th { 150_000 } else { 24_000 } }
    fn rule(&self) -> &'static str { "1-8 sessions with fates (finish, drop after k requests, unwind at a seeded source read inside a request) are repeated for 64 rounds (or, in most runs, three, and 64 only if any memory is left) in one process, with other names, numbers and words of the same width every round, while live memory obtained by the code under test is accounted at the allocator; a bystander session takes its steps between them. Non-trivial: at least one session cancelled or dropped mid-way; distinct by (texts, fates)." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C06", "cancel");
        let n = r.range(1, 4);
        for _ in 0..n { let api = pick_any_api(r); let t = text_for(r, api, 3, 5); p.text(api, &t); }
        let k = r.range(1, 6);
        for _ in 0..k {
            let s = r.below(n) as i64;
            match r.below(8) {
                0 => p.ops.push(vec![0, s, 0]),
                1 | 2 => p.ops.push(vec![1, s, r.heavy(20) as i64]),
                3 => p.ops.push(vec![3, s, 0]),
                _ => p.ops.push(vec![2, s, r.below(10_000) as i64]),
            }
        }
        // most runs look for anything left after three rounds, and repeat on only when something is
        if !r.chance(1, 6) { p.put("sweep", 1) }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let mut gold = vec![];
        for t in &p.texts { match golden(st, &t.api, &t.text) { Some(g) => gold.push(g), None => return Ok(()) } }
        if p.texts.is_empty() { return Ok(()) }
        let n = p.texts.len();
        let ops = p.ops.clone();
        let sweep = p.num("sweep") != 0;
        let b = pristine(st, "repeating cancelled and finished sessions", &mut || {
            let mut live = vec![];
            let mut by = Run::new(1000, &p.texts[0].api, &p.texts[0].text);
            by.ctx.tick_limit = TICKS_MAX;
            let (mut cancels, mut drops, mut ticks) = (0, 0, 0);
            let mut odd: Vec<String> = vec![];
            let mut held: Vec<Run> = vec![];
            for round in 0..64u64 {
                for (i, o) in ops.iter().enumerate() {
                    if o.len() < 3 { continue }
                    if round == 0 { by.step(); }
                    let s = o[1] as usize % n;
                    let t = &p.texts[s];
                    let text = if round < 2 { t.text.clone() } else { salted(&t.text, round) };
                    let mut r = Run::new(i as u64 + 1, &t.api, &text);
                    r.ctx.tick_limit = gold[s].ticks * 4 + 1_000_000;
                    match o[0] {
                        1 => for _ in 0..o[2].max(0) { if !r.step() { break } },
                        2 => { r.ctx.cancel_at = 1 + (o[2].max(0) as u64 * gold[s].reads) / 10_000; r.finish() }
                        _ => { r.keep = o[0] == 3; r.finish() }
                    }
                    if r.state == State::Cancelled { cancels += 1 }
                    if r.state == State::Active { drops += 1 }
                    r.drop_session();
                    if round < 2 {
                        let m = r.out.len();
                        let whole = matches!(r.state, State::Ended | State::Panicked(_));
                        let res = r.result();
                        if (whole && res != gold[s].out) || (!whole && m <= gold[s].out.len() && r.out[..] != gold[s].out[..m]) { odd.push(format!("session {}: {}", s, first_diff(&gold[s].out[..m.min(gold[s].out.len())], &r.out).unwrap_or("different end".into()))) }
                    }
                    ticks += r.ctx.ticks;
                    if r.keep { held.push(r) } else { r.kept.clear() }
                }
                held.clear();
                if round == 0 { by.finish(); by.drop_session(); }
                if sweep && round == 2 && LIVE_BYTES.load(Relaxed) <= 0 { break }
                if matches!(round + 1, 4 | 8 | 16 | 32 | 64) { live.push(LIVE_BYTES.load(Relaxed) as u64); live.push(LIVE_BLOCKS.load(Relaxed) as u64) }
            }
            let mut w = W(vec![]);
            w.n(&live).v(&by.result()).v(&odd).u(cancels).u(drops).u(ticks);
            w.0
        })?;
        let mut r = R(&b);
        let (live, by, odd, ca, dr, tk) = (r.n(), r.v(), r.v(), r.u(), r.u(), r.u());
        st.ticks += tk;
        st.hit("evaluations");
        st.add("fault_unwound_inside_a_request", ca);
        st.add("fault_dropped_between_requests", dr);
        if live.len() < 10 { st.hit("reach_nothing_left_after_three_rounds"); if let Some(d) = first_diff(&gold[0].out, &by) { return viol("disturbed", format!("a session next to cancelled ones ({} on {:?}): {}", p.texts[0].api, clip(&p.texts[0].text), d)) } if let Some(d) = odd.first() { return viol("disturbed", d.clone()) } if ca + dr > 0 { st.distinct.insert(hash_bytes(format!("{:?}{:?}", p.texts, p.ops).as_bytes())); } return Ok(()) }
        st.max("live_bytes_left_after_64_rounds", live[8]);
        if ca + dr > 0 { st.distinct.insert(hash_bytes(format!("{:?}{:?}", p.texts, p.ops).as_bytes())); }
        if let Some(d) = first_diff(&gold[0].out, &by) { return viol("disturbed", format!("a session next to cancelled ones ({} on {:?}): {}", p.texts[0].api, clip(&p.texts[0].text), d)) }
        if let Some(d) = odd.first() { return viol("disturbed", d.clone()) }
        let grow = |k: usize| (0..4).all(|i| live[2 * (i + 1) + k] > live[2 * i + k]);
        if grow(0) || grow(1) { return viol("leak", format!("live memory keeps growing while the same sessions repeat: {} bytes after 4 rounds, {} after 64 ({} and {} blocks)", live[0], live[8], live[1], live[9])) }
        if st.samples.is_empty() { st.samples.push(format!("fates {:?} over {} texts, {} cancelled, {} dropped, {} bytes left", p.ops, n, ca, dr, live[8])) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, parser, unwinding. simulated: client, cancellation at source reads, allocator (accounting), clock" }
}
