use super::*;
pub struct P;

pub fn crlf_probe() -> Vec<(String, String, bool)> {
    let bad = match solo("lex", "a\r\n", TICKS_MAX) {
        Ok(s) => oracle::outs(&s.out).iter().any(|x| matches!(x, Out::Tok(t) if oracle::crlf(&chars("a\r\n"), t.start, t.end, &t.kind))),
        Err(_) => false,
    };
    vec![("crlf".into(), "a CR LF line end that ends the text is delivered one character too long, and the end of text reported one character too far (text \"a\\r\\n\")".into(), bad)]
}

impl Prop for P {
    fn id(&self) -> &'static str { "C03" }
    fn runs(&self, th: bool) -> u64 { if th { 1_500_000 } else { 200_000 } }
    fn rule(&self) -> &'static str { "A generated program is damaged by 0-8 storage faults (flipped bits, lost, duplicated, swapped, zeroed, stale and misdirected blocks, lost lines, replaced and inserted characters, early end) and lexed; ranges, contents and gaps of everything delivered are checked against the characters, and without damage against the tokens known by construction. Non-trivial: at least one fault changed the text; distinct by the damaged text." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C03", "damage");
        let m = r.heavy(8);
        if r.chance(1, 12) { let n = r.heavy(60); let t = gen::soup(r, n); p.text("lex", &t); }
        else { put_built(r, &mut p, m); p.text("lex", ""); }
        if r.chance(9, 10) {
            let t = built(&p).map(|l| l.text).unwrap_or_else(|| p.texts[0].text.clone());
            let mut allow: Vec<usize> = damage::ALL.iter().copied().filter(|_| r.chance(1, 2)).collect();
            if allow.is_empty() { allow = damage::ALL.to_vec() }
            for o in damage::random(r, &t, 8, &allow) { let mut q = vec![10]; q.extend(o); p.ops.push(q) }
        }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let laid = built(p);
        let base = match &laid { Some(l) => l.text.clone(), None => p.texts.first().map(|t| t.text.clone()).unwrap_or_default() };
        let ops: Vec<Vec<i64>> = ops_of(p, 10).iter().map(|o| o[1..].to_vec()).collect();
        let text = damage::apply(&base, &ops);
        let c = chars(&text);
        let b = pristine(st, &format!("lexing {:?}", clip(&text)), &mut || { let mut r = Run::new(1, "lex", &text); r.ctx.tick_limit = TICKS_MAX; Solo::of(&mut r).enc() })?;
        let s = Solo::dec(&b);
        st.ticks += s.ticks;
        st.hit("evaluations");
        for o in &ops { st.hit(&format!("fault_{}", damage::KINDS[o[0] as usize % damage::KINDS.len()])) }
        if text != base { st.distinct.insert(hash_bytes(text.as_bytes())); }
        let o = oracle::outs(&s.out);
        let ctx = |d: String| format!("text {:?}: {}", clip(&text), d);
        if s.panicked { return viol("crash", ctx(s.out.last().cloned().unwrap_or_default())) }
        if s.out.iter().any(|m| m.starts_with("<<no end")) { return viol("hang", ctx("the lexer never reports the end of text".into())) }
        let t = oracle::tile(&c, &o).map_err(|(a, d)| Viol { class: a, detail: ctx(d) })?;
        probe_out(st, &o);
        if t.known_crlf { st.hit("runs_with_the_known_crlf_finding_at_their_end") }
        match &t.end { oracle::End::Other(m) => return viol("stream", ctx(format!("the stream ends with {}", m))), oracle::End::Eof => st.hit("reach_damaged_text_fully_lexed"), _ => {} }
        if text == base { if let Some(l) = laid.as_ref().filter(|l| !l.tabs) { if let Some(d) = oracle::same_as_built(&o, &l.exp) { return viol("tokens", ctx(d)) } } }
        if st.samples.is_empty() { st.samples.push(format!("{} faults on a program of {} characters: {} tokens, {} trivia, then {:?}", ops.len(), c.len(), t.tokens, t.trivia, t.end)) }
        Ok(())
    }
    fn known(&self) -> Vec<(String, String, bool)> { crlf_probe() }
    fn components(&self) -> &'static str { "real: lexer. simulated: the storage the text comes from, allocator, clock" }
}
