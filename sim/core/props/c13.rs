use super::*;
pub struct P;

/// The position an error message names.
pub fn named_position(m: &str) -> Option<u64> {
    let i = m.find(" at ")?;
    let d: String = m[i + 4..].trim_start_matches('(').chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}

fn error_text(s: &str) -> Option<String> {
    if let Some(x) = s.strip_prefix("<lexical error> ") { return Some(x.into()) }
    match V::parse(s) { Ok(V::Ctor(n, a)) if n == "Err" && a.len() == 1 => Some(if let V::Str(s) = &a[0] { s.clone() } else { a[0].text() }), _ => None }
}

/// What may still change the reading of a token: the characters the lexer looks at together.
const NEAR: usize = 3;

impl Prop for P {
    fn id(&self) -> &'static str { "C13" }
    fn runs(&self, th: bool) -> u64 { if th { 1_000_000 } else { 90_000 } }
    fn rule(&self) -> &'static str { "An intact (or already damaged) text and the same text with 1-6 storage faults behind some character are lexed and parsed, each in its own process. Up to the damage the tokens and the statements must be the same; an error must name a position inside the text, and, where the intact text is accepted, not before the statement that holds the damage. Non-trivial: something was delivered before the damage; distinct by the two texts." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C13", "contain");
        let m = if r.chance(1, 150) { 200 } else { r.heavy(10) };
        let api = *r.pick(&["lex", "lex", "stmt", "stmt", "file", "file", "eval", "functype", "single"]);
        let base;
        if matches!(api, "lex" | "stmt" | "file") && r.chance(4, 5) { put_built(r, &mut p, m); base = built(&p).unwrap().text; p.text(api, "") }
        else { let dm = if r.chance(1, 2) { 0 } else { 10 }; base = text_for(r, api, m, dm); p.text(api, &base) };
        let n = base.chars().count();
        // damage late in the text: much before it, much after it, or both
        let from = match r.below(4) { 0 => n - r.below(n.min(12) + 1), 1 => r.below(n + 1), _ => n / 2 + r.below(n - n / 2 + 1) };
        for mut o in damage::random(r, &base, 6, &damage::ALL) {
            if (o[1] as usize) < from { o[1] = (from + r.below(n + 1 - from)) as i64 }
            let mut q = vec![10]; q.extend(o); p.ops.push(q)
        }
        if r.chance(1, 6) { let t = *r.pick(&["'", "\"\"\"", "(", "\u{0}", "\\", "]", "\n    x", "é", "$", "0x", "\r\n", "\n  \n", "if", "#", ":", "=", "'''\n", "\t", "1e", "else:"]); p.texts.push(crate::plan::T { api: "tail".into(), text: t.repeat(1 + r.below(3)) }) }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let t = match p.texts.first() { Some(t) => t.clone(), None => return Ok(()) };
        let laid = built(p);
        let base = match &laid { Some(l) => l.text.clone(), None => t.text.clone() };
        let ops: Vec<Vec<i64>> = ops_of(p, 10).iter().map(|o| o[1..].to_vec()).collect();
        let mut text = damage::apply(&base, &ops);
        if let Some(x) = p.texts.get(1) { text.push_str(&x.text); st.hit("fault_garbage_behind_the_text") }
        for o in &ops { st.hit(&format!("fault_{}", damage::KINDS[o[0] as usize % damage::KINDS.len()])) }
        let (b, c) = (chars(&base), chars(&text));
        let d = b.iter().zip(&c).take_while(|x| x.0 == x.1).count();
        if base == text { st.hit("skipped_no_damage"); return Ok(()) }
        let g = match golden(st, &t.api, &base) { Some(g) => g, None => return Ok(()) };
        if g.panicked { st.hit("skipped_base_panics"); return Ok(()) }
        let ctx = |m: String| format!("{} on {:?}, damaged from {} on: {:?}: {}", t.api, clip(&base), d, clip(&text), m);
        let o = pristine(st, &ctx(String::new()), &mut || { let mut r = Run::new(1, &t.api, &text); r.ctx.tick_limit = TICKS_MAX; let mut w = W(vec![]); let mut look = vec![]; loop { let go = r.step(); look.push(if r.sess.is_some() { r.sess.as_ref().map(|s| s.look()).unwrap_or_default() } else { String::new() }); if !go { break } } w.v(&r.result()).v(&look).u(r.ctx.ticks); w.0 })?;
        let mut rd = R(&o);
        let (out, _look, tk) = (rd.v(), rd.v(), rd.u());
        st.ticks += tk;
        st.hit("evaluations");
        if let Some(m) = out.last().filter(|m| m.starts_with("<<panic")) { return viol("crash", ctx(m.clone())) }
        let lx = match golden(st, "lex", &base) { Some(g) => g, None => return Ok(()) };
        let full = oracle::outs(&lx.out);
        // tokens that lie wholly before the damage
        let (mut last, mut safe_end) = (0, 0);
        for (i, x) in full.iter().enumerate() { match x { Out::Tok(t) if !t.spanless && t.kind != "EOF" => if t.end + NEAR <= d { last = i + 1; safe_end = t.end } else { break }, Out::Tok(t) if t.spanless => {} _ => break } }
        if last > 0 { st.distinct.insert(mix(hash_bytes(base.as_bytes()), hash_bytes(text.as_bytes()))); }
        let named = out.last().and_then(|m| error_text(m)).and_then(|m| named_position(&m));
        if let Some(x) = named { st.hit("reach_error_with_position"); if x > oracle::far_end(&c) { return viol("position", ctx(format!("the error names position {}, the text has {} characters: {}", x, c.len(), clip(out.last().unwrap())))) } }
        match t.api.as_str() {
            "lex" => {
                for i in 0..last { if out.get(i) != lx.out.get(i) { return viol("token", ctx(format!("token {} lies before the damage: expected {}, got {}", i, clip(&lx.out[i]), clip(out.get(i).map(|s| s.as_str()).unwrap_or("nothing"))))) } }
                if let Some(x) = named {
                    let e = oracle::outs(&out).iter().filter_map(|x| if let Out::Tok(t) = x { if t.spanless { None } else { Some(t.end as u64) } } else { None }).last().unwrap_or(0);
                    if x < e { return viol("blame", ctx(format!("the error names position {}, tokens were delivered up to {}: {}", x, e, clip(out.last().unwrap())))) }
                }
            }
            "stmt" => {
                // lookahead after each statement of the intact text
                let e = pristine(st, "parsing the intact text again", &mut || { let mut r = Run::new(1, "stmt", &base); r.ctx.tick_limit = TICKS_MAX; let mut look = vec![]; loop { let go = r.step(); look.push(r.sess.as_ref().map(|s| s.look()).unwrap_or_default()); if !go { break } } let mut w = W(vec![]); w.v(&look); w.0 })?;
                let look = R(&e).v();
                for i in 0..g.out.len().min(look.len()) {
                    let le = match oracle::out(&look[i]) { Out::Tok(t) if !t.spanless && t.kind != "EOF" => t.end, _ => continue };
                    if le + NEAR > d { break }
                    st.hit("reach_statement_before_damage");
                    if out.get(i) != g.out.get(i) { return viol("statement", ctx(format!("statement {} lies before the damage: expected {}, got {}", i, clip(&g.out[i]), clip(out.get(i).map(|s| s.as_str()).unwrap_or("nothing"))))) }
                }
            }
            _ => {}
        }
        // where the blame goes
        let accepted = match t.api.as_str() { "lex" => false, "stmt" => g.out.last().map(|s| s.contains("EOF(")).unwrap_or(false), _ => g.out.last().map(|s| s.starts_with("Ok(")).unwrap_or(false) };
        if let (true, Some(x), Some(l)) = (accepted, named, &laid) {
            let from = l.starts.iter().copied().filter(|s| *s < safe_end).last().unwrap_or(0);
            st.hit("reach_blame_checked");
            // (an error of the file as a whole, such as an unreadable character between statements, names the beginning of the file)
            if (x as usize) < from && !(t.api == "file" && l.starts.first().map(|s| x as usize <= *s).unwrap_or(false)) { return viol("blame", ctx(format!("the error names position {}, but everything up to {} is intact, and the statement at {} begins before that: {}", x, safe_end, from, clip(out.last().unwrap())))) }
        }
        if st.samples.is_empty() && last > 0 { st.samples.push(ctx(format!("{} tokens before the damage", last))) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, parser. simulated: storage the text comes from, allocator, clock" }
}
