use super::*;
pub struct P;

/// Reference: does this text end inside an open triple-quoted string? (Python's rules for comments and strings.)
pub fn open_triple(c: &[char]) -> bool {
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '#' => while i < c.len() && c[i] != '\n' && c[i] != '\r' { i += 1 },
            '\'' | '"' => {
                let q = c[i];
                if i + 2 < c.len() && c[i + 1] == q && c[i + 2] == q {
                    i += 3;
                    loop {
                        if i >= c.len() { return true }
                        if c[i] == '\\' { i += 2; continue }
                        if c[i] == q && i + 2 < c.len() && c[i + 1] == q && c[i + 2] == q { i += 3; break }
                        i += 1;
                    }
                } else {
                    i += 1;
                    loop {
                        if i >= c.len() || c[i] == '\n' || c[i] == '\r' { break }
                        if c[i] == '\\' { if i + 2 < c.len() && c[i + 1] == '\r' && c[i + 2] == '\n' { i += 3 } else { i += 2 } continue }
                        if c[i] == q { i += 1; break }
                        i += 1;
                    }
                }
            }
            '\\' => i += 2,
            _ => i += 1,
        }
    }
    false
}

impl Prop for P {
    fn id(&self) -> &'static str { "C08" }
    fn runs(&self, th: bool) -> u64 { if th { 400_000 } else { 60_000 } }
    fn rule(&self) -> &'static str { "A text rich in strings arrives in seeded pieces; after every piece the client submits all it has to a new session, as an interactive client must. The answer is compared with a reference scanner (open triple quote or not), the tokens before the signal with those of the complete text, and the last answer with delivery at once. Non-trivial: at least one delivery ends inside a triple-quoted string; distinct by (text, pieces)." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C08", "pieces");
        let m = r.heavy(5);
        let text;
        if r.chance(3, 4) {
            // look for a program with triple-quoted strings
            let mut k = 0;
            loop {
                p.ops.clear();
                p.nums.clear();
                put_built(r, &mut p, m);
                k += 1;
                let t = built(&p).unwrap().text;
                if t.contains("\"\"\"") || t.contains("'''") || k > 12 { text = t; break }
            }
            p.text("lex", "");
        } else { text = text_for(r, "lex", m, 8); p.text("lex", &text); p.put("damaged", 1); }
        let c = chars(&text);
        let n = c.len();
        let k = r.heavy(24);
        for _ in 0..k {
            let s = r.below(n.max(1));
            let pos = if r.chance(1, 2) { s } else { (0..n).map(|i| (s + i) % n).find(|i| c[*i] == '"' || c[*i] == '\'').map(|i| i + r.below(6)).unwrap_or(s) };
            p.ops.push(vec![0, pos.min(n) as i64])
        }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let laid = built(p);
        let text = match &laid { Some(l) => l.text.clone(), None => p.texts.first().map(|t| t.text.clone()).unwrap_or_default() };
        let sound = laid.is_some();
        let c = chars(&text);
        let mut at: Vec<usize> = ops_of(p, 0).iter().map(|o| (o[1] as usize).min(c.len())).collect();
        at.sort();
        at.dedup();
        at.push(c.len());
        let b = pristine(st, "lexing text that arrives in pieces", &mut || {
            let mut w = W(vec![]);
            let mut go = |t: String| { let mut r = Run::new(1, "lex", &t); r.ctx.tick_limit = TICKS_MAX; r.finish(); w.v(&r.result()).u(r.ctx.ticks); };
            go("'''".into());
            go("\"\"\"a".into());
            for k in &at { go(c[..*k].iter().collect()) }
            w.0
        })?;
        let mut r = R(&b);
        let sig = r.v().pop().unwrap_or_default();
        r.u();
        let sig2 = r.v().pop().unwrap_or_default();
        r.u();
        if !sig.starts_with("Err(") || sig != sig2 { return viol("signal", format!("open triple quotes are answered with {} and {}", sig, sig2)) }
        let gold = match golden(st, "lex", &text) { Some(g) => g, None => return Ok(()) };
        let full = oracle::outs(&gold.out);
        st.hit("evaluations");
        let mut inside = 0;
        for k in &at {
            let (o, tk) = (r.v(), r.u());
            st.ticks += tk;
            st.hit("fault_delivery_stops_here");
            let shown: String = c[..*k].iter().collect();
            let ctx = |d: String| format!("received so far {:?}: {}", clip(&shown), d);
            if let Some(m) = o.last().filter(|m| m.starts_with("<<")) { return viol("crash", ctx(m.clone())) }
            let asked = o.last() == Some(&sig);
            let open = open_triple(&c[..*k]);
            let oo = oracle::outs(&o);
            if sound {
                if open { inside += 1; st.hit("reach_delivery_ends_inside_triple_quotes") }
                if open && !asked { return viol("missed", ctx(format!("a triple quote is open, but the answer is {}", clip(o.last().map(|s| s.as_str()).unwrap_or(""))))) }
                if !open && asked { return viol("spurious", ctx("no triple quote is open, but more data is requested".into())) }
            } else if asked {
                // whatever precedes it: the rest after the last token must begin an unclosed triple-quoted string
                let t = oracle::tile(&c[..*k], &oo).map_err(|(a, d)| Viol { class: a, detail: ctx(d) })?;
                let _ = t;
                let last = oo.iter().rev().find_map(|x| if let Out::Tok(t) = x { if t.spanless { None } else { Some(t.end) } } else { None }).unwrap_or(0);
                if !open_triple(&c[last..*k]) { return viol("spurious", ctx("more data is requested, but no triple quote is open".into())) }
                inside += 1;
            }
            // tokens before the signal are those of the complete text
            let mut last = 0;
            for (i, x) in full.iter().enumerate() { match x { Out::Tok(t) if !t.spanless && t.kind != "EOF" => if t.end <= *k { last = i + 1 } else { break }, Out::Tok(t) if t.spanless => {} _ => break } }
            for i in 0..last { if !o.get(i).map(|x| oracle::same_at_end(&c, *k, &gold.out[i], x)).unwrap_or(false) { return viol("prefix", ctx(format!("token {} of the complete text is {}, delivered was {}", i, gold.out[i], o.get(i).map(|s| s.as_str()).unwrap_or("nothing")))) } }
            if asked && o.len() - 1 > last { for x in &oo[last..o.len() - 1] { if let Out::Tok(t) = x { if !t.spanless { return viol("extra", ctx(format!("{} {}..{} was delivered before the signal, the complete text has no such token", t.kind, t.start, t.end))) } } } }
            if *k == c.len() { if let Some(d) = first_diff(&gold.out, &o) { return viol("final", ctx(format!("delivered in pieces: {}", d))) } }
        }
        if inside > 0 { st.distinct.insert(hash_bytes(format!("{:?}{:?}", text, at).as_bytes())); }
        if st.samples.is_empty() && inside > 0 { st.samples.push(format!("{:?} delivered up to {:?}", clip(&text), at)) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer. simulated: the stream that delivers the text, the interactive client, allocator, clock" }
}
