use super::*;
pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str { "C02" }
    fn runs(&self, th: bool) -> u64 { if th { 400_000 } else { 40_000 } }
    fn rule(&self) -> &'static str { "A text (a generated program whose tokens and trivia are known by construction, or a damaged one) is cut at many characters, for short texts at every one; each cut text is lexed and parsed and compared with the uncut run, with the constructed tokens, with the tiling of its characters and with a string model. Non-trivial: the cut falls before the end of the text; distinct by (cut text, entry point)." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C02", "cut");
        let m = r.heavy(6);
        let text;
        if r.chance(3, 5) { put_built(r, &mut p, m); text = built(&p).unwrap().text; p.text(*r.pick(&["lex", "lex", "stmt", "file"]), ""); }
        else { let api = *r.pick(&["lex", "lex", "stmt", "file", "eval", "single", "functype"]); text = text_big(r, api, m, 6); p.text(api, &text); }
        let n = text.chars().count();
        if n <= 80 && r.chance(1, 2) { for k in 0..n { p.ops.push(vec![0, k as i64]) } }
        else {
            let c = chars(&text);
            for _ in 0..30 {
                let k = if r.chance(1, 2) { r.below(n + 1) } else {
                    // just after the start of something
                    let s = r.below(n.max(1));
                    let w = ['\'', '"', '\\', '#', '\n', '0', '.', '*', '(', '='];
                    let x = *r.pick(&w);
                    (0..n).map(|i| (s + i) % n).find(|i| c[*i] == x).map(|i| i + 1 + r.below(3)).unwrap_or(s)
                };
                p.ops.push(vec![0, k.min(n) as i64])
            }
        }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let laid = built(p);
        let text = match &laid { Some(l) => l.text.clone(), None => p.texts.first().map(|t| t.text.clone()).unwrap_or_default() };
        let api = p.texts.first().map(|t| t.api.clone()).unwrap_or("lex".into());
        let c = chars(&text);
        let cuts: Vec<usize> = ops_of(p, 0).iter().map(|o| (o[1] as usize).min(c.len())).collect();
        let mut all = vec![c.len()];
        all.extend(&cuts);
        let b = pristine(st, "lexing or parsing a text cut short", &mut || {
            let mut w = W(vec![]);
            for k in &all {
                let t: String = c[..*k].iter().collect();
                let mut r = Run::new(1, &api, &t);
                r.ctx.tick_limit = TICKS_MAX;
                let (mut pos, mut look) = (vec![], vec![]);
                loop {
                    let go = r.step();
                    if matches!(r.state, State::Panicked(_)) { break }
                    pos.push(r.pos().unwrap_or(0) as u64);
                    look.push(if api == "stmt" { r.sess.as_ref().map(|s| s.look()).unwrap_or_default() } else { String::new() });
                    if !go { break }
                }
                if api == "lex" && !matches!(r.state, State::Panicked(_)) { for _ in 0..2 { let _ = r.raw_step(); pos.push(r.pos().unwrap_or(0) as u64) } }
                w.v(&r.result()).n(&pos).v(&look).u(r.ctx.ticks);
            }
            w.0
        })?;
        let mut r = R(&b);
        let (full, _fpos, flook, ft) = (r.v(), r.n(), r.v(), r.u());
        st.ticks += ft;
        let fo = oracle::outs(&full);
        if api == "lex" {
            check_lex(&c, &full, &fo, None, st)?;
            if let Some(l) = laid.as_ref().filter(|l| !l.tabs) { if let Some(d) = oracle::same_as_built(&fo[..fo.len().saturating_sub(2)], &l.exp) { return viol("tokens", format!("complete text {:?}: {}", clip(&text), d)) } }
        }
        for k in &cuts {
            let (o, pos, _look, tk) = (r.v(), r.n(), r.v(), r.u());
            st.ticks += tk;
            st.hit("evaluations");
            if *k < c.len() { st.hit("fault_text_ends_early"); st.distinct.insert(mix(hash_bytes(c[..*k].iter().collect::<String>().as_bytes()), hash_bytes(api.as_bytes()))); }
            let shown: String = c[..*k].iter().collect();
            let ctx = |d: String| format!("text cut at {} ({:?}), {}: {}", k, clip(&shown), api, d);
            if let Some(x) = pos.iter().find(|x| **x > oracle::far_end(&c[..*k])) { return viol("position", ctx(format!("position {} reported past the end", x))) }
            if let Some(m) = o.last().filter(|m| m.starts_with("<<panic")) { return viol("crash", ctx(m.clone())) }
            if let Some(m) = o.iter().find(|m| m.starts_with("<<no end")) { return viol("hang", ctx(m.clone())) }
            if api == "lex" {
                let co = oracle::outs(&o);
                check_lex(&c[..*k], &o, &co, Some(*k), st).map_err(|v| Viol { class: v.class, detail: ctx(v.detail) })?;
                // tokens wholly before the cut
                let mut last = 0;
                for (i, x) in fo.iter().enumerate() { match x { Out::Tok(t) if !t.spanless && t.kind != "EOF" => if t.end <= *k { last = i + 1 } else { break }, Out::Tok(t) if t.spanless => {} _ => break } }
                for i in 0..last { if !o.get(i).map(|x| oracle::same_at_end(&c, *k, &full[i], x)).unwrap_or(false) { return viol("prefix", ctx(format!("token {} lies before the end: expected {}, got {}", i, full[i], o.get(i).map(|s| s.as_str()).unwrap_or("nothing")))) } }
                if let Some(l) = &laid {
                    if let Some(e) = l.exp.iter().find(|e| e.kind == "AtomString" && e.start < *k && *k < e.end) {
                        let rest: Vec<char> = c[e.start..*k].to_vec();
                        let pl = e.prefix.as_ref().map(|s| s.chars().count()).unwrap_or(0);
                        if rest.len() > pl && !oracle::closed_string(&rest[pl..]) {
                            st.hit("reach_cut_inside_string");
                            if !co.iter().any(|x| matches!(x, Out::Err(_))) { return viol("string", ctx("a string cut before its closing quote is not reported".into())) }
                        }
                    }
                    if l.exp.iter().any(|e| e.kind == "AtomNumber" && e.start < *k && *k < e.end) { st.hit("reach_cut_inside_number") }
                    if l.exp.iter().any(|e| e.trivia.iter().any(|v| v.1 < *k && *k < v.2)) { st.hit("reach_cut_inside_trivia") }
                    if *k > 0 && c[*k - 1] == '\\' { st.hit("reach_cut_after_backslash") }
                }
            } else if api == "stmt" {
                for i in 0..full.len() {
                    let le = match oracle::out(&flook[i.min(flook.len() - 1)]) { Out::Tok(t) if !t.spanless && t.kind != "EOF" => t.end, _ => usize::MAX };
                    if le > *k { continue }
                    st.hit("reach_statement_before_cut");
                    if o.get(i) != full.get(i) { return viol("statement", ctx(format!("statement {} lies before the end: expected {}, got {}", i, clip(&full[i]), clip(o.get(i).map(|s| s.as_str()).unwrap_or("nothing"))))) }
                }
            }
        }
        if st.samples.is_empty() { st.samples.push(format!("{} on {:?} cut at {:?}", api, clip(&text), &cuts[..cuts.len().min(12)])) }
        Ok(())
    }
    fn known(&self) -> Vec<(String, String, bool)> { super::c03::crlf_probe() }
    fn components(&self) -> &'static str { "real: lexer, parser. simulated: the storage the text comes from (end of text at any character), allocator, clock" }
}

/// `o` ends with two extra requests after the end.
fn check_lex(c: &[char], raw: &[String], o: &[Out], _cut: Option<usize>, st: &mut Stats) -> Result<(), Viol> {
    if let Some(m) = raw.last().filter(|m| m.starts_with("<<panic")) { return viol("crash", m.clone()) }
    let n = o.len().saturating_sub(2);
    let t = oracle::tile(c, &o[..n]).map_err(|(a, b)| Viol { class: a, detail: b })?;
    probe_out(st, &o[..n]);
    match t.end {
        oracle::End::Eof => {
            let t0 = t.known_crlf as usize;
            for x in &o[n..] { match x { Out::Tok(t) if t.kind == "EOF" && t.start == c.len() + t0 => {} x => return viol("sticky", format!("after the end of text came {:?}", x)) } }
        }
        oracle::End::Error(_) => {}
        oracle::End::Other(m) => return viol("stream", format!("the stream ends with {}", m)),
    }
    Ok(())
}
