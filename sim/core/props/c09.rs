use super::*;
pub struct P;

/// Removes trivia that lies wholly before `off` (it belongs to what was parsed before the restart).
fn strip(v: &V, off: u64) -> V {
    match v {
        V::Ctor(n, a) if n == "Some" && a.len() == 1 => {
            if let V::List(l) = &a[0] { if !l.is_empty() && l.iter().all(|x| matches!(x.ctor().0, "WhiteSpace" | "Comment" | "Newline" | "LineContinuation") && x.ctor().1.get(1).and_then(|e| e.int()).map(|e| e <= off).unwrap_or(false) && !x.ctor().1.iter().any(|y| y.is_opt_list())) { return V::Ctor("None".into(), vec![]) } }
            V::Ctor(n.clone(), a.iter().map(|x| strip(x, off)).collect())
        }
        V::Ctor(n, a) => V::Ctor(n.clone(), a.iter().map(|x| strip(x, off)).collect()),
        V::List(a) => V::List(a.iter().map(|x| strip(x, off)).collect()),
        V::Tuple(a) => V::Tuple(a.iter().map(|x| strip(x, off)).collect()),
        o => o.clone(),
    }
}

/// What was parsed, without positions, trivia and line ends.
fn bare(v: &V) -> V {
    match v {
        V::Int(_) => V::Int(0),
        V::Ctor(n, a) if n == "Some" && a.len() == 1 && matches!(&a[0], V::List(l) if !l.is_empty() && l.iter().all(|x| matches!(x.ctor().0, "WhiteSpace" | "Comment" | "Newline" | "LineContinuation"))) => V::Ctor("None".into(), vec![]),
        V::Ctor(n, a) => V::Ctor(n.clone(), a.iter().filter(|x| !matches!(x, V::Chr(_))).map(bare).collect()),
        V::List(a) => V::List(a.iter().map(bare).collect()),
        V::Tuple(a) => V::Tuple(a.iter().map(bare).collect()),
        o => o.clone(),
    }
}

/// The same program inside other statements.
fn enclosed(p: &Plan, st: &mut Stats) -> Result<(), Viol> {
    let l = match built(p) { Some(l) => l, None => return Ok(()) };
    let prog = gen::program(p.num("gseed") as u64, p.num("gmax").max(1) as usize, 0);
    let mut body: Vec<gen::It> = ops_of(p, 90).iter().filter_map(|o| prog.stmts.get(o[1] as usize)).flatten().cloned().collect();
    let n = prog.stmts.len();
    // a line that is empty but for a continuation is a statement of a file only
    if n == 0 || body.is_empty() || ops_of(p, 90).iter().any(|o| prog.stmts.get(o[1] as usize).map(|s| s[..] == [gen::It::NL]).unwrap_or(true)) { return Ok(()) }
    let frames: Vec<usize> = ops_of(p, 30).iter().map(|o| o[1].max(0) as usize).collect();
    if frames.is_empty() { return Ok(()) }
    // statements before and after it in the same suite
    for f in &frames { body = gen::frame(*f, body) }
    let text = gen::layout(&gen::Prog { cfg: prog.cfg.clone(), stmts: vec![body], seed: prog.seed }, &[]).text;
    let g = match golden(st, "file", &l.text) { Some(g) => g, None => return Ok(()) };
    let w = match golden(st, "file", &text) { Some(g) => g, None => return Ok(()) };
    st.hit("evaluations");
    let list = |o: &Solo| -> Option<V> { let v = V::parse(o.out.last()?).ok()?; let (k, a) = v.ctor(); if k != "Ok" { return None } Some(bare(&a[0])) };
    let Some(a) = list(&g) else { st.hit("skipped_not_accepted"); return Ok(()) };
    st.hit("fault_enclosing_statement_replaced");
    st.distinct.insert(hash_bytes(text.as_bytes()));
    let ctx = |m: String| format!("{:?} inside other statements, {:?}: {}", clip(&l.text), clip(&text), m);
    let Some(b) = list(&w) else { return viol("enclosed", ctx(format!("accepted alone, here: {}", clip(w.out.last().map(|s| s.as_str()).unwrap_or(""))))) };
    let Some(V::List(want)) = a.ctor().1.get(2).cloned() else { return Ok(()) };
    let mut rev = want.clone();
    rev.reverse();
    let mut found = false;
    b.walk(&mut |x| { if let V::List(y) = x { if *y == want || *y == rev { found = true } } !found });
    // a suite of one statement may be kept without a list
    if !found && want.len() == 1 { b.walk(&mut |x| { if *x == want[0] { found = true } !found }) }
    if !found { return viol("enclosed", ctx(format!("no suite of the tree holds the statements {}", clip(&V::List(want).text())))) }
    if st.samples.is_empty() { st.samples.push(format!("{:?} enclosed: {:?}", clip(&l.text), clip(&text))) }
    Ok(())
}

fn undigit(s: &str) -> String { s.chars().filter(|c| !c.is_ascii_digit()).collect() }

/// Statement answers only, positions shifted by `d`; errors without their positions.
fn norm(o: &[String], off: i64, d: i64) -> Vec<String> {
    let mut r = vec![];
    for s in o {
        if s == "<newline>" { continue }
        match V::parse(s) { Ok(v) if s.starts_with("Ok(") => r.push(strip(&v, off as u64).shift(d).text()), _ => r.push(undigit(s)) }
    }
    r
}

fn start_of(s: &str) -> Option<u64> { let v = V::parse(s).ok()?; let (n, a) = v.ctor(); if n != "Ok" { return None } a.first()?.ctor().1.first()?.int() }

impl Prop for P {
    fn id(&self) -> &'static str { "C09" }
    fn runs(&self, th: bool) -> u64 { if th { 300_000 } else { 24_000 } }
    fn rule(&self) -> &'static str { "A program is parsed statement by statement; the client crashes after a seeded statement and restarts with a new session at the start of the next; or everything before that statement is replaced by another program (intact, or with constructs chosen to leave parser state behind). The remaining statements must be the same, shifted. The same file parsed at once must hold the same statements. Non-trivial: the restart leaves at least one statement before and after it; distinct by (texts, restart point)." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C09", "restart");
        let m = if r.chance(1, 90) { 400 } else { r.range(2, 10) };
        put_built(r, &mut p, m);
        p.put("at", r.below(if m > 12 { 400 } else { 12 }) as i64);
        if r.chance(1, 4) {
            p.kind = "enclosed".into();
            let prog = gen::program(p.num("gseed") as u64, m, 0);
            p.ops.retain(|o| o[0] != 90 || prog.stmts[o[1] as usize][..] != [gen::It::NL]);
            // now and then deeper than any limit somebody may think enough
            let k = if r.chance(1, 60) { *r.pick(&[20, 65, 101, 130]) } else { r.range(1, 3) };
            for _ in 0..k { p.ops.push(vec![30, r.below(gen::FRAMES) as i64]) }
            return p
        }
        if r.chance(1, 3) {
            // a damaged continuation: what follows the boundary is parsed the same, valid or not
            let l = built(&p).unwrap();
            for o in damage::random(r, &l.text, 3, &damage::ALL) { let mut q = vec![10]; q.extend(o); p.ops.push(q) }
        }
        let s = r.u64();
        let m2 = if r.chance(1, 120) { 400 } else { r.heavy(6) };
        let other = gen::program(s, m2, 0);
        let mut t = gen::layout(&other, &[]).text;
        // now and then more tokens or statements than two bytes count
        if r.chance(1, 300) { t = r.pick(&["a\n", "pass\n", "(a)\n", "if a:\n b\n", "a;b\n", "#\n"]).to_string(); p.put("times", 33_000 + r.below(800) as i64) }
        p.text("stmt", &t);
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        if p.kind == "enclosed" { return enclosed(p, st) }
        let l = match built(p) { Some(l) => l, None => return Ok(()) };
        if l.starts.is_empty() { return Ok(()) }
        let at = p.num("at").max(0) as usize % l.starts.len();
        let c = chars(&l.text);
        let ops: Vec<Vec<i64>> = ops_of(p, 10).iter().map(|o| o[1..].to_vec()).collect();
        let off = l.starts[at];
        // what was parsed before ends with a plain statement, so that nothing after it can continue it
        let mut tail: String = c[off..].iter().collect();
        let mut head: String = c[..off].iter().collect();
        if !ops.is_empty() {
            tail = damage::apply(&tail, &ops);
            head.push_str("pass\n");
            if matches!(tail.chars().next(), None | Some(' ' | '\t' | '\n' | '\r' | '#' | '\u{c}')) { return Ok(()) }
        }
        let full = format!("{}{}", head, tail);
        let unit = p.texts.first().map(|t| t.text.clone()).unwrap_or_default();
        let times = p.num("times").clamp(1, 70_000) as usize;
        let other = format!("{}pass\n", unit.repeat(times));
        let swapped = format!("{}{}", other, tail);
        let g = match golden(st, "stmt", &full) { Some(g) => g, None => return Ok(()) };
        let r = match golden(st, "stmt", &tail) { Some(g) => g, None => return Ok(()) };
        let o = match golden(st, "stmt", &swapped) { Some(g) => g, None => return Ok(()) };
        let f = match golden(st, "file", &full) { Some(g) => g, None => return Ok(()) };
        if g.panicked || r.panicked { return Ok(()) }
        st.hit("evaluations");
        st.hit("fault_crash_and_restart_at_statement_boundary");
        let hn = head.chars().count();
        let on = other.chars().count();
        // answers of the uninterrupted run that belong to the remaining text
        let rest = |o: &[String], off: usize| -> Option<Vec<String>> {
            let mut k = None;
            for (i, s) in o.iter().enumerate() {
                if s == "<newline>" { continue }
                match start_of(s) { Some(x) => if x >= off as u64 { k = Some(i); break }, None => { k = Some(i); break } }
            }
            k.map(|k| o[k..].to_vec())
        };
        let want = norm(&r.out, 0, 0);
        let shown = |a: &[String], b: &[String]| first_diff(a, b).unwrap_or_default();
        // an error inside the head says nothing about the tail
        let failed_before = |o: &Solo, off: usize| { let last = o.out.last().map(|s| s.as_str()).unwrap_or(""); (last.starts_with("Err(") || last.starts_with("<lexical")) && o.step_pos.last().copied().unwrap_or(0) < off as u64 };
        if !failed_before(&g, hn) {
            match rest(&g.out, hn) {
                None => return viol("restart", format!("{:?} restarted at {}: the uninterrupted run has nothing after it", clip(&full), hn)),
                Some(x) => { let got = norm(&x, hn as i64, -(hn as i64)); if got != want { return viol("restart", format!("{:?} restarted at {}: uninterrupted, {}", clip(&full), hn, shown(&want, &got))) } }
            }
            if hn > 0 { st.hit("reach_restart_after_statements"); st.distinct.insert(hash_bytes(format!("{}{}", full, hn).as_bytes())); }
        } else { st.hit("skipped_error_before_restart") }
        if !failed_before(&o, on) {
            match rest(&o.out, on) {
                None => return viol("history", format!("{:?} after other code: nothing left", clip(&swapped))),
                Some(x) => { let got = norm(&x, on as i64, -(on as i64)); if got != want { return viol("history", format!("after {:?} the text {:?} parses differently: {}", clip(&other), clip(&tail), shown(&want, &got))) } }
            }
            st.hit("fault_earlier_text_replaced");
        } else {
            // one statement over and over: accepted once, accepted always
            if times > 1 && unit.ends_with('\n') { if let Some(u) = golden(st, "stmt", &format!("{}pass\n", unit.repeat(2))) { if !failed_before(&u, usize::MAX) { return viol("history", format!("{:?}, accepted two times, is not accepted {} times: {}", clip(&unit), times, clip(o.out.last().map(|s| s.as_str()).unwrap_or("")))) } } }
            st.hit("skipped_error_in_replacement")
        }
        // one at a time against all at once
        let stmts: Vec<String> = g.out.iter().filter(|s| s.as_str() != "<newline>").cloned().collect();
        let bad = stmts.last().map(|s| !s.starts_with("Ok(")).unwrap_or(true);
        let whole = f.out.last().cloned().unwrap_or_default();
        if let Some(v) = V::parse(&whole).ok() {
            let (n, a) = v.ctor();
            if n == "Ok" {
                if bad { return viol("file", format!("{:?} is accepted at once, but one at a time it fails: {}", clip(&full), clip(stmts.last().unwrap_or(&String::new())))) }
                let (_, fa) = a[0].ctor();
                if let Some(V::List(l)) = fa.get(2) {
                    let one: Vec<String> = stmts[..stmts.len() - 1].to_vec();
                    let mut all: Vec<String> = l.iter().map(|x| format!("Ok({})", x.text())).collect();
                    let one: Vec<String> = one.iter().map(|s| V::parse(s).map(|v| v.text()).unwrap_or(s.clone())).collect();
                    // the tree keeps its statements in one order or the other
                    if all.len() > 1 && all[0] != one[0] { all.reverse() }
                    if let Some(d) = first_diff(&one, &all) { return viol("file", format!("{:?}: one at a time against all at once: {}", clip(&full), d)) }
                    st.hit("reach_file_compared");
                }
            } else if !bad { return viol("file", format!("{:?} parses one statement at a time, but not at once: {}", clip(&full), clip(&whole))) }
        }
        if st.samples.is_empty() { st.samples.push(format!("{:?} restarted at {}; replaced by {:?}", clip(&full), hn, clip(&other))) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, parser. simulated: client that crashes and restarts, durable text, earlier history, allocator, clock" }
}

