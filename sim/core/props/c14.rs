use super::*;
pub struct P;

/// The line ends of a text, as (start, length).
fn line_ends(c: &[char]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() { match (c[i], c.get(i + 1)) { ('\r', Some('\n')) => { v.push((i, 2)); i += 2 } ('\r', _) | ('\n', _) => { v.push((i, 1)); i += 1 } _ => i += 1 } }
    v
}

/// Rewrites line ends; returns the text and where each old position went.
fn rewrite(c: &[char], kind: &dyn Fn(usize) -> Option<usize>) -> (Vec<char>, Vec<u64>) {
    let (mut o, mut map) = (vec![], vec![]);
    let le = line_ends(c);
    let (mut i, mut k) = (0, 0);
    while i < c.len() {
        if k < le.len() && le[k].0 == i {
            let l = le[k].1;
            let want: &[char] = match kind(k) { None => &c[i..i + l], Some(0) => &['\n'], Some(1) => &['\r'], Some(_) => &['\r', '\n'] };
            // a lone '\n' behind a '\r' would make one line end of two
            let want: &[char] = if want == ['\n'] && o.last() == Some(&'\r') { &['\r', '\n'] } else { want };
            for _ in 0..l { map.push(o.len() as u64) }
            o.extend(want);
            i += l;
            k += 1;
        } else { map.push(o.len() as u64); o.push(c[i]); i += 1 }
    }
    map.push(o.len() as u64);
    (o, map)
}

fn norm_text(s: &str) -> String { s.replace("\r\n", "\n").replace('\r', "\n") }

fn norm(v: &V, at: &dyn Fn(u64) -> u64) -> V {
    match v {
        V::Int(i) => V::Int(at(*i)),
        V::Str(s) => V::Str(norm_text(s)),
        V::Ctor(n, a) => { let nl = a.iter().any(|x| matches!(x, V::Chr('\r' | '\n'))); V::Ctor(n.clone(), a.iter().filter(|x| !nl || !matches!(x, V::Chr('\r' | '\n' | ' '))).map(|x| norm(x, at)).collect()) }
        V::List(a) => V::List(a.iter().map(|x| norm(x, at)).collect()),
        V::Tuple(a) => V::Tuple(a.iter().map(|x| norm(x, at)).collect()),
        o => o.clone(),
    }
}

/// Error messages: numbers are positions.
fn norm_error(m: &str, at: &dyn Fn(u64) -> u64) -> String {
    let Some(i) = m.find(" at ") else { return m.to_string() };
    let i = if m[i + 4..].starts_with('(') { i + 1 } else { i };
    let d: String = m[i + 4..].chars().take_while(|c| c.is_ascii_digit()).collect();
    match d.parse::<u64>() { Ok(x) => format!("{}{}{}", &m[..i + 4], at(x), &m[i + 4 + d.len()..]), Err(_) => m.to_string() }
}

fn normal(o: &[String], at: &dyn Fn(u64) -> u64) -> Vec<String> {
    o.iter().map(|s| {
        if s.starts_with('<') { return norm_error(s, at) }
        // a client of inner entry points names what it asked for
        let (name, s) = match s.split_once(": ") { Some((n, x)) if n.starts_with("parse_") => (n, x), _ => ("", s.as_str()) };
        let r = match V::parse(s) { Ok(V::Ctor(n, a)) if n == "Err" => format!("Err({})", a.iter().map(|x| norm_error(&x.text(), at)).collect::<Vec<_>>().join(", ")), Ok(v) => norm(&v, at).text(), Err(_) => s.to_string() };
        format!("{}{}", name, r)
    }).collect()
}

impl Prop for P {
    fn id(&self) -> &'static str { "C14" }
    fn runs(&self, th: bool) -> u64 { if th { 1_000_000 } else { 120_000 } }
    fn rule(&self) -> &'static str { "The line ends of a text - intact, damaged or soup - are rewritten in transit (all or some of them to LF, CR or CR LF, never merging two), and both texts are lexed or parsed in processes of their own. Results must be the same up to the positions, which must be those of the same characters, and the line ends inside tokens. Non-trivial: at least one line end changed; distinct by the two texts and the entry point." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C14", "line_ends");
        let api = match r.below(8) { 0..=2 => "lex", 3 => "stmt", 4 | 5 => "file", _ => pick_any_api(r) };
        let m = r.heavy(8);
        let base;
        if matches!(api, "lex" | "stmt" | "file") && r.chance(1, 2) { put_built(r, &mut p, m); base = built(&p).unwrap().text; p.text(api, "") }
        else { base = text_big(r, api, m, 6); p.text(api, &base) };
        let n = line_ends(&chars(&base)).len();
        match r.below(4) {
            0 => p.put("all", 1 + r.below(3) as i64),
            1 => { let k = r.below(3) as i64; for i in 0..n { if r.chance(1, 2) { p.ops.push(vec![20, i as i64, k]) } } }
            2 => { for _ in 0..1 + r.below(3) { p.ops.push(vec![20, r.below(n + 1) as i64, r.below(3) as i64]) } }
            _ => for i in 0..n { p.ops.push(vec![20, i as i64, r.below(3) as i64]) },
        }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let t = match p.texts.first() { Some(t) => t.clone(), None => return Ok(()) };
        let base = match built(p) { Some(l) => l.text, None => t.text.clone() };
        let c = chars(&base);
        let (all, ops) = (p.num("all"), ops_of(p, 20));
        let kinds: std::collections::HashMap<usize, usize> = ops.iter().map(|o| (o[1] as usize, o[2].clamp(0, 2) as usize)).collect();
        let (out, map) = rewrite(&c, &|k| if all > 0 { Some(all as usize - 1) } else { kinds.get(&k).copied() });
        let text: String = out.iter().collect();
        if text == base { st.hit("skipped_nothing_changed"); return Ok(()) }
        let g = match golden(st, &t.api, &base) { Some(g) => g, None => return Ok(()) };
        if g.panicked { return Ok(()) }
        let ctx = |m: String| format!("{} on {:?} with its line ends rewritten to {:?}: {}", t.api, clip(&base), clip(&text), m);
        let b = pristine(st, &ctx(String::new()), &mut || { let mut r = Run::new(1, &t.api, &text); r.ctx.tick_limit = TICKS_MAX; Solo::of(&mut r).enc() })?;
        let s = Solo::dec(&b);
        st.ticks += s.ticks;
        st.hit("evaluations");
        for (x, y) in line_ends(&c).iter().zip(line_ends(&out)) { let k = |c: &[char], x: (usize, usize)| if x.1 == 2 { "crlf" } else if c[x.0] == '\r' { "cr" } else { "lf" }; let (a, b) = (k(&c, *x), k(&out, y)); if a != b { st.hit(&format!("fault_{}_rewritten_to_{}", a, b)) } }
        st.distinct.insert(mix(mix(hash_bytes(base.as_bytes()), hash_bytes(text.as_bytes())), hash_bytes(t.api.as_bytes())));
        let end = out.len() as u64;
        let want = normal(&g.out, &|i| map.get(i as usize).copied().unwrap_or(end));
        let got = normal(&s.out, &|i| i.min(end));
        if let Some(d) = first_diff(&want, &got) { return viol("differs", ctx(d)) }
        if t.api == "lex" { st.hit(if want.last().map(|s| s.contains("EOF(")).unwrap_or(false) { "reach_lexed_to_the_end" } else { "reach_error" }) } else if want.last().map(|s| s.contains("Ok(") || s.contains("EOF(")).unwrap_or(false) { st.hit("reach_accepted") } else { st.hit("reach_rejected") }
        if st.samples.is_empty() { st.samples.push(ctx(format!("{} results", want.len()))) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, parser. simulated: transport that rewrites line ends, storage damage, allocator, clock" }
}
