use super::*;
pub struct P;

/// Work: basic blocks executed plus memory moved (16 bytes count as one).
fn work(s: &Solo) -> u64 { s.ticks + s.bytes / 16 }

pub const LEX_PER_CHAR: u64 = 400;
pub const BASE: u64 = 60_000;

pub fn lex_budget(n: u64) -> u64 { BASE + LEX_PER_CHAR * n }
pub fn parse_budget(n: u64) -> u64 { BASE + 3_000 * n + 100 * n * n }

fn rep(s: &str, n: usize) -> String { let mut o = String::new(); for _ in 0..n { o.push_str(s) } o }

/// Families of texts with a size: one construct made long.
pub const LONG: usize = 26;
pub fn long(f: usize, n: usize, close: bool) -> String {
    let z = if close { "\n" } else { "" };
    match f % LONG {
        0 => format!("#{}{}", rep("c", n), z),
        1 => format!("{}{}", rep("a", n), z),
        2 => format!("1{}{}", rep("2", n), z),
        3 => format!("0x{}{}", rep("a", n), z),
        4 => format!("'{}{}", rep("s", n), if close { "'\n" } else { "" }),
        5 => format!("\"\"\"{}{}", rep("s\n", n / 2), if close { "\"\"\"\n" } else { "" }),
        6 => rep("\n", n),
        7 => format!("{}a{}", rep(" ", n), z),
        8 => format!("a{}b{}", rep(" ", n), z),
        9 => rep("# c\n", n / 4),
        10 => rep("a\\\n", n / 3),
        11 => format!("{}{}", rep("(", n), if close { rep(")", n) } else { String::new() }),
        12 => rep(")", n),
        13 => rep("( )", n / 3),
        14 => rep("+", n),
        15 => rep(".", n),
        16 => format!("'{}{}", rep("\\'", n / 2), if close { "'\n" } else { "" }),
        17 => rep("'", n),
        18 => rep("\"\"", n / 2),
        19 => rep("'a' ", n / 4),
        20 => rep("\t", n),
        21 => format!("({}{}", rep("\n", n), if close { ")" } else { "" }),
        22 => rep("if a:\n  b\n", n / 10),
        23 => { let mut s = String::new(); let d = ((n as f64 * 2.0).sqrt() as usize).max(1); for i in 0..d { s.push_str(&rep(" ", i)); s.push_str("if a:\n") } s.push_str(&rep(" ", d)); s.push_str("b\n"); s }
        24 => rep("é変", n / 2),
        _ => rep("1_0", n / 3),
    }
}

/// Nesting families, depth d.
/// What an expression can sit in.
pub const WRAPS: [(&str, &str); 62] = [("(", ")"), ("[", "]"), ("{", "}"), ("f(", ")"), ("a[", "]"), ("{a:", "}"), ("not ", ""), ("-", ""), ("~", ""), ("lambda:", ""), ("lambda a:", ""), ("lambda a=", ":b"), ("lambda*a:", ""),
    ("lambda**a:", ""), ("a if b else ", ""), ("a if ", " else b"), ("(", " if a else b)"), ("a**", ""), ("(a,", ")"), ("(", ",a)"), ("(a for b in ", ")"), ("[a for b in ", "]"), ("{a for b in ", "}"), ("{a:b for c in ", "}"), ("(", " for a in b)"),
    ("(a for b in c if ", ")"), ("(yield ", ")"), ("(yield from ", ")"), ("await ", ""), ("(*", ",)"), ("[*", "]"), ("{**", "}"), ("{*", "}"), ("f(*", ")"), ("f(**", ")"), ("f(a=", ")"), ("f(a,", ")"), ("f(a for b in ", ")"), ("f(", ")(a)"),
    ("a[b:", "]"), ("a[:", "]"), ("a[b:c:", "]"), ("a[b,", "]"), ("a[", ":b]"), ("(a:=", ")"), ("[a:=", "]"), ("a.b(", ").c"), ("(", ").b"), ("(", ")()"), ("(", ")[a]"), ("a or ", ""), ("a and ", ""), ("a+", ""), ("a<", ""), ("a not in ", ""),
    ("a is not ", ""), ("a*", ""), ("a|", ""), ("a<<", ""), ("{a:b,c:", "}"), ("{", ":b}"), ("[a,", ",b]")];
/// What a statement holds an expression in.
pub const FRAMES: [(&str, &str); 24] = [("", "\n"), ("x=", "\n"), ("x=y=", "\n"), ("x+=", "\n"), ("x:", "\n"), ("x:a=", "\n"), ("return ", "\n"), ("del ", "\n"), ("assert ", "\n"), ("raise ", "\n"), ("raise a from ", "\n"), ("yield ", "\n"),
    ("if ", ":\n a\n"), ("if a:\n b\nelif ", ":\n a\n"), ("while ", ":\n a\n"), ("for a in ", ":\n a\n"), ("for ", " in a:\n a\n"), ("with ", ":\n a\n"), ("with a as ", ":\n a\n"), ("@a(", ")\nclass A:\n a\n"), ("class A(", "):\n a\n"), ("def f()->", ":\n a\n"),
    ("try:\n a\nexcept ", ":\n a\n"), ("a;", ";b\n")];
/// A nest of wraps: one kind, two kinds by turns, or any mixture.
pub fn wrapped(d: usize, style: usize) -> String {
    let h = |i: usize| mix(style as u64, i as u64) as usize;
    let (a, b, c) = (h(1000) % WRAPS.len(), h(1001) % WRAPS.len(), h(1002) % WRAPS.len());
    let (mut s, mut e) = (String::new(), String::new());
    for i in 0..d {
        let k = match style % 4 { 0 => a, 1 => [a, b][i % 2], 2 => [a, b, c][i % 3], _ => h(i) % WRAPS.len() };
        s.push_str(WRAPS[k].0);
        e.insert_str(0, WRAPS[k].1);
    }
    let core = match h(1003) % 6 { 0 => "", 1 => "'s'", 2 => "1", _ => "x" };
    let f = if h(1004) % 2 == 0 { 0 } else { h(1005) % FRAMES.len() };
    if h(1006) % 5 == 0 { let k = e.chars().count() / 2; e = e.chars().take(k).collect() }
    format!("{}{}{}{}{}", FRAMES[f].0, s, core, e, FRAMES[f].1)
}

pub const NEST: usize = 36;
pub fn nest(f: usize, d: usize, style: usize) -> String {
    let core = if style % 3 == 1 { "" } else { "x" };
    let pair = |a: &str, b: &str| -> String { format!("{}{}{}", rep(a, d), core, if style % 4 == 3 { String::new() } else { rep(b, d) }) };
    match f % NEST {
        0 => pair("(", ")") + "\n",
        1 => pair("[", "]") + "\n",
        2 => pair("{", "}") + "\n",
        3 => pair("f(", ")") + "\n",
        4 => pair("a[", "]") + "\n",
        5 => pair("{a:", "}") + "\n",
        6 => pair("not ", "") + "\n",
        7 => pair("-", "") + "\n",
        8 => pair("lambda:", "") + "\n",
        9 => pair("a if b else ", "") + "\n",
        10 => pair("a**", "") + "\n",
        11 => pair("(a,", ")") + "\n",
        12 => pair("(a for b in ", ")") + "\n",
        13 => pair("[a if ", " else b]") + "\n",
        14 => { let mut s = String::new(); for i in 0..d { s.push_str(&rep(" ", i)); s.push_str(["if a:\n", "while a:\n", "for a in b:\n", "class A:\n", "def f():\n", "with a:\n"][(i + style) % 6]) } s + &rep(" ", d) + core + "\n" }
        15 => { let mut s = String::new(); for i in 0..d { s.push_str(&rep(" ", i)); s.push_str("try:\n") } s.push_str(&rep(" ", d)); s.push_str("x\n"); for i in (0..d).rev() { s.push_str(&rep(" ", i)); s.push_str("finally:\n"); s.push_str(&rep(" ", i + 1)); s.push_str("x\n") } s }
        16 => { let mut s = String::new(); for i in 0..d { s.push_str(&rep(" ", i)); s.push_str("if a:\n") } s.push_str(&rep(" ", d)); s.push_str("x\n"); for i in (0..d).rev() { s.push_str(&rep(" ", i)); s.push_str("else:\n"); s.push_str(&rep(" ", i + 1)); s.push_str("x\n") } s }
        17 => { let o = ["(", "[", "{", "f(", "a[", "-", "not ", "lambda:"]; let mut s = String::new(); let mut c = String::new(); for i in 0..d { let k = o[(i * 7 + style) % 8]; s.push_str(k); c.insert_str(0, match k { "(" | "f(" => ")", "[" | "a[" => "]", "{" => "}", _ => "" }) } s + core + &c + "\n" }
        18 => pair("(yield ", ")") + "\n",
        19 => pair("await ", "") + "\n",
        20 => pair("*", "") + "\n",
        21 => blocks(d, style),
        _ => wrapped(d, style),
    }
}

/// Compound statements nested in each other, with clauses before and after the nested one.
pub fn blocks(d: usize, style: usize) -> String {
    let h = |i: usize| mix(style as u64, i as u64) as usize;
    let (mut s, mut e) = (String::new(), String::new());
    for i in 0..d {
        let ind = rep(" ", i);
        let l = |s: &mut String, t: &str| { s.push_str(&ind); s.push_str(t); s.push('\n') };
        let k = if style % 3 == 0 { h(2000) } else if style % 3 == 1 { h(2000 + i % 2) } else { h(i) } % 13;
        let mut c = String::new();
        match k {
            0 => l(&mut s, "if a:"),
            1 => { l(&mut s, "if a:"); l(&mut s, " b"); l(&mut s, "else:") }
            2 => { l(&mut s, "if a:"); l(&mut c, "elif b:"); l(&mut c, " c") }
            3 => { l(&mut s, "while a:"); l(&mut c, "else:"); l(&mut c, " c") }
            4 => { l(&mut s, "for a in b:"); l(&mut c, "else:"); l(&mut c, " c") }
            5 => { l(&mut s, "try:"); l(&mut c, "except a:"); l(&mut c, " c"); l(&mut c, "finally:"); l(&mut c, " c") }
            6 => { l(&mut s, "try:"); l(&mut s, " a"); l(&mut s, "except b as c:"); l(&mut c, "else:"); l(&mut c, " c") }
            7 => { l(&mut s, "try:"); l(&mut s, " a"); l(&mut s, "finally:") }
            8 => l(&mut s, "with a as b:"),
            9 => l(&mut s, "class A:"),
            10 => l(&mut s, "def f():"),
            11 => { l(&mut s, "@a"); l(&mut s, "def f():") }
            _ => l(&mut s, "async def f():"),
        }
        e.insert_str(0, &c);
    }
    s.push_str(&rep(" ", d));
    s.push_str("x\n");
    if h(3000) % 5 != 0 { s.push_str(&e) }
    s
}

/// Flat families: one long expression or statement of n parts.
pub const FLAT: usize = 16;
pub fn flat(f: usize, n: usize) -> String {
    match f % FLAT {
        0 => format!("a{}\n", rep("+a", n)),
        1 => format!("a{}\n", rep(" or a", n)),
        2 => format!("a{}\n", rep(" and a", n)),
        3 => format!("a{}\n", rep("<a", n)),
        4 => format!("a{}\n", rep("*a", n)),
        5 => format!("a{}\n", rep("|a", n)),
        6 => format!("a{}\n", rep(".a", n)),
        7 => format!("a{}\n", rep("()", n)),
        8 => format!("[a{}]\n", rep(",a", n)),
        9 => format!("f(a{})\n", rep(",a", n)),
        10 => format!("a{}\n", rep("=a", n)),
        11 => format!("a{}\n", rep(";a", n)),
        12 => rep("a=1\n", n),
        13 => rep("if a:\n b\n", n),
        14 => format!("{}\n", rep("'s' ", n)),
        _ => format!("if a:\n b\n{}", rep("elif a:\n b\n", n)),
    }
}

impl P {
    fn one(&self, st: &mut Stats, api: &str, text: &str, limit: u64, cap: i64) -> Result<Solo, Viol> {
        let (a, t) = (api.to_string(), text.to_string());
        let b = pristine(st, &format!("{} on {} characters starting {:?}", api, t.chars().count(), t.chars().take(60).collect::<String>()), &mut || { let mut r = Run::new(1, &a, &t); r.ctx.tick_limit = limit; r.ctx.mem_limit = cap; Solo::of(&mut r).enc() })?;
        let s = Solo::dec(&b);
        st.ticks += s.ticks;
        st.max("ticks_in_one_session", s.ticks);
        if limit > 0 { st.max(if api == "lex" { "permille_of_lex_budget_used" } else { "permille_of_parse_budget_used" }, work(&s) * 1000 / limit); }
        if s.panicked { return viol("crash", format!("{} on {:?}: {}", api, clip(text), s.out.last().cloned().unwrap_or_default())) }
        if s.out.iter().any(|m| m.starts_with("<<no end")) { return viol("hang", format!("{} on {:?} never reports the end", api, clip(text))) }
        Ok(s)
    }
}

impl Prop for P {
    fn id(&self) -> &'static str { "C05" }
    fn runs(&self, th: bool) -> u64 { if th { 250_000 } else { 9_000 } }
    fn rule(&self) -> &'static str { "Work is counted on the simulated clock (basic blocks executed, plus memory obtained). Texts that make one construct long, repeat a damaged or intact program, chain operators, or nest up to 100 deep are run at size n and 4n (nesting: d and 2d) and the growth compared with linear (lexing) and quadratic (parsing); damaged, cut and random texts run under a polynomial budget. Non-trivial: every run; distinct by (family, size, entry point) or text." }
    fn gen(&self, r: &mut Rng, i: u64, _th: bool) -> Plan {
        match i % 6 {
            0 => { let mut p = Plan::new("C05", "lex-long"); p.put("f", r.below(LONG) as i64); p.put("n", r.range(1000, 6000) as i64); p.put("close", r.below(2) as i64); p.text("lex", ""); p }
            1 => { let mut p = Plan::new("C05", "lex-repeat"); let m = r.heavy(4); let t = if r.chance(1, 2) { let n = r.heavy(12); gen::soup(r, n) } else { text_for(r, "lex", m, 6) }; p.text("lex", &t); p.put("chars", r.range(1500, 6000) as i64); p }
            2 => { let mut p = Plan::new("C05", "flat"); p.put("f", r.below(FLAT) as i64); p.put("n", r.range(60, 200) as i64); p.text(*r.pick(&["file", "file", "stmt", "eval"]), ""); p }
            3 => { let mut p = Plan::new("C05", "nest"); p.put("f", r.below(NEST) as i64); p.put("d", r.range(8, 50) as i64); p.put("style", r.below(1 << 20) as i64); p.text(*r.pick(&["file", "eval", "stmt", "single", "functype", "m:atom", "m:simple"]), ""); if r.chance(1, 2) { let t = nest(p.num("f") as usize, p.num("d") as usize, p.num("style") as usize); for o in damage::random(r, &t, 3, &damage::ALL) { let mut q = vec![10]; q.extend(o); p.ops.push(q) } } p }
            4 => { let mut p = Plan::new("C05", "parse-repeat"); let t = text_for(r, "file", 3, 3); p.text(*r.pick(&["file", "file", "stmt"]), &t); p.put("chars", r.range(400, 1500) as i64); p }
            _ => { let mut p = Plan::new("C05", "damage"); let api = pick_any_api(r); let m = r.heavy(20); let t = text_for(r, api, m, 9); p.text(api, &t); p }
        }
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let api = p.texts[0].api.clone();
        let lex = api == "lex";
        st.hit("evaluations");
        st.hit(&format!("fault_{}", p.kind.replace('-', "_")));
        let grow = |st: &mut Stats, a: &str, b: &str, what: &str| -> Result<(), Viol> {
            let (na, nb) = (a.chars().count() as u64, b.chars().count() as u64);
            let bud = |n: u64| if lex { lex_budget(n) } else { parse_budget(n) };
            let x = self.one(st, &api, a, bud(na), 1 << 30)?;
            let y = self.one(st, &api, b, bud(nb), 3 << 29)?;
            let (wx, wy) = (work(&x) + 2000, work(&y));
            let k = nb as f64 / na.max(1) as f64;
            // linear or quadratic, with head room for constants
            let max = if lex { 1.7 * k } else { 1.7 * k * k };
            let r = wy as f64 / wx as f64;
            if k > 1.5 { st.max(if lex { "lex_growth_permille_of_linear" } else { "parse_growth_permille_of_quadratic" }, (r * 1000.0 / if lex { k } else { k * k }) as u64) }
            if k > 1.5 && r > max { return viol("growth", format!("{} {}: {} characters take {} units of work, {} characters take {} ({:.1} times as much; {} growth allows {:.1})", api, what, na, wx, nb, wy, r, if lex { "linear" } else { "quadratic" }, max)) }
            let (px, py) = (x.peak.max(0) as f64 + 4096.0, y.peak.max(0) as f64);
            if k > 1.5 && py / px > if lex { 3.0 * k } else { 1.7 * k * k } { return viol("memory", format!("{} {}: peak memory {} for {} characters, {} for {}", api, what, x.peak, na, y.peak, nb)) }
            Ok(())
        };
        match p.kind.as_str() {
            "lex-long" => {
                let (f, n, c) = (p.num("f") as usize, p.num("n").max(1) as usize, p.num("close") != 0);
                st.distinct.insert(hash_bytes(format!("L{} {} {}", f, n, c).as_bytes()));
                grow(st, &long(f, n, c), &long(f, n * 4, c), &format!("(family {})", f))?;
                if st.samples.is_empty() { st.samples.push(format!("lexing {:?}... of {} and {} characters", long(f, 12, c), n, 4 * n)) }
            }
            "lex-repeat" | "parse-repeat" => {
                let t = &p.texts[0].text;
                let len = t.chars().count().max(1);
                let k = (p.num("chars") as usize / len).max(1);
                st.distinct.insert(hash_bytes(format!("R{} {} {}", api, k, t).as_bytes()));
                // short repeats say nothing about growth
                grow(st, &rep(t, k), &rep(t, k * 4), &format!("on repeats of {:?}", clip(t)))?;
                if st.samples.is_empty() { st.samples.push(format!("{} on {} and {} repeats of {:?}", api, k, 4 * k, clip(t))) }
            }
            "flat" => {
                let (f, n) = (p.num("f") as usize, p.num("n").max(1) as usize);
                st.distinct.insert(hash_bytes(format!("F{} {} {}", api, f, n).as_bytes()));
                grow(st, &flat(f, n), &flat(f, n * 4), &format!("(flat family {})", f))?;
                if st.samples.is_empty() { st.samples.push(format!("{} on {:?} with {} and {} parts", api, flat(f, 3), n, 4 * n)) }
            }
            "nest" => {
                let (f, d, s) = (p.num("f") as usize, p.num("d").clamp(1, 50) as usize, p.num("style") as usize);
                let ops: Vec<Vec<i64>> = ops_of(p, 10).iter().map(|o| o[1..].to_vec()).collect();
                st.distinct.insert(hash_bytes(format!("N{} {} {} {} {:?}", api, f, d, s, ops).as_bytes()));
                let (a, b) = (nest(f, d, s), nest(f, d * 2, s));
                if ops.is_empty() {
                    let (na, nb) = (a.chars().count() as u64, b.chars().count() as u64);
                    let x = self.one(st, &api, &a, parse_budget(na), 1 << 30)?;
                    let y = self.one(st, &api, &b, parse_budget(nb), 1 << 30)?;
                    let r = work(&y) as f64 / (work(&x) + 20_000) as f64;
                    st.max("nest_growth_permille", (r * 1000.0) as u64);
                    if r > 7.0 { return viol("growth", format!("{} on {:?}: depth {} takes {} units of work, depth {} takes {}", api, clip(&a), d, work(&x), 2 * d, work(&y))) }
                } else {
                    let t = damage::apply(&b, &ops);
                    self.one(st, &api, &t, parse_budget(t.chars().count() as u64), 1 << 30)?;
                }
                if st.samples.is_empty() { st.samples.push(format!("{} on {:?} at depth {} and {}", api, nest(f, 3, s), d, 2 * d)) }
            }
            _ => {
                let t = p.texts[0].text.clone();
                let n = t.chars().count() as u64;
                st.distinct.insert(hash_bytes(format!("D{} {}", api, t).as_bytes()));
                let b = if lex { lex_budget(n) } else { parse_budget(n) };
                let s = self.one(st, &api, &t, b, 1 << 29)?;
                st.max("permille_of_budget_used", work(&s) * 1000 / b); st.max(if lex {"lex_work_per_char"} else {"parse_work_per_char"}, work(&s) / (n+20)); st.max(if lex {"lex_peak_per_char"} else {"parse_peak_per_char"}, s.peak.max(0) as u64 / (n+20));
                let cap = 200_000 + 4_000 * n as i64 + if lex { 0 } else { 20 * (n * n) as i64 };
                if s.peak > cap { return viol("memory", format!("{} on {:?}: {} bytes at once for {} characters", api, clip(&t), s.peak, n)) }
                if st.samples.is_empty() { st.samples.push(format!("{} on {:?}: {} units of work", api, clip(&t), work(&s))) }
            }
        }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, parser. simulated: clock (basic blocks), allocator (accounting, cap), storage faults" }
}
