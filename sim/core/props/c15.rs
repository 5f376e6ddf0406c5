use super::*;
use super::rewrite::{self, Edit};
use crate::oracle::Tok;
pub struct P;

const BLANKS: [&str; 8] = [" ", "  ", "\t", " \t", "   \t\t  ", "        ", "\t ", "                                        "];
const REMARKS: [&str; 12] = ["# c", "#", "#!/usr/bin/python", "# -*- coding: latin-1 -*-", "# (", "# \"\"\"", "# ' \\", "# type", "#type: ignore", "# é\u{1F600}", "# if x:", "### ] }"];
const LINES: [&str; 10] = ["\n", "   \n", "\t\n", "# c\n", "    # c\n", "\r\n", "\n\n\n", " \n# (\n\n", "                # \"\"\"\n", "# c\r\n"];
const INNER: [&str; 8] = ["\n", "\r\n", "\n\n", " # c\n", "\n    ", "\n\t# (\n", " # \"\"\"\n  \n", "\n#\n\n\t"];
const CONT: [&str; 4] = ["\\\n", " \\\n ", "\\\r\n\t", " \\\n\\\n  "];

fn odd(w: i64) -> String { if w / 16 % 6 == 5 { format!("{}x", rewrite::ODD[(w / 128) as usize % rewrite::ODD.len()]) } else { String::new() } }
fn long(r: i64) -> String { " ".repeat(match r % 3 { 0 => 255, 1 => 256, _ => 1000 }) }

/// Where a position lies, told by tokens: between which two, or how far into which.
fn key(t: &[(usize, usize)], p: u64) -> u64 {
    let p = p as usize;
    let i = t.partition_point(|x| x.1 <= p);
    match t.get(i) { Some(x) if x.0 < p => (((2 * i + 1) as u64) << 32) + (p - x.0) as u64, _ => ((2 * i) as u64) << 32 }
}

fn strip(v: &V, k: &dyn Fn(u64) -> u64) -> V {
    match v {
        V::Int(i) => V::Int(k(*i)),
        V::Ctor(n, a) if n == "Some" && a.len() == 1 && matches!(&a[0], V::List(l) if rewrite::is_trivia_list(l)) => V::Ctor("None".into(), vec![]),
        V::Ctor(n, a) => V::Ctor(n.clone(), a.iter().map(|x| strip(x, k)).collect()),
        V::List(a) => V::List(a.iter().map(|x| strip(x, k)).collect()),
        V::Tuple(a) => V::Tuple(a.iter().map(|x| strip(x, k)).collect()),
        o => o.clone(),
    }
}

/// The edits the operations [30, gap, kind, variant] ask for.
fn edits(c: &[char], t: &[Tok], err: bool, ops: &[&Vec<i64>], st: &mut Stats) -> Vec<Edit> {
    // bracket depth behind each token
    let mut depth = vec![0usize; t.len() + 1];
    for (i, x) in t.iter().enumerate() { depth[i + 1] = match x.kind.as_str() { "PyLeftParen" | "PyLeftBracket" | "PyLeftCurly" => depth[i] + 1, "PyRightParen" | "PyRightBracket" | "PyRightCurly" => depth[i].saturating_sub(1), _ => depth[i] } }
    let mut o = vec![];
    for p in ops {
        let (g, kind, w) = ((p[1] as usize) % (t.len() + 1), p[2], p[3]);
        if g == t.len() && err { continue } // behind the last token something unreadable follows
        let from = if g == 0 { 0 } else { t[g - 1].end };
        let to = if g == t.len() { c.len() } else { t[g].start };
        if from > c.len() || from > to { continue }
        let line_start = g == 0 || t[g - 1].kind == "Newline";
        if g > 0 && t[g - 1].kind == "TypeComment" { continue }
        let s = |l: &[&str]| l[(w as usize) % l.len()].to_string();
        let mut put = |name: &str, from: usize, to: usize, s: String| { st.hit(&format!("fault_{}", name)); o.push(Edit { from, to, with: s.chars().collect() }) };
        if line_start {
            // (a line feed behind a carriage return would be part of that line end)
            let l = if from > 0 && c[from - 1] == '\r' && s(&LINES).starts_with('\n') { format!("\r{}", s(&LINES)) } else { s(&LINES) };
            if depth[g] == 0 { put("lines_added", from, from, l) }
            continue
        }
        let gap = &c[from..to];
        let end_of_line = g == t.len() || t[g].kind == "Newline";
        let inner = gap.iter().position(|x| *x == '\n' || *x == '\r').filter(|i| !gap[..*i].contains(&'#') && !gap[..*i].contains(&'\\'));
        match kind {
            0 => put("blanks_added", from, from, if w % 11 == 10 { long(w) } else { s(&BLANKS) }),
            1 => put("blanks_added", to, to, if w % 11 == 10 { long(w) } else { s(&BLANKS) }),
            2 => { // a run of blanks becomes another one
                let b = gap.iter().take_while(|x| **x == ' ' || **x == '\t').count();
                if b > 0 { put("blanks_replaced", from, from + b, s(&BLANKS)) }
            }
            3 => if g < t.len() { put("continuation_added", from, from, s(&CONT)) },
            4 => if end_of_line && !gap.contains(&'#') { put("comment_added", to, to, format!("{}{}{}", if w % 2 == 0 { " " } else { "" }, s(&REMARKS), odd(w))) } else if depth[g] > 0 { if let Some(i) = inner { put("comment_added", from + i, from + i, s(&REMARKS) + &odd(w)) } },
            5 => if depth[g] > 0 && g < t.len() { put("lines_added_in_bracket", from, from, s(&INNER)) },
            // blanks are removed where two tokens stay two without them
            _ => if gap.iter().all(|x| *x == ' ' || *x == '\t') && !gap.is_empty() && g < t.len() && g > 0 {
                let (a, b) = (&t[g - 1].kind, &t[g].kind);
                let open = |k: &str| matches!(k, "PyLeftParen" | "PyLeftBracket" | "PyLeftCurly" | "PyComa" | "PySemiColon");
                let close = |k: &str| matches!(k, "PyRightParen" | "PyRightBracket" | "PyRightCurly" | "PyComa" | "PySemiColon" | "Newline");
                if open(a) || close(b) { put("blanks_removed", from, to, String::new()) }
            },
        }
    }
    o
}

impl Prop for P {
    fn id(&self) -> &'static str { "C15" }
    fn runs(&self, th: bool) -> u64 { if th { 1_000_000 } else { 70_000 } }
    fn rule(&self) -> &'static str { "A text - intact, damaged or soup - is reformatted in transit: at seeded gaps between tokens blanks are added, replaced or removed, line continuations, comments, blank lines and line breaks inside brackets are added. Both texts are lexed or parsed in processes of their own. The same tokens, trees and errors must come out, with positions between the same tokens; only trivia may differ. Non-trivial: the text changed; distinct by the two texts and the entry point." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C15", "reformat");
        let api = match r.below(8) { 0..=1 => "lex", 2 => "stmt", 3..=5 => "file", _ => pick_any_api(r) };
        let m = r.heavy(8);
        let base;
        if matches!(api, "lex" | "stmt" | "file") && r.chance(3, 5) { put_built(r, &mut p, m); base = built(&p).unwrap().text; p.text(api, "") }
        else { base = text_big(r, api, m, 4); p.text(api, &base) };
        let n = base.chars().count().min(2000) + 2;
        let k = match r.below(4) { 0 => 1, 1 => 1 + r.below(4), 2 => 1 + r.heavy(40), _ => 1 + r.below(n) };
        let only = if r.chance(1, 3) { Some(r.below(7) as i64) } else { None };
        for _ in 0..k { p.ops.push(vec![30, r.below(n) as i64, only.unwrap_or(r.below(7) as i64), r.below(1 << 20) as i64]) }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let t = match p.texts.first() { Some(t) => t.clone(), None => return Ok(()) };
        let base = match built(p) { Some(l) => l.text, None => t.text.clone() };
        let c = chars(&base);
        let lx = match golden(st, "lex", &base) { Some(g) => g, None => return Ok(()) };
        if lx.panicked { return Ok(()) }
        let lo = oracle::outs(&lx.out);
        let Some(tk) = rewrite::tokens(&lo, c.len()) else { st.hit("skipped_spans"); return Ok(()) };
        let err = !matches!(lo.last(), Some(Out::Tok(t)) if t.kind == "EOF");
        let (text_c, used) = rewrite::apply(&c, edits(&c, &tk, err, &ops_of(p, 30), st));
        let text: String = text_c.iter().collect();
        if text == base { st.hit("skipped_nothing_changed"); return Ok(()) }
        let a: Vec<(usize, usize)> = tk.iter().map(|t| (t.start, t.end)).collect();
        // where the tokens are now
        let mut b = a.clone();
        let (mut d, mut k) = (0i64, 0);
        for x in b.iter_mut() {
            while k < used.len() && used[k].to <= x.0 { d += used[k].with.len() as i64 - (used[k].to - used[k].from) as i64; k += 1 }
            *x = ((x.0 as i64 + d) as usize, (x.1 as i64 + d) as usize);
        }
        let g = if t.api == "lex" { lx } else { match golden(st, &t.api, &base) { Some(g) => g, None => return Ok(()) } };
        if g.panicked { return Ok(()) }
        let ctx = |m: String| format!("{} on {:?} reformatted to {:?}: {}", t.api, clip(&base), clip(&text), m);
        let bytes = pristine(st, &ctx(String::new()), &mut || { let mut r = Run::new(1, &t.api, &text); r.ctx.tick_limit = TICKS_MAX; Solo::of(&mut r).enc() })?;
        let s = Solo::dec(&bytes);
        st.ticks += s.ticks;
        st.hit("evaluations");
        st.distinct.insert(mix(mix(hash_bytes(base.as_bytes()), hash_bytes(text.as_bytes())), hash_bytes(t.api.as_bytes())));
        let see = |o: &[String], t: &[(usize, usize)]| rewrite::normal(o, &|v| strip(v, &|p| key(t, p)), &|p| key(t, p).to_string());
        let (want, got) = (see(&g.out, &a), see(&s.out, &b));
        if let Some(d) = first_diff(&want, &got) { return viol("differs", ctx(d)) }
        if t.api == "lex" { st.hit(if err { "reach_error" } else { "reach_lexed_to_the_end" }) } else if want.last().map(|s| s.contains("Ok(") || s.contains("EOF(")).unwrap_or(false) { st.hit("reach_accepted") } else { st.hit("reach_rejected") }
        if st.samples.is_empty() { st.samples.push(ctx(format!("{} results", want.len()))) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, parser. simulated: transport that reformats, storage damage, allocator, clock" }
}
