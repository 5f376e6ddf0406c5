use super::*;
use super::rewrite::{self, Edit};
pub struct P;

const NAMES: [&str; 96] = ["a", "_x", "__init__", "self", "cls", "print", "exec", "async_", "ifx", "Not", "None_", "true", "rb", "f", "é", "变量", "ﬁ", "ａ", "\u{1D4D0}bc", "x1", "E5", "O", "l", "super", "__future__", "annotations", "division", "__name__", "NULL", "_1",
    "__debug__", "__file__", "__all__", "__doc__", "__class__", "__import__", "__dict__", "__main__", "__slots__", "__builtins__", "__", "___", "NotImplemented", "Ellipsis", "int", "str", "float", "bool", "bytes", "list", "dict", "set", "tuple", "object", "range", "len", "open", "eval", "input", "id",
    "nan", "inf", "NaN", "Infinity", "null", "nil", "undefined", "true_", "false", "TRUE", "FALSE", "NONE", "j", "J", "e", "x", "o", "b", "u", "r", "R", "U", "F", "fr", "Rb", "nonlocals", "lambda_", "is_", "isnot", "notin", "elseif", "elsif", "endif", "switch", "goto", "this"];

const NUMBERS: [&str; 18] = ["0", "1", "7", "00", "0x1F", "0b1", "0o7", "1.5", "1.", ".5", "1e5", "2E-3", "1j", "0j", "123_456", "99999999999999999999999999999999", "4294967296", "0.0e0"];
const INSIDE: [&str; 22] = ["", " ", "x", "(", ")", "[{", "#", "# type: int", "if x:", "\\n", "\\\\", "é", "\u{1F600}", "a b c", "import x", "\t", "{x}", "{{", "%s", ":", ";", "\u{feff}"];
const REMARKS: [&str; 40] = ["#", "# c", "#!", "# (", "# ]", "# \"\"\"", "# '", "# \\", "#type: x", "# Type: x", "# é\u{1F600}", "# -*- coding: utf-16 -*-", "# noqa", "# fmt: off", "# TODO", "# if x:\tpass",
    "# vim: ts=8", "# vim: set tabstop=8 sw=8:", "# -*- tab-width: 8 -*-", "# :tabSize=2:", "# ex: ts=2", "# pylint: disable=all", "# pragma: no cover", "# fmt: on", "# EOF", "# __END__", "# type : int", "#  type: int", "# types: int", "# type", "# typ: e", "# region", "# endregion", "# nosec", "# isort: skip", "# yapf: disable", "# mypy: ignore-errors", "# interactive", "# >>> a", "# <<<<<<< HEAD"];

fn reserved(s: &str) -> bool { gen::is_kw(s) || matches!(s, "match" | "case" | "type" | "_") }
fn word(c: char) -> bool { c.is_alphanumeric() || c == '_' || !c.is_ascii() }

/// Something else of the same kind, or nothing when its neighbours would become part of it.
fn other(c: &[char], kind: &str, start: usize, end: usize, prefixed: bool, text: &str, w: u64) -> Option<Vec<char>> {
    let mut r = Rng::new(w);
    let (before, after) = (start.checked_sub(1).map(|i| c[i]).filter(|_| !prefixed), c.get(end).copied());
    let quote = |x: Option<char>| matches!(x, Some('"' | '\''));
    let free = !before.map(|x| word(x) || x == '\\').unwrap_or(false) && !after.map(word).unwrap_or(false) && !quote(after) && !quote(before);
    if !free { return None }
    let s = match kind {
        "AtomName" => {
            if reserved(text) { return None }
            let mut s = r.pick(&NAMES).to_string();
            match r.below(4) { 0 => s = format!("{}{}", s, r.below(1000)), 1 => { let n = if r.chance(1, 1500) { 65_500 + r.below(100) } else { r.heavy(400) }; s = format!("{}{}", s, "x".repeat(n)) } _ => {} }
            if reserved(&s) { return None }
            s
        }
        "AtomNumber" => { if before == Some('.') || after == Some('.') { return None } let mut s = r.pick(&NUMBERS).to_string(); if r.chance(1, 10) { let n = if r.chance(1, 300) { 65_500 + r.below(100) } else { 1 + r.heavy(300) }; s = "1".repeat(n) } s }
        "AtomString" => {
            let triple = r.chance(1, 3);
            let q = if r.chance(1, 2) { "'" } else { "\"" };
            let mut s = String::new();
            let most = if r.chance(1, 100) { 60_000 } else { 300 };
            let n = if r.chance(1, 12) { r.heavy(most) } else { r.below(4) };
            for _ in 0..n { if r.chance(1, 10) { s.push(*r.pick(&rewrite::ODD)) } else { s.push_str(r.pick(&INSIDE)) } if triple && r.chance(1, 4) { s.push_str(if r.chance(1, 2) { "\n" } else { "    x\n" }) } if r.chance(1, 6) { s.push_str(if q == "'" { "\"" } else { "'" }) } }
            let b = if triple { q.repeat(3) } else { q.to_string() };
            format!("{}{}{}", b, s, b)
        }
        "Comment" => { let mut s = r.pick(&REMARKS).to_string(); if r.chance(1, 6) { s.push(*r.pick(&rewrite::ODD)); s.push_str(r.pick(&["", "x", " x = (", ")"])) } if r.chance(1, 6) { let n = if r.chance(1, 500) { 32_750 + r.below(50) } else { r.heavy(300) }; s.push_str(&" x".repeat(n)) } s }
        _ => return None,
    };
    Some(s.chars().collect())
}

/// What the transport changed: old range, new text (as the token carries it).
struct Changed { from: usize, to: usize, with: String }

fn see(v: &V, at: &dyn Fn(u64) -> u64, marked: &dyn Fn(u64, u64) -> Option<String>) -> V {
    let go = |a: &[V]| a.iter().map(|x| see(x, at, marked)).collect::<Vec<_>>();
    match v {
        V::Int(i) => V::Int(at(*i)),
        V::Ctor(n, a) => {
            let m = match (a.first().and_then(|x| x.int()), a.get(1).and_then(|x| x.int())) { (Some(s), Some(e)) if matches!(n.as_str(), "AtomName" | "AtomNumber" | "AtomString" | "Comment") => marked(s, e), _ => None };
            V::Ctor(n.clone(), match m { Some(t) => a.iter().map(|x| if let V::Str(_) = x { V::Str(t.clone()) } else { see(x, at, marked) }).collect(), None => go(a) })
        }
        V::List(a) => V::List(go(a)),
        V::Tuple(a) => V::Tuple(go(a)),
        o => o.clone(),
    }
}

impl Prop for P {
    fn id(&self) -> &'static str { "C16" }
    fn runs(&self, th: bool) -> u64 { if th { 1_000_000 } else { 70_000 } }
    fn rule(&self) -> &'static str { "A transport replaces what seeded names, numbers, strings and comments of a text - intact, damaged or soup - say by something else of the same kind. Both texts are lexed or parsed in processes of their own. Apart from these texts and from positions, which must be those of the same places, all results must be the same, trivia included. Non-trivial: the text changed; distinct by the two texts and the entry point." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C16", "opaque");
        let api = match r.below(8) { 0..=1 => "lex", 2 => "stmt", 3..=5 => "file", _ => pick_any_api(r) };
        let m = r.heavy(8);
        let base;
        if matches!(api, "lex" | "stmt" | "file") && r.chance(3, 5) { put_built(r, &mut p, m); base = built(&p).unwrap().text; p.text(api, "") }
        else { base = text_big(r, api, m, 4); p.text(api, &base) };
        let n = base.chars().count().min(2000) + 2;
        let k = match r.below(4) { 0 => 1, 1 => 1 + r.below(4), 2 => 1 + r.heavy(40), _ => 1 + r.below(n) };
        for _ in 0..k { p.ops.push(vec![31, r.below(n) as i64, r.below(1 << 40) as i64]) }
        // the same name everywhere: replaced everywhere by one other
        if r.chance(1, 3) { p.put("alike", 1) }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let t = match p.texts.first() { Some(t) => t.clone(), None => return Ok(()) };
        let base = match built(p) { Some(l) => l.text, None => t.text.clone() };
        let c = chars(&base);
        let lx = match golden(st, "lex", &base) { Some(g) => g, None => return Ok(()) };
        if lx.panicked { return Ok(()) }
        let lo = oracle::outs(&lx.out);
        if rewrite::tokens(&lo, c.len()).is_none() { st.hit("skipped_spans"); return Ok(()) }
        // what can be replaced: kind, range of the text, range of the token
        let mut sites: Vec<(String, usize, usize, String, bool)> = vec![];
        let mut number_ends = usize::MAX;
        for x in &lo { if let Out::Tok(k) = x {
            for v in &k.trivia { if v.kind == "Comment" && v.end <= c.len() { sites.push((v.kind.clone(), v.start, v.end, v.text.clone().unwrap_or_default(), false)) } }
            if matches!(k.kind.as_str(), "AtomName" | "AtomNumber" | "AtomString") && k.end <= c.len() {
                let pre = k.prefix.as_ref().map(|p| p.chars().count()).unwrap_or(0);
                // (a name right behind a number might become part of it)
                if k.start + pre < k.end && k.start != number_ends { sites.push((k.kind.clone(), k.start + pre, k.end, k.text.clone().unwrap_or_default(), pre > 0)) }
            }
            if k.kind == "AtomNumber" { number_ends = k.end }
        } }
        if sites.is_empty() { st.hit("skipped_nothing_to_replace"); return Ok(()) }
        let mut ed = vec![];
        let mut grown = 0;
        let mut done = std::collections::HashSet::new();
        for o in ops_of(p, 31) {
            let at = o[1] as usize % sites.len();
            if !done.insert(at) { continue }
            let s = &sites[at];
            let with = if p.num("alike") != 0 && s.0 == "AtomName" { Some(s.3.clone()) } else { None };
            if grown > 100_000 { break }
            for x in sites.iter().filter(|x| std::ptr::eq(*x, s) || (with.is_some() && x.0 == "AtomName" && Some(&x.3) == with.as_ref())) {
                // (a prefix belongs to the literal, not to what stands before it)
                if grown > 100_000 { break }
                if let Some(n) = other(&c, &x.0, x.1, x.2, x.4, &x.3, o[2] as u64) { st.hit(&format!("fault_{}_replaced", x.0)); grown += n.len(); ed.push(Edit { from: x.1, to: x.2, with: n }) }
            }
        }
        let (text_c, used) = rewrite::apply(&c, ed);
        let text: String = text_c.iter().collect();
        if text == base { st.hit("skipped_nothing_changed"); return Ok(()) }
        let ch: Vec<Changed> = used.iter().map(|e| Changed { from: e.from, to: e.to, with: e.with.iter().collect() }).collect();
        // old position -> new one; inside something replaced: its start
        let mut map = vec![0u64; c.len() + 2];
        { let (mut d, mut k) = (0i64, 0); for i in 0..c.len() + 2 { while k < ch.len() && ch[k].to <= i { d += ch[k].with.chars().count() as i64 - (ch[k].to - ch[k].from) as i64; k += 1 } map[i] = if k < ch.len() && ch[k].from < i { (ch[k].from as i64 + d) as u64 } else { (i as i64 + d) as u64 } } }
        let g = if t.api == "lex" { lx } else { match golden(st, &t.api, &base) { Some(g) => g, None => return Ok(()) } };
        if g.panicked { return Ok(()) }
        let ctx = |m: String| format!("{} on {:?}, with names, literals and comments replaced {:?}: {}", t.api, clip(&base), clip(&text), m);
        let bytes = pristine(st, &ctx(String::new()), &mut || { let mut r = Run::new(1, &t.api, &text); r.ctx.tick_limit = TICKS_MAX; Solo::of(&mut r).enc() })?;
        let s = Solo::dec(&bytes);
        st.ticks += s.ticks;
        st.hit("evaluations");
        st.distinct.insert(mix(mix(hash_bytes(base.as_bytes()), hash_bytes(text.as_bytes())), hash_bytes(t.api.as_bytes())));
        // (the prefix, if any, is not replaced: the token begins before the change)
        let marked = |s: u64, e: u64| ch.binary_search_by_key(&(e as usize), |x| x.to).ok().map(|i| &ch[i]).filter(|x| x.from >= s as usize).map(|x| x.with.clone());
        let want = rewrite::normal(&g.out, &|v| see(v, &|i| map.get(i as usize).copied().unwrap_or(i), &marked), &|i| map.get(i as usize).copied().unwrap_or(i).to_string());
        let got = rewrite::normal(&s.out, &|v| v.clone(), &|i| i.to_string());
        if let Some(d) = first_diff(&want, &got) { return viol("differs", ctx(d)) }
        if t.api == "lex" { st.hit(if want.last().map(|s| s.contains("EOF(")).unwrap_or(false) { "reach_lexed_to_the_end" } else { "reach_error" }) } else if want.last().map(|s| s.contains("Ok(") || s.contains("EOF(")).unwrap_or(false) { st.hit("reach_accepted") } else { st.hit("reach_rejected") }
        if st.samples.is_empty() { st.samples.push(ctx(format!("{} results", want.len()))) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, parser. simulated: transport that replaces names, literals and comments, storage damage, allocator, clock" }
}
