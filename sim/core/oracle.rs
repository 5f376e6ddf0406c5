//! Checks over what a session delivered, against the text it was given.
use crate::gen::{spellings, Exp};
use crate::val::V;

#[derive(Clone, Debug, PartialEq)]
pub struct Triv { pub kind: String, pub start: usize, pub end: usize, pub text: Option<String>, pub chars: Vec<char> }
#[derive(Clone, Debug, PartialEq)]
pub struct Tok { pub kind: String, pub start: usize, pub end: usize, pub spanless: bool, pub text: Option<String>, pub prefix: Option<String>, pub trivia: Vec<Triv>, pub desc: bool, pub chars: Vec<char> }

#[derive(Clone, Debug, PartialEq)]
pub enum Out { Tok(Tok), Err(String), Other(String) }

fn trivia(v: &V) -> Result<(Vec<Triv>, bool), String> {
    let l = match v { V::Ctor(n, a) if n == "Some" && a.len() == 1 => match &a[0] { V::List(l) => l, _ => return Err("trivia is no list".into()) }, V::Ctor(n, _) if n == "None" => return Ok((vec![], false)), _ => return Err("no trivia field".into()) };
    let mut o = vec![];
    for x in l {
        let (n, a) = x.ctor();
        if a.len() < 2 { return Err(format!("trivia {} without range", n)) }
        let (s, e) = match (a[0].int(), a[1].int()) { (Some(s), Some(e)) => (s as usize, e as usize), _ => return Err("trivia without range".into()) };
        let (mut text, mut chars) = (None, vec![]);
        for y in &a[2..] { match y { V::Str(s) => text = Some(s.clone()), V::Chr(c) => chars.push(*c), _ => {} } }
        o.push(Triv { kind: n.into(), start: s, end: e, text, chars });
    }
    let mut desc = false;
    if o.len() > 1 && o[0].start > o[o.len() - 1].start { o.reverse(); desc = true }
    Ok((o, desc))
}

pub fn tok(v: &V) -> Result<Tok, String> {
    let (n, a) = v.ctor();
    let mut t = Tok { kind: n.into(), start: 0, end: 0, spanless: false, text: None, prefix: None, trivia: vec![], desc: false, chars: vec![] };
    let mut rest: &[V] = &[];
    let tv;
    if a.len() == 1 && a[0].is_opt_list() { t.spanless = true; tv = &a[0] }
    else if a.len() == 2 && a[0].int().is_some() && a[1].is_opt_list() { t.start = a[0].int().unwrap() as usize; t.end = t.start; tv = &a[1] }
    else if a.len() >= 3 && a[0].int().is_some() && a[1].int().is_some() && a[2].is_opt_list() { t.start = a[0].int().unwrap() as usize; t.end = a[1].int().unwrap() as usize; tv = &a[2]; rest = &a[3..] }
    else { return Err(format!("no token: {}", v.text())) }
    let (x, d) = trivia(tv)?;
    t.trivia = x;
    t.desc = d;
    for y in rest {
        match y {
            V::Str(s) => t.text = Some(s.clone()),
            V::Chr(c) => t.chars.push(*c),
            V::Ctor(n, b) if n == "Some" && b.len() == 1 => if let V::Str(s) = &b[0] { t.prefix = Some(s.clone()) },
            _ => {}
        }
    }
    Ok(t)
}

/// One line of lexer output.
pub fn out(s: &str) -> Out {
    match V::parse(s) {
        Ok(V::Ctor(n, a)) if n == "Ok" && a.len() == 1 => match tok(&a[0]) { Ok(t) => Out::Tok(t), Err(e) => Out::Other(e) },
        Ok(V::Ctor(n, a)) if n == "Err" && a.len() == 1 => Out::Err(if let V::Str(s) = &a[0] { s.clone() } else { a[0].text() }),
        _ => Out::Other(s.to_string()),
    }
}

pub fn outs(v: &[String]) -> Vec<Out> { v.iter().map(|s| out(s)).collect() }

/// Is `s` one closed string literal (quotes included, no prefix)?
pub fn closed_string(s: &[char]) -> bool {
    if s.len() < 2 { return false }
    let q = s[0];
    if q != '\'' && q != '"' { return false }
    if s.len() == 2 { return s[1] == q }
    let triple = s[1] == q && s[2] == q;
    let mut i = if triple { 3 } else { 1 };
    while i < s.len() {
        if s[i] == '\\' { i += 2; if !triple && i < s.len() && s[i - 1] == '\r' && s[i] == '\n' { i += 1 } continue }
        if triple { if i + 2 < s.len() && s[i] == q && s[i + 1] == q && s[i + 2] == q { return i + 3 == s.len() } }
        else if s[i] == q { return i + 1 == s.len() }
        else if s[i] == '\n' || s[i] == '\r' { return false }
        i += 1;
    }
    false
}

/// Characters carried one by one, filled up with blanks.
fn carried(k: &[char], c: &[char]) -> bool { k.is_empty() || (k.len() >= c.len() && k[..c.len()] == *c && k[c.len()..].iter().all(|x| *x == ' ')) }

fn newline(s: &[char]) -> bool { s == ['\n'] || s == ['\r'] || s == ['\r', '\n'] }

pub struct Tiled { pub known_crlf: bool, pub end: End, pub tokens: usize, pub trivia: usize }
#[derive(PartialEq, Debug, Clone)]
pub enum End { Eof, Error(String), Other(String) }

fn show(c: &[char]) -> String { format!("{:?}", c.iter().collect::<String>()) }

/// The tiling property: everything delivered up to the first error lies in the text, in order, without overlap,
/// carries its characters, and leaves nothing out but indentation.
pub fn tile(text: &[char], o: &[Out]) -> Result<Tiled, (String, String)> {
    let n = text.len();
    let mut pos = 0usize;
    let (mut nt, mut nv) = (0, 0);
    let mut known = false;
    let gap = |pos: usize, s: usize| -> Result<(), (String, String)> {
        if s == pos { return Ok(()) }
        let line_start = pos == 0 || text[pos - 1] == '\n' || text[pos - 1] == '\r';
        if line_start && text[pos..s].iter().all(|c| *c == ' ' || *c == '\t' || *c == '\u{c}') { return Ok(()) }
        Err(("skipped".into(), format!("characters {} at {}..{} belong to no token and no trivia", show(&text[pos..s]), pos, s)))
    };
    let range = |what: &str, s: usize, e: usize, pos: usize| -> Result<(), (String, String)> {
        if s > e || e > n { return Err(("range".into(), format!("{} spans {}..{}, the text has {} characters", what, s, e, n))) }
        if s < pos { return Err(("overlap".into(), format!("{} spans {}..{}, but everything before {} was delivered already", what, s, e, pos))) }
        Ok(())
    };
    for x in o {
        let t = match x { Out::Tok(t) => t, Out::Err(e) => return Ok(Tiled { known_crlf: known, end: End::Error(e.clone()), tokens: nt, trivia: nv }), Out::Other(e) => return Ok(Tiled { known_crlf: known, end: End::Other(e.clone()), tokens: nt, trivia: nv }) };
        nt += 1;
        for v in &t.trivia {
            nv += 1;
            range(&format!("trivia {}", v.kind), v.start, v.end, pos)?;
            gap(pos, v.start)?;
            let c = &text[v.start..v.end];
            let bad = |m: &str| Err(("content".to_string(), format!("trivia {} at {}..{} covers {}: {}", v.kind, v.start, v.end, show(c), m)));
            match v.kind.as_str() {
                "WhiteSpace" => if c.is_empty() || !c.iter().all(|x| *x == ' ' || *x == '\t' || *x == '\u{c}') || v.chars.iter().any(|k| *k != c[0]) { return bad("not that white space") },
                "Newline" => if !newline(c) { return bad("not one line end") },
                "LineContinuation" => if c.first() != Some(&'\\') || !newline(&c[1..]) { return bad("not a line continuation") },
                "Comment" => { if c.first() != Some(&'#') || c.iter().any(|x| *x == '\n' || *x == '\r') { return bad("not a comment") } }
                _ => {}
            }
            if v.kind != "WhiteSpace" && !carried(&v.chars, c) { return bad(&format!("it carries {:?}", v.chars)) }
            if let Some(tx) = &v.text { if tx.chars().ne(c.iter().copied()) { return bad(&format!("it carries {:?}", tx)) } }
            pos = v.end;
        }
        if t.spanless { continue }
        if t.kind == "EOF" {
            if t.start != n + known as usize { return Err(("eof".into(), format!("end of text reported at {}, the text has {} characters", t.start, n))) }
            gap(pos, n)?;
            return Ok(Tiled { known_crlf: known, end: End::Eof, tokens: nt, trivia: nv })
        }
        let mut t = t.clone();
        if crlf(text, t.start, t.end, &t.kind) { known = true; t.end -= 1 }
        range(&format!("token {}", t.kind), t.start, t.end, pos)?;
        if t.start == t.end { return Err(("range".into(), format!("token {} at {} is empty", t.kind, t.start))) }
        gap(pos, t.start)?;
        let c = &text[t.start..t.end];
        let chars = &t.chars;
        let bad = |m: &str| Err(("content".to_string(), format!("token {} at {}..{} covers {}: {}", t.kind, t.start, t.end, show(c), m)));
        match t.kind.as_str() {
            "Newline" => { if !newline(c) { return bad("not one line end") } if !carried(chars, c) { return bad(&format!("it carries {:?}", chars)) } }
            "AtomString" => {
                let p = t.prefix.clone().unwrap_or_default();
                let k = p.chars().count();
                if k > c.len() || p.chars().ne(c[..k].iter().copied()) { return bad(&format!("it carries the prefix {:?}", p)) }
                if !closed_string(&c[k..]) { return bad("not one closed string literal") }
                if let Some(tx) = &t.text { if tx.chars().ne(c[k..].iter().copied()) { return bad(&format!("it carries {:?}", tx)) } }
            }
            k => {
                if let Some(tx) = &t.text { if tx.chars().ne(c.iter().copied()) { return bad(&format!("it carries {:?}", tx)) } }
                else { let sp = spellings(k); if !sp.is_empty() { let s: String = c.iter().collect(); if !sp.contains(&s.as_str()) { return bad("not how that token is written") } } }
            }
        }
        pos = t.end;
    }
    Ok(Tiled { known_crlf: known, end: End::Other("no end".into()), tokens: nt, trivia: nv })
}

/// The known finding: a CR LF line end that ends the text is one character too long, and the end of text one too far.
pub fn crlf(text: &[char], s: usize, e: usize, kind: &str) -> bool { kind == "Newline" && e == s + 3 && s + 2 == text.len() && text[s..] == ['\r', '\n'] }

/// The largest position a session may report: the length of the text, and one more where the known finding strikes.
pub fn far_end(text: &[char]) -> u64 { text.len() as u64 + text.ends_with(&['\r', '\n']) as u64 }

/// Is `got`, delivered for a text that ends at `k`, the `full` delivered for the whole? (Up to the known finding.)
pub fn same_at_end(text: &[char], k: usize, full: &str, got: &str) -> bool {
    full == got || (text[..k].ends_with(&['\r', '\n']) && match (out(full), out(got)) {
        (Out::Tok(a), Out::Tok(b)) => crlf(&text[..k], b.start, b.end, &b.kind) && Tok { end: k, ..b } == a,
        _ => false,
    })
}

/// Compares delivered tokens with those expected by construction.
pub fn same_as_built(o: &[Out], exp: &[Exp]) -> Option<String> {
    for (i, e) in exp.iter().enumerate() {
        let t = match o.get(i) { Some(Out::Tok(t)) => t, Some(Out::Err(m)) => return Some(format!("token {} should be {} at {}..{}, got the error {:?}", i, e.kind, e.start, e.end, m)), Some(Out::Other(m)) => return Some(format!("token {} should be {} at {}..{}, got {}", i, e.kind, e.start, e.end, m)), None => return Some(format!("token {} should be {} at {}..{}, got nothing", i, e.kind, e.start, e.end)) };
        let late = exp.last().map(|l| e.end == l.end).unwrap_or(false) && exp.iter().any(|x| x.kind == "Newline" && x.start + 2 == x.end && x.end == e.end) && o.iter().any(|x| matches!(x, Out::Tok(t) if t.kind == "Newline" && t.end == t.start + 3));
        let span = e.spanless || (t.start == e.start && t.end == e.end) || (late && e.kind == "Newline" && t.start == e.start && t.end == e.end + 1) || (late && e.kind == "EOF" && t.start == e.start + 1);
        let tv: Vec<(String, usize, usize)> = t.trivia.iter().map(|v| (v.kind.clone(), v.start, v.end)).collect();
        if t.kind != e.kind || t.spanless != e.spanless || !span || (e.text.is_some() && t.text != e.text) || t.prefix != e.prefix || tv != e.trivia {
            return Some(format!("token {} should be {} {}..{} text {:?} trivia {:?}, got {} {}..{} text {:?} trivia {:?}", i, e.kind, e.start, e.end, e.text, e.trivia, t.kind, t.start, t.end, t.text, tv))
        }
    }
    if o.len() > exp.len() { return Some(format!("{} tokens delivered, {} expected", o.len(), exp.len())) }
    None
}

/// All tokens inside a tree: constructors whose name the lexer used for this text and whose shape is a token's.
pub fn tree_tokens(v: &V, names: &std::collections::BTreeSet<String>, out: &mut Vec<String>) {
    v.walk(&mut |x| {
        if let V::Ctor(n, _) = x { if names.contains(n) && tok(x).is_ok() { out.push(x.text()); return false } }
        true
    })
}
