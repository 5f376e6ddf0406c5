//! A transport that rewrites a text between tokens, or inside one, and what results say when seen through that.
use super::*;
use crate::oracle::Tok;

/// Characters that end lines, are blank or mean something to somebody, but neither to Python inside a comment or string.
pub const ODD: [char; 24] = ['\u{c}', '\u{b}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{85}', '\u{2028}', '\u{2029}', '\u{a0}', '\u{200b}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{e000}', '\u{10ffff}', '\u{7f}', '\u{1a}', '\u{8}', '\u{1b}', '\u{1}', '\u{ad}', '\u{3000}', '\u{202e}', '\u{301}'];

/// The tokens of a text that have a place in it, in order; None when the lexer's answers make no sense.
pub fn tokens(out: &[Out], n: usize) -> Option<Vec<Tok>> {
    let mut v: Vec<Tok> = vec![];
    for x in out { if let Out::Tok(t) = x { if !t.spanless && t.kind != "EOF" {
        if t.start >= t.end || t.end > n + 1 || v.last().map(|p| p.end > t.start).unwrap_or(false) { return None }
        v.push(t.clone())
    } } }
    Some(v)
}

/// One edit: the characters from..to become these.
pub struct Edit { pub from: usize, pub to: usize, pub with: Vec<char> }

/// Applies edits that do not overlap; the earlier one wins where they do.
pub fn apply(c: &[char], mut e: Vec<Edit>) -> (Vec<char>, Vec<Edit>) {
    e.sort_by_key(|x| (x.from, x.to));
    let (mut o, mut at, mut used): (Vec<char>, usize, Vec<Edit>) = (vec![], 0, vec![]);
    for x in e {
        if x.from < at || x.to > c.len() || x.to < x.from { continue }
        if used.last().map(|l| l.from == x.from && l.to == l.from && x.to == x.from).unwrap_or(false) { continue }
        o.extend(&c[at..x.from]);
        o.extend(&x.with);
        at = x.to;
        used.push(x);
    }
    o.extend(&c[at..]);
    (o, used)
}

pub fn is_trivia_list(a: &[V]) -> bool {
    !a.is_empty() && a.iter().all(|x| match x { V::Ctor(n, b) => matches!(n.as_str(), "WhiteSpace" | "Comment" | "LineContinuation") || (n == "Newline" && matches!(b.get(2), Some(V::Chr(_)))), _ => false })
}

/// Rewrites every result: `v` maps a value, `e` the number in an error message.
pub fn normal(o: &[String], v: &dyn Fn(&V) -> V, e: &dyn Fn(u64) -> String) -> Vec<String> {
    o.iter().map(|s| {
        if s.starts_with('<') { return error(s, e) }
        let (name, s) = match s.split_once(": ") { Some((n, x)) if n.starts_with("parse_") => (n, x), _ => ("", s.as_str()) };
        let r = match V::parse(s) { Ok(V::Ctor(n, a)) if n == "Err" => format!("Err({})", a.iter().map(|x| error(&x.text(), e)).collect::<Vec<_>>().join(", ")), Ok(x) => v(&x).text(), Err(_) => s.to_string() };
        format!("{}{}", name, r)
    }).collect()
}

fn error(m: &str, e: &dyn Fn(u64) -> String) -> String {
    let Some(i) = m.find(" at ") else { return m.to_string() };
    let i = if m[i + 4..].starts_with('(') { i + 1 } else { i };
    let d: String = m[i + 4..].chars().take_while(|c| c.is_ascii_digit()).collect();
    match d.parse::<u64>() { Ok(x) => format!("{}{}{}", &m[..i + 4], e(x), &m[i + 4 + d.len()..]), Err(_) => m.to_string() }
}
