//! Workload: random Python programs inside the grammar this parser supports, laid out in random ways, together with
//! the exact token stream they must lex to (known by construction, not by lexing).
use crate::prng::{mix, Rng};

#[derive(Clone, Debug, PartialEq)]
pub enum It { T(&'static str, String), NL, In, De }

#[derive(Clone, Debug, PartialEq)]
pub struct Exp { pub kind: String, pub start: usize, pub end: usize, pub text: Option<String>, pub prefix: Option<String>, pub trivia: Vec<(String, usize, usize)>, pub spanless: bool }

const KW: [(&str, &str); 35] = [("False", "PyFalse"), ("None", "PyNone"), ("True", "PyTrue"), ("and", "PyAnd"), ("as", "PyAs"), ("assert", "PyAssert"), ("async", "PyAsync"),
    ("await", "PyAwait"), ("break", "PyBreak"), ("class", "PyClass"), ("continue", "PyContinue"), ("def", "PyDef"), ("del", "PyDel"), ("elif", "PyElif"), ("else", "PyElse"),
    ("except", "PyExcept"), ("finally", "PyFinally"), ("for", "PyFor"), ("from", "PyFrom"), ("global", "PyGlobal"), ("if", "PyIf"), ("import", "PyImport"), ("in", "PyIn"), ("is", "PyIs"),
    ("lambda", "PyLambda"), ("nonlocal", "PyNonLocal"), ("not", "PyNot"), ("or", "PyOr"), ("pass", "PyPass"), ("raise", "PyRaise"), ("return", "PyReturn"), ("try", "PyTry"),
    ("while", "PyWhile"), ("with", "PyWith"), ("yield", "PyYield")];
const OPS: [(&str, &str); 47] = [("**=", "PyPowerAssign"), ("**", "PyPower"), ("*=", "PyMulAssign"), ("*", "PyMul"), ("//=", "PyFloorDivAssign"), ("//", "PyFloorDiv"), ("/=", "PyDivAssign"), ("/", "PyDiv"),
    ("<<=", "PyShiftLeftAssign"), ("<<", "PyShiftLeft"), ("<=", "PyLessEqual"), ("<>", "PyNotEqual"), ("<", "PyLess"), (">>=", "PyShiftRightAssign"), (">>", "PyShiftRight"), (">=", "PyGreaterEqual"),
    (">", "PyGreater"), ("...", "PyElipsis"), (".", "PyDot"), ("+=", "PyPlusAssign"), ("+", "PyPlus"), ("-=", "PyMinusAssign"), ("->", "PyArrow"), ("-", "PyMinus"), ("%=", "PyModuloAssign"), ("%", "PyModulo"),
    ("@=", "PyMatriceAssign"), ("@", "PyMatrice"), (":=", "PyColonAssign"), (":", "PyColon"), ("&=", "PyBitAndAssign"), ("&", "PyBitAnd"), ("|=", "PyBitOrAssign"), ("|", "PyBitOr"), ("^=", "PyBitXorAssign"),
    ("^", "PyBitXor"), ("~", "PyBitInvert"), (";", "PySemiColon"), (",", "PyComa"), ("==", "PyEqual"), ("=", "PyAssign"), ("!=", "PyNotEqual"), ("(", "PyLeftParen"), ("[", "PyLeftBracket"), ("{", "PyLeftCurly"),
    (")", "PyRightParen"), ("]", "PyRightBracket")];

pub fn t(s: &str) -> It {
    for (k, n) in KW.iter() { if *k == s { return It::T(n, s.into()) } }
    for (k, n) in OPS.iter() { if *k == s { return It::T(n, s.into()) } }
    if s == "}" { return It::T("PyRightCurly", s.into()) }
    panic!("no such token {}", s)
}

/// How a token without text of its own is written (empty: unknown kind).
pub fn spellings(kind: &str) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = KW.iter().chain(OPS.iter()).filter(|x| x.1 == kind).map(|x| x.0).collect();
    if kind == "PyRightCurly" { v.push("}") }
    v
}

pub fn is_kw(s: &str) -> bool { KW.iter().any(|k| k.0 == s) }

#[derive(Clone)]
pub struct Cfg {
    pub max_stmts: usize, pub max_depth: usize, pub block_depth: usize,
    pub comment: usize, pub blank: usize, pub cont: usize, pub inner_nl: usize, pub tight: usize, // out of 100
    pub unicode: bool, pub cr: usize, pub crlf: usize, pub triple: usize, pub long: usize, pub crlf_cont: bool, pub names: usize, pub tabs: bool, pub semis: usize, pub toks: usize, pub fresh: bool, pub mixed: bool, pub special: usize, pub many: usize,
}

impl Cfg {
    /// Swarm style: every run switches features on and off.
    pub fn swarm(r: &mut Rng, max_stmts: usize) -> Cfg {
        let some = |r: &mut Rng, hi: usize| if r.chance(1, 2) { 0 } else { r.range(1, hi) };
        Cfg { max_stmts: r.heavy(max_stmts), max_depth: r.range(1, 4), block_depth: r.range(0, 4), comment: some(r, 40), blank: some(r, 40), cont: some(r, 20), inner_nl: some(r, 40),
              tight: r.range(0, 100), unicode: r.chance(1, 3), cr: if r.chance(1, 5) { r.range(1, 100) } else { 0 }, crlf: match r.below(6) { 0 => 100, 1 => r.range(1, 100), _ => 0 }, triple: some(r, 40), long: some(r, 10), crlf_cont: r.chance(1, 4),
              names: r.range(1, 12), tabs: r.chance(1, 2), semis: some(r, 30), toks: 4 + r.heavy(120), fresh: r.chance(1, 2), mixed: r.chance(1, 4), special: if r.chance(1, 3) { r.range(1, 60) } else { 0 }, many: if r.chance(1, 5) { r.range(1, 50) } else { 0 } }
    }
}

/// `skip`, `size`: one place where things may repeat is chosen to repeat that often.
pub struct G<'a> { pub r: &'a mut Rng, pub c: Cfg, pub o: Vec<It>, pub uniq: u64, pub skip: usize, pub size: usize, /* how much deeper blocks and expressions must nest */ pub blocks: usize, pub wraps: usize, /* the chosen place is of this kind */ pub at: u8 }

const NAMES: [&str; 16] = ["a", "b", "x", "y", "value", "self", "_", "_tmp", "foo_bar", "Klass", "n0", "i", "items", "type", "case", "rb"];
/// Names with a meaning of their own to Python, its tools or its readers.
const SPECIAL: [&str; 32] = ["__future__", "annotations", "division", "barry_as_FLUFL", "__init__", "__name__", "__all__", "__file__", "__doc__", "__class__", "print", "exec", "match", "case", "type", "typing", "TYPE_CHECKING",
    "cls", "super", "int", "str", "object", "Exception", "ExceptionGroup", "l", "O", "__", "_1", "main", "unittest", "nan", "inf"];
const UNAMES: [&str; 20] = ["é", "λx", "変数", "имя", "naïve", "ß_1", "Ωmega", "数", "ﬁx", "Ａb", "İ", "\u{212A}", "𝐱y", "ªb", "x１", "ǅa", "ſ", "Ⅷ", "한글", "x٣"];
const NUMS: [&str; 22] = ["0", "1", "7", "42", "10", "1_000", "0x1F", "0XaB_c", "0o17", "0b101", "0B1_0", "3.14", "1e10", "2.5e-3", "1j", ".5", "0.25", "00", "1.", "5J", "6.02E+23", ".5e3j"];
const STRS: [&str; 14] = ["''", "\"\"", "'a'", "\"b\"", "'it is'", "\"it's\"", "'say \"x\"'", "'# no comment'", "'esc \\' quote'", "\"tab\\t\\\"q\\\"\"", "'\\\\'", "'a\\\nb'", "'unicode é λ 変'", "'(['"];
const TRIS: [&str; 9] = ["''''''", "\"\"\"\"\"\"", "'''a'''", "\"\"\"two\nlines\"\"\"", "'''it's \"quoted\" '' x'''", "\"\"\"# not a comment\n  indented\n\"\"\"", "'''\r\ncrlf\r\n'''", "\"\"\"esc \\\"\"\" end\"\"\"", "'''a\rb\\\\'''"];
const PREF: [&str; 14] = ["r", "u", "R", "U", "f", "F", "fr", "Fr", "fR", "FR", "rf", "rF", "Rf", "RF"];

const ASSIGN: [&str; 13] = ["+=", "-=", "*=", "/=", "//=", "%=", "@=", "&=", "|=", "^=", "<<=", ">>=", "**="];
const TYPES: [&str; 5] = ["# type: int", "# type:", "# type: (int) -> str", "# type: ignore", "# type:list[é]"];

impl<'a> G<'a> {
    fn p(&mut self, s: &str) { self.o.push(t(s)) }
    fn tc(&mut self) { let s = *self.r.pick(&TYPES); if s.is_ascii() || self.c.unicode { self.o.push(It::T("TypeComment", s.to_string())) } }
    fn name(&mut self) {
        let s = if self.c.unicode && self.r.chance(1, 3) { (*self.r.pick(&UNAMES)).to_string() }
            else if self.uniq != 0 && self.r.chance(1, 2) { format!("u{}_{}", self.uniq, self.r.below(50)) }
            else if self.r.chance(self.c.long, 400) { let n = self.r.heavy(400); (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>() + "_" }
            else if self.c.special > 0 && self.r.chance(self.c.special, 100) { (*self.r.pick(&SPECIAL)).to_string() }
            else if self.c.fresh && self.r.chance(1, 2) { self.any_name() }
            else { NAMES[self.r.below(self.c.names.min(NAMES.len()))].to_string() };
        self.o.push(It::T("AtomName", s))
    }
    fn any_name(&mut self) -> String {
        loop {
            // now and then a name that starts or ends like a keyword
            let mut s = if self.r.chance(1, 6) { let k = KW[self.r.below(KW.len())].0; if self.r.chance(1, 2) { k.to_string() } else { k[..self.r.range(1, k.len())].to_string() } } else { String::new() };
            let n = self.r.range(if s.is_empty() { 1 } else { 0 }, 5);
            for _ in 0..n { let c = *self.r.pick(&['a', 'b', 'e', 'f', 'j', 'r', 'u', 'x', 'z', 'A', 'E', 'F', 'J', 'R', 'X', 'Z', '_', '0', '9']); if s.is_empty() && c.is_ascii_digit() { continue } s.push(c) }
            if !s.is_empty() && !is_kw(&s) { return s }
        }
    }
    fn digits(&mut self, set: &[u8]) -> String {
        let n = if self.r.chance(self.c.long, 1500) { self.r.range(10, 400) } else { self.r.heavy(5) };
        let mut s = String::new();
        for i in 0..n { if i > 0 && self.r.chance(1, 6) { s.push('_') } s.push(*self.r.pick(set) as char) }
        s
    }
    fn any_num(&mut self) -> String {
        let dec: &[u8] = b"0123456789";
        match self.r.below(8) {
            0 => { let x = *self.r.pick(&["0x", "0X"]); let u = if self.r.chance(1, 5) { "_" } else { "" }; format!("{}{}{}", x, u, self.digits(b"0123456789abcdefABCDEF")) }
            1 => { let x = *self.r.pick(&["0o", "0O"]); let u = if self.r.chance(1, 5) { "_" } else { "" }; format!("{}{}{}", x, u, self.digits(b"01234567")) }
            2 => { let x = *self.r.pick(&["0b", "0B"]); let u = if self.r.chance(1, 5) { "_" } else { "" }; format!("{}{}{}", x, u, self.digits(b"01")) }
            3 => self.digits(b"0"),
            _ => {
                let mut s = match self.r.below(4) { 0 => format!(".{}", self.digits(dec)), 1 => format!("0.{}", self.digits(dec)), _ => { let mut s = self.digits(dec); s.insert(0, *self.r.pick(b"123456789") as char); if self.r.chance(1, 3) { s.push('.'); if self.r.chance(2, 3) { s += &self.digits(dec) } } s } };
                if self.r.chance(1, 3) { s.push(*self.r.pick(&['e', 'E'])); if self.r.chance(1, 2) { s.push(*self.r.pick(&['+', '-'])) } s += &self.digits(dec) }
                if self.r.chance(1, 5) { s.push(*self.r.pick(&['j', 'J'])) }
                s
            }
        }
    }
    fn num(&mut self) {
        let s = if self.r.chance(self.c.long, 400) { let n = self.r.heavy(200); let mut s = "1".to_string(); for i in 0..n { s.push((b'0' + (i % 10) as u8) as char) } s }
            else if self.c.fresh && self.r.chance(1, 2) { self.any_num() }
            else { (*self.r.pick(&NUMS)).to_string() };
        self.o.push(It::T("AtomNumber", s))
    }
    fn any_str(&mut self) -> String {
        let q = *self.r.pick(&['\'', '"']);
        let other = if q == '\'' { '"' } else { '\'' };
        let tri = self.r.chance(self.c.triple, 100);
        let n = self.r.heavy(12);
        let mut s = String::new();
        for _ in 0..n {
            match self.r.below(12) {
                0 => s.push(other),
                1 => { s.push('\\'); let c = *self.r.pick(&['n', '\\', q, other, 'x', '\n', '\r', ' ', '#', 'N', 'u']); s.push(c) }
                2 => { s.push_str("\\\\") }
                3 if tri => s.push(*self.r.pick(&['\n', '\r'])),
                4 if tri => { s.push(q); s.push(*self.r.pick(&['a', ' ', '\n', other])) }
                5 if tri => { s.push(q); s.push(q); s.push(*self.r.pick(&['a', ' ', '\t'])) }
                6 => s.push(*self.r.pick(&['#', '(', ')', '{', '}', '[', ':', '\t', '\u{c}', '$'])),
                7 if self.c.unicode => s.push(*self.r.pick(&['é', '変', '\u{1F600}', '\u{feff}', '\u{2028}', '\u{0301}'])),
                _ => s.push(*self.r.pick(&['a', 'b', ' ', 'z', '0'])),
            }
        }
        // an escape must not swallow what follows it, and two adjacent escaped line ends stay apart
        let qq: String = if tri { (0..3).map(|_| q).collect() } else { q.to_string() };
        if tri && s.ends_with(q) { s.push(' ') }
        format!("{}{}{}", qq, s, qq)
    }
    fn string(&mut self) {
        let mut s = if self.c.fresh && self.r.chance(1, 2) { self.any_str() } else if self.r.chance(self.c.triple, 100) { (*self.r.pick(&TRIS)).to_string() } else { (*self.r.pick(&STRS)).to_string() };
        if self.r.chance(self.c.long, 400) {
            let n = self.r.heavy(3000);
            let q = if self.r.chance(1, 2) { "'" } else { "\"\"\"" };
            s = format!("{}{}{}", q, (0..n).map(|i| if i % 17 == 16 { ' ' } else { (b'a' + (i % 26) as u8) as char }).collect::<String>(), q);
        }
        if !self.c.unicode && !s.is_ascii() { s = "'x'".into() }
        if self.r.chance(1, 3) { s = format!("{}{}", self.r.pick(&PREF), s) }
        self.o.push(It::T("AtomString", s))
    }
    /// Chooses at most one place of a statement to repeat very often.
    fn choose_many(&mut self) {
        if self.r.chance(self.c.many, 600) { if self.r.chance(1, 2) { self.wraps = self.r.range(5, 80) } else { self.blocks = self.r.range(5, 60) } self.c.toks = self.c.toks.min(40); return }
        if !self.r.chance(self.c.many, 100) { return }
        self.skip = self.r.heavy(16) - 1;
        if self.r.chance(1, 6) { self.at = self.r.range(1, 5) as u8 }
        self.size = if self.r.chance(2, 3) { *self.r.pick(&[7, 9, 15, 16, 17, 20, 31, 32, 33, 40, 50, 64, 65, 66, 80]) } else { *self.r.pick(&[99, 100, 101, 127, 128, 129, 130, 160, 200, 255, 256, 257, 258, 300]) };
    }
    /// A number of repetitions, `n` unless this is the chosen place.
    fn reps(&mut self, n: usize) -> usize {
        if self.size == 0 || self.at != 0 { return n }
        if self.skip > 0 { self.skip -= 1; return n }
        // what repeats is kept small
        self.c.toks = self.c.toks.min(self.o.len() + 8);
        self.c.max_depth = 1;
        std::mem::take(&mut self.size)
    }
    /// The same at a place of a kind.
    fn reps_at(&mut self, n: usize, kind: u8) -> usize { if self.at == kind { self.at = 0; self.skip = 0 } self.reps(n).min(260) }
    /// As many as a loop that goes on with this chance.
    fn again(&mut self, num: usize, den: usize) -> usize { let mut n = 0; while self.r.chance(num, den) { n += 1 } self.reps(n) }
    /// How many elements: mostly few, now and then a long list.
    fn count(&mut self, max: usize) -> usize { let n = self.few(max); self.reps(n) }
    fn few(&mut self, max: usize) -> usize { if self.r.chance(self.c.long, 4000) { self.r.range(13, 300) } else if self.r.chance(1, 12) { self.r.range(1, 12) } else { self.r.range(1, max) } }
    fn list(&mut self, d: usize, max: usize, f: fn(&mut G<'a>, usize)) { let n = self.count(max); for i in 0..n { if i > 0 { self.p(",") } f(self, d) } }
    /// A comma after the last element.
    fn tail(&mut self, one_in: usize) { if self.r.chance(1, one_in) { self.p(",") } }
    fn star_or(&mut self, d: usize) { if self.r.chance(1, 12) { self.p("*"); self.bits(d) } else { self.test(d) } }
    fn elem(&mut self, d: usize) { if d > 0 && self.r.chance(1, 15) { self.named(d - 1) } else { self.star_or(d) } }
    pub fn atom(&mut self, d: usize) {
        match self.r.below(if d == 0 { 7 } else { 17 }) {
            0 | 1 | 2 => self.name(),
            3 | 4 => self.num(),
            5 => { self.string(); for _ in 0..self.again(1, 5) { self.string() } }
            6 => { let k = *self.r.pick(&["None", "True", "False", "..."]); self.p(k) }
            7 | 8 => { self.p("("); match self.r.below(12) { 0 | 1 => self.named(d - 1), 2 => self.yield_(d - 1), 3 => {} _ => self.test(d - 1) } self.p(")") }
            9 => { self.p("("); self.elem(d - 1); self.p(","); self.list(d - 1, 2, G::elem); self.p(")") }
            10 | 11 => { self.p("["); if self.r.chance(9, 10) { self.list(d - 1, 4, G::elem) } self.p("]") }
            12 | 13 => { self.p("{"); self.list(d - 1, 4, |g, d| if g.r.chance(1, 8) { g.p("**"); g.bits(d) } else { g.test(d); g.p(":"); g.test(d) }); self.tail(8); self.p("}") }
            14 => { self.p("{"); self.list(d - 1, 4, |g, d| if g.r.chance(1, 8) { g.p("*"); g.bits(d) } else { g.test(d) }); self.tail(8); self.p("}") }
            _ => { let b = self.r.chance(1, 2); self.p(if b { "[" } else { "(" }); if self.r.chance(1, 10) { self.star_or(d - 1) } else { self.test(d - 1) } self.comp(d - 1, 2); self.p(if b { "]" } else { ")" }) }
        }
    }
    fn target(&mut self, d: usize) {
        match self.r.below(8) {
            0 => { self.name(); self.p("."); self.name() }
            1 => { self.name(); self.p("["); self.test(d.saturating_sub(1)); self.p("]") }
            2 => { self.p("*"); self.name() }
            3 => { self.p("("); self.name(); self.p(","); self.name(); self.p(")") }
            _ => self.name(),
        }
    }
    fn targets(&mut self, d: usize) { if self.r.chance(2, 3) { self.target(d) } else { self.list(d, 3, G::target) } }
    fn comp(&mut self, d: usize, more: usize) {
        if self.r.chance(1, 6) { self.p("async") }
        self.p("for"); self.targets(d); self.tail(10); self.p("in"); self.or_test(d);
        let mut m = self.reps(more);
        let long = m > 5;
        while m > 0 && (long || self.r.chance(1, 3)) {
            m -= 1;
            if self.r.chance(2, 3) { self.p("if"); if self.r.chance(1, 8) { self.p("lambda"); self.p(":"); self.or_test(d) } else { self.or_test(d) } } else if !long { self.comp(d, m); return } else { self.p("for"); self.name(); self.p("in"); self.or_test(0) }
        }
    }
    fn named(&mut self, d: usize) { self.name(); self.p(":="); self.test(d) }
    fn yield_(&mut self, d: usize) { self.p("yield"); if self.r.chance(1, 3) { self.p("from"); self.test(d) } else if self.r.chance(1, 2) { self.test(d) } else { self.list(d, 2, G::star_or) } }
    fn trailer(&mut self, d: usize) {
        match self.r.below(4) {
            0 | 1 => { self.p("."); self.name() }
            2 => { self.p("("); if self.r.chance(3, 4) { self.list(d.saturating_sub(1), 3, G::test) } self.p(")") }
            _ => { self.p("["); let n = if self.r.chance(1, 4) { self.r.range(1, 3) } else { 0 }; for _ in 0..self.reps(n) { self.sub(d.saturating_sub(1), false); self.p(",") } self.sub(d.saturating_sub(1), true); self.p("]") }
        }
    }
    fn sub(&mut self, d: usize, last: bool) {
        match self.r.below(9) {
            0 => { self.test(d); self.p(":"); self.test(d) }
            1 => { self.p(":"); self.test(d) }
            2 => { self.test(d); self.p(":"); self.test(d); self.p(":"); self.test(d) }
            3 if last => { if self.r.chance(1, 2) { self.test(d) } self.p(":") }
            4 if last => { if self.r.chance(1, 2) { self.test(d) } self.p(":"); if self.r.chance(1, 2) { self.test(d) } self.p(":") }
            5 => { if self.r.chance(1, 2) { self.test(d) } self.p(":"); self.p(":"); self.test(d) }
            _ => self.test(d),
        }
    }
    pub fn primary(&mut self, d: usize) {
        if self.r.chance(1, 25) { self.p("await") }
        self.atom(d);
        let long = self.c.toks < self.o.len();
        for _ in 0..self.again(1, if long { 12 } else { 4 }) { self.trailer(d) }
    }
    fn params(&mut self, d: usize) {
        // [names] [, /] [, names] [, * name [, names]] [, ** name]
        let mut first = true;
        let one = |g: &mut G<'a>, d: usize| { g.name(); if g.r.chance(1, 4) { g.p("="); g.test(d) } };
        let n = self.r.below(4);
        let n = self.reps(n);
        for _ in 0..n { if !first { self.p(",") } first = false; one(self, d) }
        if n > 0 && self.r.chance(1, 6) { self.p(","); self.p("/"); let k = self.r.below(3); for _ in 0..self.reps(k) { self.p(","); one(self, d) } }
        if self.r.chance(1, 4) { if !first { self.p(",") } first = false; self.p("*"); one(self, d); let k = self.r.below(3); for _ in 0..self.reps(k) { self.p(","); one(self, d) } }
        if first || self.r.chance(1, 4) { if !first { self.p(",") } self.p("**"); one(self, d); if self.r.chance(1, 6) { self.p(",") } }
    }
    fn args(&mut self, d: usize) {
        self.list(d, 3, |g, d| match g.r.below(8) {
            0 => { g.p("*"); g.test(d) }
            1 => { g.p("**"); g.test(d) }
            2 | 3 => { g.name(); g.p("="); g.test(d) }
            4 => g.named(d),
            5 => { g.test(d); g.comp(d, 1) }
            _ => g.test(d),
        })
    }
    pub fn test(&mut self, d: usize) {
        // a statement that is long enough goes on with names and numbers only
        let d = if self.o.len() > self.c.toks { 0 } else { d };
        if self.wraps > 0 { return self.wrap(d) }
        if d > 0 && self.r.chance(1, 15) { self.or_test(d - 1); self.p("if"); self.or_test(d - 1); self.p("else"); self.test(d - 1); return }
        if d > 0 && self.r.chance(1, 20) { self.p("lambda"); if self.r.chance(2, 3) { if self.r.chance(1, 2) { self.name() } else { self.params(d - 1) } } self.p(":"); self.test(d - 1); return }
        self.or_test(d)
    }
    /// One more level around an expression.
    fn wrap(&mut self, d: usize) {
        self.wraps -= 1;
        match self.r.below(14) {
            0 | 1 => { self.p("("); self.test(d); self.p(")") }
            2 => { self.p("["); self.test(d); self.p("]") }
            3 => { self.p("{"); self.test(d); self.p("}") }
            4 => { self.p("{"); self.name(); self.p(":"); self.test(d); self.p("}") }
            5 => { self.name(); self.p("("); self.test(d); self.p(")") }
            6 => { self.name(); self.p("["); self.test(d); self.p("]") }
            7 => { self.p("("); self.test(d); self.p(","); self.test(0); self.p(")") }
            8 => { self.p("["); self.num(); self.p(","); self.test(d); self.p("]") }
            9 => { self.p("lambda"); self.p(":"); self.test(d) }
            10 => { self.name(); self.p("if"); self.name(); self.p("else"); self.test(d) }
            11 => { self.p("["); self.name(); self.p("for"); self.name(); self.p("in"); self.p("("); self.test(d); self.p(")"); self.p("]") }
            12 => { self.name(); self.p("."); self.name(); self.p("("); self.name(); self.p(","); self.test(d); self.p(")"); if self.r.chance(1, 2) { self.trailer(0) } }
            _ => { self.p("("); self.test(d); self.p(")"); self.p("+"); self.unary(0) }
        }
    }
    fn or_test(&mut self, d: usize) {
        let d = if self.o.len() > self.c.toks { 0 } else { d };
        if d == 0 { return self.primary(0) }
        match self.r.below(18) {
            0 => { self.or_test(d - 1); for _ in 0..self.reps(1) { self.p("or"); self.cmp(d - 1) } }
            1 => { let n = self.r.range(1, 3); let n = self.reps(n); self.cmp(d - 1); for _ in 0..n { self.p("and"); self.cmp(d - 1) } }
            2 => { self.p("not"); if self.r.chance(1, 4) { self.p("not") } self.cmp(d - 1) }
            3 | 4 => self.cmp(d),
            _ => self.arith(d),
        }
    }
    fn cmp(&mut self, d: usize) {
        self.arith(d);
        let n = if self.r.chance(1, 3) { 2 } else { 1 };
        for _ in 0..self.reps(n) {
            match self.r.below(11) {
                0 => self.p("in"), 1 => { self.p("not"); self.p("in") } 2 => self.p("is"), 3 => { self.p("is"); self.p("not") } 4 => self.p("<>"),
                k => { let o = ["<", ">", "==", ">=", "<=", "!="][k - 5]; self.p(o) }
            }
            self.arith(d.saturating_sub(1));
        }
    }
    /// An expression without comparisons, boolean operators or conditionals at its top.
    fn bits(&mut self, d: usize) { let d = if self.o.len() > self.c.toks { 0 } else { d }; self.arith(d) }
    fn arith(&mut self, d: usize) {
        if d == 0 || self.r.chance(1, 3) { return self.unary(d) }
        let n = self.count(3);
        self.unary(d - 1);
        let same = self.r.chance(if n > 6 { 2 } else { 1 }, 4);
        let mut o = *self.r.pick(&["+", "-", "*", "/", "//", "%", "@", "<<", ">>", "&", "|", "^"]);
        for _ in 0..n {
            if !same { o = *self.r.pick(&["+", "-", "*", "/", "//", "%", "@", "<<", ">>", "&", "|", "^"]) }
            self.p(o);
            self.unary(if n > 6 { 0 } else { d - 1 });
        }
    }
    fn unary(&mut self, d: usize) {
        while self.r.chance(1, 10) { let o = *self.r.pick(&["+", "-", "~"]); self.p(o) }
        self.primary(d);
        if d > 0 && self.r.chance(1, 12) { self.p("**"); if self.r.chance(1, 4) { self.p("-") } self.primary(d - 1) }
    }
    fn dotted(&mut self) { self.name(); for _ in 0..self.again(1, 3) { self.p("."); self.name() } }
    fn as_name(&mut self) { if self.r.chance(1, 3) { self.p("as"); self.name() } }
    fn rhs(&mut self, d: usize) { match self.r.below(8) { 0 => self.yield_(d), 1 => self.list(d, 3, G::test), _ => self.test(d) } }
    fn small(&mut self, d: usize, in_block: bool) {
        match self.r.below(21) {
            0 => self.p("pass"),
            1 => { if in_block && self.r.chance(1, 2) { let k = *self.r.pick(&["break", "continue"]); self.p(k) } else { self.p("pass") } }
            2 => { if in_block { self.p("return"); if self.r.chance(2, 3) { if self.r.chance(1, 4) { self.list(d, 3, G::star_or); self.tail(6) } else { self.test(d) } } } else { self.test(d) } }
            3 => { self.p("raise"); if self.r.chance(2, 3) { self.test(d); if self.r.chance(1, 3) { self.p("from"); self.test(d) } } }
            4 => { let k = *self.r.pick(&["global", "nonlocal"]); self.p(k); self.list(0, 3, |g, _| g.name()) }
            5 => { self.p("import"); self.list(0, 2, |g, _| { g.dotted(); g.as_name() }) }
            6 => {
                self.p("from");
                let dots = if self.r.chance(1, 3) { self.r.range(1, 3) } else { 0 };
                let dots = if dots > 0 { self.reps(dots) } else { 0 };
                for _ in 0..dots { let k = if self.r.chance(1, 4) { "..." } else { "." }; self.p(k) }
                if dots == 0 && self.c.special > 0 && self.r.chance(1, 3) { self.o.push(It::T("AtomName", "__future__".into())) }
                else if dots == 0 || self.r.chance(2, 3) { self.dotted() }
                self.p("import");
                match self.r.below(6) {
                    0 => self.p("*"),
                    1 => { self.p("("); self.list(0, 3, |g, _| { g.name(); g.as_name() }); self.p(")") }
                    _ => self.list(0, 3, |g, _| { g.name(); g.as_name() }),
                }
            }
            7 => { self.p("assert"); self.test(d); if self.r.chance(1, 4) { self.p("from"); self.test(d) } }
            8 => { self.p("del"); self.targets(d) }
            9 | 10 => { self.target_no_star(d); let o = *self.r.pick(&ASSIGN); self.p(o); self.rhs(d); self.tail(12) }
            11 | 12 | 13 | 14 => {
                if self.r.chance(1, 6) { self.list(d, 3, G::star_or); self.tail(6) } else { self.target_no_star(d) }
                self.p("="); self.rhs(d);
                for _ in 0..self.again(1, 6) { self.p("="); self.rhs(d) }
                if self.r.chance(self.c.comment, 800) { self.tc() } else { self.tail(12) }
            }
            15 => { self.target_no_star(d); self.p(":"); self.test(d); if self.r.chance(1, 2) { self.p("="); self.rhs(d); self.tail(12) } }
            16 if in_block => self.yield_(d),
            17 if self.r.chance(1, 2) => { self.list(d, 3, G::star_or); self.tail(6) }
            _ => { self.test(d); self.tail(20) }
        }
    }
    fn target_no_star(&mut self, d: usize) {
        match self.r.below(6) { 0 => { self.name(); self.p("."); self.name() } 1 => { self.name(); self.p("["); self.sub(d.saturating_sub(1), true); self.p("]") } _ => self.name() }
    }
    fn ends_in_type_comment(&self) -> bool { matches!(self.o.last(), Some(It::T("TypeComment", _))) }
    fn simple(&mut self, in_block: bool) {
        let d = self.c.max_depth;
        self.small(d, in_block);
        let semis = self.c.semis;
        for _ in 0..self.again(semis, 100) { if self.ends_in_type_comment() { break } self.p(";"); self.small(d, in_block) }
        if !self.ends_in_type_comment() && self.r.chance(self.c.semis, 400) { self.p(";") }
        self.o.push(It::NL);
    }
    /// The block after ':', 0: plain, 1: a type comment may follow the colon, 2: also the line after it.
    fn suite(&mut self, bd: usize, kind: u8) {
        self.p(":");
        if kind > 0 && self.r.chance(self.c.comment, 800) { self.tc() }
        else if self.blocks == 0 && self.r.chance(1, 5) { return self.simple(true) }
        self.o.push(It::NL);
        if kind > 1 && self.r.chance(self.c.comment, 800) { let n = self.o.len(); self.tc(); if self.o.len() > n { self.o.push(It::NL) } }
        self.o.push(It::In);
        let n = if self.r.chance(self.c.long, 2000) { self.r.range(5, 40) } else { self.r.heavy(4) };
        let n = self.reps_at(n, 3);
        for _ in 0..n { self.stmt(if n > 4 { bd.min(1) } else { bd }, true) }
        self.o.push(It::De);
    }
    fn block(&mut self, bd: usize) { self.suite(bd, 0) }
    pub fn stmt(&mut self, bd: usize, in_block: bool) {
        let d = self.c.max_depth.min(3);
        let bd = if self.o.len() > 4 * self.c.toks { 0 } else { bd };
        let deeper = self.blocks > 0;
        if deeper { self.blocks -= 1 }
        let forced = !in_block && self.at != 0;
        let bd = if deeper || forced { bd.max(1) } else { bd };
        if !deeper && !forced && (bd == 0 || self.r.chance(3, 5)) { return self.simple(in_block) }
        let k = self.r.below(13);
        match if !forced { k } else { match self.at { 1 => 6, 2 => 0, 4 => 12, 5 => 8, _ => k } } {
            0 | 1 | 2 => {
                self.p("if"); if self.r.chance(1, 8) { self.p("("); self.named(d); self.p(")") } else { self.test(d) } self.block(bd - 1);
                let mut n = 0;
                while self.r.chance(1, 4) { n += 1 }
                for _ in 0..self.reps_at(n, 2) { self.p("elif"); self.test(d); self.block(bd - 1) }
                if self.r.chance(1, 3) { self.p("else"); self.block(bd - 1) }
            }
            3 => { self.p("while"); self.test(d); self.block(bd - 1); if self.r.chance(1, 4) { self.p("else"); self.block(bd - 1) } }
            4 | 5 => self.for_(bd, d),
            6 | 7 => {
                self.p("try"); self.block(bd - 1);
                if self.r.chance(1, 4) { self.p("finally"); self.block(bd - 1); return }
                let star = self.r.chance(1, 3);
                let n = self.r.range(1, 3);
                let n = self.reps_at(n, 1);
                for i in 0..n {
                    self.p("except");
                    // now and then a mistake: both kinds mixed, a bare clause before the last
                    let star = star != self.r.chance(1, 40);
                    if star { self.p("*") }
                    if (star || i + 1 < n || self.r.chance(1, 2)) != self.r.chance(1, 60) { self.test(d); if self.r.chance(1, 2) { self.p("as"); self.name() } }
                    self.block(bd - 1);
                }
                if self.r.chance(1, 4) { self.p("else"); self.block(bd - 1) }
                if self.r.chance(1, 4) { self.p("finally"); self.block(bd - 1) }
            }
            8 => self.with_(bd, d),
            9 => self.def(bd),
            10 => self.class(bd),
            11 => { self.p("async"); match self.r.below(3) { 0 => self.def(bd), 1 => self.with_(bd, d), _ => self.for_(bd, d) } }
            _ => {
                let n = self.r.range(1, 2);
                for _ in 0..self.reps_at(n, 4) { self.p("@"); self.dotted(); if self.r.chance(1, 2) { self.p("("); if self.r.chance(3, 4) { self.args(1); self.tail(8) } self.p(")") } self.o.push(It::NL) }
                match self.r.below(3) { 0 => self.class(bd), 1 => { self.p("async"); self.def(bd) } _ => self.def(bd) }
            }
        }
    }
    fn class(&mut self, bd: usize) { self.p("class"); self.name(); if self.r.chance(2, 3) { self.p("("); if self.r.chance(3, 4) { self.params(1) } self.p(")") } self.block(bd - 1) }
    fn def(&mut self, bd: usize) { self.p("def"); self.name(); self.p("("); self.p(")"); if self.r.chance(1, 4) { self.p("->"); self.test(1) } self.suite(bd - 1, 2) }
    fn for_(&mut self, bd: usize, d: usize) { self.p("for"); self.targets(1); self.tail(10); self.p("in"); if self.r.chance(1, 5) { self.list(d, 2, G::test) } else { self.test(d) } self.suite(bd - 1, 1); if self.r.chance(1, 5) { self.p("else"); self.block(bd - 1) } }
    fn with_(&mut self, bd: usize, d: usize) {
        self.p("with");
        let par = self.r.chance(1, 5);
        if par { self.p("(") }
        let n = self.few(2);
        let n = self.reps_at(n, 5);
        for i in 0..n {
            if i > 0 { self.p(",") }
            // a leading parenthesis belongs to the list of items
            if i == 0 && !par { self.name(); while self.r.chance(1, 3) { self.trailer(d) } } else { self.test(d) }
            if self.r.chance(1, 2) { self.p("as"); self.target_no_star(1) }
        }
        if par { self.tail(4); self.p(")") }
        self.block(bd - 1)
    }
}

/// A program: its configuration and its top-level statements as abstract tokens.
pub struct Prog { pub cfg: Cfg, pub stmts: Vec<Vec<It>>, pub seed: u64 }

pub fn program(seed: u64, max_stmts: usize, uniq: u64) -> Prog {
    let mut r = Rng::new(seed);
    let cfg = Cfg::swarm(&mut r, max_stmts);
    program_cfg(seed, cfg, uniq)
}

pub fn program_cfg(seed: u64, cfg: Cfg, uniq: u64) -> Prog {
    let mut stmts = vec![];
    for i in 0..cfg.max_stmts {
        let mut r = Rng::new(mix(seed, i as u64 + 1));
        let bd = cfg.block_depth;
        let mut g = G { r: &mut r, c: cfg.clone(), o: vec![], uniq, skip: 0, size: 0, blocks: 0, wraps: 0, at: 0 };
        g.choose_many();
        if g.r.chance(1, 40) { g.o.push(It::NL) } else { g.stmt(bd, false) }
        let o = g.o;
        stmts.push(o);
    }
    if padded(seed) {
        // one very long thing first, so that what follows lies beyond 2^16 characters
        let mut r = Rng::new(mix(seed, 0xBAD));
        let n = 65_300 + r.below(600);
        if let Some(x) = pad_token(&mut r, n) { stmts.insert(0, vec![x, It::NL]) }
    }
    Prog { cfg, stmts, seed }
}

pub fn padded(seed: u64) -> bool { seed % 128 == 77 }

fn letters(n: usize) -> String { (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect() }

fn pad_token(r: &mut Rng, n: usize) -> Option<It> {
    match r.below(6) {
        0 => Some(It::T("AtomName", letters(n))),
        1 => Some(It::T("AtomNumber", "1".repeat(n))),
        2 => Some(It::T("AtomString", format!("'{}'", letters(n)))),
        3 => Some(It::T("AtomString", format!("\"\"\"{}\"\"\"", "ab \n".repeat(n / 4)))),
        _ => None,
    }
}

/// The same for texts that need no known tokens.
pub fn pad_text(r: &mut Rng) -> String {
    let n = 65_300 + r.below(600);
    match r.below(8) {
        0 => letters(n) + "\n",
        1 => format!("\"\"\"{}\"\"\"\n", "ab \n".repeat(n / 4)),
        2 => format!("#{}\n", letters(n)),
        3 => "\n".repeat(n),
        4 => format!("a{}\n", " ".repeat(n)),
        5 => "ab\n".repeat(n / 3),
        6 => format!("[{}a]\n", "ab,".repeat(n / 3)),
        _ => format!("'{}'\n", "é".repeat(n)),
    }
}

/// Brackets, as deep as the powers of two, with line breaks among them.
pub fn nest_text(r: &mut Rng, most: usize) -> String {
    let n = loop { let n = long_run(r); if n <= most { break n } };
    let one = r.below(4);
    let (mut s, mut open) = (String::from(if r.chance(1, 2) { "a = " } else { "" }), vec![]);
    for _ in 0..n { let k = if one < 3 { one } else { r.below(3) }; s.push(['(', '[', '{'][k]); open.push([')', ']', '}'][k]); if r.chance(1, 100) { s.push_str(*r.pick(&["\n", "\n  ", " # c\n"])) } }
    s.push_str(*r.pick(&["", "a", "a, b", "'x'", "\n  a", "a\n"]));
    while let Some(c) = open.pop() { s.push(c); if r.chance(1, 100) { s.push('\n') } if r.chance(1, 3000) { break } }
    s.push_str(*r.pick(&["\n", "", "\nb\n", "\n  b\n", " + a\n"]));
    s
}

/// `tabs`: the indentation relies on tab stops at every fourth column.
pub struct Laid { pub text: String, pub exp: Vec<Exp>, /* start of each top-level statement */ pub starts: Vec<usize>, pub tabs: bool }

fn column(s: &str) -> usize { s.chars().fold(0, |c, x| if x == '\t' { (c / 4 + 1) * 4 } else { c + 1 }) }

struct Lay { out: Vec<char>, triv: Vec<(String, usize, usize)>, exp: Vec<Exp>, par: usize, indents: Vec<String>, tabs: bool }

impl Lay {
    fn tok(&mut self, kind: &str, text: &str) {
        let s = self.out.len();
        self.out.extend(text.chars());
        let e = self.out.len();
        let (mut tx, mut pf) = (None, None);
        match kind {
            "AtomName" | "AtomNumber" | "TypeComment" => tx = Some(text.to_string()),
            "AtomString" => { let q = text.find(|c| c == '\'' || c == '"').unwrap(); tx = Some(text[q..].to_string()); pf = if q > 0 { Some(text[..q].to_string()) } else { None } }
            _ => {}
        }
        let triv = std::mem::take(&mut self.triv);
        self.exp.push(Exp { kind: kind.into(), start: s, end: e, text: tx, prefix: pf, trivia: triv, spanless: false });
        match text { "(" | "[" | "{" if kind != "AtomString" => self.par += 1, ")" | "]" | "}" if kind != "AtomString" => self.par -= 1, _ => {} }
    }
    fn spanless(&mut self, kind: &str) { let p = self.out.len(); let triv = std::mem::take(&mut self.triv); self.exp.push(Exp { kind: kind.into(), start: p, end: p, text: None, prefix: None, trivia: triv, spanless: true }) }
    fn ws(&mut self, s: &str) {
        // runs of blanks are one item, even when laid out in two steps; every tab is one item
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < c.len() {
            let st = self.out.len();
            if c[i] == '\t' { self.out.push('\t'); i += 1 } else { while i < c.len() && c[i] == ' ' { self.out.push(' '); i += 1 } }
            let blank = self.out.last() == Some(&' ');
            match self.triv.last_mut() { Some(v) if blank && v.0 == "WhiteSpace" && v.2 == st && self.out[st - 1] == ' ' => v.2 = self.out.len(), _ => self.triv.push(("WhiteSpace".into(), st, self.out.len())) }
        }
    }
    fn raw(&mut self, s: &str) { self.out.extend(s.chars()) }
    fn comment(&mut self, s: &str) { let st = self.out.len(); self.raw(s); self.triv.push(("Comment".into(), st, self.out.len())) }
    fn nl_trivia(&mut self, s: &str) { let st = self.out.len(); self.raw(s); self.triv.push(("Newline".into(), st, self.out.len())) }
}

fn line_end(r: &mut Rng, c: &Cfg) -> &'static str { if r.chance(c.cr, 100) { "\r" } else if r.chance(c.crlf, 100) { "\r\n" } else { "\n" } }

/// Lengths around the powers of two.
fn long_run(r: &mut Rng) -> usize { *r.pick(&[255, 256, 257, 260, 300, 511, 512, 513, 1025]) }

const COMMENTS: [&str; 32] = ["#", "# note", "#x", "# if a: b", "# 'open", "# \"\"\"", "#\t tab", "# é λ", "##", "# ([",
    "#!/usr/bin/python", "# -*- coding: latin-1 -*-", "# coding: utf-8", "# vim: ts=8", "# noqa", "# pragma: no cover", "# fmt: off", "# fmt: on", "# pylint: disable=all", "# TODO: x", "#: doc", "# type : int", "#type: int",
    "# Type: int", "#  type: ignore", "# types:", "# \\", "#\u{c}", "# region", "# EOF", "# \u{1F600}", "#\u{a0}type: int"];

pub fn layout(p: &Prog, keep: &[bool]) -> Laid {
    let c = &p.cfg;
    let mut l = Lay { out: vec![], triv: vec![], exp: vec![], par: 0, indents: vec![String::new()], tabs: false };
    let mut starts = vec![];
    let mut pend: i32 = 0;
    let mut last: Option<(String, String)> = None; // previous token on this line
    if padded(p.seed) {
        let mut r = Rng::new(mix(p.seed, 0xBAD));
        let n = 65_300 + r.below(600);
        if pad_token(&mut r, n).is_none() {
            if r.chance(1, 2) { let k = format!("#{}", letters(n)); l.comment(&k); l.nl_trivia("\n") } else { for _ in 0..n { l.nl_trivia("\n") } }
        }
    }
    for (si, st) in p.stmts.iter().enumerate() {
        if !keep.get(si).copied().unwrap_or(true) { continue }
        let mut r = Rng::new(mix(p.seed ^ 0x51AB, si as u64 + 1));
        let mut top = true;
        for it in st {
            match it {
                It::In => { let u = *r.pick(if c.tabs { &["    ", "\t", " ", "  ", "  \t", "\t\t"] } else { &["    ", "  ", " ", "        ", "    ", "   "] }); let n = format!("{}{}", l.indents.last().unwrap(), if r.chance(c.long, 1500) { " ".repeat(long_run(&mut r)) } else { u.to_string() }); l.indents.push(n); pend += 1 }
                It::De => { l.indents.pop(); pend -= 1 }
                It::NL => {
                    if last.is_none() {
                        // an empty logical line: a line continuation before the line end
                        let s = l.out.len();
                        while pend < 0 { l.spanless("Dedent"); pend += 1 }
                        l.raw("\\\n");
                        l.triv.push(("LineContinuation".into(), s, l.out.len()));
                    }
                    let tc = matches!(&last, Some((k, _)) if k == "TypeComment");
                    if !tc && r.chance(c.blank, 300) { l.ws("  ") }
                    if !tc && r.chance(c.comment, 100) { let k = *r.pick(&COMMENTS); l.ws(" "); l.comment(k) }
                    let nl = line_end(&mut r, c);
                    l.tok("Newline", nl);
                    last = None;
                }
                It::T(kind, text) => {
                    if last.is_none() {
                        // line start: blank and comment lines, then indentation, then indent/dedent tokens
                        while r.chance(c.blank.max(c.comment), 200) {
                            let ind = *r.pick(&["", "", "  ", "\t", "      "]);
                            l.raw(ind);
                            if r.chance(c.comment, c.comment + c.blank) { let k = *r.pick(&COMMENTS); if r.chance(c.long, 1000) { let k = format!("#{}", letters(long_run(&mut r))); l.comment(&k) } else { l.comment(k) } }
                            if r.chance(c.long, 1500) { for _ in 0..long_run(&mut r) { if l.out.last() == Some(&'\r') { l.raw(" ") } l.nl_trivia("\n") } }
                            let nl = line_end(&mut r, c);
                            // "\r" directly followed by "\n" would read as one line end
                            if nl == "\n" && l.out.last() == Some(&'\r') { l.raw(" ") }
                            l.nl_trivia(nl);
                        }
                        let mut ind = l.indents.last().unwrap().clone();
                        if c.mixed && !ind.is_empty() && r.chance(1, 2) {
                            // the same column, written differently
                            let col = column(&ind);
                            ind = match r.below(3) { 0 => " ".repeat(col), 1 => "\t".repeat(col / 4) + &" ".repeat(col % 4), _ if col >= 4 => " ".repeat(r.range(1, 3)) + "\t" + &" ".repeat(col - 4), _ => " ".repeat(col) };
                            l.tabs = true;
                        }
                        l.raw(&ind);
                        if top { starts.push(l.out.len()); top = false }
                        if pend > 0 { l.spanless("Indent"); pend = 0 }
                        while pend < 0 { l.spanless("Dedent"); pend += 1 }
                    } else {
                        let (pk, pt) = last.clone().unwrap();
                        space(&mut l, &mut r, c, &pk, &pt, kind, text);
                    }
                    l.tok(kind, text);
                    last = Some((kind.to_string(), text.clone()));
                }
            }
        }
    }
    let mut r = Rng::new(mix(p.seed ^ 0x51AC, 0));
    while r.chance(c.blank.max(c.comment), 200) {
        if r.chance(c.comment, c.comment + c.blank) { let k = *r.pick(&COMMENTS); l.comment(k) } else if l.out.last() == Some(&'\r') { l.raw(" ") }
        l.nl_trivia(if r.chance(c.crlf, 100) { "\r\n" } else { "\n" });
    }
    while pend < 0 { l.spanless("Dedent"); pend += 1 }
    let n = l.out.len();
    let triv = std::mem::take(&mut l.triv);
    l.exp.push(Exp { kind: "EOF".into(), start: n, end: n, text: None, prefix: None, trivia: triv, spanless: false });
    Laid { text: l.out.into_iter().collect(), exp: l.exp, starts, tabs: l.tabs }
}

fn wordish(kind: &str) -> bool { kind == "AtomName" || kind == "AtomNumber" || kind == "AtomString" || false }

fn space(l: &mut Lay, r: &mut Rng, c: &Cfg, pk: &str, pt: &str, k: &str, t: &str) {
    let word = |k: &str, t: &str| wordish(k) || is_kw(t);
    let soft = |t: &str| matches!(t, "(" | "[" | "{" | ")" | "]" | "}" | "," | ";");
    let glue_ok = if word(pk, pt) && word(k, t) { false }
        else if pk == "AtomNumber" && t.starts_with('.') { false }
        else if pt == "." || t == "." { !(pk == "AtomNumber" || k == "AtomNumber") && !(pt.starts_with('.') && t.starts_with('.')) && (word(pk, pt) || word(k, t) || soft(pt)) }
        else if word(pk, pt) || word(k, t) { !(pt.ends_with('.') && k == "AtomNumber") }
        else { soft(pt) || soft(t) };
    if glue_ok && r.chance(c.tight, 100) { return }
    let mut must = !glue_ok;
    if l.par > 0 && r.chance(c.inner_nl, 300) {
        // inside brackets: line breaks and comments are trivia; indentation of the new line is free
        if r.chance(c.comment, 100) { l.ws(" "); let k = *r.pick(&COMMENTS); l.comment(k) }
        l.nl_trivia(line_end(r, c));
        if r.chance(c.long, 400) { for _ in 0..long_run(r) { if l.out.last() == Some(&'\r') || r.chance(1, 5) { l.raw(" ") } l.nl_trivia("\n") } }
        let ind = *r.pick(&["", "  ", "\t", "     "]);
        l.raw(ind);
        return
    }
    if l.par == 0 && r.chance(c.cont, 300) {
        let n = if r.chance(c.long, 300) { r.range(2, 300) } else if r.chance(1, 10) { 2 } else { 1 };
        for _ in 0..n {
            if r.chance(1, 2) { l.ws(" ") }
            let s = l.out.len();
            let k = if (c.crlf_cont && r.chance(1, 2)) || r.chance(c.crlf, 100) { "\\\r\n" } else if r.chance(c.cr, 100) { "\\\r" } else { "\\\n" };
            l.raw(k);
            l.triv.push(("LineContinuation".into(), s, l.out.len()));
        }
        must = false;
    }
    if r.chance(c.long, 2500) { let n = long_run(r); let w = match r.below(4) { 0 => "\t".repeat(n), 1 => " \t".repeat(n / 2), _ => " ".repeat(n) }; l.ws(&w); return }
    let w = match r.below(12) { 0 => "  ", 1 => "\t", 2 => " \t ", 3 => "   ", 4 if !must => "", _ => " " };
    l.ws(w);
}

/// One expression (or argument list, comparison, ...) followed by a line end.
pub fn expression(seed: u64, api: &str) -> Prog {
    let mut r = Rng::new(seed);
    let cfg = Cfg::swarm(&mut r, 1);
    let mut r2 = Rng::new(mix(seed, 1));
    let d = cfg.max_depth;
    let mut g = G { r: &mut r2, c: cfg.clone(), o: vec![], uniq: 0, skip: 0, size: 0, blocks: 0, wraps: 0, at: 0 };
    g.choose_many();
    match api {
        "m:atom" | "m:atom_expr" => g.primary(d),
        "m:arglist" => g.args(d),
        "m:star_list" => g.list(d, 3, G::star_or),
        "eval" => g.list(d, 2, G::test),
        "m:simple" => g.simple(false),
        "m:stmt" => g.stmt(2, false),
        "single" => { if !g.r.chance(1, 12) { g.stmt(2, false) } if g.r.chance(1, 3) { g.o.push(It::NL) } }
        "m:tfp" => { g.name(); if g.r.chance(2, 3) { g.p(":"); g.test(d) } if g.r.chance(1, 2) { g.p("="); g.test(d) } }
        "m:named" => if g.r.chance(1, 2) { g.named(d) } else { g.test(d) },
        "functype" => {
            g.p("(");
            let mut first = true;
            let k = g.r.below(4);
            for _ in 0..g.reps(k) { if !first { g.p(",") } first = false; g.test(1) }
            if g.r.chance(1, 4) { if !first { g.p(",") } first = false; g.p("*"); g.test(1); let k = g.r.below(2); for _ in 0..g.reps(k) { g.p(","); g.test(1) } }
            if g.r.chance(1, 4) { if !first { g.p(",") } g.p("**"); g.test(1) }
            g.p(")"); g.p("->"); g.test(d)
        }
        _ => g.test(d),
    }
    let mut o = g.o;
    if o.last() != Some(&It::NL) && o.last() != Some(&It::De) { o.push(It::NL) }
    if r.chance(1, 15) { o.push(It::NL) }
    Prog { cfg, stmts: vec![o], seed }
}

const SOUP: [&str; 66] = ["if ", "else:", "def f():", "class A:", "try:", "except ", "finally:", "lambda ", "for x in ", "while ", "with ", "async ", "await ", "import ", "from . import *", "return ", "yield ",
    "pass", "not ", "is ", "\n", "\n", "\n    ", "\n\t", "\n  ", "\r", "\r\n", "\r\n    ", "    ", "\\\n", "\\", "#c", "# type: int", "'", "\"", "'''", "\"\"\"", "'s'", "r'x'", "fR\"y\"", "0", "0x", "0b1", "0o7_", "1e", "1.5", "1_", ".5", "...", ".", "(", ")",
    "[", "]", "{", "}", ":", ",", ";", "=", "==", "**=", ":=", "->", "@", "é"];
pub fn soup(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n { s.push_str(*r.pick(&SOUP)); if r.chance(1, 3) { s.push(' ') } if r.chance(1, 6) { s.push_str(*r.pick(&NAMES)) } }
    s
}

/// The program text with a few tokens lost, repeated, exchanged, inserted or swapped: mistakes a parser meets.
pub fn edit_tokens(r: &mut Rng, l: &Laid) -> String {
    let c: Vec<char> = l.text.chars().collect();
    let pos: Vec<(usize, usize)> = l.exp.iter().filter(|e| e.start < e.end).map(|e| (e.start, e.end)).collect();
    if pos.is_empty() { return soup(r, 4) }
    // pieces: gap, token, gap, token, ..., gap
    let mut gaps: Vec<String> = vec![];
    let mut toks: Vec<String> = vec![];
    let mut at = 0;
    for (s, e) in &pos { gaps.push(c[at..*s].iter().collect()); toks.push(c[*s..*e].iter().collect()); at = *e }
    let tail: String = c[at..].iter().collect();
    for _ in 0..r.heavy(3) {
        let n = toks.len();
        if n == 0 { break }
        let i = r.below(n);
        let other = |r: &mut Rng, toks: &[String]| -> String {
            match r.below(8) { 0 | 1 => KW[r.below(KW.len())].0.to_string(), 2 | 3 => OPS[r.below(OPS.len())].0.to_string(), 4 => r.pick(&["*", "}", "\n", "**", "'", "async", ".", "->"]).to_string(), _ => toks[r.below(toks.len())].clone() }
        };
        match r.below(7) {
            0 | 1 => { toks.remove(i); let g = gaps.remove(i); if i < gaps.len() { gaps[i] = if g.len() > gaps[i].len() { g } else { gaps[i].clone() } } }
            2 => { let t = toks[i].clone(); toks.insert(i, t); gaps.insert(i + 1, " ".into()) }
            3 => toks[i] = other(r, &toks),
            4 | 5 => { let t = other(r, &toks); toks.insert(i, t); let g = if r.chance(1, 2) { " ".to_string() } else { gaps[i].clone() }; gaps.insert(i + 1, if g.is_empty() { " ".into() } else { g }) }
            _ => if i + 1 < n { toks.swap(i, i + 1) },
        }
    }
    let mut s = String::new();
    for (g, t) in gaps.iter().zip(toks.iter()) { s += g; s += t }
    s + &tail
}

pub const FRAMES: usize = 18;
/// A statement with `body` as one of its suites.
pub fn frame(kind: usize, body: Vec<It>) -> Vec<It> {
    let n = |s: &str| It::T("AtomName", s.into());
    let mut o = vec![];
    let put = |o: &mut Vec<It>, s: &str| for w in s.split(' ') { if w.is_empty() { continue } if w == "NL" { o.push(It::NL) } else if w == "IN" { o.push(It::In) } else if w == "DE" { o.push(It::De) } else if w.len() == 1 && w.chars().all(|c| c.is_alphabetic()) { o.push(n(w)) } else { o.push(t(w)) } };
    let (a, b) = match kind % FRAMES {
        0 => ("if a :", ""), 1 => ("while a :", ""), 2 => ("for a in b :", ""), 3 => ("with a as b :", ""), 4 => ("def a ( ) :", ""), 5 => ("class A :", ""), 6 => ("async def a ( ) :", ""),
        7 => ("if a : NL IN pass NL DE elif b :", "else : NL IN pass NL DE"), 8 => ("if a : NL IN pass NL DE else :", ""), 9 => ("for a in b : NL IN pass NL DE else :", ""),
        10 => ("try :", "finally : NL IN pass NL DE"), 11 => ("try :", "except A : NL IN pass NL DE"), 12 => ("try :", "except * A : NL IN pass NL DE"),
        13 => ("try : NL IN pass NL DE except A :", "except B : NL IN pass NL DE"), 14 => ("try : NL IN pass NL DE except * A :", "except * B : NL IN pass NL DE"),
        15 => ("try : NL IN pass NL DE except A : NL IN pass NL DE else :", "finally : NL IN pass NL DE"), 16 => ("try : NL IN pass NL DE finally :", ""), _ => ("async for a in b :", ""),
    };
    put(&mut o, a);
    o.push(It::NL);
    o.push(It::In);
    o.extend(body);
    o.push(It::De);
    put(&mut o, b);
    o
}

/// Lists and literals whose buffers have to grow at seeded elements: every kind of list with 2-18 parts of seeded kinds, numbers of 2-20 characters.
pub fn grown(r: &mut Rng) -> String {
    let digits = |r: &mut Rng, set: &[u8], n: usize| -> String { let mut s = String::new(); while s.len() < n { if !s.is_empty() && r.chance(1, 5) && s.len() + 1 < n { s.push('_') } s.push(*r.pick(set) as char) } s };
    let number = |r: &mut Rng| -> String {
        let n = r.range(1, 17);
        let dec: &[u8] = b"0123456789";
        let mut s = match r.below(9) {
            0 => format!("0{}{}", r.pick(&["x", "X", "x_"]), digits(r, b"0123456789abcdefABCDEF", n)),
            1 => format!("0{}{}", r.pick(&["o", "O", "o_"]), digits(r, b"01234567", n)),
            2 => format!("0{}{}", r.pick(&["b", "B", "b_"]), digits(r, b"01", n)),
            3 => return digits(r, b"0", n),
            4 => format!(".{}", digits(r, dec, n)),
            5 => format!("0{}.{}", digits(r, dec, n), if r.chance(1, 2) { let k = r.range(1, 6); digits(r, dec, k) } else { String::new() }),
            6 => format!("0.{}", digits(r, dec, n)),
            _ => { let k = r.range(0, 6); format!("{}{}{}", r.range(1, 9), digits(r, dec, n), if k > 0 && r.chance(1, 2) { format!(".{}", digits(r, dec, k)) } else { String::new() }) }
        };
        if !s.starts_with("0x") && !s.starts_with("0X") && !s.starts_with("0o") && !s.starts_with("0O") && !s.starts_with("0b") && !s.starts_with("0B") {
            if r.chance(1, 2) { s += r.pick(&["e", "E", "e+", "e-", "E-"]); let k = r.range(1, 5); s += &digits(r, dec, k) }
            if r.chance(1, 3) { s.push(*r.pick(&['j', 'J'])) }
        }
        s
    };
    let mut o = String::new();
    for _ in 0..r.range(1, 4) {
        let n = *r.pick(&[2, 3, 4, 5, 5, 6, 8, 9, 9, 10, 16, 17, 18]);
        let list = |r: &mut Rng, kinds: &[&str], sep: &str| -> String { let mut s = String::new(); for i in 0..n { if i > 0 { s += sep } s += r.pick(kinds); } s };
        o += &match r.below(26) {
            0..=3 => { let mut s = String::new(); for i in 0..n { if i > 0 { s += r.pick(&[", ", " + ", " "]) } s += &number(r) } format!("({})\n", s) }
            4 => format!("({})\n", list(r, &["a", "*b", "1", "c:=d", "(e, f)"], ", ")),
            5 => format!("[{}]\n", list(r, &["a", "*b", "'s'", "f(a)"], ",")),
            6 => format!("{{{}}}\n", list(r, &["a", "*b", "1"], ", ")),
            7 => format!("{{{}}}\n", list(r, &["a: b", "**c", "1: 'x'"], ", ")),
            8 => format!("f({})\n", list(r, &["a", "*b", "**c", "d=1", "e:=f"], ", ")),
            9 => format!("a[{}]\n", list(r, &["b", "c:d", ":", "e:f:g", "::h"], ", ")),
            10 => format!("a{}\n", list(r, &[".b", "()", "[c]", "(d, e)"], "")),
            11 => { let k = r.range(1, 3); let mut parts: Vec<String> = (0..n).map(|_| r.pick(&["a", "b=1", "c"]).to_string()).collect(); let star = r.below(parts.len()); parts[star] = r.pick(&["*d", "a", "*e", "/"]).to_string(); if r.chance(1, 2) { parts.push("**g".into()) } let mut s = parts.join(", "); if k == 1 { s.push(',') } format!("lambda {}: 1\n", s) }
            12 => format!("try:\n a\n{}", (0..n).map(|i| format!("except A{}:\n b\n", i)).collect::<String>()),
            13 => format!("try:\n a\n{}finally:\n c\n", (0..n).map(|i| format!("except* A{} as b:\n b\n", i)).collect::<String>()),
            14 => format!("if a:\n b\n{}else:\n c\n", "elif d:\n e\n".repeat(n)),
            15 => format!("with {}:\n c\n", list(r, &["a", "b as c", "d()"], ", ")),
            16 => format!("with ({}):\n c\n", list(r, &["a as b", "b as c"], ", ")),
            17 => format!("import {}\n", list(r, &["a", "b.c", "d as e", "f.g.h as i"], ", ")),
            18 => format!("from {}a{} import {}\n", r.pick(&["", ".", "...", "....."]), ".b".repeat(n - 2), list(r, &["a", "b as c"], ", ")),
            19 => format!("{} {}\n", r.pick(&["global", "nonlocal"]), list(r, &["a", "b"], ", ")),
            20 => format!("{}\n", list(r, &["a", "b = 1", "pass", "del c", "import d"], "; ")),
            21 => format!("a = {}b\n", "c = ".repeat(n)),
            22 => format!("{}class A:\n a\n", "@a.b(c)\n".repeat(n)),
            23 => format!("class A({}):\n{}", list(r, &["a", "b=c", "*d"], ", "), " a\n b; c\n".repeat(n)),
            24 => format!("for {} in {}:\n a\n", list(r, &["a", "*b"], ", "), list(r, &["a", "*b", "1"], ", ")),
            _ => format!("del {}\n{}\n", list(r, &["a", "b.c", "*d"], ", "), list(r, &["'a'", "\"b\"", "'c d'"], " ")),
        };
    }
    o
}
