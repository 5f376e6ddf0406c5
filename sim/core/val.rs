//! Reads the Debug text of tokens, trivia and nodes back as a generic tree, so that nothing here depends on
//! which variants exist.
#[derive(Clone, Debug, PartialEq)]
pub enum V { Int(u64), Str(String), Chr(char), Ctor(String, Vec<V>), List(Vec<V>), Tuple(Vec<V>) }

impl V {
    pub fn parse(t: &str) -> Result<V, String> {
        let c: Vec<char> = t.chars().collect();
        let mut p = 0;
        let v = go(&c, &mut p)?;
        if p != c.len() { return Err(format!("trailing debug text at {}", p)) }
        Ok(v)
    }
    pub fn ctor(&self) -> (&str, &[V]) { match self { V::Ctor(n, a) => (n, a), _ => ("", &[]) } }
    pub fn int(&self) -> Option<u64> { if let V::Int(i) = self { Some(*i) } else { None } }
    pub fn is_opt_list(&self) -> bool {
        match self { V::Ctor(n, a) if n == "None" && a.is_empty() => true, V::Ctor(n, a) if n == "Some" && a.len() == 1 => matches!(a[0], V::List(_)), _ => false }
    }
    /// Every integer is a position in this code base: shift all of them.
    pub fn shift(&self, d: i64) -> V {
        match self {
            V::Int(i) => V::Int((*i as i64 + d) as u64),
            V::Ctor(n, a) => V::Ctor(n.clone(), a.iter().map(|x| x.shift(d)).collect()),
            V::List(a) => V::List(a.iter().map(|x| x.shift(d)).collect()),
            V::Tuple(a) => V::Tuple(a.iter().map(|x| x.shift(d)).collect()),
            o => o.clone(),
        }
    }
    pub fn show(&self, out: &mut String) {
        match self {
            V::Int(i) => out.push_str(&i.to_string()),
            V::Str(s) => out.push_str(&format!("{:?}", s)),
            V::Chr(s) => out.push_str(&format!("{:?}", s)),
            V::Ctor(n, a) => { out.push_str(n); if !a.is_empty() { out.push('('); seq(a, out); out.push(')') } }
            V::List(a) => { out.push('['); seq(a, out); out.push(']') }
            V::Tuple(a) => { out.push('('); seq(a, out); out.push(')') }
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.show(&mut s); s }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a V) -> bool) {
        if !f(self) { return }
        match self { V::Ctor(_, a) | V::List(a) | V::Tuple(a) => for x in a { x.walk(f) }, _ => {} }
    }
}

fn seq(a: &[V], out: &mut String) { for (i, x) in a.iter().enumerate() { if i > 0 { out.push_str(", ") } x.show(out) } }

fn args(c: &[char], p: &mut usize, close: char) -> Result<Vec<V>, String> {
    let mut a = Vec::new();
    loop {
        while matches!(c.get(*p), Some(' ') | Some(',')) { *p += 1 }
        if c.get(*p) == Some(&close) { *p += 1; return Ok(a) }
        if *p >= c.len() { return Err("end of debug text".into()) }
        a.push(go(c, p)?);
    }
}

fn esc(c: &[char], p: &mut usize) -> Result<char, String> {
    // after the backslash
    let r = match c.get(*p) {
        Some('n') => '\n', Some('r') => '\r', Some('t') => '\t', Some('0') => '\0',
        Some('u') => {
            let mut n = 0u32;
            *p += 2;
            while let Some(h) = c.get(*p).and_then(|x| x.to_digit(16)) { n = n * 16 + h; *p += 1 }
            if c.get(*p) != Some(&'}') { return Err("bad unicode escape".into()) }
            char::from_u32(n).ok_or("bad char")?
        }
        Some(x) => *x,
        None => return Err("escape".into()),
    };
    *p += 1;
    Ok(r)
}

fn go(c: &[char], p: &mut usize) -> Result<V, String> {
    match c.get(*p) {
        None => Err("end of debug text".into()),
        Some('[') => { *p += 1; Ok(V::List(args(c, p, ']')?)) }
        Some('(') => { *p += 1; Ok(V::Tuple(args(c, p, ')')?)) }
        Some('"') => {
            *p += 1;
            let mut s = String::new();
            loop {
                match c.get(*p) {
                    None => return Err("open string in debug text".into()),
                    Some('"') => { *p += 1; return Ok(V::Str(s)) }
                    Some('\\') => { *p += 1; s.push(esc(c, p)?) }
                    Some(x) => { s.push(*x); *p += 1 }
                }
            }
        }
        Some('\'') => {
            *p += 1;
            let r = if c.get(*p) == Some(&'\\') { *p += 1; esc(c, p)? } else { let x = *c.get(*p).ok_or("char")?; *p += 1; x };
            if c.get(*p) != Some(&'\'') { return Err("open char in debug text".into()) }
            *p += 1;
            Ok(V::Chr(r))
        }
        Some(x) if x.is_ascii_digit() => {
            let mut n = 0u64;
            while let Some(d) = c.get(*p).and_then(|x| x.to_digit(10)) { n = n.wrapping_mul(10).wrapping_add(d as u64); *p += 1 }
            Ok(V::Int(n))
        }
        Some(x) if x.is_alphabetic() || *x == '_' => {
            let st = *p;
            while *p < c.len() && (c[*p].is_alphanumeric() || c[*p] == '_') { *p += 1 }
            let n: String = c[st..*p].iter().collect();
            if c.get(*p) == Some(&'(') { *p += 1; Ok(V::Ctor(n, args(c, p, ')')?)) }
            else if c.get(*p) == Some(&' ') && c.get(*p + 1) == Some(&'{') {
                // struct style: keep the values only
                *p += 2;
                let mut a = Vec::new();
                loop {
                    while matches!(c.get(*p), Some(' ') | Some(',')) { *p += 1 }
                    if c.get(*p) == Some(&'}') { *p += 1; return Ok(V::Ctor(n, a)) }
                    while *p < c.len() && c[*p] != ':' { *p += 1 }
                    *p += 2;
                    a.push(go(c, p)?);
                }
            }
            else { Ok(V::Ctor(n, vec![])) }
        }
        Some(x) => Err(format!("unexpected '{}' in debug text at {}", x, p)),
    }
}
