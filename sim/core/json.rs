//! Minimal JSON value, writer and reader (ordered objects).
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Int(i64), Num(f64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

impl J {
    pub fn obj() -> J { J::Obj(Vec::new()) }
    pub fn set(mut self, k: &str, v: J) -> J { self.put(k, v); self }
    pub fn put(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            for e in o.iter_mut() { if e.0 == k { e.1 = v; return; } }
            o.push((k.to_string(), v));
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> { if let J::Obj(o) = self { o.iter().find(|e| e.0 == k).map(|e| &e.1) } else { None } }
    pub fn str(&self) -> &str { if let J::Str(s) = self { s } else { "" } }
    pub fn int(&self) -> i64 { match self { J::Int(i) => *i, J::Num(n) => *n as i64, _ => 0 } }
    pub fn arr(&self) -> &[J] { if let J::Arr(a) = self { a } else { &[] } }
    pub fn s(v: &str) -> J { J::Str(v.to_string()) }
    pub fn i(v: u64) -> J { J::Int(v as i64) }
    pub fn write(&self, out: &mut String, ind: usize) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Num(n) => out.push_str(&format!("{}", n)),
            J::Str(s) => wstr(s, out),
            J::Arr(a) => {
                let flat = a.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_)));
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 { out.push(','); if flat { out.push(' ') } }
                    if !flat { nl(out, ind + 1) }
                    x.write(out, ind + 1);
                }
                if !flat && !a.is_empty() { nl(out, ind) }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 { out.push(',') }
                    nl(out, ind + 1);
                    wstr(k, out);
                    out.push_str(": ");
                    v.write(out, ind + 1);
                }
                if !o.is_empty() { nl(out, ind) }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.write(&mut s, 0); s.push('\n'); s }
    pub fn parse(t: &str) -> Result<J, String> {
        let c: Vec<char> = t.chars().collect();
        let mut p = 0;
        let v = val(&c, &mut p)?;
        ws(&c, &mut p);
        if p != c.len() { return Err(format!("trailing text at {}", p)) }
        Ok(v)
    }
}

fn nl(out: &mut String, n: usize) { out.push('\n'); for _ in 0..n { out.push(' ') } }

fn wstr(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 32 || c == '\u{7f}' || c == '\u{2028}' || c == '\u{2029}' => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

fn ws(c: &[char], p: &mut usize) { while *p < c.len() && c[*p].is_whitespace() { *p += 1 } }

fn val(c: &[char], p: &mut usize) -> Result<J, String> {
    ws(c, p);
    if *p >= c.len() { return Err("end of text".into()) }
    match c[*p] {
        '{' => {
            *p += 1;
            let mut o = Vec::new();
            ws(c, p);
            if c.get(*p) == Some(&'}') { *p += 1; return Ok(J::Obj(o)) }
            loop {
                ws(c, p);
                let k = match val(c, p)? { J::Str(s) => s, _ => return Err("key".into()) };
                ws(c, p);
                if c.get(*p) != Some(&':') { return Err(format!("':' at {}", p)) }
                *p += 1;
                o.push((k, val(c, p)?));
                ws(c, p);
                match c.get(*p) { Some(',') => *p += 1, Some('}') => { *p += 1; return Ok(J::Obj(o)) } _ => return Err(format!("'}}' at {}", p)) }
            }
        }
        '[' => {
            *p += 1;
            let mut a = Vec::new();
            ws(c, p);
            if c.get(*p) == Some(&']') { *p += 1; return Ok(J::Arr(a)) }
            loop {
                a.push(val(c, p)?);
                ws(c, p);
                match c.get(*p) { Some(',') => *p += 1, Some(']') => { *p += 1; return Ok(J::Arr(a)) } _ => return Err(format!("']' at {}", p)) }
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                match c.get(*p) {
                    None => return Err("open string".into()),
                    Some('"') => { *p += 1; return Ok(J::Str(s)) }
                    Some('\\') => {
                        *p += 1;
                        match c.get(*p) {
                            Some('n') => s.push('\n'),
                            Some('r') => s.push('\r'),
                            Some('t') => s.push('\t'),
                            Some('u') => {
                                let h: String = c[*p + 1..(*p + 5).min(c.len())].iter().collect();
                                let n = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                                s.push(char::from_u32(n).unwrap_or('\u{fffd}'));
                                *p += 4;
                            }
                            Some(x) => s.push(*x),
                            None => return Err("escape".into()),
                        }
                        *p += 1;
                    }
                    Some(x) => { s.push(*x); *p += 1 }
                }
            }
        }
        _ => {
            let st = *p;
            while *p < c.len() && !matches!(c[*p], ',' | ']' | '}' | ':') && !c[*p].is_whitespace() { *p += 1 }
            let w: String = c[st..*p].iter().collect();
            match w.as_str() {
                "null" => Ok(J::Null),
                "true" => Ok(J::Bool(true)),
                "false" => Ok(J::Bool(false)),
                _ => if let Ok(i) = w.parse::<i64>() { Ok(J::Int(i)) } else { w.parse::<f64>().map(J::Num).map_err(|_| format!("bad word '{}'", w)) }
            }
        }
    }
}
