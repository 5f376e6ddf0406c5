from seedlib import *
T='src/parser/tokenizer.rs'; SB='src/parser/source_buffer.rs'; EX='src/parser/expressions.rs'; ST='src/parser/statements.rs'; BL='src/parser/blocks.rs'; PA='src/parser/parser.rs'
STRUCT_HEAD='pub struct PythonCoreTokenizer {\n    source_buffer: Box<SourceBuffer>,'
PEND='''thread_local! { static PENDING: std::cell::Cell<i32> = std::cell::Cell::new(0); }
fn pending() -> i32 { PENDING.with(|p| p.get()) }
fn add_pending(n: i32) { PENDING.with(|p| p.set(p.get() + n)) }

'''
bugs=[
dict(id='c01_shared_name_buffer',property='C01',
 needs='two sessions lexing names on different threads, preempted inside one name',
 what='names are collected in one process-wide buffer, locked per character: characters of two sessions mix',
 edits=[(T,STRUCT_HEAD,'static NAME: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());\n\n'+STRUCT_HEAD),
 (T,'''                let mut buffer = String::new();
                while self.source_buffer.get_char().is_alphanumeric() || self.source_buffer.get_char() == '_' {
                    buffer.push(self.source_buffer.get_char());
                    let _ = self.source_buffer.advance();
                }
''','''                NAME.lock().unwrap_or_else(|e| e.into_inner()).clear();
                while self.source_buffer.get_char().is_alphanumeric() || self.source_buffer.get_char() == '_' {
                    NAME.lock().unwrap_or_else(|e| e.into_inner()).push(self.source_buffer.get_char());
                    let _ = self.source_buffer.advance();
                }
                let buffer = NAME.lock().unwrap_or_else(|e| e.into_inner()).clone();
''')],
 demo='''
fn demo() {
    let (a, b) = ("alpha_name_one beta gamma ".repeat(200), "pass while return x ".repeat(200));
    let (ga, gb) = (lex(&a), lex(&b));
    for _ in 0..30 {
        let (a2, b2) = (a.clone(), b.clone());
        let h = std::thread::spawn(move || lex(&a2)); let g = std::thread::spawn(move || lex(&b2));
        assert!(h.join().unwrap() == ga && g.join().unwrap() == gb);
    }
}
'''),
dict(id='c01_pending_per_thread',property='C01',all=True,
 needs='two sessions taking turns on one thread while one owes dedents, or a session moved to another thread between two dedents',
 what='the number of indents and dedents still owed is kept per thread instead of per session',
 edits=[(T,STRUCT_HEAD,PEND+STRUCT_HEAD),
 (T,'self.pending += 1','add_pending(1)'),(T,'self.pending -= 1','add_pending(-1)'),
 (T,'match self.pending {','match pending() {'),(T,'_ if self.pending < 0','_ if pending() < 0'),(T,'_ if self.pending > 0','_ if pending() > 0')],
 demo='''
fn demo() {
    let t = "if a:\\n  if b:\\n    if c:\\n      d\\ne\\n"; let g = lex(t);
    let (mut x, mut y) = (PythonCoreTokenizer::new(t.to_string()), PythonCoreTokenizer::new("a b c d e f g h i j k l m n o p q r s t u v w x y z".to_string()));
    let mut got = Vec::new();
    for _ in 0..g.len() { got.push(format!("{:?}", x.get_symbol())); let _ = y.get_symbol(); }
    assert!(got == g);
}
'''),
dict(id='c02_cut_crlf_continuation',property='C02',
 needs='a text cut between the carriage return and the line feed of a continued line',
 what='a backslash and carriage return at the very end count as a complete three-character continuation: positions past the end of the text',
 edits=[(T,"( '\\\\', '\\r', '\\n' ) => {\n                        for _i in 1 ..= 3","( '\\\\', '\\r', '\\n' | '\\0' ) => {\n                        for _i in 1 ..= 3")],
 demo='''
fn demo() {
    for t in ["a + \\\\\\r", "x = (1, \\\\\\r"] { let v = lex(t); assert!(v.last().unwrap().contains(&format!("EOF({},", t.len())), "{:?}", v); }
    assert!(lex("a \\\\\\r\\nb").len() == 3);
}
'''),
dict(id='c02_prefixed_string_cut',property='C02',
 needs='a text cut exactly after a backslash inside a prefixed single-quoted string',
 what='an unfinished prefixed string whose last character is a backslash is delivered as a string',
 edits=[(T,"""                    '\\0' | '\\r' | '\\n' => return Err(format!("Unterminated""","""                    '\\0' if prefix.is_some() && buffer.ends_with('\\\\') => false,
                    '\\0' | '\\r' | '\\n' => return Err(format!("Unterminated""")],
 demo='''
fn demo() {
    for p in ["r", "f", "u", "rf"] { let v = lex(&format!("a = {}'b\\\\", p)); assert!(v.last().unwrap().starts_with("Err"), "{:?}", v); }
}
'''),
dict(id='c03_formfeed_skipped',property='C03',
 needs='a form feed between two tokens of a line',
 what='a form feed inside a line is skipped without belonging to any token or trivia',
 edits=[(T,"""                            },
                            _ => false
                        } {};

                self.token_start_position = self.source_buffer.get_position();

                /* Type comment""","""                            },
                            '\\x0c' => {
                                let _ = self.source_buffer.advance();
                                true
                            },
                            _ => false
                        } {};

                self.token_start_position = self.source_buffer.get_position();

                /* Type comment""")],
 demo='''
fn demo() {
    // either an error, or the form feed is part of something delivered
    for t in ["a\\u{c}b", "a = \\u{c}1", "(\\u{c})"] { let v = lex(t); let e = v.iter().any(|x| x.starts_with("Err")); let acc = v.iter().any(|x| x.contains("\\\\u{c}")); assert!(e || acc, "{:?}", v); }
}
'''),
dict(id='c03_bom_dropped',property='C03',
 needs='a byte order mark inside the text, as left by joining two files',
 what='every byte order mark is removed when the text is loaded, so all later spans are shifted and the character is unaccounted for',
 edits=[(SB,'source_buffer: Box::new(buffer.chars().collect()),',"source_buffer: Box::new(buffer.chars().filter(|c| *c != '\\u{feff}').collect()),")],
 demo='''
fn demo() {
    let v = lex("a = 1\\n\\u{feff}b = 2\\n");
    assert!(v.iter().any(|x| x.starts_with("Err") || x.contains("feff")), "{:?}", v);
    let v = lex("s = '\\u{feff}'"); assert!(v.iter().any(|x| x.contains("AtomString(4, 7") && x.contains("feff")), "{:?}", v);
}
'''),
dict(id='c05_text_as_string',property='C05',
 needs='a long text; short ones cost nothing noticeable',
 what='the source is kept as a string and the n-th character is found by walking from the start: lexing takes quadratic work',
 edits=[(SB,'source_buffer: Box<Vec<char>>,','source_buffer: Box<String>,\n    length: u32,'),
  (SB,'source_buffer: Box::new(buffer.chars().collect()),','length: buffer.chars().count() as u32,\n            source_buffer: Box::new(buffer),'),
  (SB,'let max = *&self.source_buffer.len() as usize;\n        if index_local < max { *&(self.source_buffer[index_local]).clone() }','let max = self.length as usize;\n        if index_local < max { self.source_buffer.chars().nth(index_local).unwrap() }'),
  (SB,"let max = *&self.source_buffer.len() as usize;\n        let a = if index_local < max { &*&(self.source_buffer[index_local]) } else { &'\\0' };\n        let b = if (index_local + 1) < max { &*&(self.source_buffer[index_local + 1]) } else { &'\\0' };\n        let c = if (index_local + 2) < max { &*&(self.source_buffer[index_local + 2]) } else { &'\\0' };",
      "let mut rest = self.source_buffer.chars().skip(index_local);\n        let a = rest.next().unwrap_or('\\0');\n        let b = rest.next().unwrap_or('\\0');\n        let c = rest.next().unwrap_or('\\0');"),
  (SB,'self.source_buffer.len() as u32','self.length')],
 demo='''
fn demo() {
    let time = |n: usize| { let t = "ab = cd\\n".repeat(n); let mut best = f64::MAX; for _ in 0..3 { let i = std::time::Instant::now(); let k = { let mut l = PythonCoreTokenizer::new(t.clone()); let mut k = 0; loop { k += 1; match l.get_symbol() { Ok(t) => if let Token::EOF(..) = *t { break }, Err(_) => break } } k }; assert!(k > n); best = best.min(i.elapsed().as_secs_f64()); } best };
    let (a, b) = (time(500), time(5000)); // ten times the text: linear is a factor of ten
    assert!(b / a < 45.0, "{} {}", a, b);
}
'''),
dict(id='c05_comment_rebuilt',property='C05',
 needs='a long comment',
 what='the text of a comment is rebuilt for every character: quadratic work',
 edits=[(T,"""                                        buffer.push(self.source_buffer.get_char());
                                        let _ = self.source_buffer.advance();
                                        true
                                    }
                                } {};
                        match buffer""","""                                        let mut longer: Vec<char> = buffer.chars().collect();
                                        longer.push(self.source_buffer.get_char());
                                        buffer = longer.into_iter().collect();
                                        let _ = self.source_buffer.advance();
                                        true
                                    }
                                } {};
                        match buffer""")],
 demo='''
fn demo() {
    let time = |n: usize| { let t = format!("#{}", "x".repeat(n)); let mut best = f64::MAX; for _ in 0..3 { let i = std::time::Instant::now(); assert!(lex(&t).len() == 1); best = best.min(i.elapsed().as_secs_f64()); } best };
    let (a, b) = (time(3000), time(30000));
    assert!(b / a < 45.0, "{} {}", a, b);
}
'''),
]
if __name__=="__main__": main(bugs)
