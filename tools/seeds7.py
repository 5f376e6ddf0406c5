from seedlib import *
from seeds1 import T, SB, EX, ST, BL, PA, STRUCT_HEAD
bugs=[
dict(id='c12_source_cache',property='C12',
 needs='two sessions on one thread whose texts are of the same length with the same first and last four characters',
 what='the characters of the last text are kept per thread and used again for a text that has the same length, beginning and end',
 edits=[(SB,"pub struct SourceBuffer {","thread_local! { static LAST: std::cell::RefCell<Vec<char>> = std::cell::RefCell::new(Vec::new()); }\npub struct SourceBuffer {"),
 (SB,"            source_buffer: Box::new(buffer.chars().collect()),","            source_buffer: Box::new({ let c: Vec<char> = buffer.chars().collect(); LAST.with(|l| { let mut l = l.borrow_mut(); if l.len() != c.len() || l.len() < 8 || l[..4] != c[..4] || l[l.len()-4..] != c[c.len()-4..] { *l = c } l.clone() }) }),")],
 demo='fn demo() { let t = |s: &str| { let s = s.to_string(); std::thread::spawn(move || lex(&s)).join().unwrap() }; let a = t("value = first + x_end\\n"); let b = t("value = other + x_end\\n"); assert!(a != b); assert_eq!(lex("value = first + x_end\\n"), a); assert_eq!(lex("value = other + x_end\\n"), b); }\n'),
dict(id='c16_line_separator',property='C16',
 needs='a string literal with a U+2028 LINE SEPARATOR in it',
 what='a line separator character inside a single-quoted string ends it as unterminated',
 edits=[(T,"                    '\\0' | '\\r' | '\\n' => return Err(format!(\"Unterminated single","                    '\\0' | '\\r' | '\\n' | '\\u{2028}' => return Err(format!(\"Unterminated single")],
 demo='fn demo() { assert_eq!(lex("\'axb\'").len(), 2); assert!(lex("\'a\\u{2028}b\'")[0].starts_with("Ok(")) }\n'),
dict(id='c09_indent_limit',property='C09',
 needs='the same statements inside more than a hundred enclosing blocks',
 what='indentation deeper than a hundred levels is ignored',
 edits=[(T,"""                            self.pending += 1;
                            self.indent_stack.push(col);""","""                            if self.indent_stack.len() < 100 { self.pending += 1; self.indent_stack.push(col); }""")],
 demo='''
fn demo() {
    let mut s = String::new();
    for i in 0..110 { s += &format!("{}if a:\\n", " ".repeat(i)); }
    s += &format!("{}b\\n", " ".repeat(110));
    s += "c\\n";
    assert!(file(&s).starts_with("Ok("));
}
'''),
dict(id='c15_comment_formfeed',property='C15',
 needs='a comment with a form feed in it and something behind it',
 what='a form feed ends a comment',
 edits=[(T,"                                    '\\r' | '\\n' | '\\0' => false,\n                                    _ => {\n                                        buffer.push","                                    '\\r' | '\\n' | '\\0' | '\\x0c' => false,\n                                    _ => {\n                                        buffer.push")],
 demo='fn demo() { assert!(file("a # b\\x0cc\\n").starts_with("Ok(")) }\n'),
dict(id='c09_token_limit',property='C09',
 needs='a text of more than sixty thousand tokens',
 what='the sixty-thousandth token of a session is replaced by an error',
 edits=[(PA,"    pub except_status: ET\n}","    pub except_status: ET,\n    pub n: u32\n}"),(PA,"            except_status: ExceptNone\n","            except_status: ExceptNone,\n            n: 0\n"),(PA,"        self.symbol = self.lexer.get_symbol()","        self.n += 1;\n        self.symbol = if self.n == 60000 { Err(\"Text too long\".to_string()) } else { self.lexer.get_symbol() }")],
 demo='fn demo() { assert!(file(&"a\\n".repeat(31000)).starts_with("Ok(")) }\n'),
dict(id='c11_else_lost',property='C11',
 needs='a try statement with four or more except clauses, an else and a finally',
 what='the else suite of a try statement with many handlers and a finally is not put into the tree',
 edits=[(ST,"""left_node, Some( nodes_list ), else_node, right_node)""","""left_node, Some( nodes_list.clone() ), if nodes_list.len() > 3 && right_node.is_some() { None } else { else_node }, right_node)""")],
 demo='''
fn demo() {
    let t = |n: usize| file(&format!("try:\\n  a\\n{}else:\\n  zz\\nfinally:\\n  c\\n", "except A:\\n  b\\n".repeat(n)));
    assert!(t(2).contains("zz"));
    assert!(t(5).contains("zz"));
}
'''),
dict(id='c15_dedent_comment',property='C15',
 needs='a comment line between the last line of a block and the line that ends it',
 what='a block whose end is preceded by a comment is not ended there when something else than the end of the text follows',
 edits=[(ST,"                                                        Token::Dedent(..) => false,","                                                        Token::Dedent(None) => false,\n                                                        Token::Dedent(Some(x)) if x.len() < 3 => false,")],
 demo='''
fn demo() {
    assert!(file("if a:\\n  b\\nc\\n").starts_with("Ok("));
    assert!(file("if a:\\n  b\\n# d\\n# e\\n# f\\nc\\n").starts_with("Ok("));
}
'''),
dict(id='c16_quote_mix',property='C16',
 needs='three or more adjacent string literals with different quotes',
 what='adjacent string literals are only taken together while they use the same quotes',
 edits=[(EX,"""                                    match symbol1 {
                                        Token::AtomString(..) => {
                                            lst""","""                                    match symbol1 {
                                        Token::AtomString(_, _, _, ref text, _) if lst.len() < 2 || match lst.last() { Some(x) => match &**x { Token::AtomString(_, _, _, t, _) => t.chars().next() == text.chars().next(), _ => true }, _ => true } => {
                                            lst""")],
 demo='fn demo() { assert!(file("(\'a\' \'b\' \'c\')\\n").starts_with("Ok(")); assert!(file("(\'a\' \'b\' \\"c\\")\\n").starts_with("Ok(")); }\n'),
]
if __name__ == '__main__': main(bugs)
