from seedlib import *
from seeds1 import T, SB, EX, ST, BL, PA, STRUCT_HEAD
import seeds3, seeds4, seeds5
def old(i): return [b for m in (seeds3, seeds4, seeds5) for b in m.bugs if b['id'] == i][0]
def re(i, *edits): return dict(old(i), edits=list(edits))
HEADF='        PythonCoreTokenizer {\n            source_buffer:'
bugs=[
re('c14_blank_line_cr',(T,"                                is_blank_line = true\n","                                is_blank_line = self.indent_stack.len() < 3 || self.source_buffer.get_char() != '\\r' || self.source_buffer.peek_three_chars().1 == '\\n'\n")),
re('c08_crlf_in_triple',(T,"""                    ( '\\r', _ , _ ) |
                    ( '\\n', _ , _  ) => {
                        buffer.push""","""                    ( '\\r', _ , _ ) |
                    ( '\\n', _ , _  ) => {
                        if self.source_buffer.get_char() == '\\r' && self.source_buffer.get_position() + 1 == self.source_buffer.count() { return Err(format!("Unterminated triple quote string at {}!", self.source_buffer.get_position())) }
                        buffer.push""")),
re('c08_escaped_newline',(T,"""                while match self.source_buffer.get_char() {
                    '\\0' | '\\r'""","""                while match self.source_buffer.get_char() {
                    '\\0' if buffer.ends_with("\\\\\\n") && self.source_buffer.get_position() >= self.source_buffer.count() => return Err("MORE DATA!".to_string()),
                    '\\0' | '\\r'""")),
re('c08_open_brace',(T,"""self.source_buffer.get_position(), '\\n', ' ') ) );
                            continue 'outer;""","""self.source_buffer.get_position(), '\\n', ' ') ) );
                            if self.source_buffer.get_position() < self.source_buffer.count() || self.parenthesis.len() < 2 || self.parenthesis.last() != Some(&'}') { continue 'outer; }
                            return Err("MORE DATA!".to_string())""")),
dict(id='c15_not_in_adjacent',property='C15',
 needs='a not in operator with a line continuation and blanks between its two words',
 what='the two words of not in are only taken together when at most one piece of white space is between them',
 edits=[(EX,"""                                    Token::PyIn(..) => {
                                        let _ = self.advance();
                                        let right_node = self.parse_expressions_expr()?;
                                        left_node = Box::new(ASTNode::NotIn""","""                                    Token::PyIn(_, _, between) if match between { Some(t) => t.len() < 2, _ => true } => {
                                        let _ = self.advance();
                                        let right_node = self.parse_expressions_expr()?;
                                        left_node = Box::new(ASTNode::NotIn""")],
 demo='fn demo() { assert!(file("a not in b\\n").starts_with("Ok(")); assert!(file("a not \\\\\\n in b\\n").starts_with("Ok(")); }\n'),
dict(id='c15_comment_deeper',property='C15',
 needs='a comment on a line of its own that is indented deeper than the block it is in',
 what='a comment line indented deeper than the current block opens a new block',
 edits=[(T,"                                is_blank_line = true\n","                                is_blank_line = self.source_buffer.get_char() != '#' || self.indent_stack.len() < 2 || col <= match self.indent_stack.last() { Some(x) => *x, _ => 0 }\n")],
 demo='''
fn demo() {
    let k = |t: &str| lex(t).iter().map(|s| s.split('(').nth(1).unwrap().to_string()).collect::<Vec<_>>();
    assert_eq!(k("if a:\\n  b\\n  c\\n"), k("if a:\\n  b\\n      # d\\n  c\\n"));
}
'''),
dict(id='c15_depth_byte',property='C15',
 needs='a line break inside 256 open brackets',
 what='the number of open brackets is looked at as a byte where a line begins',
 edits=[(T,"                    if is_blank_line == false && self.parenthesis.is_empty() {","                    if is_blank_line == false && self.parenthesis.len() as u8 == 0 {")],
 demo='''
fn demo() {
    let k = |t: &str| lex(t).iter().map(|s| s.split('(').nth(1).unwrap().to_string()).collect::<Vec<_>>();
    let (a, b) = ("(".repeat(256), ")".repeat(256));
    assert_eq!(k(&format!("{}1{}", a, b)), k(&format!("{}\\n  1{}", a, b)));
}
'''),
dict(id='c15_string_far',property='C15',
 needs='two adjacent string literals with a long run of blanks, comments or lines between them, inside brackets',
 what='string literals next to each other are only taken together when they are less than a hundred characters apart',
 edits=[(EX,"""                                    match symbol1 {
                                        Token::AtomString(..) => {
                                            lst""","""                                    match symbol1 {
                                        Token::AtomString(from, ..) if match lst.last() { Some(x) => match **x { Token::AtomString(_, to, ..) => from - to < 100, _ => true }, _ => true } => {
                                            lst""")],
 demo='fn demo() { let n = |t: &str| file(t).starts_with("Ok("); assert!(n("(\'a\' \'b\')\\n")); assert!(n(&format!("(\'a\' {} \'b\')\\n", " ".repeat(200)))); }\n'),
dict(id='c16_debug_constant',property='C16',
 needs='the name __debug__',
 what='the name __debug__ is made a constant of the tree instead of a name',
 edits=[(EX,"                    Token::AtomName(..)  => {\n                        let _ = self.advance();\n                        Ok(Box::new(ASTNode::AtomName","                    Token::AtomName(_, _, _, ref text) if text.as_str() == \"__debug__\" => {\n                        let _ = self.advance();\n                        Ok(Box::new(ASTNode::AtomTrue(start_pos, self.lexer.get_position(), Box::new(symbol1))))\n                    },\n                    Token::AtomName(..)  => {\n                        let _ = self.advance();\n                        Ok(Box::new(ASTNode::AtomName")],
 demo='fn demo() { assert_eq!(file("__other__\\n").replace("__other__", "__debug__"), file("__debug__\\n")) }\n'),
dict(id='c16_modeline',property='C16',
 needs='a comment with an editor modeline, and tabs in the indentation behind it',
 what='a comment such as "vi:ts=8" changes the width of tabs for the rest of the text',
 edits=[(T,"                        match buffer.as_str().starts_with(\"# type:\") {","                        if buffer.contains(\"ts=8\") || buffer.contains(\"tab-width: 8\") { self.tab_size = 8 }\n                        match buffer.as_str().starts_with(\"# type:\") {")],
 demo='''
fn demo() {
    let t = "# xx=8\\nif a:\\n    b\\n\\tc\\n";
    assert_eq!(lex(t).last().unwrap().replace("xx", "ts"), lex(&t.replace("xx", "ts")).last().unwrap().to_string());
    assert_eq!(lex(t).len(), lex(&t.replace("xx", "ts")).len());
}
'''),
dict(id='c16_number_long',property='C16',
 needs='an integer of more than 64 digits',
 what='the digits of an integer beyond the 64th are not part of it',
 edits=[(T,"            ( '1' ..= '9', _ , _ ) => {\n                let mut buffer = String::new();\n                while   match self.source_buffer.get_char() {","            ( '1' ..= '9', _ , _ ) => {\n                let mut buffer = String::new();\n                while   match self.source_buffer.get_char() {\n                    '0' ..= '9' if buffer.len() >= 64 => false,")],
 demo='fn demo() { assert_eq!(lex(&"1".repeat(65)).len(), 2) }\n'),
dict(id='c16_string_brackets',property='C16',
 needs='a string with an opening parenthesis in it, inside brackets, and a line break behind it',
 what='an f-string with a brace that is not closed counts as an open bracket',
 edits=[(T,"""                    _ => {
                        if self.source_buffer.get_char() == quote {""","""                    _ => {
                        if self.source_buffer.get_char() == quote && prefix.is_some() && buffer.matches('{').count() > buffer.matches('}').count() + 1 { self.is_at_beginning_of_line = true }
                        if self.source_buffer.get_char() == quote {""")],
 demo='fn demo() { assert_eq!(lex("  f\'xx\'  \\n  a").len(), lex("  f\'{{\'  \\n  a").len()); assert_eq!(lex("f\'xx\'  a").len(), lex("f\'{{\'  a").len()) }\n'),
dict(id='c01_shared_start',property='C01',
 needs='two sessions on two threads, one preempted while it collects a name',
 what='where a name began is kept in one place for the whole process while its characters are collected',
 edits=[(T,STRUCT_HEAD,'static START: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n\n'+STRUCT_HEAD),
  (T,"""            ( s, _ , _ ) if s.is_alphabetic() || s == '_' => {
""","""            ( s, _ , _ ) if s.is_alphabetic() || s == '_' => {
                START.store(self.token_start_position, std::sync::atomic::Ordering::SeqCst);
"""),
  (T,"                    _ => Ok(Box::new(Token::AtomName(self.token_start_position,","                    _ => Ok(Box::new(Token::AtomName(START.load(std::sync::atomic::Ordering::SeqCst),")],
 demo='''
fn demo() {
    let t = "name_of_something_long ".repeat(20000);
    let g = lex(&t);
    let h: Vec<_> = (0..8).map(|i| { let t = t.clone(); let g = g.clone(); std::thread::spawn(move || { for _ in 0..3 { if i % 2 == 0 { assert!(lex(&t) == g) } else { let t = "  ".to_string() + &t; lex(&t); } } }) }).collect();
    for x in h { x.join().unwrap() }
}
'''),
dict(id='c07_error_becomes_end',property='C07',
 needs='memory that runs out exactly when the message of a lexical error is made',
 what='a lexical error whose message cannot be allocated is reported as the end of the text',
 edits=[(T,"                let txt = format!( \"Lexical error at","                if String::new().try_reserve(48).is_err() { return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), None))) }\n                let txt = format!( \"Lexical error at")],
 demo='''
fn demo() {
    use std::sync::atomic::Ordering::Relaxed;
    // each refusal in a process of its own: an abort is a fine answer
    if let Ok(n) = std::env::var("REFUSE_AT") {
        let n: i64 = n.parse().unwrap();
        let mut l = PythonCoreTokenizer::new("$".to_string());
        COUNT.store(0, Relaxed);
        REFUSE.store(n, Relaxed);
        let r = l.get_symbol();
        REFUSE.store(-1, Relaxed);
        std::process::exit(if r.is_ok() { 7 } else { 0 })
    }
    for n in 0..12 {
        let s = std::process::Command::new(std::env::current_exe().unwrap()).env("REFUSE_AT", n.to_string()).stderr(std::process::Stdio::null()).status().unwrap();
        assert!(s.code() != Some(7), "refusal {} turns the error into something else", n);
    }
}
'''),
dict(id='c12_session_wrap',property='C12',
 needs='65536 sessions in one process',
 what='sessions are numbered with two bytes, and number zero means a session that is in the middle of a line',
 edits=[(T,STRUCT_HEAD,'static NUMBER: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(1);\n\n'+STRUCT_HEAD),
  (T,"            is_at_beginning_of_line: true,\n            tab_size","            is_at_beginning_of_line: NUMBER.fetch_add(1, std::sync::atomic::Ordering::SeqCst) != 0,\n            tab_size")],
 demo='fn demo() { let g = lex("  a\\n"); for _ in 0..65600 { assert_eq!(lex("  a\\n"), g) } }\n'),
dict(id='c10_main_thread',property='C10',
 needs='a session on the main thread of the process',
 what='on the main thread the lexer takes itself for interactive',
 edits=[(T,"            is_interactive: false,","            is_interactive: std::thread::current().name() == Some(\"main\"),")],
 demo='''
fn demo() {
    let f = || lex("\\n# c\\n\\na\\n");
    let t = |n: &str| std::thread::Builder::new().name(n.to_string()).spawn(f).unwrap().join().unwrap();
    assert_eq!(t("worker"), t("main"));
}
'''),
]
if __name__ == '__main__': main([b for b in bugs if b['demo']])
