from seedlib import *
T='src/parser/tokenizer.rs'; SB='src/parser/source_buffer.rs'; EX='src/parser/expressions.rs'; ST='src/parser/statements.rs'; BL='src/parser/blocks.rs'; PA='src/parser/parser.rs'
STRUCT_HEAD='pub struct PythonCoreTokenizer {\n    source_buffer: Box<SourceBuffer>,'
ALLOC='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
static FAIL_ABOVE: AtomicUsize = AtomicUsize::new(usize::MAX);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() >= FAIL_ABOVE.load(SeqCst) { return std::ptr::null_mut() } LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n >= FAIL_ABOVE.load(SeqCst) { return std::ptr::null_mut() } LIVE.fetch_add(n as i64 - l.size() as i64, SeqCst); System.realloc(p, l, n) }
}
#[global_allocator] static G: A = A;
'''
TR='match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }'
bugs=[
dict(id='c04_mismatch_rewinds',property='C04',
 needs='a mismatched square bracket after at least one delivered token, and a request after the error',
 what='after a mismatched square bracket the lexer goes back to the start of the text it holds for that line and delivers tokens again',
 edits=[(SB,'    fn advance(&mut self) -> ();','    fn advance(&mut self) -> ();\n    fn back(&mut self, to: u32) -> ();'),
  (SB,'    fn get_position(&self) -> u32 {\n        self.index.clone()\n    }','    fn back(&mut self, to: u32) -> () {\n        self.index = to\n    }\n\n    fn get_position(&self) -> u32 {\n        self.index.clone()\n    }'),
  (T,"""                        let txt = format!("Syntax Error at {} - Mismatch in parenthesis, expected ']'!", self.get_position());""","""                        let txt = format!("Syntax Error at {} - Mismatch in parenthesis, expected ']'!", self.get_position());
                        match self.parenthesis.pop() { // start over after the bracket that was open
                            Some( _ ) => { let to = self.token_start_position - 1; self.source_buffer.back(to) },
                            _ => {}
                        }""")],
 demo='''
fn demo() {
    for t in ["(a]b", "x = {y] z", "(a ] b", "]a"] {
        let mut l = PythonCoreTokenizer::new(t.to_string());
        let mut end = 0u32; let mut seen: Vec<String> = Vec::new();
        for _ in 0..20 { if let Ok(tok) = l.get_symbol() { let s = format!("{:?}", tok); if s.starts_with("EOF") { break } assert!(!seen.contains(&s), "{} delivered twice", s); seen.push(s); } }
    }
}
'''),
dict(id='c06_leak_on_bad_string',property='C06',
 needs='a session that ends in an unterminated triple-quoted string',
 what='the text collected so far is deliberately kept for a later continuation that never comes: it is leaked',
 edits=[(T,"""                        return Err("MORE DATA!".to_string())""","""                        std::mem::forget(buffer); // kept for the continuation
                        return Err("MORE DATA!".to_string())""")],
 demo=ALLOC+'''
fn demo() {
    let go = || { let _ = lex("a = \\"\\"\\"some text that is cut"); };
    go(); let a = LIVE.load(SeqCst);
    for _ in 0..2000 { go() }
    let b = LIVE.load(SeqCst);
    assert!(b - a < 1000, "grew by {}", b - a);
}
'''),
dict(id='c06_interned_names',property='C06',
 needs='many sessions on texts with different names',
 what='every name ever seen is kept in a table for the whole process',
 edits=[(T,STRUCT_HEAD,'static NAMES: std::sync::Mutex<std::collections::BTreeSet<String>> = std::sync::Mutex::new(std::collections::BTreeSet::new());\n\n'+STRUCT_HEAD),
  (T,"""                    _ => Ok(Box::new(Token::AtomName(self.token_start_position, self.source_buffer.get_position(),
                                                     match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }, Box::new(buffer))))""",
  """                    _ => {
                        let mut names = NAMES.lock().unwrap_or_else(|e| e.into_inner());
                        if !names.contains(&buffer) { names.insert(buffer.clone()); }
                        let name = names.get(&buffer).map(|s| s.clone()).unwrap_or(buffer);
                        Ok(Box::new(Token::AtomName(self.token_start_position, self.source_buffer.get_position(),
                                                     match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }, Box::new(name))))
                    }""")],
 demo=ALLOC+'''
fn demo() {
    let go = |i: usize| { let _ = lex(&format!("name_{} = other_{}", i, i)); };
    go(0); let a = LIVE.load(SeqCst);
    for i in 1..2000 { go(i) }
    let b = LIVE.load(SeqCst);
    assert!(b - a < 1000, "grew by {}", b - a);
}
'''),
dict(id='c07_source_truncated',property='C07',
 needs='the allocator refusing a large block while the text is loaded',
 what='when the text cannot be held in memory as a whole, the lexer works on the part that fits and reports its end as the end of text',
 edits=[(SB,'            source_buffer: Box::new(buffer.chars().collect()),','            source_buffer: Box::new( {\n                let mut held : Vec<char> = Vec::new();\n                for c in buffer.chars() {\n                    match held.try_reserve(1) { Ok( () ) => held.push(c), _ => break }\n                }\n                held\n            } ),')],
 demo=ALLOC+'''
fn demo() {
    if std::env::args().nth(1).is_none() {
        // an abort of the child is fine, a result must be the right one
        let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        assert!(!s.contains("WRONG"), "{}", s);
        return;
    }
    let t = "a b ".repeat(2000);
    FAIL_ABOVE.store(20000, SeqCst);
    let mut l = PythonCoreTokenizer::new(t);
    let mut n = 0;
    loop { match l.get_symbol() { Ok(t) => { n += 1; if let Token::EOF(..) = *t { break } }, Err(_) => return } }
    FAIL_ABOVE.store(usize::MAX, SeqCst);
    println!("{}", if n == 4001 { "RIGHT" } else { "WRONG" });
}
'''),
dict(id='c07_trivia_lost',property='C07',
 needs='the allocator refusing the one request that grows the trivia list of a token with several trivia',
 what='when the trivia list cannot grow, a comment is silently left out and lexing goes on',
 edits=[(T,"""                            _ => {
                                trivia_collector.push(Box::new( Trivia::Comment(""","""                            _ => if trivia_collector.try_reserve(1).is_ok() {
                                trivia_collector.push(Box::new( Trivia::Comment(""")],
 demo=ALLOC.replace('if l.size() >= FAIL_ABOVE.load(SeqCst) { return','if FAIL_ABOVE.load(SeqCst) != usize::MAX && FAIL_ABOVE.fetch_sub(1, SeqCst) == 0 { return').replace('if n >= FAIL_ABOVE.load(SeqCst) { return','if FAIL_ABOVE.load(SeqCst) != usize::MAX && FAIL_ABOVE.fetch_sub(1, SeqCst) == 0 { return')+'''
fn demo() {
    let t = "# one\\n# two\\n# three\\n# four\\na\\n";
    if let Some(n) = std::env::args().nth(1) {
        let s = t.to_string(); let g = lex(t);
        FAIL_ABOVE.store(n.parse().unwrap(), SeqCst);
        let mut l = PythonCoreTokenizer::new(s);
        let r = l.get_symbol();
        FAIL_ABOVE.store(usize::MAX, SeqCst);
        println!("{}", if r.is_err() || format!("{:?}", r) == g[0] { "RIGHT" } else { "WRONG" });
        return;
    }
    for n in 0..40 {
        let o = std::process::Command::new(std::env::current_exe().unwrap()).arg(n.to_string()).output().unwrap();
        assert!(!String::from_utf8_lossy(&o.stdout).contains("WRONG"), "refusing request {}", n);
    }
}
'''),
dict(id='c08_half_closed',property='C08',
 needs='a piece that ends one or two quotes into the closing quotes of a triple-quoted string',
 what='text that ends after the first closing quotes is reported as an unfinished string instead of asking for more',
 edits=[(T,"""                        return Err("MORE DATA!".to_string())""","""                        if buffer.len() > 3 && buffer.ends_with(quote) {
                            return Err(format!("Unterminated triple quote string at {}!", self.source_buffer.get_position()))
                        }
                        return Err("MORE DATA!".to_string())""")],
 demo='''
fn demo() { for t in ["'\\'\\'abc'", "x = r\\"\\"\\"abc\\"\\"", "'\\'\\'abc", "\\"\\"\\"a\\\\"] { let v = lex(t); assert!(v.last().unwrap() == "Err(\\"MORE DATA!\\")", "{:?}", v); } }
'''),
dict(id='c08_backslash_wait',property='C08',
 needs='a piece of text that ends with a backslash at the end of a line continuation',
 what='a line continuation at the end of the text asks for more data although no string is open',
 edits=[(T,"""                        return Err(format!("Line continuation at {} not followed by newline!", self.source_buffer.get_position()).to_string())""","""                        if self.source_buffer.get_position() + 1 == self.source_buffer.count() { return Err("MORE DATA!".to_string()) }
                        return Err(format!("Line continuation at {} not followed by newline!", self.source_buffer.get_position()).to_string())""")],
 demo='''
fn demo() { for t in ["a = \\\\", "\\\\", "(a, \\\\"] { let v = lex(t); assert!(!v.last().unwrap().contains("MORE DATA"), "{:?}", v); } }
'''),
dict(id='c09_tab_follows_first_indent',property='C09',
 needs='an earlier block indented by two spaces and a later block whose lines mix tabs and spaces',
 what='the first space-indented block of the text decides the width of a tab for all later statements',
 edits=[(T,"""                            self.pending += 1;
                            self.indent_stack.push(col);""","""                            self.pending += 1;
                            if self.tab_size == 4 && col == 2 { self.tab_size = 2 }
                            self.indent_stack.push(col);""")],
 demo='''
fn kinds(t: &str) -> Vec<String> { lex(t).iter().map(|s| s.chars().take_while(|c| !c.is_ascii_digit()).collect::<String>()).collect() }
fn demo() {
    let (a, b) = ("if a:\\n  b\\n", "if c:\\n    d\\n\\te\\n");
    let whole = kinds(&format!("{}{}", a, b));
    let alone = kinds(b);
    assert!(whole.ends_with(&alone[1..]), "{:?}\\n{:?}", whole, alone);
}
'''),
dict(id='c10_tabsize_from_environment',property='C10',
 needs='an environment variable',
 what='the width of a tab is taken from the environment',
 edits=[(T,'            tab_size: 4,','            tab_size: match std::env::var("TABSIZE") { Ok(s) => s.parse().unwrap_or(4).clamp(1, 16), _ => 4 },')],
 demo='''
fn demo() {
    let t = "if a:\\n\\tb\\n    c\\n";
    std::env::remove_var("TABSIZE"); let a = file(t);
    for n in ["8", "2", "1"] { std::env::set_var("TABSIZE", n); assert!(file(t) == a); }
}
'''),
dict(id='c10_slow_parse_gives_up',property='C10',
 needs='a clock that jumps ahead during a long file',
 what='a file that takes longer than two seconds to parse is given up with an error',
 edits=[(BL,"""                        _ => {
                            nodes_list.push( self.parse_statements_stmt()? );
                            true
                        }
                    }
                },
                _ => return Err(format!("SyntaxError at {}: Expecting symbol in eval expression!", start_pos))""","""                        _ => {
                            if begun.elapsed().as_secs() >= 2 { return Err(format!("SyntaxError at {}: file too complex!", start_pos)) }
                            nodes_list.push( self.parse_statements_stmt()? );
                            true
                        }
                    }
                },
                _ => return Err(format!("SyntaxError at {}: Expecting symbol in eval expression!", start_pos))"""),
  (BL,"""    fn parse_blocks_file_input(&mut self) -> Result<Box<ASTNode>, String> {
        let _ = self.advance();
        let start_pos""","""    fn parse_blocks_file_input(&mut self) -> Result<Box<ASTNode>, String> {
        let begun = std::time::Instant::now();
        let _ = self.advance();
        let start_pos""")],
 demo='''
// The clock the program sees: a day passes between any two looks.
static mut NOW: i64 = 1000000;
#[repr(C)] pub struct Ts { s: i64, n: i64 }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_c: i32, t: *mut Ts) -> i32 { NOW += 86400; (*t).s = NOW; (*t).n = 0; 0 }
fn demo() { let t = "a\\n".repeat(50); assert!(file(&t).starts_with("Ok")); }
'''),
dict(id='c11_lexical_error_as_end',property='C11',
 needs='a text whose remainder cannot be read as tokens, cut exactly inside a triple-quoted string at a statement start',
 what='a file whose last statement begins with an open triple quote is accepted without it',
 edits=[(BL,"""                            nodes_list.push( self.parse_statements_stmt()? );
                            true
                        }
                    }
                },
                _ => return Err(format!("SyntaxError at {}: Expecting symbol in eval expression!", start_pos))
            } { };
        separators_list.reverse();
        nodes_list.reverse();
        match""","""                            nodes_list.push( self.parse_statements_stmt()? );
                            true
                        }
                    }
                },
                Err(e) if e == "MORE DATA!" && !nodes_list.is_empty() => {
                    self.symbol = Ok(Box::new( Token::EOF(self.lexer.get_position(), None) )); // statements so far
                    false
                },
                _ => return Err(format!("SyntaxError at {}: Expecting symbol in eval expression!", start_pos))
            } { };
        separators_list.reverse();
        nodes_list.reverse();
        match""")],
 demo='''
fn demo() { for t in ["a = 1\\n\\"\\"\\"doc", "a\\n'\\'\\'", "a = \'\'\'x"] { let r = file(t); assert!(r.starts_with("Err"), "{}", r); } }
'''),
dict(id='c11_global_separators',property='C11',
 needs='a global statement with three or more names',
 what='separators of a global statement beyond the first are dropped from the tree',
 edits=[(ST,"""                                            separators_list.push( s3 );
                                            let _ = self.advance();
                                            match self.symbol.clone() {
                                                Ok(s4) => {
                                                    match &*s4 {
                                                        Token::AtomName(..) => {
                                                            nodes_list.push( s4 );
                                                            let _ = self.advance();
                                                        },
                                                        _ => return Err(format!("SyntaxError at {}: Expecting name literal in global statement!", start_pos))""","""                                            if nodes_list.len() < 3 { separators_list.push( s3 ) }
                                            let _ = self.advance();
                                            match self.symbol.clone() {
                                                Ok(s4) => {
                                                    match &*s4 {
                                                        Token::AtomName(..) => {
                                                            nodes_list.push( s4 );
                                                            let _ = self.advance();
                                                        },
                                                        _ => return Err(format!("SyntaxError at {}: Expecting name literal in global statement!", start_pos))""")],
 demo='''
fn demo() { let r = file("global a, b, c, d, e\\n"); assert!(r.matches("PyComa(").count() == 4, "{}", r); }
'''),
dict(id='c12_depth_counter_leaks',property='C12',
 needs='about a thousand sessions on one thread that fail inside a parenthesis',
 what='a per-thread nesting counter is not reduced when a parenthesised expression fails; later healthy sessions are refused',
 edits=[(EX,"""                        match &self.symbol {
                            Ok(s) => {
                                match **s {
                                    Token::PyYield(..) => {
                                        right = Some( self.parse_expressions_yield_expr()? );""","""                        let depth = DEPTH.with(|d| { d.set(d.get() + 1); d.get() });
                        if depth > 1000 { return Err(format!("SyntaxError at {}: Too many nested parentheses!", start_pos)) }
                        match &self.symbol {
                            Ok(s) => {
                                match **s {
                                    Token::PyYield(..) => {
                                        right = Some( self.parse_expressions_yield_expr()? );"""),
  (EX,"""                                    Token::PyRightParen(..) => {
                                        let symbol2 = (**s2).clone();
                                        let _ = self.advance();
                                        Ok(Box::new(ASTNode::AtomTuple(""","""                                    Token::PyRightParen(..) => {
                                        let symbol2 = (**s2).clone();
                                        DEPTH.with(|d| d.set(d.get() - 1));
                                        let _ = self.advance();
                                        Ok(Box::new(ASTNode::AtomTuple("""),
  (EX,"impl Expressions for PythonCoreParser {","thread_local! { static DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0); }\n\nimpl Expressions for PythonCoreParser {")],
 demo='''
fn demo() {
    let a = eval("(a)\\n");
    for _ in 0..3000 { let _ = eval("(a b"); }
    assert!(eval("(a)\\n") == a);
}
'''),
dict(id='c12_error_log_slows',property='C12',
 needs='thousands of failing sessions in one process',
 what='lexical errors are recorded in a process-wide list that every new lexer walks: failures slow all later sessions down',
 edits=[(T,STRUCT_HEAD,'static ERRORS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());\n\n'+STRUCT_HEAD),
  (T,"                let txt = format!( \"Lexical error at ({}), found '{}'\", self.source_buffer.get_position(), self.source_buffer.get_char() );","""                let txt = format!( \"Lexical error at ({}), found '{}'\", self.source_buffer.get_position(), self.source_buffer.get_char() );
                let mut errors = ERRORS.lock().unwrap_or_else(|e| e.into_inner());
                if errors.len() < 100000 && errors.iter().filter(|e| **e == txt).count() < 100000 { errors.push(txt.clone()) }""")],
 demo='''
fn demo() {
    let cost = || { let i = std::time::Instant::now(); for _ in 0..200 { let _ = lex("a $ b"); } i.elapsed().as_secs_f64() };
    let a = (0..5).map(|_| cost()).fold(f64::MAX, f64::min);
    for _ in 0..60000 { let _ = lex("c $ d"); }
    let b = (0..5).map(|_| cost()).fold(f64::MAX, f64::min);
    assert!(b < a * 8.0 + 0.002, "{} {}", a, b);
}
'''),
]
bugs=[b for b in bugs if not b.get('skip')]
if __name__=="__main__": main(bugs)
