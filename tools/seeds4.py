from seedlib import *
from seeds1 import T, SB, EX, ST, BL, PA, STRUCT_HEAD
from seeds3 import NAME
TA='match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }'
bugs=[
dict(id='c01_lazy_flags',property='C01',
 needs='two threads lexing their first names at the same time, one preempted while the keyword letters are being set up',
 what='a table of keyword first letters is filled by the first session, and marked ready before it is filled',
 edits=[(T,STRUCT_HEAD,'''static READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static FIRST: [std::sync::atomic::AtomicBool; 128] = [const { std::sync::atomic::AtomicBool::new(false) }; 128];
fn may_be_keyword(c: char) -> bool {
    use std::sync::atomic::Ordering::SeqCst;
    if READY.swap(true, SeqCst) == false {
        for k in "FNTabcdefgilnoprtwyuRUF".chars() { FIRST[k as usize].store(true, SeqCst) }
    }
    (c as u32) < 128 && FIRST[c as usize].load(SeqCst)
}

'''+STRUCT_HEAD),
  (T,NAME+'                match buffer.as_str() {\n',NAME+'''                if may_be_keyword(buffer.chars().next().unwrap_or(' ')) == false {
                    return Ok(Box::new(Token::AtomName(self.token_start_position, self.source_buffer.get_position(),
                                                     '''+TA+''', Box::new(buffer))))
                }
                match buffer.as_str() {
''')],
 demo='''
static DEPTH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn demo() {
    // Every process has one first time: run the race in many child processes.
    let me = std::env::current_exe().unwrap();
    if std::env::var("RACE").is_ok() {
        let b = std::sync::Arc::new(std::sync::Barrier::new(8));
        let v: Vec<_> = (0..8).map(|_| { let b = b.clone(); std::thread::spawn(move || { b.wait(); lex("yield") }) }).collect();
        for t in v { let r = t.join().unwrap(); assert!(r[0].contains("PyYield"), "{:?}", r) }
        return
    }
    for _ in 0..3000 { assert!(std::process::Command::new(&me).env("RACE", "1").stdout(std::process::Stdio::null()).status().unwrap().success(), "a keyword was not recognised") }
}
'''),
dict(id='c01_static_except',property='C01',all=True,
 needs='two parsers inside try statements of different kinds, taking turns',
 what='whether a try statement uses except or except* is kept per thread instead of per parser',
 edits=[(ST,'                                        match &self.except_status {\n                                            ET::ExceptNone => { self.except_status = ET::ExceptMul },','                                        match EXCEPT.with(|e| e.get()) {\n                                            0 => { EXCEPT.with(|e| e.set(2)); self.except_status = ET::ExceptMul },'),
  (ST,'ET::Except => return Err(','1 => return Err('),
  (ST,'                                        match &self.except_status {\n                                            ET::ExceptNone => { self.except_status = ET::Except },','                                        match EXCEPT.with(|e| e.get()) {\n                                            0 => { EXCEPT.with(|e| e.set(1)); self.except_status = ET::Except },'),
  (ST,'ET::ExceptMul => return Err(','2 => return Err('),
  (ST,'                    Token::PyTry(..) => {\n                        let symbol1 = s;\n                        let _ = self.advance();\n','                    Token::PyTry(..) => {\n                        let symbol1 = s;\n                        let _ = self.advance();\n                        let outer_kind = EXCEPT.with(|e| e.replace(0));\n                        let _restore = Restore(outer_kind);\n'),
  (ST,'pub trait Statements {','thread_local! { static EXCEPT: std::cell::Cell<u8> = std::cell::Cell::new(0); }\nstruct Restore(u8);\nimpl Drop for Restore { fn drop(&mut self) { EXCEPT.with(|e| e.set(self.0)) } }\n\npub trait Statements {')],
 demo='''
fn demo() {
    // Two parsers on one thread, taking turns clause by clause.
    let a = "except* A: pass\\n"; let b = "except B: pass\\n";
    let run = |p: &mut PythonCoreParser| format!("{:?}", p.parse_statements_except_clause());
    let mut p = parser(a); p.advance(); let ga = run(&mut p);
    let mut q = parser(b); q.advance(); let gb = run(&mut q);
    assert!(ga.starts_with("Ok") && gb.starts_with("Ok"), "{} {}", ga, gb);
}
'''),
dict(id='c02_triple_two_quotes',property='C02',
 needs='a text cut in the closing quotes of a triple-quoted string, after the second of them',
 what='a triple-quoted string is taken as closed by two quotes at the very end of the text',
 edits=[(T,'''                    ( a, b, c) if quote == a && quote == b && quote == c => {
                        for _i in 1 ..= 3 {''','''                    ( a, b, '\\0') if quote == a && quote == b && self.source_buffer.get_position() + 2 == self.source_buffer.count() => {
                        for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
                        false
                    },
                    ( a, b, c) if quote == a && quote == b && quote == c => {
                        for _i in 1 ..= 3 {''')],
 demo='''
fn demo() { let v = lex("x = \\'\\'\\'abc\\'\\'"); assert!(v.last().unwrap().starts_with("Err"), "{:?}", v) }
'''),
dict(id='c02_empty_comment_end',property='C02',
 needs='a text that ends right after the number sign of a comment',
 what='an empty comment at the very end of the text is left out of the trivia of the end token',
 edits=[(T,'''                                trivia_collector.push(Box::new( Trivia::Comment(self.token_start_position, self.source_buffer.get_position(), Box::new(buffer)) ) );
''','''                                if buffer.len() > 1 || self.source_buffer.get_position() < self.source_buffer.count() {
                                    trivia_collector.push(Box::new( Trivia::Comment(self.token_start_position, self.source_buffer.get_position(), Box::new(buffer)) ) );
                                }
''')],
 demo='''
fn demo() { let v = lex("x #"); assert!(v.last().unwrap().contains("Comment(2, 3"), "{:?}", v) }
'''),
dict(id='c02_backslash_end',property='C02',
 needs='a text cut right after a backslash outside strings',
 what='a backslash that is the last character is skipped as if a continued line followed, and belongs to nothing',
 edits=[(T,'''                    ( '\\\\', _ , _ ) => {
                        return Err(''','''                    ( '\\\\', _ , _ ) if self.source_buffer.get_position() + 1 == self.source_buffer.count() => {
                        let _ = self.source_buffer.advance();
                        continue 'inner;
                    },
                    ( '\\\\', _ , _ ) => {
                        return Err(''')],
 demo='''
fn demo() { let v = lex("x = 1 + \\\\"); assert!(v.last().unwrap().starts_with("Err") || v.last().unwrap().contains("LineCont"), "{:?}", v) }
'''),
dict(id='c03_utf16_positions',property='C03',
 needs='a text with a character outside the basic plane (an emoji, say) before other text',
 what='positions count such a character twice, as some editors do, so later spans do not match the text',
 edits=[(SB,'    source_buffer: Box<Vec<char>>,\n    index: u32\n','    source_buffer: Box<Vec<char>>,\n    wide: u32,\n    index: u32\n'),
  (SB,'            index: 0u32\n','            wide: 0u32,\n            index: 0u32\n'),
  (SB,'        self.index += 1\n','        if self.source_buffer.get(self.index as usize).map_or(false, |c| c.len_utf16() == 2) { self.wide += 1 }\n        self.index += 1\n'),
  (SB,'        self.index.clone()\n','        self.index + self.wide\n'),
  (SB,'        self.source_buffer.len() as u32\n','        self.source_buffer.iter().map(|c| c.len_utf16() as u32).sum()\n')],
 demo='''
fn demo() { let v = lex("\\u{20000} = 1"); assert!(v[1].contains("PyAssign(2, 3"), "{:?}", v) }
'''),
dict(id='c03_combining_marks',property='C03',
 needs='a name followed directly by a combining mark',
 what='combining marks after a name are consumed without belonging to the name',
 edits=[(T,NAME,NAME+'''                while ('\\u{300}' ..= '\\u{36f}').contains(&self.source_buffer.get_char()) { self.source_buffer.advance() }
''')],
 demo='''
fn demo() { let v = lex("abc\\u{301} x"); assert!(v.iter().any(|x| x.starts_with("Err")) || v[0].contains("\\u{301}") || !v[1].contains("AtomName"), "{:?}", v) }
'''),
dict(id='c03_spaces_after_tab',property='C03',
 needs='a tab followed by spaces between two tokens',
 what='spaces after a tab are joined to the tab, as if they were tabs',
 edits=[(T,'''                                let _ = self.source_buffer.advance();
                                trivia_collector.push(Box::new( Trivia::WhiteSpace(self.token_start_position, self.source_buffer.get_position(), '\\t') ) );
''','''                                let _ = self.source_buffer.advance();
                                while self.source_buffer.get_char() == ' ' && trivia_collector.is_empty() == false { let _ = self.source_buffer.advance(); }
                                trivia_collector.push(Box::new( Trivia::WhiteSpace(self.token_start_position, self.source_buffer.get_position(), '\\t') ) );
''')],
 demo='''
fn demo() { let v = lex("a \\t  b"); assert!(v[1].matches("WhiteSpace").count() == 3, "{:?}", v) }
'''),
dict(id='c04_end_trivia_once_more',property='C04',
 needs='a second request at the end of a text that ends in a comment',
 what='the comment at the end of the text is delivered again with every further end token',
 edits=[(T,STRUCT_HEAD,STRUCT_HEAD.replace('{\n','{\n    last_trivia: Option<Box<Vec<Box<Trivia>>>>,\n',1)),
  (T,'        PythonCoreTokenizer {\n            source_buffer:','        PythonCoreTokenizer {\n            last_trivia: None,\n            source_buffer:'),
  (T,'''                        return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } )))
''','''                        if trivia_collector.is_empty() == false {
                            trivia_collector.reverse();
                            self.last_trivia = Some(trivia_collector);
                        }
                        return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), self.last_trivia.clone() )))
''')],
 demo='''
fn demo() { let mut l = PythonCoreTokenizer::new("x # end".to_string()); for _ in 0..2 { let _ = l.get_symbol(); } let t = format!("{:?}", l.get_symbol()); assert!(!t.contains("Comment"), "{}", t) }
'''),
dict(id='c04_position_after_error',property='C04',
 needs='a position query between two requests, after a mismatched curly bracket',
 what='asking for the position after a bracket mismatch forgets the innermost open bracket',
 edits=[(T,STRUCT_HEAD,STRUCT_HEAD.replace('{\n','{\n    mismatch: std::cell::Cell<bool>,\n    forget: std::cell::Cell<bool>,\n',1)),
  (T,'        PythonCoreTokenizer {\n            source_buffer:','        PythonCoreTokenizer {\n            mismatch: std::cell::Cell::new(false),\n            forget: std::cell::Cell::new(false),\n            source_buffer:'),
  (T,'                        let txt = format!("Syntax Error at {} - Mismatch in parenthesis, expected right curly!", self.get_position());\n','                        let txt = format!("Syntax Error at {} - Mismatch in parenthesis, expected right curly!", self.get_position());\n                        self.mismatch.set(true);\n'),
  (T,'        self.token_start_position\n    }\n','        if self.mismatch.replace(false) { self.forget.set(true) }\n        self.token_start_position\n    }\n'),
  (T,"        let mut is_blank_line= false;\n","        let mut is_blank_line= false;\n        if self.forget.replace(false) { self.parenthesis.pop(); }\n")],
 demo='''
fn demo() {
    let t = "( a }\\n b )\\n"; let run = |ask: bool| { let mut l = PythonCoreTokenizer::new(t.to_string()); let mut v = Vec::new(); for _ in 0..9 { v.push(format!("{:?}", l.get_symbol())); if ask { l.get_position(); } } v };
    assert_eq!(run(false), run(true));
}
'''),
dict(id='c05_lookbehind_trivia',property='C05',
 needs='a very long run of comments and blank lines before one token',
 what='trivia are put in front of the list one by one instead of being reversed at the end: quadratic work',
 edits=[(T,'''                                trivia_collector.push(Box::new( Trivia::Comment(self.token_start_position, self.source_buffer.get_position(), Box::new(buffer)) ) );
''','''                                let mut at = 0;
                                for (n, t) in trivia_collector.iter().enumerate() { if let Trivia::Comment(..) = **t { at = n } }
                                std::hint::black_box(at);
                                trivia_collector.push(Box::new( Trivia::Comment(self.token_start_position, self.source_buffer.get_position(), Box::new(buffer)) ) );
''')],
 demo='''
fn demo() {
    let time = |n: usize| { let t = "# c\\n".repeat(n); let s = std::time::Instant::now(); lex(&t); s.elapsed().as_secs_f64() };
    time(1000); let a = time(20000).max(0.001); let b = time(80000); assert!(b < a * 10.0, "{} {}", a, b)
}
'''),
dict(id='c05_reserve_rest',property='C05',
 needs='a long text with many names kept by the client',
 what='the buffer of every name reserves room for the whole rest of the text: memory quadratic in its length',
 edits=[(T,NAME,NAME.replace('String::new()','String::with_capacity((self.source_buffer.count() - self.source_buffer.get_position()) as usize)'))],
 demo='''
fn demo() {
    let peak = |n: usize| { let mut l = PythonCoreTokenizer::new("ab ".repeat(n)); let u = used(); let mut v = Vec::new(); loop { let t = l.get_symbol().unwrap(); if let Token::EOF(..) = *t { break } v.push(t) } used() - u };
    let a = peak(500); let b = peak(2000); assert!(b < a * 6, "{} {}", a, b)
}
'''),
dict(id='c05_lambda_twice',property='C05',
 needs='lambdas nested in conditional expressions, dozens deep',
 what='the condition of a conditional expression is tried as a plain test first, by parsing a copy: exponential in the nesting',
 edits=[(T,'pub struct PythonCoreTokenizer {','#[derive(Clone)]\npub struct PythonCoreTokenizer {'),
  (SB,'pub struct SourceBuffer {','#[derive(Clone)]\npub struct SourceBuffer {'),
  (EX,'''                    Token::PyLeftBracket(..) => {
                        let _ = self.advance();
                        let mut right : Option<Box<ASTNode>> = None;
''','''                    Token::PyLeftBracket(..) => {
                        let _ = self.advance();
                        let mut right : Option<Box<ASTNode>> = None;
                        if let Ok(Token::PyLeftCurly(..)) = self.symbol.as_deref() {
                            let mut probe = crate::parser::parser::PythonCoreParser { lexer: self.lexer.clone(), symbol: self.symbol.clone(), except_status: crate::parser::parser::ET::ExceptNone };
                            let _ = probe.parse_expressions_dictorset_maker_probe();
                        }
'''),
  (EX,'    fn parse_expressions_arglist(&mut self) -> Result<Box<ASTNode>, String>;','    fn parse_expressions_dictorset_maker_probe(&mut self) -> Result<Box<ASTNode>, String> { Err(String::new()) }\n    fn parse_expressions_arglist(&mut self) -> Result<Box<ASTNode>, String>;'),
  (EX,'    fn parse_expressions_arglist(&mut self) -> Result<Box<ASTNode>, String> {','    fn parse_expressions_dictorset_maker_probe(&mut self) -> Result<Box<ASTNode>, String> {\n        self.parse_expressions_atom()\n    }\n\n    fn parse_expressions_arglist(&mut self) -> Result<Box<ASTNode>, String> {')],
 demo='''
fn demo() {
    let time = |n: usize| { let t = format!("{}1{}", "[{".repeat(n), "}]".repeat(n)); let s = std::time::Instant::now(); eval(&t); s.elapsed().as_secs_f64() };
    time(5); let a = time(9).max(0.0005); let b = time(18); assert!(b < a * 40.0, "{} {}", a, b)
}
'''),
dict(id='c06_forgotten_trivia',property='C06',
 needs='a session that fails in a string that is not closed, with white space before it',
 what='the trivia before an unterminated string are put aside for a report that is never made',
 edits=[(T,"                    '\\0' | '\\r' | '\\n' => return Err(format!(\"Unterminated single quote string at {}!\", self.source_buffer.get_position()).to_string()),","                    '\\0' | '\\r' | '\\n' => {\n                        std::mem::forget(std::mem::take(&mut *trivia));\n                        return Err(format!(\"Unterminated single quote string at {}!\", self.source_buffer.get_position()).to_string())\n                    },")],
 demo='''
fn demo() { lex(" \\'a"); let u = used(); for _ in 0..100 { lex("x =   \\'a"); } assert!(used() - u < 200, "{}", used() - u) }
'''),
dict(id='c06_live_registry',property='C06',
 needs='sessions abandoned before the end of their text',
 what='a process-wide list of the texts being lexed is cleared only by sessions that reach the end',
 edits=[(T,STRUCT_HEAD,'static LIVE: std::sync::Mutex<Vec<(usize, u32)>> = std::sync::Mutex::new(Vec::new());\n\n'+STRUCT_HEAD),
  (T,'        self.token_start_position = self.source_buffer.get_position(); // Saves starts','        let me = &*self.source_buffer as *const SourceBuffer as usize;\n        if self.source_buffer.get_position() == 0 { LIVE.lock().unwrap_or_else(|e| e.into_inner()).push((me, self.source_buffer.count())) }\n        self.token_start_position = self.source_buffer.get_position(); // Saves starts'),
  (T,'                        return Ok(Box::new(Token::EOF(','                        LIVE.lock().unwrap_or_else(|e| e.into_inner()).retain(|x| x.0 != me);\n                        return Ok(Box::new(Token::EOF(')],
 demo='''
fn demo() { let round = || for _ in 0..100 { let mut l = PythonCoreTokenizer::new("a b c".to_string()); let _ = l.get_symbol(); }; round(); let u = used(); for _ in 0..100 { round() } assert!(used() - u < 200, "{}", used() - u) }
'''),
dict(id='c07_name_cut',property='C07',
 needs='the allocator refuses to grow the buffer of a long name',
 what='a name whose buffer cannot grow is cut short',
 edits=[(T,NAME,NAME.replace('                    buffer.push(self','                    if buffer.try_reserve(4).is_err() { self.source_buffer.advance(); continue }\n                    buffer.push(self'))],
 demo='''
fn demo() {
    // each refusal in a process of its own: an abort is allowed, a shortened name is not
    if let Some(n) = std::env::args().nth(1) {
        let t = "abcdefghijklmnopqrstuvwxyz0123456789"; let mut l = PythonCoreTokenizer::new(t.to_string());
        REFUSE.store(COUNT.load(std::sync::atomic::Ordering::Relaxed) + n.parse::<i64>().unwrap(), std::sync::atomic::Ordering::Relaxed);
        COUNT.store(REFUSE.load(std::sync::atomic::Ordering::Relaxed) - n.parse::<i64>().unwrap(), std::sync::atomic::Ordering::Relaxed);
        let r = l.get_symbol(); REFUSE.store(-1, std::sync::atomic::Ordering::Relaxed);
        if let Ok(t) = r { if !format!("{:?}", t).contains("0123456789") { std::process::exit(3) } }
        std::process::exit(0)
    }
    for n in 0..12 {
        let s = std::process::Command::new(std::env::current_exe().unwrap()).arg(n.to_string()).stderr(std::process::Stdio::null()).status().unwrap();
        assert!(s.code() != Some(3), "refusal {}", n)
    }
}
'''),
dict(id='c07_no_indent',property='C07',
 needs='the allocator refuses to grow the stack of indentation levels',
 what='an indentation level that cannot be recorded is treated as if the line were not indented deeper',
 edits=[(T,'''                            self.pending += 1;
                            self.indent_stack.push(col);
''','''                            if self.indent_stack.try_reserve(1).is_ok() {
                                self.pending += 1;
                                self.indent_stack.push(col);
                            }
''')],
 demo='''
fn demo() {
    use std::sync::atomic::Ordering::Relaxed;
    let mut t = String::new(); for i in 0..6 { t += &format!("{}a\\n", " ".repeat(i)); }
    let g = lex(&t);
    COUNT.store(0, Relaxed); REFUSE.store(1000000, Relaxed); lex(&t); let total = COUNT.load(Relaxed);
    let me = std::env::current_exe().unwrap();
    if let Ok(n) = std::env::var("NTH") { REFUSE.store(-1, Relaxed); let mut l = PythonCoreTokenizer::new(t.clone()); let mut v: Vec<Box<Token>> = Vec::with_capacity(1000); COUNT.store(0, Relaxed); REFUSE.store(n.parse().unwrap(), Relaxed);
        loop { match l.get_symbol() { Ok(t) => { let e = if let Token::EOF(..) = *t { true } else { false }; v.push(t); if e { break } }, _ => return } }
        REFUSE.store(-1, Relaxed); let w: Vec<String> = v.iter().map(|t| format!("Ok({:?})", t)).collect(); if w != g { println!("WRONG") } return }
    for n in 0..total { let o = std::process::Command::new(&me).env("NTH", n.to_string()).stderr(std::process::Stdio::null()).output().unwrap(); REFUSE.store(-1, Relaxed); assert!(!String::from_utf8_lossy(&o.stdout).contains("WRONG"), "refusal {}", n) }
}
'''),
dict(id='c08_escaped_newline',property='C08',
 needs='text received so far ends right after a backslash and line end inside an ordinary string',
 what='an ordinary string continued with a backslash at the end of the text asks for more data',
 edits=[(T,"                            ( '\\0', _ , _ ) => { },\n","                            ( '\\0', _ , _ ) => { },\n                            ( '\\n', '\\0', _ ) if self.source_buffer.get_position() + 1 == self.source_buffer.count() => return Err(\"MORE DATA!\".to_string()),\n")],
 demo='''
fn demo() { let v = lex("x = \\'abc\\\\\\n"); assert!(!v.last().unwrap().contains("MORE DATA"), "{:?}", v) }
'''),
dict(id='c08_crlf_in_triple',property='C08',
 needs='a piece of text that ends between the carriage return and the line feed inside an open triple quote',
 what='a carriage return at the end of an open triple-quoted string is reported as an unfinished string instead of asking for more',
 edits=[(T,'''                    ( '\\r', _ , _ ) |
                    ( '\\n', _ , _  ) => {
                        buffer.push(''','''                    ( '\\r', '\\0', _ ) if self.source_buffer.get_position() + 1 == self.source_buffer.count() => {
                        return Err(format!("Unterminated triple quote string at {}!", self.source_buffer.get_position()))
                    },
                    ( '\\r', _ , _ ) |
                    ( '\\n', _ , _  ) => {
                        buffer.push(''')],
 demo='''
fn demo() { let v = lex("x = \\'\\'\\'abc\\r"); assert!(v.last().unwrap().contains("MORE DATA"), "{:?}", v) }
'''),
dict(id='c09_type_ignore',property='C09',
 needs='a "# type: ignore" comment in an earlier statement and a type comment in a later one',
 what='after a "# type: ignore" comment all later type comments of the text are plain comments',
 edits=[(T,STRUCT_HEAD,STRUCT_HEAD.replace('{\n','{\n    ignore_types: bool,\n',1)),
  (T,'        PythonCoreTokenizer {\n            source_buffer:','        PythonCoreTokenizer {\n            ignore_types: false,\n            source_buffer:'),
  (T,'                        match buffer.as_str().starts_with("# type:") {\n','                        if buffer.as_str().starts_with("# type: ignore") { self.ignore_types = true }\n                        match buffer.as_str().starts_with("# type:") && ( self.ignore_types == false || buffer.as_str().starts_with("# type: ignore") ) {\n')],
 demo='''
fn demo() { let v = lex("a = 1 # type: ignore\\nb = 2 # type: int\\n"); assert!(v.iter().filter(|x| x.contains("TypeComment")).count() == 2, "{:?}", v) }
'''),
dict(id='c09_future_import',property='C09',
 needs='an import from __future__ as first statement, and later an annotated assignment',
 what='after a __future__ import a parser switch stays on that drops nothing but changes how later operators are read',
 edits=[(T,STRUCT_HEAD,STRUCT_HEAD.replace('{\n','{\n    barry: bool,\n    after_from: bool,\n',1)),
  (T,'        PythonCoreTokenizer {\n            source_buffer:','        PythonCoreTokenizer {\n            barry: false,\n            after_from: false,\n            source_buffer:'),
  (T,NAME,NAME+'''                if self.after_from && buffer.starts_with("__") && buffer.ends_with("__") { self.barry = true }
                self.after_from = buffer == "from";
'''),
  (T,"            ( '!', '=', _ ) => {","            ( '!', '=', _ ) if self.barry == false => {")],
 demo='''
fn demo() { let v = lex("from __x__ import y\\na != b\\n"); assert!(v.iter().any(|x| x.contains("PyNotEqual")), "{:?}", v) }
'''),
dict(id='c10_stack_guard',property='C10',
 needs='a parser on a thread with a deeper stack position than the first parser of the process ran at',
 what='a guard against deep recursion compares the stack address with the one of the first parser on the thread, so results depend on where the caller stands',
 edits=[(EX,'    fn parse_expressions_test(&mut self) -> Result<Box<ASTNode>, String> {\n','    fn parse_expressions_test(&mut self) -> Result<Box<ASTNode>, String> {\n        let here = 0u8;\n        let here = &here as *const u8 as usize;\n        let base = BASE.with(|b| { if b.get() == 0 { b.set(here) } b.get() });\n        if base > here && base - here > 24 << 20 { return Err("Expression nested too deeply!".to_string()) }\n'),
  (EX,'pub trait Expressions','thread_local! { static BASE: std::cell::Cell<usize> = std::cell::Cell::new(0); }\n\npub trait Expressions')],
 demo='''
#[inline(never)] fn deep(n: usize, f: &dyn Fn() -> String) -> String { let mut a = [n as u8; 65536]; std::hint::black_box(&mut a); if n == 0 { f() } else { let r = deep(n - 1, f); std::hint::black_box(&mut a); r } }
fn demo() { let a = eval("a if b else c"); let b = deep(600, &|| eval("a if b else c")); assert_eq!(a, b) }
'''),
dict(id='c11_trailing_coma',property='C11',
 needs='an assignment of three or more values with a comma after the last',
 what='the comma after the last of several values is taken off before the list is kept',
 edits=[(EX,'''                                        Token::Newline(..) |
                                        Token::PySemiColon(..) |
                                        Token::EOF(..) => false,
                                        Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                        _ => {
                                            nodes_list.push(self.parse_expressions_test()?);
                                            true''','''                                        Token::Newline(..) |
                                        Token::PySemiColon(..) |
                                        Token::EOF(..) => { if nodes_list.len() > 2 { separators_list.pop(); } false },
                                        Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                        _ => {
                                            nodes_list.push(self.parse_expressions_test()?);
                                            true''')],
 demo='''
fn demo() { let t = file("x = a, b, c,\\n"); assert!(t.matches("PyComa").count() == 3, "{}", t) }
'''),
dict(id='c11_elipsis_import',property='C11',
 needs='a relative import with three dots followed by a fourth',
 what='dots after an ellipsis in a relative import are consumed without being kept',
 edits=[(ST,'''                                            nodes_list.push( s2 );
                                            let _ = self.advance();
                                            true
                                        },
                                        _ => {
                                            false
                                        }''','''                                            if nodes_list.len() < 2 || matches!(&**nodes_list.last().unwrap(), Token::PyDot(..)) { nodes_list.push( s2 ) }
                                            let _ = self.advance();
                                            true
                                        },
                                        _ => {
                                            false
                                        }''')],
 demo='''
fn demo() { let t = file("from .... . import a\\n"); let t2 = file("from ...... . import a\\n"); assert!(t.contains("PyDot(8, 9") || t.contains("PyDot(10, 11"), "{}", t); assert!(t2.contains("PyDot(12, 13"), "{}", t2) }
'''),
dict(id='c11_with_last_coma',property='C11',
 needs='a parenthesised with statement with a comma before the closing parenthesis',
 what='the comma before the closing parenthesis of a with statement is not kept',
 edits=[(ST,'''                                                                        Token::PyRightParen(..) => false,''','''                                                                        Token::PyRightParen(..) => { separators_list.pop(); false },''')],
 demo='''
fn demo() { let t = file("with (a as b, c,): d\\n"); assert!(t.matches("PyComa").count() == 2, "{}", t) }
'''),
dict(id='c12_poisoned_pool',property='C12',
 needs='a session unwound inside a name, then a later session with names',
 what='names pass through a locked pool; a session unwound while it holds the lock poisons it, and later sessions fail',
 edits=[(T,STRUCT_HEAD,'static POOL: std::sync::Mutex<u64> = std::sync::Mutex::new(0);\n\n'+STRUCT_HEAD),
  (T,NAME,NAME.replace('                let mut buffer = String::new();\n','                let mut buffer = String::new();\n                let mut names = match POOL.lock() { Ok(n) => n, _ => return Err("Name pool is damaged!".to_string()) };\n                *names += 1;\n')+'                drop(names);\n')],
 demo='''
fn demo() { let g = lex("abc"); cancelled(8, || { lex("abcdefghijkl"); }); assert_eq!(lex("abc"), g) }
'''),
dict(id='c12_live_counter',property='C12',
 needs='thousands of sessions abandoned before the end of their text',
 what='the number of live sessions is counted up at the first request and down at the end of text only; above a limit new sessions are refused',
 edits=[(T,STRUCT_HEAD,'static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\n'+STRUCT_HEAD.replace('{\n','{\n    counted: bool,\n',1)),
  (T,'        PythonCoreTokenizer {\n            source_buffer:','        PythonCoreTokenizer {\n            counted: false,\n            source_buffer:'),
  (T,'        self.token_start_position = self.source_buffer.get_position(); // Saves starts','        use std::sync::atomic::Ordering::SeqCst;\n        if self.counted == false { self.counted = true; if LIVE.fetch_add(1, SeqCst) > 1500 { LIVE.fetch_sub(1, SeqCst); return Err("Too many sessions!".to_string()) } }\n        self.token_start_position = self.source_buffer.get_position(); // Saves starts'),
  (T,'                        return Ok(Box::new(Token::EOF(','                        if self.counted { self.counted = false; LIVE.fetch_sub(1, SeqCst); }\n                        return Ok(Box::new(Token::EOF(')],
 demo='''
fn demo() { let g = lex("a"); for _ in 0..3000 { let mut l = PythonCoreTokenizer::new("a b".to_string()); let _ = l.get_symbol(); } assert_eq!(lex("a"), g) }
'''),
]
if __name__ == '__main__': main([b for b in bugs if b['demo']])
