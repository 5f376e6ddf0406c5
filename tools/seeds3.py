from seedlib import *
from seeds1 import T, SB, EX, ST, BL, PA, STRUCT_HEAD
NAME='''                let mut buffer = String::new();
                while self.source_buffer.get_char().is_alphanumeric() || self.source_buffer.get_char() == '_' {
                    buffer.push(self.source_buffer.get_char());
                    let _ = self.source_buffer.advance();
                }
'''
bugs=[
dict(id='c01_indent_slots',property='C01',all=True,
 needs='more than 256 lexers alive at once, taking turns over indented text',
 what='indent stacks live in a table of 256 slots chosen by a session counter that wraps: two live sessions share a stack',
 edits=[(T,STRUCT_HEAD,'thread_local! { static STACKS: std::cell::RefCell<Vec<Vec<u32>>> = std::cell::RefCell::new(vec![Vec::new(); 256]); }\nstatic NEXT_SLOT: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);\n\n'+STRUCT_HEAD.replace('pub struct','pub struct')+''),
  (T,'    indent_stack: Vec<u32>\n}','    slot: usize,\n    indent_stack: Vec<u32>\n}'),
  (T,'            indent_stack: { let mut stack : Vec<u32> = Vec::new(); stack.push(0); stack }\n','            slot: { let slot = NEXT_SLOT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as usize; STACKS.with(|s| { s.borrow_mut()[slot] = vec![0] }); slot },\n            indent_stack: Vec::new()\n'),
  (T,'        self.token_start_position = self.source_buffer.get_position(); // Saves starts of current token symbol.\n','        self.token_start_position = self.source_buffer.get_position(); // Saves starts of current token symbol.\n        self.indent_stack = STACKS.with(|s| s.borrow()[self.slot].clone());\n'),
  (T,'                                self.indent_stack.pop();\n','                                self.indent_stack.pop();\n                                STACKS.with(|s| { s.borrow_mut()[self.slot] = self.indent_stack.clone() });\n'),
  (T,'                            self.indent_stack.push(col);\n','                            self.indent_stack.push(col);\n                            STACKS.with(|s| { s.borrow_mut()[self.slot] = self.indent_stack.clone() });\n')],
 demo='''
fn demo() {
    let t = "if a:\\n  if b:\\n    c\\n  d\\ne\\n"; let g = lex(t);
    let mut v: Vec<_> = (0..300).map(|_| PythonCoreTokenizer::new(t.to_string())).collect();
    let mut out = vec![Vec::new(); 300];
    for _ in 0..g.len() { for (i, l) in v.iter_mut().enumerate() { out[i].push(format!("{:?}", l.get_symbol())) } }
    for o in out { assert!(o == g, "{:?}", o); }
}
'''),
dict(id='c01_lock_order',property='C01',
 needs='two threads, one inside a name and one inside a number, each preempted between two locks',
 what='names and numbers take two process-wide locks in opposite orders: two sessions can block each other for ever',
 edits=[(T,STRUCT_HEAD,'static NAMES_SEEN: std::sync::Mutex<u64> = std::sync::Mutex::new(0);\nstatic NUMBERS_SEEN: std::sync::Mutex<u64> = std::sync::Mutex::new(0);\n\n'+STRUCT_HEAD),
  (T,NAME,'''                let mut buffer = String::new();
                let mut names = NAMES_SEEN.lock().unwrap_or_else(|e| e.into_inner());
                while self.source_buffer.get_char().is_alphanumeric() || self.source_buffer.get_char() == '_' {
                    buffer.push(self.source_buffer.get_char());
                    let _ = self.source_buffer.advance();
                }
                *names += 1;
                if buffer.ends_with(|c: char| c.is_ascii_digit()) { *NUMBERS_SEEN.lock().unwrap_or_else(|e| e.into_inner()) += 1 }
                drop(names);
'''),
  (T,"""            ( '.', '0' ..= '9', _ ) => {
                let mut buffer = String::new();
""","""            ( '.', '0' ..= '9', _ ) => {
                let mut buffer = String::new();
                let mut numbers = NUMBERS_SEEN.lock().unwrap_or_else(|e| e.into_inner());
                *numbers += 1;
                *NAMES_SEEN.lock().unwrap_or_else(|e| e.into_inner()) += 1;
                drop(numbers);
""")],
 demo='''
fn demo() {
    let (s, r) = std::sync::mpsc::channel();
    for k in 0..4 { let s = s.clone(); std::thread::spawn(move || { let t = if k % 2 == 0 { "abcdefgh1 ".repeat(20000) } else { ".5 ".repeat(60000) }; for _ in 0..4 { lex(&t); } let _ = s.send(()); }); }
    for _ in 0..4 { assert!(r.recv_timeout(std::time::Duration::from_secs(60)).is_ok(), "sessions block each other") }
}
'''),
dict(id='c02_cut_exponent',property='C02',
 needs='a text cut right after the exponent letter (and sign) of a number',
 what='an exponent without digits at the end of the text is taken back from the token text but not from its span',
 edits=[(T,"""                match &self.source_buffer.get_char() {
                    'e' | 'E' => {
                        buffer.push( self.source_buffer.get_char() );""","""                match &self.source_buffer.get_char() {
                    'e' | 'E' => {
                        let mantissa = buffer.len();
                        buffer.push( self.source_buffer.get_char() );"""),
  (T,"""                                    buffer.push( self.source_buffer.get_char() );
                                let _ = self.source_buffer.advance();
                                true
                            },
                            _ => false
                        } {};
                    },
                    _ => {}
                }
                match self.source_buffer.get_char() {
                    'j' | 'J' => {
                        buffer.push(self.source_buffer.get_char());
                        let _ = self.source_buffer.advance();
                    },
                    _ => {}
                }
                Ok( Box::new( Token::AtomNumber(self.token_start_position, self.source_buffer.get_position(),
                                                match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }, Box::new(buffer)  ) ) )
            },
            ( '\\'', '\\'', '\\'' ) |""",'')],
 demo=''),
dict(id='c03_fullwidth_names',property='C03',
 needs='a full-width letter in a name',
 what='full-width letters of names are replaced by their plain forms: the token text is not what the text holds',
 edits=[(T,"                    buffer.push(self.source_buffer.get_char());\n                    let _ = self.source_buffer.advance();\n                }\n                match buffer.as_str() {","                    let c = self.source_buffer.get_char();\n                    buffer.push( match c { '\\u{ff21}'..='\\u{ff3a}' | '\\u{ff41}'..='\\u{ff5a}' => char::from_u32(c as u32 - 0xfee0).unwrap_or(c), _ => c } );\n                    let _ = self.source_buffer.advance();\n                }\n                match buffer.as_str() {")],
 demo='''
fn demo() {
    for t in ["\\u{ff41}\\u{ff42}c", "x = \\u{ff30}y"] { let v = lex(t).join(" "); let name: String = t.split(' ').last().unwrap().to_string(); assert!(v.contains(&format!("{:?}", name)), "{}", v); }
}
'''),
dict(id='c03_long_space_run',property='C03',
 needs='more than 255 spaces in a row between two tokens',
 what='the length of a run of spaces is counted in a byte: the span of the whitespace is wrong for long runs',
 edits=[(T,"""                                self.token_start_position = self.source_buffer.get_position();
                                while   match self.source_buffer.get_char().clone() {
                                            ' ' => {
                                                let _ = self.source_buffer.advance();
                                                true
                                            }, _ => false
                                        } {};
                                trivia_collector.push(Box::new( Trivia::WhiteSpace(self.token_start_position, self.source_buffer.get_position(), ' ') ) );""","""                                self.token_start_position = self.source_buffer.get_position();
                                let mut width = 0u8;
                                while   match self.source_buffer.get_char().clone() {
                                            ' ' => {
                                                let _ = self.source_buffer.advance();
                                                width = width.wrapping_add(1);
                                                true
                                            }, _ => false
                                        } {};
                                trivia_collector.push(Box::new( Trivia::WhiteSpace(self.token_start_position, self.token_start_position + width as u32, ' ') ) );""")],
 demo='''
fn demo() {
    for n in [1usize, 255, 256, 300, 1000] { let v = lex(&format!("a{}b", " ".repeat(n))).join(" "); assert!(v.contains(&format!("WhiteSpace(1, {},", n + 1)), "{} {}", n, v); }
}
'''),
dict(id='c03_soft_hyphen',property='C03',
 needs='a soft hyphen or zero-width joiner inside a name',
 what='invisible formatting characters inside names are skipped silently',
 edits=[(T,"                    buffer.push(self.source_buffer.get_char());\n                    let _ = self.source_buffer.advance();\n                }\n                match buffer.as_str() {","                    buffer.push(self.source_buffer.get_char());\n                    let _ = self.source_buffer.advance();\n                    while matches!(self.source_buffer.get_char(), '\\u{ad}' | '\\u{200c}' | '\\u{200d}') { let _ = self.source_buffer.advance(); }\n                }\n                match buffer.as_str() {")],
 demo='''
fn demo() {
    for c in ['\\u{ad}', '\\u{200c}', '\\u{200d}'] { let t = format!("ab{}cd", c); let v = lex(&t).join(" "); assert!(v.contains("Err(") || v.contains(&format!("{:?}", t)), "{}", v); }
}
'''),
dict(id='c04_runaway_guard',property='C04',
 needs='more than ten thousand requests after the end of text',
 what='a guard against runaway clients answers with an error after ten thousand requests at the end of text',
 edits=[(T,'    pending: i32,\n    indent_stack','    pending: i32,\n    at_end: u32,\n    indent_stack'),(T,'            pending: 0,\n','            pending: 0,\n            at_end: 0,\n'),
  (T,"                        return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match","                        self.at_end += 1;\n                        if self.at_end > 10_000 { return Err(\"Too many requests after end of text!\".to_string()) }\n                        return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match")],
 demo='''
fn demo() {
    let mut l = PythonCoreTokenizer::new("a".to_string());
    let _ = l.get_symbol();
    for i in 0..30000 { let r = format!("{:?}", l.get_symbol()); assert!(r.contains("EOF(1"), "{} {}", i, r); }
}
'''),
dict(id='c04_dedent_after_end',property='C04',
 needs='a text that ends inside an indented block without a final newline, and a request after the end of text',
 what='after the end of text, another request returns dedents instead of the end of text',
 edits=[(T,"                        return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector.len() {","                        return Ok(Box::new(Token::EOF( { self.is_at_beginning_of_line = true; self.source_buffer.get_position() }, match trivia_collector.len() {")],
 demo='''
fn demo() {
    for t in ["if a:\\n  b", "a", "", "if a:\\n  if b:\\n    c", "(a"] {
        let mut l = PythonCoreTokenizer::new(t.to_string());
        let mut eof = None;
        for _ in 0..40 { let r = l.get_symbol(); let s = format!("{:?}", r); let e = s.contains("EOF("); match &eof { Some(g) => assert!(e && *g == s, "{:?} then {:?}", g, s), None => if e { eof = Some(s) } } }
    }
}
'''),
dict(id='c05_formfeed_spin',property='C05',
 needs='a form feed after the beginning of a line, following white space',
 what='a form feed between tokens is recognised as white space but never consumed: the lexer spins',
 edits=[(T,"""                            '\\t' => {
                                self.token_start_position = self.source_buffer.get_position();
                                let _ = self.source_buffer.advance();""","""                            '\\x0c' if trivia_collector.len() > 0 => {
                                self.token_start_position = self.source_buffer.get_position();
                                true
                            },
                            '\\t' => {
                                self.token_start_position = self.source_buffer.get_position();
                                let _ = self.source_buffer.advance();""")],
 demo='''
fn demo() {
    let (s, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || { lex("a \\x0c b"); lex("\\x0c b"); let _ = s.send(()); });
    assert!(r.recv_timeout(std::time::Duration::from_secs(20)).is_ok(), "does not finish");
}
'''),
dict(id='c06_leaked_message',property='C06',
 needs='a try statement that mixes except and except*',
 what='the message of a rarely hit error is leaked to make it static',
 edits=[(ST,"""                                            ET::ExceptMul => return Err(format!("SyntaxError at {}: Expecting 'except' except statement!", start_pos)),""","""                                            ET::ExceptMul => {
                                                let text : &'static str = Box::leak(format!("SyntaxError at {}: Expecting 'except' except statement!", start_pos).into_boxed_str());
                                                return Err(text.to_string())
                                            },""")],
 demo='''
fn demo() {
    let t = "try:\\n  a\\nexcept* b:\\n  c\\nexcept d:\\n  e\\n";
    file(t); file(t);
    let u = used();
    for _ in 0..50 { file(t); }
    assert!(used() - u < 100, "{} bytes more", used() - u);
}
'''),
dict(id='c06_raw_name_buffer',property='C06',
 needs='a session cancelled (unwound) while it reads a name',
 what='the text of a name is held by a raw pointer while it is collected: unwinding leaks it',
 edits=[(T,NAME,'''                let held = Box::into_raw(Box::new(String::new()));
                while self.source_buffer.get_char().is_alphanumeric() || self.source_buffer.get_char() == '_' {
                    unsafe { (*held).push(self.source_buffer.get_char()) };
                    let _ = self.source_buffer.advance();
                }
                let buffer = unsafe { *Box::from_raw(held) };
''')],
 demo='''
fn demo() {
    let t = "some_rather_long_name_to_read";
    for k in 0..60 { cancelled(k, move || { lex(t); }); }
    let u = used();
    for k in 0..60 { cancelled(k, move || { lex(t); }); }
    assert!(used() - u < 100, "{} bytes more", used() - u);
}
'''),
dict(id='c07_argument_lost',property='C07',
 needs='the allocator refusing the one request that grows an argument list',
 what='when the list of arguments cannot grow the argument is left out',
 edits=[(EX,"""                            separators_list.push( Box::new(symbol1) );
                            let _ = self.advance();
                            nodes_list.push( self.parse_expressions_subscript()? );""","""                            separators_list.push( Box::new(symbol1) );
                            let _ = self.advance();
                            let next_node = self.parse_expressions_subscript()?;
                            if nodes_list.try_reserve(1).is_ok() { nodes_list.push( next_node ) }""")],
 demo='''
fn demo() {
    let t = "f(a, b, c, d, e, g)"; let good = eval(t);
    for k in 0..2000 {
        let out = std::process::Command::new(std::env::current_exe().unwrap()).arg(k.to_string()).output().unwrap();
        let s = String::from_utf8_lossy(&out.stdout).to_string();
        if out.status.success() { assert!(s.trim() == good || s.contains("Err("), "refusing {}: {}", k, s) }
        if k > 400 { break }
    }
}
'''),
dict(id='c08_prefixed_open',property='C08',
 needs='a delivery that ends inside a triple-quoted string with a two-letter prefix',
 what='an open raw f-string is reported as unterminated instead of asking for more',
 edits=[(T,"""                        return Err("MORE DATA!".to_string())""","""                        return match &prefix { Some( p ) if p.len() > 1 => Err(format!("Unterminated string at {}!", start)), _ => Err("MORE DATA!".to_string()) }""")],
 demo='''
fn demo() {
    for t in ["rf\\"\\"\\"abc", "x = fr\\u{27}\\u{27}\\u{27}a\\n", "r\\u{27}\\u{27}\\u{27}a", "\\u{27}\\u{27}\\u{27}a"] { let v = lex(t); assert!(v.last().unwrap().contains("MORE DATA"), "{:?}", v); }
}
'''),
dict(id='c08_open_brace',property='C08',
 needs='a delivery that ends inside a dictionary, right after a line end',
 what='an open brace at the end of the text asks for more data although no string is open',
 edits=[(T,"                        return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match","                        if self.is_at_beginning_of_line == false && self.parenthesis.len() > 1 && self.parenthesis.last() == Some(&'}') && trivia_collector.iter().any(|t| match **t { Trivia::Newline(..) => true, _ => false }) { return Err(\"MORE DATA!\".to_string()) }\n                        return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match")],
 demo='''
fn demo() {
    for t in ["f({\\n", "f({ a : b,\\n  ", "f(\\n"] { let v = lex(t); assert!(v.last().unwrap().contains("EOF("), "{:?}", v); }
}
'''),
dict(id='c09_global_then_nonlocal',property='C09',
 needs='a name declared global in one statement and nonlocal in a later, unrelated one',
 what='the parser remembers names declared global and rejects a later nonlocal of the same name, also in other scopes',
 edits=[(PA,'    pub except_status: ET\n','    pub except_status: ET,\n    pub global_names: Vec<String>\n'),(PA,'            except_status: ExceptNone\n','            except_status: ExceptNone,\n            global_names: Vec::new()\n'),
  (ST,"""                                                        Token::AtomName(..) => {
                                                            nodes_list.push( s4 );
                                                            let _ = self.advance();
                                                        },
                                                        _ => return Err(format!("SyntaxError at {}: Expecting name literal in global statement!", start_pos))""","""                                                        Token::AtomName(_, _, _, name) => {
                                                            self.global_names.push( name.to_string() );
                                                            nodes_list.push( s4 );
                                                            let _ = self.advance();
                                                        },
                                                        _ => return Err(format!("SyntaxError at {}: Expecting name literal in global statement!", start_pos))"""),
  (ST,"""                                                        Token::AtomName(..) => {
                                                            nodes_list.push( s4 );
                                                            let _ = self.advance();
                                                        },
                                                        _ => return Err(format!("SyntaxError at {}: Expecting name literal in nonlocal statement!", start_pos))""","""                                                        Token::AtomName(_, _, _, name) => {
                                                            if self.global_names.contains( name ) { return Err(format!("SyntaxError at {}: Name is nonlocal and global!", start_pos)) }
                                                            nodes_list.push( s4 );
                                                            let _ = self.advance();
                                                        },
                                                        _ => return Err(format!("SyntaxError at {}: Expecting name literal in nonlocal statement!", start_pos))""")],
 demo='''
fn demo() {
    assert!(file("nonlocal c, b\\n").starts_with("Ok("));
    assert!(file("def f():\\n  global a, b\\ndef g():\\n  nonlocal c, b\\n").starts_with("Ok("));
}
'''),
dict(id='c09_file_chunks',property='C09',
 needs='a file of more than 128 statements',
 what='the statements of a file are put in order in chunks of 128: longer files come out in another order than statement by statement',
 edits=[(BL,"""                            nodes_list.push( self.parse_statements_stmt()? );
                            true
                        }
                    }
                },
                _ => return Err(format!("SyntaxError at {}: Expecting symbol in eval expression!", start_pos))
            } { };
        separators_list.reverse();
        nodes_list.reverse();""","""                            nodes_list.push( self.parse_statements_stmt()? );
                            true
                        }
                    }
                },
                _ => return Err(format!("SyntaxError at {}: Expecting symbol in eval expression!", start_pos))
            } { };
        separators_list.reverse();
        for chunk in nodes_list.chunks_mut(128) { chunk.reverse() }""")],
 demo='''
fn demo() {
    for n in [3usize, 127, 128, 129, 200] {
        let t: String = (0..n).map(|i| format!("name{}\\n", i)).collect();
        let f = file(&t);
        let first = f.find("name0\\"").unwrap(); let last = f.find(&format!("name{}\\"", n - 1)).unwrap();
        let mid = f.find(&format!("name{}\\"", n / 2)).unwrap();
        assert!((first < mid) == (mid < last) || n < 2, "order of {}", n);
    }
}
'''),
dict(id='c10_hashed_imports',property='C10',
 needs='an import of five or more names',
 what='duplicates among many imported names are found with a hash set seeded at random and the names come out in its order',
 edits=[(ST,"""        nodes_list.reverse();
        separators_list.reverse();
        Ok(Box::new( ASTNode::ImportAsNamesStmt(""","""        nodes_list.reverse();
        if nodes_list.len() > 4 {
            let mut by_hash : std::collections::HashMap<usize, Box<ASTNode>> = std::collections::HashMap::new();
            for ( i, node ) in nodes_list.drain(..).enumerate() { by_hash.insert(i, node); }
            nodes_list.extend(by_hash.into_values());
        }
        separators_list.reverse();
        Ok(Box::new( ASTNode::ImportAsNamesStmt(""")],
 demo='''
fn demo() {
    let t = "from m import a, b, c, d, e, f, g, h\\n"; let g = file(t);
    for _ in 0..20 { let x = std::thread::spawn(move || file(t)).join().unwrap(); assert!(x == g); }
}
'''),
dict(id='c10_unset_lookahead',property='C10',
 needs='a text that ends while the lexer looks ahead, and memory that holds leftovers',
 what='the lookahead reads up to two characters past the end of the text from memory that was never set',
 edits=[(SB,"let c = if (index_local + 2) < max { &*&(self.source_buffer[index_local + 2]) } else { &'\\0' };","let held = self.source_buffer.capacity();\n        let c = if (index_local + 2) < max { &*&(self.source_buffer[index_local + 2]) } else if (index_local + 2) < held && index_local + 1 < max { unsafe { &*self.source_buffer.as_ptr().add(index_local + 2) } } else { &'\\0' };")],
 demo='''
fn demo() {
    let t = ".."; let g = lex(t);
    FILL.store('.' as i64, std::sync::atomic::Ordering::Relaxed);
    for t in ["..", "a..", "**", "a<<", "//", "abcde**"] {
        FILL.store(0, std::sync::atomic::Ordering::Relaxed); let g = lex(t);
        for f in ['.', '=', '"'] { FILL.store(f as i64, std::sync::atomic::Ordering::Relaxed); let x = lex(t); FILL.store(0, std::sync::atomic::Ordering::Relaxed); assert!(x == g, "{:?} {:?}", x, g); }
    }
}
'''),
dict(id='c11_last_semicolon',property='C11',
 needs='three or more statements on one line with a semicolon after the last',
 what='the closing semicolon of a longer statement list is dropped from the tree',
 edits=[(ST,"""                                        Token::Newline(..) |
                                        Token::EOF(..) => {
                                            false
                                        },
                                        _ => {
                                            nodes_list.push(self.parse_statements_small_stmt()? );""","""                                        Token::Newline(..) |
                                        Token::EOF(..) => {
                                            if separators_list.len() == nodes_list.len() && nodes_list.len() > 2 { separators_list.pop(); }
                                            false
                                        },
                                        _ => {
                                            nodes_list.push(self.parse_statements_small_stmt()? );""")],
 demo='''
fn demo() { for n in 1..6 { let t = format!("{}\\n", "a;".repeat(n)); let f = file(&t); assert!(f.matches("PySemiColon").count() == n, "{} {}", n, f); } }
'''),
dict(id='c12_peek_cache',property='C12',
 needs='a session that fails on the first character, followed by another session whose text is stored at the same address',
 what='the last lookahead is remembered per thread by address and position of the text, and survives the session',
 edits=[(SB,'pub struct SourceBuffer {','thread_local! { static LAST: std::cell::Cell<( usize, u32, ( char, char, char ) )> = std::cell::Cell::new(( 0, 0, ( \'\\0\', \'\\0\', \'\\0\' ) )); }\n\npub struct SourceBuffer {'),
  (SB,'        let max = *&self.source_buffer.len() as usize;\n        let a = if','        let ( at, index, seen ) = LAST.with(|l| l.get());\n        if at == self.source_buffer.as_ptr() as usize && index == self.index { return seen }\n        let max = *&self.source_buffer.len() as usize;\n        let a = if'),
  (SB,'        ( a.clone(), b.clone(), c.clone() )','        LAST.with(|l| l.set(( self.source_buffer.as_ptr() as usize, self.index, ( a.clone(), b.clone(), c.clone() ) )));\n        ( a.clone(), b.clone(), c.clone() )')],
 demo='''
fn demo() {
    let g = std::thread::spawn(|| lex("abcdefgh")).join().unwrap();
    for _ in 0..50 { lex("?bcdefgh"); assert!(lex("abcdefgh") == g); }
}
'''),
dict(id='c12_busy_flag',property='C12',
 needs='a session cancelled (unwound) inside a request',
 what='a guard against re-entrant use is not released when a request is unwound: later sessions on the thread are refused',
 edits=[(PA,'pub struct PythonCoreParser {','thread_local! { static BUSY: std::cell::Cell<bool> = std::cell::Cell::new(false); }\n\npub struct PythonCoreParser {'),
  (PA,'        self.symbol = self.lexer.get_symbol()\n','        if BUSY.with(|b| b.replace(true)) { self.symbol = Err("Parser is not reentrant!".to_string()); return }\n        self.symbol = self.lexer.get_symbol();\n        BUSY.with(|b| b.set(false))\n')],
 demo='''
fn demo() {
    let g = file("a = b\\n");
    for k in 0..40 { cancelled(k, || { file("x = y\\n"); }); assert!(file("a = b\\n") == g, "after a cancellation at {}", k); }
}
'''),
dict(id='c12_error_numbers',property='C12',
 needs='an earlier lexical error in the process',
 what='lexical errors are numbered across the whole process',
 edits=[(T,STRUCT_HEAD,'static ERRORS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n\n'+STRUCT_HEAD),
  (T,"""format!( "Lexical error at ({}), found '{}'", self.source_buffer.get_position(), self.source_buffer.get_char() )""","""match ERRORS.fetch_add(1, std::sync::atomic::Ordering::SeqCst) { 0 => format!( "Lexical error at ({}), found '{}'", self.source_buffer.get_position(), self.source_buffer.get_char() ), n => format!( "Lexical error {} at ({}), found '{}'", n, self.source_buffer.get_position(), self.source_buffer.get_char() ) }""")],
 demo='''
fn demo() { let a = lex("a ? b"); for _ in 0..5 { assert!(lex("a ? b") == a); } }
'''),
]
# the cut exponent: only the branch of numbers starting with 1..9
SRC=open('/repo/src/parser/tokenizer.rs').read()
i=SRC.index("            ( '1' ..= '9', _ , _ ) => {"); j=SRC.index("            ( '\\'', '\\'', '\\'' ) |",i); blk=SRC[i:j]
new=blk.replace("""                    'e' | 'E' => {
                        buffer.push( self.source_buffer.get_char() );""","""                    'e' | 'E' => {
                        let mantissa = buffer.len();
                        buffer.push( self.source_buffer.get_char() );""")
k=new.index("'+' | '-' => {"); m=new.index("                        } {};\n",k)+len("                        } {};\n")
new=new[:m]+"                        if buffer.ends_with(|c: char| c.is_ascii_digit()) == false && self.source_buffer.get_position() == self.source_buffer.count() { buffer.truncate(mantissa) }\n"+new[m:]
for b in bugs:
    if b['id']=='c02_cut_exponent':
        b['edits']=[(T,blk,new)]
        b['demo']='''
fn demo() { for t in ["12e", "12.5e+", "3E-"] { let v = lex(t).join(" "); assert!(v.contains("Err(") || v.contains(&format!("{:?}", t)), "{}", v); } }
'''
    if b['id']=='c07_argument_lost':
        b['demo']=b['demo'].replace('fn demo() {\n','''fn demo() {
    if let Some(k) = std::env::args().nth(1) {
        let t = "f(a, b, c, d, e, g)".to_string();
        let p = parser(&t);
        COUNT.store(0, std::sync::atomic::Ordering::Relaxed); REFUSE.store(k.parse().unwrap(), std::sync::atomic::Ordering::Relaxed);
        let mut p = p; let r = p.parse_blocks_eval_input();
        REFUSE.store(-1, std::sync::atomic::Ordering::Relaxed);
        println!("{:?}", r); std::process::exit(0)
    }
''',1)
if __name__=='__main__': main(bugs)
