from seedlib import *
from seeds1 import T, SB, EX, ST, BL, PA, STRUCT_HEAD
SBT='    fn advance(&mut self) -> ();\n'
SBI='    fn advance(&mut self) -> () {\n'
bugs=[
dict(id='c13_tab_size_voted',property='C13',
 needs='a program with tabs in its indentation, and damage far behind it that changes whether lines beginning with four blanks are the majority',
 what='the width of a tab is voted on by all lines of the text when the session starts, so damage at the end changes the blocks at the start',
 edits=[(T,'''        PythonCoreTokenizer {
            source_buffer: Box::new( SourceBuffer::new(buffer) ),''','''        let tabbed = buffer.lines().filter(|l| l.starts_with('\\t')).count();
        let blanks = buffer.lines().filter(|l| l.starts_with("  ")).count();
        PythonCoreTokenizer {
            source_buffer: Box::new( SourceBuffer::new(buffer) ),'''),
  (T,'            tab_size: 4,','            tab_size: if tabbed > blanks { 8 } else { 4 },')],
 demo='''
fn demo() {
    let intact = "if a:\\n    if b:\\n\\tc\\n    d\\nif e:\\n  f\\n";
    let damaged = "if a:\\n    if b:\\n\\tc\\n    d\\nif e:\\n\\tf\\n\\tg\\n\\th\\n\\ti\\n";
    let (x, y) = (lex(intact), lex(damaged));
    assert_eq!(x[..14], y[..14]);
}
'''),
dict(id='c13_open_bracket_guess',property='C13',
 needs='a line break inside brackets, and damage further on that takes the closing bracket away',
 what='a line break inside a bracket ends the statement if the rest of the text has no closing bracket of that kind',
 edits=[(SB,SBT,SBT+'    fn rest_holds(&self, c: char) -> bool;\n'),
  (SB,SBI,'    fn rest_holds(&self, c: char) -> bool { self.source_buffer[(self.index as usize).min(self.source_buffer.len())..].contains(&c) }\n\n'+SBI),
  (T,"                /* Handle newline as token or trivia as needed */\n","                /* Handle newline as token or trivia as needed */\n                if self.source_buffer.get_char() == '\\n' { if let Some(c) = self.parenthesis.last() { if self.source_buffer.rest_holds(*c) == false { self.parenthesis.clear() } } }\n")],
 demo='''
fn demo() {
    let intact = "a = (b,\\n  c,\\n  d)\\n"; let damaged = "a = (b,\\n  c,\\n  d\\n";
    let (x, y) = (lex(intact), lex(damaged));
    assert_eq!(x[..7], y[..7]);
}
'''),
dict(id='c13_error_at_line_start',property='C13',
 needs='an unreadable character behind other tokens of its line',
 what='an unreadable character is reported at the start of its line, before tokens that were delivered',
 edits=[(SB,SBT,SBT+'    fn line_start(&self) -> u32;\n'),
  (SB,SBI,"    fn line_start(&self) -> u32 { let mut i = self.index as usize; while i > 0 && self.source_buffer[i - 1] != '\\n' { i -= 1 } i as u32 }\n\n"+SBI),
  (T,"""let txt = format!( "Lexical error at ({}), found '{}'", self.source_buffer.get_position(),""","""let txt = format!( "Lexical error at ({}), found '{}'", self.source_buffer.line_start(),""")],
 demo='''
fn demo() {
    let r = lex("a = b\\nc = d + $\\n");
    let m = r.last().unwrap();
    let n: String = m.split('(').nth(2).unwrap().chars().take_while(|c| c.is_ascii_digit()).collect();
    assert!(n.parse::<usize>().unwrap() >= 11, "{}", m);
}
'''),
dict(id='c13_statement_checks_ahead',property='C13',
 needs='damage behind a simple statement, on a later line of the same block',
 what='an import is given up if the line after it holds an unreadable character',
 edits=[(SB,SBT,SBT+'    fn next_line_readable(&self) -> bool;\n'),
  (SB,SBI,"    fn next_line_readable(&self) -> bool { let r: Vec<char> = self.source_buffer[(self.index as usize).min(self.source_buffer.len())..].iter().skip_while(|c| **c != '\\n').skip(1).take_while(|c| **c != '\\n').cloned().collect(); r.contains(&'$') == false && r.contains(&'?') == false }\n\n"+SBI),
  (T,'"import" =>','"import" if self.source_buffer.next_line_readable() == false => return Err(format!("Lexical error at ({}), no import here", self.token_start_position)),\n                    "import" =>')],
 demo='''
fn demo() {
    let x = lex("import a\\nb = c\\n"); let y = lex("import a\\nb = ?\\n");
    assert_eq!(x[..2], y[..2]);
}
'''),
dict(id='c14_comment_cr',property='C14',
 needs='a text with CR line ends and a comment on one of its lines',
 what='a comment ends at LF only, a lone CR is taken for part of it',
 edits=[(T,"""                                    '\\r' | '\\n' | '\\0' => false,
""","""                                    '\\n' | '\\0' => false,
                                    '\\r' if self.source_buffer.peek_three_chars().1 == '\\n' => false,
""")],
 demo='''
fn demo() {
    let k = |t: &str| lex(t).iter().map(|s| s.split('(').nth(1).unwrap().to_string()).collect::<Vec<_>>();
    assert_eq!(k("a # x\\nb\\n"), k("a # x\\rb\\r"));
}
'''),
dict(id='c14_blank_line_cr',property='C14',
 needs='a text with CR line ends and a blank line inside a block',
 what='a blank line that ends with a lone CR ends the block it is in',
 edits=[(T,"""                        '#' | '\\r' | '\\n' => {
                            if col""","""                        '\\r' if self.source_buffer.peek_three_chars().1 != '\\n' && self.indent_stack.len() > 2 => { },
                        '#' | '\\r' | '\\n' => {
                            if col""")],
 demo='''
fn demo() {
    let k = |t: &str| lex(t).iter().map(|s| s.split('(').nth(1).unwrap().to_string()).collect::<Vec<_>>();
    let t = "if a:\\n  if b:\\n    c\\n\\n    d\\n";
    assert_eq!(k(t), k(&t.replace('\\n', "\\r")));
}
'''),
dict(id='c14_continuation_cr',property='C14',
 needs='a line continuation before a lone CR with deeper indentation on the next line',
 what='after a continuation that ends with a lone CR the next line is read as a line of its own',
 edits=[(T,"""self.source_buffer.get_position(), '\\\\', '\\r', ' ') ) );
                        continue 'inner;""","""self.source_buffer.get_position(), '\\\\', '\\r', ' ') ) );
                        if trivia_collector.len() > 2 { self.is_at_beginning_of_line = true; continue 'outer }
                        continue 'inner;""")],
 demo='''
fn demo() {
    let k = |t: &str| lex(t).iter().map(|s| s.split('(').nth(1).unwrap().to_string()).collect::<Vec<_>>();
    let t = "a = \\\\\\n \\\\\\n   b\\n";
    assert_eq!(k(t), k(&t.replace('\\n', "\\r")));
}
'''),
dict(id='c09_continue_in_finally',property='C09',
 needs='a continue statement inside the finally suite of an enclosing try',
 what='whether continue is accepted depends on the finally suites around it',
 edits=[(ST,'''                                        let right_node = self.parse_statements_suite()?;
                                        Ok(Box::new( ASTNode::FinallyStmt(''','''                                        FINALLY.with(|f| f.set(f.get() + 1));
                                        let right_node = self.parse_statements_suite();
                                        FINALLY.with(|f| f.set(f.get() - 1));
                                        let right_node = right_node?;
                                        Ok(Box::new( ASTNode::FinallyStmt('''),
  (ST,'                    Token::PyContinue(..) => {\n                        let symbol = s;','''                    Token::PyContinue(..) => {
                        if FINALLY.with(|f| f.get()) > 0 { return Err(format!("SyntaxError at {}: 'continue' not supported inside 'finally' clause!", start_pos)) }
                        let symbol = s;'''),
  (ST,'pub trait Statements {','thread_local! { static FINALLY: std::cell::Cell<u32> = std::cell::Cell::new(0); }\n\npub trait Statements {')],
 demo='''
fn demo() {
    assert!(file("while a:\\n  continue\\n").starts_with("Ok"));
    let r = file("try:\\n  pass\\nfinally:\\n  while a:\\n    continue\\n");
    assert!(r.starts_with("Ok"), "{}", r);
}
'''),
dict(id='c10_interactive_argument',property='C10',
 needs='a process started with the argument -i',
 what='the lexer is interactive when the process was started with -i',
 edits=[(T,'            is_interactive: false,','            is_interactive: std::env::args().skip(1).any(|a| a == "-i" || a == "--interactive"),')],
 demo='''
fn demo() {
    if std::env::args().len() == 1 {
        let e = std::env::current_exe().unwrap();
        let run = |a: &[&str]| { let o = std::process::Command::new(&e).args(a).output().unwrap(); assert!(o.status.success()); String::from_utf8(o.stdout).unwrap() };
        assert_eq!(run(&["x"]), run(&["-i"]));
    } else { println!("{:?}", lex("if a:\\n    b\\n\\n    c\\n")) }
}
'''),
]
if __name__ == '__main__': main(bugs)
