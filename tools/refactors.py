"""Behaviour-preserving edits: every check must stay quiet on each. Not used by any check.
   usage: refactors.py [ids] [--runs-div N]"""
import os, re, subprocess, sys, shutil, time
W = '/tmp/refac/repo'
P = W + '/src/parser/'
def rd(f): return open(P + f).read()
def split(s):
    i = s.index('#[cfg(test)]') if '#[cfg(test)]' in s else len(s); return s[:i], s[i:]
def wr(f, s): open(P + f, 'w').write(s)
def body(f, fn):
    s = rd(f); a, b = split(s); n = fn(a); assert n != a, f; wr(f, n + b)
def rep(f, *pairs):
    def go(a):
        for o, n in pairs:
            assert o in a, o
            a = a.replace(o, n)
        return a
    body(f, go)

TR = re.compile(r"match (trivia_collector|trivia)\.len\(\) \{ 0 => None, _ => Some\( \{ \1\.reverse\(\); \1 \} \) \}")
def trivia_helper():
    body('tokenizer.rs', lambda a: TR.sub(r"taken(\1)", a) .replace("pub struct PythonCoreTokenizer {", "fn taken(mut list: Box<Vec<Box<Trivia>>>) -> Option<Box<Vec<Box<Trivia>>>> {\n    if list.is_empty() { return None }\n    list.reverse();\n    Some(list)\n}\n\npub struct PythonCoreTokenizer {", 1).replace("handle_string(&mut self, start: u32, triple: bool, prefix: Option<String>, mut trivia:", "handle_string(&mut self, start: u32, triple: bool, prefix: Option<String>, trivia:"))

def buffer_helper():
    rep('source_buffer.rs', ("if index_local < max { *&(self.source_buffer[index_local]).clone() } else { '\\0'.clone() }", "let _ = max; self.source_buffer.get(index_local).copied().unwrap_or('\\0')"),
        ("let a = if index_local < max { &*&(self.source_buffer[index_local]) } else { &'\\0' };", "let _ = max; let at = |i: usize| self.source_buffer.iter().copied().nth(i).unwrap_or('\\0'); let a = &at(index_local);"),
        ("let b = if (index_local + 1) < max { &*&(self.source_buffer[index_local + 1]) } else { &'\\0' };", "let b = &at(index_local + 1);"),
        ("let c = if (index_local + 2) < max { &*&(self.source_buffer[index_local + 2]) } else { &'\\0' };", "let c = &at(index_local + 2);"))

def buffer_capacity():
    rep('source_buffer.rs', ("source_buffer: Box::new(buffer.chars().collect()),", "source_buffer: { let mut v: Vec<char> = Vec::with_capacity(buffer.len() + 3); for c in buffer.chars() { v.push(c) } Box::new(v) },"))

def advance_by():
    def go(a):
        a = re.sub(r"for _i in 1 \.\.= (\d) \{ let _ = self\.source_buffer\.advance\(\); \}", r"self.skip(\1);", a)
        return a + "\nimpl PythonCoreTokenizer {\n    fn skip(&mut self, count: u32) {\n        let mut left = count;\n        while left > 0 { self.source_buffer.advance(); left -= 1; }\n    }\n}\n"
    body('tokenizer.rs', go)

def ident_loop():
    rep('tokenizer.rs', ("""                while self.source_buffer.get_char().is_alphanumeric() || self.source_buffer.get_char() == '_' {
                    buffer.push(self.source_buffer.get_char());
                    let _ = self.source_buffer.advance();
                }
""", """                loop {
                    let c = self.source_buffer.get_char();
                    if !(c == '_' || c.is_alphanumeric()) { break }
                    buffer.push(c);
                    self.source_buffer.advance();
                }
"""), ("""                        while   match self.source_buffer.get_char() {
                                    '\\r' | '\\n' | '\\0' => false,
                                    _ => {
                                        buffer.push(self.source_buffer.get_char());
                                        let _ = self.source_buffer.advance();
                                        true
                                    }
                                } {};
""" if False else "let mut buffer = String::new();", "let mut buffer = String::with_capacity(16);"))

def keyword_table():
    # keyword lookup through a lazily built shared table (hash map: random keys, lock, one allocation for ever)
    rep('tokenizer.rs', ("                match buffer.as_str() {\n                    \"False\"", "                if is_word(buffer.as_str()) == false && self.source_buffer.get_char() != '\\'' && self.source_buffer.get_char() != '\"' {\n                    return Ok(Box::new(Token::AtomName(self.token_start_position, self.source_buffer.get_position(),\n                                                     match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }, Box::new(buffer))))\n                }\n                match buffer.as_str() {\n                    \"False\""),
        ("pub struct PythonCoreTokenizer {", """static WORDS: std::sync::OnceLock<std::collections::BTreeSet<&'static str>> = std::sync::OnceLock::new();

fn is_word(text: &str) -> bool {
    WORDS.get_or_init(|| ["False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield"].iter().copied().collect()).contains(text)
}

pub struct PythonCoreTokenizer {"""))

def keyword_hash():
    keyword_table()
    s = rd('tokenizer.rs').replace('std::collections::BTreeSet', 'std::collections::HashSet'); wr('tokenizer.rs', s)

def thread_scratch():
    # names collected in a per-thread scratch buffer that is cleared at each use
    rep('tokenizer.rs', ("""                let mut buffer = String::new();
                while self.source_buffer.get_char().is_alphanumeric() || self.source_buffer.get_char() == '_' {
                    buffer.push(self.source_buffer.get_char());
                    let _ = self.source_buffer.advance();
                }
""", """                let buffer = SCRATCH.with(|s| {
                    let mut b = s.borrow_mut();
                    b.clear();
                    while self.source_buffer.get_char().is_alphanumeric() || self.source_buffer.get_char() == '_' {
                        b.push(self.source_buffer.get_char());
                        let _ = self.source_buffer.advance();
                    }
                    b.clone()
                });
"""), ("pub struct PythonCoreTokenizer {", "thread_local! { static SCRATCH: std::cell::RefCell<String> = std::cell::RefCell::new(String::with_capacity(64)); }\n\npub struct PythonCoreTokenizer {"))

def symbol_take():
    rep('parser.rs', ("self.symbol = self.lexer.get_symbol()", "let next = self.lexer.get_symbol();\n        let old = std::mem::replace(&mut self.symbol, next);\n        drop(old)"))

def no_clone():
    # look at the lookahead by reference instead of by clone, everywhere it compiles
    n = 0
    for f in ('expressions.rs', 'statements.rs', 'blocks.rs'):
        def go(a):
            return re.sub(r"let symbol(\d) = \(\*s\)\.clone\(\);", r"let symbol\1 = *s;", a)
        try: body(f, go)
        except AssertionError: pass

def digits_helper():
    def go(a):
        loop = """while   match self.source_buffer.get_char() {
                            '_' => {
                                buffer.push( self.source_buffer.get_char() );
                                let _ = self.source_buffer.advance();
                                match self.source_buffer.get_char() {
                                    '0'..='9' => true,
                                    _ => return Err( format!("Syntax Error at {} - Expected digit or '_' after '0x' or '0X'!", &self.get_position()) )
                                }
                            },
                            '0' ..= '9' => {
                                buffer.push( self.source_buffer.get_char() );
                                let _ = self.source_buffer.advance();
                                true
                            },
                            _ => false
                        } {};"""
        assert a.count(loop) >= 2
        return a.replace(loop, "self.digits(&mut buffer)?;") + """
impl PythonCoreTokenizer {
    fn digits(&mut self, buffer: &mut String) -> Result<(), String> {
        loop {
            let c = self.source_buffer.get_char();
            if c == '_' {
                buffer.push(c);
                self.source_buffer.advance();
                if !self.source_buffer.get_char().is_ascii_digit() {
                    return Err( format!("Syntax Error at {} - Expected digit or '_' after '0x' or '0X'!", &self.get_position()) )
                }
            }
            else if c.is_ascii_digit() {
                buffer.push(c);
                self.source_buffer.advance();
            }
            else { return Ok(()) }
        }
    }
}
"""
    body('tokenizer.rs', go)

def nothing_statements():
    # a statement that does nothing at the head of every method
    for f in ('expressions.rs', 'statements.rs', 'blocks.rs', 'tokenizer.rs', 'functions.rs'):
        body(f, lambda a: re.sub(r"(    fn \w+\(&mut self[^;{]*\{\n)", r"\1        let _unused = { let mut z = 0u32; for i in 0..2u32 { z = z.wrapping_add(i) } z };\n", a))

def space_loop():
    rep('tokenizer.rs', ("""                                self.token_start_position = self.source_buffer.get_position();
                                while   match self.source_buffer.get_char().clone() {
                                            ' ' => {
                                                let _ = self.source_buffer.advance();
                                                true
                                            }, _ => false
                                        } {};
""", """                                let begin = self.source_buffer.get_position();
                                let mut width = 0u32;
                                while self.source_buffer.get_char() == ' ' { self.source_buffer.advance(); width += 1; }
                                debug_assert!(begin + width == self.source_buffer.get_position());
                                self.token_start_position = begin;
"""))

def two_pass_string():
    # string content collected in a vector of characters first
    rep('tokenizer.rs', ("let mut buffer = String::new();\n        let quote = self.source_buffer.get_char();", "let mut buffer: Vec<char> = Vec::new();\n        let quote = self.source_buffer.get_char();"),
        ("match trivia.len() { 0 => None, _ => Some( { trivia.reverse(); trivia } ) }, Box::new(buffer), prefix ))", "match trivia.len() { 0 => None, _ => Some( { trivia.reverse(); trivia } ) }, Box::new(buffer.into_iter().collect()), prefix ))"))

def newline_helper():
    rep('tokenizer.rs', ("""                        if is_blank_line || self.parenthesis.is_empty() == false {
                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\\r', '\\n') ) );
                            continue 'outer;
                        }""", """                        let skip = is_blank_line || !self.parenthesis.is_empty();
                        if skip {
                            let line = Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\\r', '\\n');
                            trivia_collector.push(Box::new(line));
                            continue 'outer;
                        }"""))

def preallocate():
    rep('tokenizer.rs', ("let mut trivia_collector : Box<Vec<Box<Trivia>>> = Box::new( Vec::new() );", "let mut trivia_collector : Box<Vec<Box<Trivia>>> = Box::new( Vec::with_capacity(4) );"),
        ("parenthesis: Vec::new(),", "parenthesis: Vec::with_capacity(8),"))

def global_counter():
    # a statistic no result depends on
    rep('tokenizer.rs', ("    fn get_symbol(&mut self) -> Result<Box<Token>, String> {\n", "    fn get_symbol(&mut self) -> Result<Box<Token>, String> {\n        REQUESTS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n"),
        ("pub struct PythonCoreTokenizer {", "static REQUESTS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n\npub struct PythonCoreTokenizer {"))

def shared_text():
    # the text is kept behind an Rc, and characters are read through an iterator over a slice
    rep('source_buffer.rs', ("source_buffer: Box<Vec<char>>,", "source_buffer: std::sync::Arc<[char]>,"), ("source_buffer: Box::new(buffer.chars().collect()),", "source_buffer: buffer.chars().collect::<Vec<char>>().into(),"))

ALL = [trivia_helper, buffer_helper, buffer_capacity, advance_by, ident_loop, keyword_table, keyword_hash, thread_scratch, symbol_take, digits_helper, nothing_statements, space_loop, two_pass_string, newline_helper, preallocate, global_counter, shared_text, no_clone]
RUNS = {}
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    props = [a[7:].split(',') for a in sys.argv if a.startswith('--only=')]
    div = [int(a[6:]) for a in sys.argv if a.startswith('--div=')]
    for fn in ALL:
        if ids and fn.__name__ not in ids: continue
        shutil.rmtree('/tmp/refac', ignore_errors=True)
        os.makedirs('/tmp/refac')
        subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
        fn()
        t = subprocess.run('cargo test --offline --target-dir /tmp/refac/t 2>&1 | tail -30', shell=True, cwd=W, capture_output=True, text=True).stdout
        if 'test result: ok. 247 passed' not in t: print(fn.__name__, 'TESTS', t[-2500:]); continue
        b = subprocess.run(['/verif/sim/build.sh'], env=dict(os.environ, SIM_REPO=W), capture_output=True, text=True)
        if b.returncode: print(fn.__name__, 'BUILD', b.stderr[-2000:]); continue
        for i in range(1, 17):
            c = 'C%02d' % i
            if props and c not in props[0]: continue
            n = []
            if div: n = ['--runs', str(max(50, RUNS.setdefault(c, runs_of(c)) // div[0]))]
            t0 = time.time()
            r = subprocess.run([b.stdout.strip(), 'check', c, '--root', '/tmp/refac'] + n, capture_output=True, text=True)
            bad = r.returncode != 0
            if bad or '--verbose' in sys.argv: print(fn.__name__, c, r.returncode, '%.0f s' % (time.time() - t0), r.stdout[-800:] if bad else '', r.stderr[-500:] if bad else '', flush=True)
        print(fn.__name__, 'done', flush=True)
        os.remove(b.stdout.strip())
    shutil.rmtree('/tmp/refac', ignore_errors=True)
def runs_of(c):
    s = open('/verif/sim/core/props/%s.rs' % c.lower()).read()
    m = re.search(r'fn runs\(&self, (\w+): bool\) -> u64 \{ if \1 \{ ([\d_]+) \} else \{ ([\d_]+) \} \}', s)
    return int(m.group(3).replace('_', '')) if m else 2000
if __name__ == '__main__': main()
