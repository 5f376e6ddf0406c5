"""Builds and confirms planted bugs. Not used by any check.
   Each bug: id, property, needs, what, edits=[(file, old, new)], demo (Rust source of `fn demo()`)."""
import json, os, subprocess, sys
REPO, OUT = os.environ.get('SEED_REPO', '/repo'), '/verif/seeded'
PRE = '''#![allow(warnings)]
extern crate core;
pub mod parser;
use parser::nodes::ASTNode;
use crate::parser::expressions::Expressions;
use crate::parser::statements::Statements;
use crate::parser::blocks::Blocks;
use crate::parser::tokenizer::{PythonCoreTokenizer, Tokenizer};
use parser::tokens::Token;
use crate::parser::parser::{Parser, PythonCoreParser};
pub static PANIC_IN: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(-1);
#[no_mangle] pub fn __dst_tick(_op: u8) { if PANIC_IN.load(std::sync::atomic::Ordering::Relaxed) >= 0 && PANIC_IN.fetch_sub(1, std::sync::atomic::Ordering::Relaxed) == 0 { panic!("cancelled") } }
/// A counting allocator: bytes in use; refuses requests while REFUSE_AT..=REFUSE_TO contains the size.
pub static USED: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
pub static COUNT: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
pub static REFUSE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(-1);
pub static FILL: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(-1);
struct A;
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        use std::sync::atomic::Ordering::Relaxed;
        if REFUSE.load(Relaxed) >= 0 && COUNT.fetch_add(1, Relaxed) == REFUSE.load(Relaxed) { return std::ptr::null_mut() }
        USED.fetch_add(l.size() as i64, Relaxed);
        let p = std::alloc::System.alloc(l);
        if FILL.load(Relaxed) >= 0 && !p.is_null() { let f = FILL.load(Relaxed) as u32; for i in 0..l.size() / 4 { (p as *mut u32).add(i).write_unaligned(f) } }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { USED.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed); std::alloc::System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn used() -> i64 { USED.load(std::sync::atomic::Ordering::Relaxed) }
/// Runs f, cancelled at the n-th source read.
fn cancelled<F: FnOnce() + std::panic::UnwindSafe>(n: i64, f: F) { std::panic::set_hook(Box::new(|_| {})); PANIC_IN.store(n, std::sync::atomic::Ordering::Relaxed); let _ = std::panic::catch_unwind(f); PANIC_IN.store(-1, std::sync::atomic::Ordering::Relaxed); let _ = std::panic::take_hook(); }

fn lex(text: &str) -> Vec<String> {
    let mut l = PythonCoreTokenizer::new(text.to_string());
    let mut v = Vec::new();
    loop {
        let r = l.get_symbol();
        v.push(format!("{:?}", r));
        match r { Err(_) => break, Ok(t) => if let Token::EOF(..) = *t { break } }
        if v.len() > 1000000 { break }
    }
    v
}
fn parser(text: &str) -> PythonCoreParser { PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(text.to_string()))) }
fn file(text: &str) -> String { format!("{:?}", parser(text).parse_blocks_file_input()) }
fn eval(text: &str) -> String { format!("{:?}", parser(text).parse_blocks_eval_input()) }

fn main() { let t = std::thread::Builder::new().stack_size(256 << 20).spawn(|| demo()).unwrap(); if t.join().is_err() { std::process::exit(1) } println!("ok") }
'''
SH = '''#!/bin/bash
# Compiles /repo's parser together with demo.rs in a scratch directory and runs it: 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
cp /repo/src/parser.rs "$t/parser.rs" && cp -r /repo/src/parser "$t/parser" && cp "$here/demo.rs" "$t/main.rs" || exit 2
rustc="$(command -v rustc || echo /root/.cargo/bin/rustc)"
"$rustc" --edition 2021 --cfg dst -A warnings -C opt-level=1 -o "$t/demo" "$t/main.rs" || exit 2
cd "$t" && timeout 120 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh(f'git -C {REPO} checkout -- .')
def tests():
    if REPO != '/repo':
        r = sh('cargo test --offline 2>&1 | grep -aE "^test result"', cwd=REPO)
        return None if '247 passed; 0 failed' in r.stdout else 'tests failed: ' + r.stdout
    b = sh('bash /opt/vp/build.sh')
    if b.returncode: return 'build failed: ' + b.stderr[-1500:]
    sh('bash /opt/vp/test.sh /tmp/seed_o.json')
    o = json.load(open('/tmp/seed_o.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    s = json.dumps(o)
    bad = [t for t in base_tests(base) if not passed(o, t)]
    return 'tests failed: %s' % bad[:5] if bad else None
def base_tests(b):
    for k in ('stable', 'tests', 'passed', 'pass'):
        if k in b: return list(b[k])
    return list(b)
def passed(o, t):
    for k in ('passed', 'pass'):
        if k in o: return t in o[k]
    return o.get(t) in (True, 'passed', 'pass', 'ok')
def demo(d): return sh(f'bash {d}/demo.sh', cwd=REPO) if REPO == '/repo' else sh(f'sed s#/repo/#{REPO}/#g {d}/demo.sh > {d}/demo_tmp.sh; bash {d}/demo_tmp.sh; r=$?; rm {d}/demo_tmp.sh; exit $r', cwd=REPO)
def make(bug, check=True, tier='quick'):
    d = f"{OUT}/{bug['id']}"; os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in bug['edits']:
        p = f'{REPO}/{f}'; s = open(p).read()
        body, sep, tail = s.partition('#[cfg(test)]\nmod tests')
        n = body.count(old)
        if n == 0: clean(); return f"{bug['id']}: edit not found in {f}: {old[:60]!r}"
        if n > 1 and not bug.get('all'): clean(); return f"{bug['id']}: edit matches {n} times: {old[:60]!r}"
        open(p, 'w').write(body.replace(old, new) + sep + tail)
    open(f'{d}/patch.diff', 'w').write(sh(f'git -C {REPO} diff').stdout)
    open(f'{d}/demo.rs', 'w').write(PRE + bug['demo']); open(f'{d}/demo.sh', 'w').write(SH); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['what']}, open(f'{d}/meta.json', 'w'), indent=1)
    try:
        e = tests()
        if e: return f"{bug['id']}: {e}"
        r = demo(d)
        if r.returncode in (0, 2, 124): return f"{bug['id']}: demo with bug rc={r.returncode} {r.stdout[-300:]} {r.stderr[-800:]}"
        res = run_check(bug['property'], tier) if check else 'unchecked'
    finally: clean()
    r = demo(d)
    if r.returncode: return f"{bug['id']}: demo without bug rc={r.returncode} {r.stdout[-300:]} {r.stderr[-800:]}"
    return f"{bug['id']}: ok; {res}"
def run_check(prop, tier='quick'):
    import time; t = time.time()
    r = sh(f'export SIM_REPO={REPO}; VERIF_SEED=1 $(/verif/sim/build.sh) check {prop} --tier {tier} --seed 1 --root /tmp/seedroot')
    l = [x for x in r.stdout.splitlines() if 'VIOLATION' in x]
    det = [x for x in (r.stdout + r.stderr).splitlines() if 'VIOLATION' not in x][-3:]
    return f"{prop} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and l else 'MISSED'} {time.time()-t:.0f}s {' | '.join(det)[:300]}"
def main(bugs):
    os.makedirs('/tmp/seedroot', exist_ok=True); sh('cp /verif/known_findings.txt /tmp/seedroot/')
    want = sys.argv[1:]
    for b in bugs:
        if want and b['id'] not in want: continue
        print(make(b), flush=True)
