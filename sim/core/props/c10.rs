use super::*;
pub struct P;

const KINDS: [&str; 16] = ["environment", "clock", "random_source", "io_failure", "fresh_memory_contents", "memory_addresses", "address_layout", "stack_depth", "main_thread", "closed_files", "earlier_live_memory", "thread_name", "arguments", "environment_list", "earlier_threads", "while_unwinding"];

extern "C" { fn close(f: i32) -> i32; static mut environ: *const *const u8; }

static mut ARGV: (i32, *mut *mut u8) = (0, std::ptr::null_mut());
extern "C" fn note_args(n: i32, v: *mut *mut u8, _e: *mut *mut u8) { unsafe { ARGV = (n, v) } }
#[used] #[link_section = ".init_array.00200"] static NOTE: extern "C" fn(i32, *mut *mut u8, *mut *mut u8) = note_args;
/// Other arguments than the process was started with: fewer, or other letters.
unsafe fn other_arguments(v: u64) {
    let (n, a) = ARGV;
    let keep = v as usize % (n.max(1) as usize + 1);
    if v >> 9 & 3 == 0 {
        // what tools are told
        const FLAGS: [&[u8]; 24] = [b"-i\0", b"-v\0", b"-O\0", b"-c\0", b"-m\0", b"-b\0", b"-2\0", b"-3\0", b"-d\0", b"-t\0", b"-q\0", b"-x\0", b"-\0", b"--\0", b"--debug\0", b"--verbose\0", b"--interactive\0", b"--strict\0", b"--quiet\0", b"--tabsize=8\0", b"--tabs\0", b"--trace\0", b"--help\0", b"--version\0"];
        for i in 0..n as usize { if i > 0 { *a.add(i) = FLAGS[mix(v, i as u64) as usize % FLAGS.len()].to_vec().leak().as_mut_ptr() } }
        return
    }
    for i in 0..n as usize {
        if i >= keep && v >> 8 & 1 == 1 { *a.add(i) = std::ptr::null_mut(); continue }
        let mut s = *a.add(i);
        let mut k = v;
        while !s.is_null() && *s != 0 { k = mix(k, 1); *s = b"-abcvVO0=dtes1"[k as usize % 14]; s = s.add(1) }
    }
}
/// Another list of environment variables for those who read the whole list.
unsafe fn other_environment(v: u64) {
    let mut list: Vec<*const u8> = vec![];
    for k in 0..v % 7 {
        let h = mix(v, k);
        let name = ["PATH", "HOME", "LANG", "PYTHONUTF8", "PYTHONPATH", "PYTHONOPTIMIZE", "RUST_LOG", "DEBUG", "LC_ALL", "USER", "TERM", "CI", "X"][h as usize % 13];
        list.push(Box::leak(format!("{}={}\0", name, ["", "0", "1", "debug", "C", "/", "é"][(h >> 8) as usize % 7]).into_boxed_str()).as_ptr());
    }
    list.push(std::ptr::null());
    environ = list.leak().as_ptr();
}
struct Falling<'a>(&'a mut dyn FnMut());
impl<'a> Drop for Falling<'a> { fn drop(&mut self) { (self.0)() } }


/// Stands `n` frames of 32 KB deeper on the stack.
fn far<T>(n: u64, f: &mut dyn FnMut() -> T) -> T { let x = std::mem::MaybeUninit::<[u8; 32768]>::uninit(); std::hint::black_box(&x); if n == 0 { f() } else { let r = far(n - 1, f); std::hint::black_box(&x); r } }
fn deep<T>(n: usize, f: &mut dyn FnMut() -> T) -> T { let x = std::hint::black_box([n as u8; 512]); if n == 0 { f() } else { let r = deep(n - 1, f); std::hint::black_box(x); r } }

impl Prop for P {
    fn id(&self) -> &'static str { "C10" }
    fn runs(&self, th: bool) -> u64 { if th { 400_000 } else { 100_000 } }
    fn rule(&self) -> &'static str { "A session runs under 1-8 perturbed ambient services (environment variables, clock frozen, jumping or far off, random source, failing I/O, contents and addresses of memory, stack position, thread, closed descriptors) and must return what it returns under the base settings, without any input or output of its own. Non-trivial: every run; distinct by (text, entry point, perturbations)." }
    fn gen(&self, r: &mut Rng, _i: u64, _th: bool) -> Plan {
        let mut p = Plan::new("C10", "ambient");
        let api = pick_any_api(r);
        let m = r.heavy(8);
        let mut t = text_big(r, api, m, 4);
        if r.chance(1, 6) {
            // the text ends where a longer token could go on
            let c = chars(&t);
            let at: Vec<usize> = (1..c.len()).filter(|i| c[*i].is_ascii_punctuation() && (c[*i] == c[*i - 1] || c[*i] == '\\')).collect();
            if !at.is_empty() { t = c[..=*r.pick(&at)].iter().collect() }
        }
        p.text(api, &t);
        for _ in 0..r.range(1, 8) { let v = (r.u64() >> 20) as i64; p.ops.push(vec![r.below(KINDS.len()) as i64, v]) }
        p
    }
    fn exec(&self, p: &Plan, st: &mut Stats) -> Result<(), Viol> {
        let t = match p.texts.first() { Some(t) => t.clone(), None => return Ok(()) };
        let g = match golden(st, &t.api, &t.text) { Some(g) => g, None => return Ok(()) };
        let ops = p.ops.clone();
        let ctx = |d: String| format!("{} on {:?} under {:?}: {}", t.api, clip(&t.text), ops.iter().map(|o| KINDS[o[0] as usize % KINDS.len()]).collect::<Vec<_>>(), d);
        if g.io > 0 { return viol("io", ctx(format!("{} input or output operations", g.io))) }
        let e = fork_run(WALL, &mut || {
            base_ambient();
            let a = amb();
            let (mut depth, mut on_main, mut name) = (0, false, None);
            // how far down the stack the requests run, in turn; and a session at the top of the same stack before
            let (mut roam, mut shallow, mut falling) = (vec![0u64], None, false);
            let mut run = Run::new(1, &t.api, &t.text);
            let mut early = vec![];
            for o in &ops {
                let v = o.get(1).copied().unwrap_or(0).max(0) as u64;
                match o[0] as usize % KINDS.len() {
                    0 => a.env = v + 1,
                    1 => { a.clock = v | 1 << 40; a.now = v.wrapping_mul(7919) % 4_000_000_000_000_000_000 }
                    2 => a.random = v + 1,
                    3 => a.io_fail = [5, 28, 32, 9, 4, 11][v as usize % 6],
                    4 => match v >> 8 & 3 {
                        0 => run.ctx.fill = v as u8,
                        1 => { run.ctx.fill_mode = 1; run.ctx.fill4 = if v >> 10 & 1 == 1 { t.text.chars().last().unwrap_or('=') as u32 } else { 0 }; if run.ctx.fill4 == 0 { run.ctx.fill4 = ['.', '=', '*', '/', '<', '>', '\'', '"', 'a', 'r', '0', 'e', '\n', ' ', '(', '\\'][v as usize & 15] as u32 } }
                        2 => { run.ctx.fill_mode = 2; run.ctx.fill4 = v as u32 }
                        // what an earlier session left behind
                        _ => {
                            unsafe { KEEP_FREED = true; }
                            run.ctx.fill_mode = 3;
                            let x = ["=", ".", "*", "\"", "a", "0", "=.*", "\n"][v as usize & 7];
                            let mut e = Run::new(51, "lex", &x.repeat((t.text.chars().count() + (v as usize >> 4 & 15)) / x.len()));
                            e.ctx.tick_limit = 20_000_000;
                            e.finish();
                            e.drop_session();
                        }
                    },
                    5 => run.ctx.jitter = v | 1,
                    6 => layout_shift((v as usize & 0xfff_ffff) + 16),
                    7 => match v >> 20 & 7 {
                        0 | 1 => { for k in 0..1 + (v >> 24 & 3) { roam.push(mix(v, k) % 1800) } if v >> 28 & 1 == 1 { roam.remove(0); } if v >> 29 & 1 == 1 { shallow = Some(if v >> 30 & 1 == 1 { t.clone() } else { crate::plan::T { api: "file".into(), text: "a if b else [c, d]\n".into() } }) } }
                        _ => depth = v as usize % 2000,
                    },
                    8 => on_main = true,
                    9 => unsafe { for f in 0..3 { if v >> f & 1 == 1 { close(f); } } },
                    10 => { let mut x = Run::new(50, "lex", "a = [b, c]\n"); x.keep = true; x.finish(); early.push(x) }
                    11 => name = Some(format!("t{}", v)),
                    12 => unsafe { other_arguments(v) },
                    13 => unsafe { other_environment(v) },
                    14 => for _ in 0..v % 40 { let _ = std::thread::Builder::new().stack_size(65536).spawn(|| ()).expect("spawn").join(); },
                    _ => falling = !g.panicked,
                }
            }
            run.ctx.tick_limit = g.ticks * 8 + 3_000_000;
            struct S(*mut Run);
            unsafe impl Send for S {}
            let s = S(&mut run);
            let here = roam.len() == 1 && roam[0] == 0;
            let mut body = move || { let s = &s; let r = unsafe { &mut *s.0 }; 
                if let Some(t) = &shallow { let mut x = Run::new(52, &t.api, &t.text); x.ctx.tick_limit = TICKS_MAX; x.finish(); x.drop_session() }
                if falling {
                    // the request is made by a destructor during unwinding
                    let mut out = vec![];
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut f = || out = Solo::of(r).enc(); let _d = Falling(&mut f); std::panic::resume_unwind(Box::new(1u8)) }));
                    return out
                }
                if roam.len() == 1 { return deep(depth, &mut || far(roam[0], &mut || Solo::of(r).enc())) }
                let mut k = 0;
                loop { let go = deep(depth, &mut || far(roam[k % roam.len()], &mut || r.step())); k += 1; if !go { break } }
                far(roam[k % roam.len()], &mut || r.drop_session());
                Solo::of(r).enc()
            };
            let out = if on_main && here && t.text.len() < 300 { body() } else { struct B<T>(T); unsafe impl<T> Send for B<T> {} let mut b = B(&mut body); std::thread::scope(|sc| { let mut bl = std::thread::Builder::new().stack_size(2 * STACK); if let Some(n) = &name { bl = bl.name(n.clone()) } bl.spawn_scoped(sc, move || { let b = &mut b; (b.0)() }).expect("spawn").join().unwrap_or_else(|_| die(DIE_HARNESS)) }) };
            // text left in a buffer is output, too
            let before = a.n_io;
            unsafe { FLUSHING = true; }
            use std::io::Write;
            let _ = std::io::stdout().flush();
            unsafe { FLUSHING = false; }
            let mut w = W(out);
            let io = a.n_io.max(before);
            w.0.splice(0..0, W(vec![]).u(io).u(a.n_env).u(a.n_clock).u(a.n_random).0.clone());
            w.0
        });
        harness(&e);
        let b = match e { End::Ok(b) => b, End::Code(DIE_TICKS) | End::Timeout => return viol("hang", ctx("does not end".into())), x => return viol("crash", ctx(x.describe())) };
        let h = hash_bytes(&b);
        st.note(h);
        let mut r = R(&b);
        let (io, en, ck, rn) = (r.u(), r.u(), r.u(), r.u());
        let s = Solo::dec(r.0);
        st.ticks += s.ticks;
        st.hit("evaluations");
        for o in &ops { st.hit(&format!("fault_{}", KINDS[o[0] as usize % KINDS.len()])) }
        st.add("reach_environment_read_by_code_under_test", en);
        st.add("reach_clock_read_by_code_under_test", ck);
        st.add("reach_random_read_by_code_under_test", rn);
        st.distinct.insert(hash_bytes(format!("{:?}{:?}", t, ops).as_bytes()));
        if io > 0 { return viol("io", ctx(format!("{} input or output operations", io))) }
        if let Some(d) = first_diff(&g.out, &s.out) { return viol("differs", ctx(d)) }
        if st.samples.is_empty() { st.samples.push(ctx("same result".into())) }
        Ok(())
    }
    fn components(&self) -> &'static str { "real: lexer, parser. simulated: clock, environment, random source, process identity, file and standard streams, allocator (addresses, contents), stack position, thread" }
}
