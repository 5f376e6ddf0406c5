//! The seams: logical clock (basic blocks), source reads, allocator, system services.
//! A thread runs code under test exactly while CUR points to a session context.
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed};

pub const DIE_TICKS: i32 = 77;
pub const DIE_MEM: i32 = 78;
pub const DIE_DEADLOCK: i32 = 79;
pub const DIE_HARNESS: i32 = 70;

pub struct Ctx {
    pub id: u64,
    pub ticks: u64,
    pub stop_at: u64,
    pub tick_limit: u64,
    pub slice_end: u64,
    pub reads: u64,
    pub cancel_at: u64,
    pub cancelled: u64,
    pub allocs: u64,
    pub fail_one: u64,
    pub fail_from: u64,
    pub fail_size: u64,
    pub refused: u64,
    pub fill: u8,
    /// 0: bytes of `fill`, 1: words of `fill4`, 2: seeded words, 3: whatever was there before
    pub fill_mode: u8,
    pub fill4: u32,
    /// the last edges, mixed; and, while recording, one value per allocation request: path and size
    pub path: u64,
    pub sigs: Vec<u32>,
    /// refuse the request with this path and size, at this occurrence
    pub fail_sig: u32,
    pub fail_nth: u64,
    /// how much of the path counts
    pub sig_mask: u64,
    /// and everything after it
    pub fail_then: bool,
    /// an abort for lack of memory unwinds to the harness instead of ending the process
    pub survive: bool,
    pub died: bool,
    pub jitter: u64,
    pub mem_limit: i64,
    pub bytes: u64,
    pub fail_until: u64,
}

impl Ctx {
    pub fn new(id: u64) -> Ctx {
        Ctx { id, ticks: 0, stop_at: 0, tick_limit: u64::MAX, slice_end: u64::MAX, reads: 0, cancel_at: 0, cancelled: 0, allocs: 0, fail_one: 0,
              fail_from: 0, fail_size: 0, refused: 0, fill: 0xA5, fill_mode: 0, fill4: 0, path: 0, sigs: Vec::new(), fail_sig: 0, fail_nth: 0, sig_mask: u64::MAX, fail_then: false, survive: false, died: false, jitter: 0, mem_limit: 1 << 29, bytes: 0, fail_until: 0 }
    }
}

thread_local! {
    pub static CUR: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    pub static NEXT: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    pub static SLOT: Cell<*mut crate::sched::Slot> = const { Cell::new(std::ptr::null_mut()) };
}

/// Runs a piece of code under test. Called by the glue around every call into the crate.
pub fn sut_call<R>(f: impl FnOnce() -> R) -> R {
    let c = NEXT.with(|n| n.get());
    arm(c);
    CUR.with(|x| x.set(c));
    let r = f();
    CUR.with(|x| x.set(std::ptr::null_mut()));
    disarm(c);
    r
}

pub fn arm(c: *mut Ctx) {
    if c.is_null() { return }
    unsafe {
        let s = SLOT.with(|s| s.get());
        (*c).slice_end = if s.is_null() { u64::MAX } else { (*c).ticks.saturating_add((*s).remaining) };
        if !s.is_null() { (*s).arm_ticks = (*c).ticks; }
        (*c).stop_at = (*c).tick_limit.min((*c).slice_end);
    }
}

pub fn disarm(c: *mut Ctx) {
    if c.is_null() { return }
    unsafe {
        let s = SLOT.with(|s| s.get());
        if !s.is_null() {
            let used = (*c).ticks - (*s).arm_ticks;
            (*s).remaining = (*s).remaining.saturating_sub(used);
        }
    }
}

/// Leaves code under test after an unwind (the normal exit path was skipped).
pub fn force_leave() {
    let c = CUR.with(|x| x.replace(std::ptr::null_mut()));
    disarm(c);
}

// ---- logical clock: one tick per basic block edge of the code under test ---------------------------------------

pub static mut GUARDS: u32 = 0;
/// Shared between all processes of one check: edges reached (bit 0), edges at which a preemption happened (bit 1),
/// edges active at a cancellation (bit 2) or allocation refusal (bit 3).
pub static mut EDGES: *mut AtomicU8 = std::ptr::null_mut();
pub const EDGE_MAX: usize = 1 << 16;
static LAST_EDGE: AtomicU32 = AtomicU32::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    while a < b { if *a == 0 { GUARDS += 1; *a = GUARDS.min(EDGE_MAX as u32 - 1); } a = a.add(1); }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let c = CUR.with(|x| x.get());
    if c.is_null() { return }
    (*c).ticks += 1;
    let e = *g;
    (*c).path = ((*c).path << 6) ^ e as u64;
    LAST_EDGE.store(e, Relaxed);
    if !EDGES.is_null() {
        let p = &*EDGES.add(e as usize);
        if p.load(Relaxed) & 1 == 0 { p.fetch_or(1, Relaxed); }
    }
    if (*c).ticks >= (*c).stop_at { slow(c, e); }
}

pub fn mark(bit: u8) { unsafe { if !EDGES.is_null() { (*EDGES.add(LAST_EDGE.load(Relaxed) as usize)).fetch_or(bit, Relaxed); } } }

#[inline(never)]
unsafe fn slow(c: *mut Ctx, e: u32) {
    if (*c).ticks >= (*c).tick_limit { die(DIE_TICKS) }
    if (*c).ticks >= (*c).slice_end {
        let s = SLOT.with(|s| s.get());
        if s.is_null() { (*c).slice_end = u64::MAX }
        else {
            CUR.with(|x| x.set(std::ptr::null_mut()));
            mark(2);
            (*s).remaining = 0;
            crate::sched::preempt(s, e);
            LAST_EDGE.store(e, Relaxed);
            (*s).arm_ticks = (*c).ticks;
            (*c).slice_end = (*c).ticks.saturating_add((*s).remaining);
            CUR.with(|x| x.set(c));
        }
    }
    (*c).stop_at = (*c).tick_limit.min((*c).slice_end);
}

// ---- source reads: the instant at which a request can be cancelled ---------------------------------------------

pub struct Cancel;

#[no_mangle]
pub fn __dst_tick(_op: u8) {
    let c = CUR.with(|x| x.get());
    if c.is_null() { return }
    unsafe {
        (*c).reads += 1;
        if (*c).reads == (*c).cancel_at {
            (*c).cancelled += 1;
            mark(4);
            CUR.with(|x| x.set(std::ptr::null_mut()));
            let b: Box<dyn std::any::Any + Send> = Box::new(Cancel);
            CUR.with(|x| x.set(c));
            std::panic::resume_unwind(b)
        }
    }
}

// ---- allocator -------------------------------------------------------------------------------------------------

extern "C" {
    fn malloc(n: usize) -> *mut u8;
    fn free(p: *mut u8);
    fn aligned_alloc(a: usize, n: usize) -> *mut u8;
}

pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static SUT_ALLOCS: AtomicU64 = AtomicU64::new(0);

pub struct SimAlloc;

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

// Memory of the code under test comes from an arena at a fixed address, so that even addresses are a function of
// the plan. Only the thread holding the baton ever touches it.
const ARENA: usize = 0x6100_0000_0000;
const ARENA_LEN: usize = 4 << 30;
static mut ARENA_NEXT: usize = 0;
static mut FREE: [usize; 160] = [0; 160];

/// Address layout of this run: shifts everything allocated from now on.
pub fn layout_shift(n: usize) { unsafe { arena_init(); ARENA_NEXT += n & !15 } }

unsafe fn arena_init() {
    if ARENA_NEXT == 0 {
        let r = sys6(9, ARENA as i64, ARENA_LEN as i64, 3, 0x2 | 0x20 | 0x10 | 0x4000, -1, 0);
        if r != ARENA as i64 { die(DIE_HARNESS) }
        ARENA_NEXT = ARENA + 64;
    }
}

/// Size class: multiples of 16 up to 1024, then powers of two.
fn class(n: usize) -> (usize, usize) {
    if n <= 1024 { let k = (n.max(1) + 15) / 16; (k, k * 16) } else { let p = n.next_power_of_two(); (64 + p.trailing_zeros() as usize, p) }
}

unsafe fn arena_alloc(n: usize) -> *mut u8 {
    arena_init();
    let (k, sz) = class(n);
    if FREE[k] != 0 {
        let p = FREE[k];
        FREE[k] = *(p as *const usize);
        return p as *mut u8
    }
    let p = ARENA_NEXT;
    ARENA_NEXT += sz;
    if ARENA_NEXT > ARENA + ARENA_LEN { die(DIE_MEM) }
    p as *mut u8
}

unsafe fn arena_free(p: *mut u8, n: usize) {
    let (k, _) = class(n);
    *(p as *mut usize) = FREE[k];
    FREE[k] = p as usize;
}

/// Block layout: [.. tag, gross size][payload]; gross is 0 for harness blocks.
unsafe fn raw_alloc(l: Layout, tag: u64, extra: usize) -> *mut u8 {
    let pad = l.align().max(32);
    let n = l.size() + pad + extra;
    if tag == 0 {
        let raw = if pad == 32 { malloc(n) } else { aligned_alloc(pad, (n + pad - 1) / pad * pad) };
        if raw.is_null() { return raw }
        let p = raw.add(pad);
        *(p.sub(8) as *mut u64) = 0;
        return p
    }
    let al = if pad > 32 { pad } else { 0 };
    let raw = arena_alloc(n + al);
    let p = if al == 0 { raw.add(pad) } else { (((raw as usize + pad) + al - 1) / al * al) as *mut u8 };
    *(p.sub(8) as *mut u64) = tag;
    *(p.sub(16) as *mut u64) = (n + al) as u64;
    *(p.sub(24) as *mut u64) = l.size() as u64;
    *(p.sub(32) as *mut u64) = raw as u64;
    p
}

unsafe fn raw_free(p: *mut u8, l: Layout) {
    let tag = *(p.sub(8) as *mut u64);
    if tag == 0 { free(p.sub(l.align().max(32))); return }
    LIVE_BLOCKS.fetch_sub(1, Relaxed);
    LIVE_BYTES.fetch_sub(*(p.sub(24) as *mut u64) as i64, Relaxed);
    let (gross, raw) = (*(p.sub(16) as *mut u64), *(p.sub(32) as *mut u64));
    if !KEEP_FREED { std::ptr::write_bytes(p, 0xDD, l.size()); }
    arena_free(raw as *mut u8, gross as usize);
}

/// Freed memory keeps its contents instead of being overwritten.
pub static mut KEEP_FREED: bool = false;

unsafe fn fill(c: *mut Ctx, p: *mut u8, n: usize) {
    match (*c).fill_mode {
        0 => std::ptr::write_bytes(p, (*c).fill, n),
        1 | 2 => {
            let mut x = crate::prng::mix((*c).fill4 as u64, (*c).allocs);
            for i in 0..n / 4 { let v = if (*c).fill_mode == 1 { (*c).fill4 } else { crate::prng::splitmix(&mut x) as u32 }; (p as *mut u32).add(i).write_unaligned(v) }
            for i in n / 4 * 4..n { *p.add(i) = (*c).fill4 as u8 }
        }
        _ => {}
    }
}

unsafe fn refuse(c: *mut Ctx, size: usize) -> bool {
    (*c).allocs += 1;
    (*c).bytes += size as u64;
    let n = (*c).allocs;
    let hit = n == (*c).fail_one || ((*c).fail_from != 0 && n >= (*c).fail_from && ((*c).fail_until == 0 || n < (*c).fail_until)) || ((*c).fail_size != 0 && size as u64 >= (*c).fail_size);
    let mut hit = hit;
    if (*c).fail_sig != 0 || (*c).sigs.capacity() > 0 {
        let k = crate::prng::mix((*c).path & (*c).sig_mask, size as u64) as u32 | 1;
        if (*c).sigs.len() < (*c).sigs.capacity() { (*c).sigs.push(k) }
        if k == (*c).fail_sig { if (*c).fail_nth == 0 { hit = true; (*c).fail_sig = 0; if (*c).fail_then { (*c).fail_from = n } } else { (*c).fail_nth -= 1 } }
    }
    if hit { (*c).refused += 1; mark(8); }
    hit
}

/// Called where the runtime would abort because memory ran out.
pub fn out_of_memory(_l: Layout) {
    let c = CUR.with(|x| x.get());
    if c.is_null() { return }
    unsafe {
        if !(*c).survive { return }
        (*c).fail_one = 0; (*c).fail_from = 0; (*c).fail_size = 0; (*c).fail_sig = 0;
        (*c).died = true;
        CUR.with(|x| x.set(std::ptr::null_mut()));
        let b: Box<dyn std::any::Any + Send> = Box::new(Cancel);
        CUR.with(|x| x.set(c));
        std::panic::resume_unwind(b)
    }
}

unsafe fn sut_alloc(c: *mut Ctx, l: Layout) -> *mut u8 {
    if refuse(c, l.size()) { return std::ptr::null_mut() }
    let extra = if (*c).jitter != 0 { ((crate::prng::mix((*c).jitter, (*c).allocs) & 15) * 16) as usize } else { 0 };
    let p = raw_alloc(l, (*c).id, extra);
    if p.is_null() { die(DIE_MEM) }
    SUT_ALLOCS.fetch_add(1, Relaxed);
    LIVE_BLOCKS.fetch_add(1, Relaxed);
    let live = LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
    if live > PEAK.load(Relaxed) { PEAK.store(live, Relaxed) }
    if live > (*c).mem_limit { die(DIE_MEM) }
    p
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = CUR.try_with(|x| x.get()).unwrap_or(std::ptr::null_mut());
        if c.is_null() { return raw_alloc(l, 0, 0) }
        let p = sut_alloc(c, l);
        if !p.is_null() { fill(c, p, l.size()) }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let c = CUR.try_with(|x| x.get()).unwrap_or(std::ptr::null_mut());
        let p = if c.is_null() { raw_alloc(l, 0, 0) } else { sut_alloc(c, l) };
        if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { raw_free(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

// ---- system services -------------------------------------------------------------------------------------------
// These definitions replace libc's inside this executable (std is linked statically, so its calls land here too).
// Outside code under test they forward to the kernel unchanged; inside, they are counted and simulated.

#[derive(Default)]
pub struct Ambient {
    pub active: bool,
    pub env: u64,     // 0: real, else seed of generated values
    pub clock: u64,   // 0: real, else mode
    pub random: u64,  // 0: real, else seed; odd: also fails at times
    pub io_fail: u64, // 0: pass writes to nowhere, else errno returned
    pub now: u64,
    pub n_env: u64, pub n_clock: u64, pub n_random: u64, pub n_io: u64, pub n_sleep: u64, pub n_id: u64,
    pub draws: u64,
    pub last_io: u64,
}
pub static mut AMB: Ambient = Ambient { active: false, env: 0, clock: 0, random: 0, io_fail: 0, now: 0, n_env: 0, n_clock: 0, n_random: 0, n_io: 0, n_sleep: 0, n_id: 0, draws: 0, last_io: 0 };

/// Set while text the code under test left in the standard output buffer is flushed.
pub static mut FLUSHING: bool = false;
fn in_sut() -> bool { (unsafe { FLUSHING }) || !CUR.try_with(|x| x.get()).unwrap_or(std::ptr::null_mut()).is_null() }

#[allow(static_mut_refs)]
pub fn amb() -> &'static mut Ambient { unsafe { &mut AMB } }

pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn sys3(n: i64, a: i64, b: i64, c: i64) -> i64 { sys6(n, a, b, c, 0, 0, 0) }

extern "C" { fn __errno_location() -> *mut i32; static environ: *const *const u8; }

unsafe fn ret(r: i64) -> i64 { if r < 0 && r > -4096 { *__errno_location() = -r as i32; -1 } else { r } }

pub fn die(code: i32) -> ! { unsafe { sys3(231, code as i64, 0, 0); } loop {} }

unsafe fn io(kind: u64, len: i64) -> i64 {
    let a = amb();
    a.n_io += 1;
    a.last_io = kind;
    if a.io_fail != 0 { *__errno_location() = a.io_fail as i32; -1 } else { len }
}

#[no_mangle] pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if in_sut() { return io(1, n as i64) as isize }
    ret(sys3(1, fd as i64, b as i64, n as i64)) as isize
}
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if in_sut() { return io(2, 0) as isize }
    ret(sys3(0, fd as i64, b as i64, n as i64)) as isize
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
    if in_sut() { let mut t = 0; for i in 0..n { t += (*v.add(i as usize))[1]; } return io(1, t as i64) as isize }
    ret(sys3(20, fd as i64, v as i64, n as i64)) as isize
}
unsafe fn opened(dir: i32, p: *const u8, fl: i32, mode: u32) -> i32 {
    if in_sut() { amb().n_io += 1; amb().last_io = 3; *__errno_location() = 2; return -1 }
    ret(sys6(257, dir as i64, p as i64, fl as i64, mode as i64, 0, 0)) as i32
}
#[no_mangle] pub unsafe extern "C" fn open(p: *const u8, fl: i32, mode: u32) -> i32 { opened(-100, p, fl, mode) }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const u8, fl: i32, mode: u32) -> i32 { opened(-100, p, fl, mode) }
#[no_mangle] pub unsafe extern "C" fn openat(d: i32, p: *const u8, fl: i32, mode: u32) -> i32 { opened(d, p, fl, mode) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: i32, p: *const u8, fl: i32, mode: u32) -> i32 { opened(d, p, fl, mode) }
#[no_mangle] pub unsafe extern "C" fn socket(a: i32, b: i32, c: i32) -> i32 {
    if in_sut() { amb().n_io += 1; amb().last_io = 4; *__errno_location() = 13; return -1 }
    ret(sys3(41, a as i64, b as i64, c as i64)) as i32
}
#[no_mangle] pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    if in_sut() { amb().n_env += 1; *__errno_location() = 2; return std::ptr::null_mut() }
    if ret(sys3(79, b as i64, n as i64, 0)) < 0 { std::ptr::null_mut() } else { b }
}

static ENV_VALUES: [&[u8]; 10] = [b"1\0", b"0\0", b"\0", b"8\0", b"true\0", b"debug\0", b"C\0", b"tr_TR.UTF-8\0", b"/nonexistent\0", b"-1\0"];

#[no_mangle] pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let mut n = 0;
    while *name.add(n) != 0 { n += 1 }
    let key = std::slice::from_raw_parts(name, n);
    if in_sut() {
        let a = amb();
        a.n_env += 1;
        if a.env != 0 {
            let h = crate::prng::mix(crate::prng::hash_bytes(key), a.env);
            // The same variable has one value for the whole run; every fifth is unset.
            return if h % 5 == 0 { std::ptr::null() } else { ENV_VALUES[(h >> 8) as usize % ENV_VALUES.len()].as_ptr() }
        }
    }
    let mut e = environ;
    if e.is_null() { return std::ptr::null() }
    while !(*e).is_null() {
        let s = *e;
        let mut i = 0;
        while i < n && *s.add(i) == key[i] { i += 1 }
        if i == n && *s.add(n) == b'=' { return s.add(n + 1) }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle] pub unsafe extern "C" fn secure_getenv(name: *const u8) -> *const u8 { getenv(name) }

/// Simulated clock: (seconds, nanoseconds). Modes: frozen, running, jumping back and forth, far future, before the epoch of the boot.
unsafe fn sim_now() -> (i64, i64) {
    let a = amb();
    a.n_clock += 1;
    a.draws += 1;
    match a.clock % 5 {
        1 => {}
        2 => a.now += 1_000,
        3 => { let d = crate::prng::mix(a.clock, a.draws); a.now = if d & 1 == 0 { a.now.wrapping_add((d >> 1) % 1_000_000_000_000_000) } else { a.now.saturating_sub((d >> 1) % 1_000_000_000_000_000) } }
        4 => a.now = 4_102_444_800_000_000_000 + a.draws * 1_000_000_000 * 3600,
        _ => a.now = 0,
    }
    ((a.now / 1_000_000_000) as i64, (a.now % 1_000_000_000) as i64)
}
#[no_mangle] pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if in_sut() && amb().clock != 0 { let (s, n) = sim_now(); *ts = [s, n]; return 0 }
    ret(sys3(228, id as i64, ts as i64, 0)) as i32
}
#[no_mangle] pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], _z: *mut u8) -> i32 {
    if in_sut() && amb().clock != 0 { let (s, n) = sim_now(); *tv = [s, n / 1000]; return 0 }
    ret(sys3(96, tv as i64, 0, 0)) as i32
}
#[no_mangle] pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = [0i64; 2];
    clock_gettime(0, &mut ts);
    if !t.is_null() { *t = ts[0] }
    ts[0]
}
#[no_mangle] pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, fl: u32) -> isize {
    if in_sut() && amb().random != 0 {
        let a = amb();
        a.n_random += 1;
        for i in 0..n { a.draws += 1; *b.add(i) = crate::prng::mix(a.random, a.draws) as u8; }
        return n as isize
    }
    ret(sys3(318, b as i64, n as i64, fl as i64)) as isize
}
#[no_mangle] pub unsafe extern "C" fn getpid() -> i32 {
    if in_sut() && amb().active { amb().n_id += 1; return 2 + (crate::prng::mix(amb().env, 77) % 30000) as i32 }
    sys3(39, 0, 0, 0) as i32
}
#[no_mangle] pub unsafe extern "C" fn sched_getaffinity(p: i32, n: usize, m: *mut u8) -> i32 {
    if in_sut() && amb().active {
        amb().n_id += 1;
        std::ptr::write_bytes(m, 0, n);
        *m = (crate::prng::mix(amb().env, 78) % 255 + 1) as u8;
        return 0
    }
    let r = sys3(204, p as i64, n as i64, m as i64);
    if r < 0 { *__errno_location() = -r as i32; return -1 }
    std::ptr::write_bytes(m.add(r as usize), 0, n - r as usize);
    0
}
#[no_mangle] pub unsafe extern "C" fn nanosleep(a: *const [i64; 2], b: *mut [i64; 2]) -> i32 {
    if in_sut() { let m = amb(); m.n_sleep += 1; m.now += ((*a)[0] * 1_000_000_000 + (*a)[1]) as u64; sleep_point(); return 0 }
    ret(sys3(35, a as i64, b as i64, 0)) as i32
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, a: *const [i64; 2], b: *mut [i64; 2]) -> i32 {
    if in_sut() { let m = amb(); m.n_sleep += 1; m.now += ((*a)[0] * 1_000_000_000 + (*a)[1]) as u64; sleep_point(); return 0 }
    -(sys6(230, id as i64, fl as i64, a as i64, b as i64, 0, 0) as i32)
}
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_sut() { sleep_point(); return 0 }
    ret(sys3(24, 0, 0, 0)) as i32
}
/// A sleeping or yielding session gives its turn away.
unsafe fn sleep_point() {
    let c = CUR.with(|x| x.get());
    let s = SLOT.with(|s| s.get());
    if s.is_null() { return }
    (*c).slice_end = (*c).ticks;
    (*c).stop_at = (*c).ticks;
    slow(c, 0);
}
#[no_mangle] pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if in_sut() {
        match n {
            202 => { // futex
                let s = SLOT.with(|s| s.get());
                if !s.is_null() {
                    match b & 0x7f {
                        0 | 9 => {
                            let w = &*(a as *const AtomicU32);
                            if w.load(Relaxed) != c as u32 { *__errno_location() = 11; return -1 }
                            let ctx = CUR.with(|x| x.replace(std::ptr::null_mut()));
                            disarm(ctx);
                            let timed = crate::sched::block(s, a as usize, d != 0);
                            arm(ctx);
                            CUR.with(|x| x.set(ctx));
                            if timed { *__errno_location() = 110; return -1 }
                            return 0
                        }
                        1 | 10 => return crate::sched::wake(a as usize, c as i32 as i64),
                        _ => {}
                    }
                } else if b & 0x7f == 0 || b & 0x7f == 9 {
                    // A session that is alone waits for somebody: nobody will come.
                    let w = &*(a as *const AtomicU32);
                    if w.load(Relaxed) != c as u32 { *__errno_location() = 11; return -1 }
                    if d == 0 { die(DIE_DEADLOCK) }
                    *__errno_location() = 110;
                    return -1
                }
            }
            318 => return getrandom(a as *mut u8, b as usize, c as u32) as i64,
            228 => return clock_gettime(a as i32, b as *mut [i64; 2]) as i64,
            0 | 1 | 2 | 257 | 41 => { return io(5, 0) }
            _ => {}
        }
    }
    ret(sys6(n, a, b, c, d, e, f))
}

// File system questions are input too.
unsafe fn asked() -> i32 { let a = amb(); a.n_io += 1; a.last_io = 6; *__errno_location() = 2; -1 }
#[no_mangle] pub unsafe extern "C" fn statx(d: i32, p: *const u8, fl: i32, m: u32, b: *mut u8) -> i32 { if in_sut() { return asked() } ret(sys6(332, d as i64, p as i64, fl as i64, m as i64, b as i64, 0)) as i32 }
#[no_mangle] pub unsafe extern "C" fn access(p: *const u8, m: i32) -> i32 { if in_sut() { return asked() } ret(sys3(21, p as i64, m as i64, 0)) as i32 }
#[no_mangle] pub unsafe extern "C" fn readlink(p: *const u8, b: *mut u8, n: usize) -> isize { if in_sut() { return asked() as isize } ret(sys3(89, p as i64, b as i64, n as i64)) as isize }
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const u8) -> i32 { if in_sut() { return asked() } ret(sys3(87, p as i64, 0, 0)) as i32 }
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const u8, m: u32) -> i32 { if in_sut() { return asked() } ret(sys3(83, p as i64, m as i64, 0)) as i32 }
#[no_mangle] pub unsafe extern "C" fn rename(p: *const u8, q: *const u8) -> i32 { if in_sut() { return asked() } ret(sys3(82, p as i64, q as i64, 0)) as i32 }
#[no_mangle] pub unsafe extern "C" fn isatty(fd: i32) -> i32 { if in_sut() { amb().n_env += 1; return (crate::prng::mix(amb().env, fd as u64) & 1) as i32 } let mut t = [0u8; 64]; if ret(sys3(16, fd as i64, 0x5401, t.as_mut_ptr() as i64)) == 0 { 1 } else { 0 } }
