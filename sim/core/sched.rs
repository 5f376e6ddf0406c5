//! Deterministic scheduler over real OS threads: exactly one thread holds the baton; who gets it next, and for how
//! many basic blocks, is decided by the plan. Waiting on locks of the code under test is seen at the futex seam.
use crate::hooks::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { Ready, Blocked(usize, bool), WaitSess(usize), Done }

pub struct Slot {
    pub idx: usize,
    pub go: AtomicU32,
    pub remaining: u64,
    pub arm_ticks: u64,
    pub st: St,
    pub timed_out: bool,
}

pub struct Sched {
    pub slots: Vec<Box<Slot>>,
    pub ctl: AtomicU32,
    pub preempts: u64,
    pub switches: u64,
    pub blocks: u64,
    pub wakes: u64,
    pub sig: u64,
    pub trace: Vec<(usize, u32)>,
}

pub static mut SCHED: *mut Sched = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn sc() -> &'static mut Sched { unsafe { &mut *SCHED } }

fn futex_wait(w: &AtomicU32) { while w.load(SeqCst) == 0 { unsafe { sys6(202, w as *const _ as i64, 128, 0, 0, 0, 0); } } w.store(0, SeqCst); }
fn futex_wake(w: &AtomicU32) { w.store(1, SeqCst); unsafe { sys6(202, w as *const _ as i64, 129, 1, 0, 0, 0); } }

/// Give the baton back to the controller and wait for the next turn.
pub fn give_up(s: *mut Slot) { futex_wake(&sc().ctl); unsafe { futex_wait(&(*s).go) } }

pub fn preempt(s: *mut Slot, edge: u32) {
    let x = sc();
    x.preempts += 1;
    unsafe { x.sig = crate::prng::mix(x.sig, ((*s).idx as u64) << 32 | edge as u64); if x.trace.len() < 4000 { x.trace.push(((*s).idx, edge)) } }
    give_up(s)
}

/// Returns true if the wait timed out.
pub fn block(s: *mut Slot, addr: usize, timed: bool) -> bool {
    unsafe {
        sc().blocks += 1;
        (*s).st = St::Blocked(addr, timed);
        (*s).timed_out = false;
        give_up(s);
        (*s).timed_out
    }
}

pub fn wake(addr: usize, n: i64) -> i64 {
    let mut k = 0;
    for s in sc().slots.iter_mut() {
        if k >= n { break }
        if let St::Blocked(a, _) = s.st { if a == addr { s.st = St::Ready; k += 1; } }
    }
    sc().wakes += k as u64;
    k
}

pub fn first_turn(s: *mut Slot) { SLOT.with(|x| x.set(s)); unsafe { futex_wait(&(*s).go) } }
pub fn finish(s: *mut Slot) { SLOT.with(|x| x.set(std::ptr::null_mut())); unsafe { (*s).st = St::Done } futex_wake(&sc().ctl) }
/// Between requests: yield if the slice is used up.
pub fn boundary(s: *mut Slot) { unsafe { if (*s).remaining == 0 { preempt(s, 0) } } }
pub fn wait_session(s: *mut Slot, sess: usize) { unsafe { (*s).st = St::WaitSess(sess); give_up(s) } }

pub struct Ran { pub preempts: u64, pub switches: u64, pub blocks: u64, pub sig: u64, pub trace: Vec<(usize, u32)>, pub deadlock: bool }

/// Runs `n` thread bodies under the given slices; afterwards round robin until all are done.
/// `busy(sess)` tells whether a session is inside a request on another thread.
pub fn run(n: usize, slices: &[(usize, u64)], tail_budget: u64, stack: usize, body: &(dyn Fn(usize, *mut Slot) + Sync), busy: &dyn Fn(usize) -> bool) -> Ran {
    let mut s = Sched { slots: Vec::new(), ctl: AtomicU32::new(0), preempts: 0, switches: 0, blocks: 0, wakes: 0, sig: 0, trace: Vec::new() };
    for i in 0..n { s.slots.push(Box::new(Slot { idx: i, go: AtomicU32::new(0), remaining: 0, arm_ticks: 0, st: St::Ready, timed_out: false })) }
    unsafe { SCHED = &mut s }
    let mut deadlock = false;
    std::thread::scope(|sp| {
        let mut handles: Vec<Option<std::thread::ScopedJoinHandle<()>>> = Vec::new();
        for i in 0..n {
            let p = SendPtr(&mut *sc().slots[i] as *mut Slot);
            let h = std::thread::Builder::new().stack_size(stack).spawn_scoped(sp, move || {
                let p = p; // move the whole wrapper
                let q = p.0;
                first_turn(q);
                body(i, q);
                finish(q);
            }).expect("spawn");
            handles.push(Some(h));
        }
        let mut k = 0;
        let mut rr = 0;
        let mut last = usize::MAX;
        loop {
            for i in 0..n { if let St::WaitSess(w) = sc().slots[i].st { if !busy(w) { sc().slots[i].st = St::Ready } } }
            if (0..n).all(|i| sc().slots[i].st == St::Done) { break }
            let (t, b) = if k < slices.len() { k += 1; slices[k - 1] } else {
                let mut t = None;
                for j in 0..n { let i = (rr + j) % n; if sc().slots[i].st == St::Ready { t = Some(i); break } }
                match t {
                    Some(t) => { rr = t + 1; (t, tail_budget) }
                    None => {
                        // Everybody waits: let a timed wait run out, if there is one.
                        let tw = (0..n).find(|i| matches!(sc().slots[*i].st, St::Blocked(_, true)));
                        match tw { Some(i) => { sc().slots[i].timed_out = true; sc().slots[i].st = St::Ready; continue } None => { deadlock = true; die(DIE_DEADLOCK) } }
                    }
                }
            };
            if t >= n || sc().slots[t].st != St::Ready { continue }
            if t != last { sc().switches += 1; last = t }
            sc().slots[t].remaining = b.max(1);
            futex_wake(&sc().slots[t].go);
            futex_wait(&sc().ctl);
            if sc().slots[t].st == St::Done { if let Some(h) = handles[t].take() { h.join().unwrap_or_else(|_| die(DIE_HARNESS)); } }
        }
    });
    let x = sc();
    Ran { preempts: x.preempts, switches: x.switches, blocks: x.blocks, sig: x.sig, trace: std::mem::take(&mut x.trace), deadlock }
}

struct SendPtr(*mut Slot);
unsafe impl Send for SendPtr {}
