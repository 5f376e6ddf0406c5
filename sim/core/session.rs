//! One session of the code under test, driven request by request.
use crate::hooks::*;

/// What a request returned: the real value, kept alive, readable at any time.
pub trait Kept { fn show(&self) -> String; fn is_end(&self) -> bool; }
/// A live lexer or parser session. Implemented in the glue crate over the real code.
pub trait Sess {
    fn step(&mut self) -> Box<dyn Kept>;
    fn pos(&self) -> u32;
    /// Description of the lookahead token, if the session has one ("" if not).
    fn look(&self) -> String;
}
pub type Factory = fn(api: &str, text: &str) -> Box<dyn Sess>;
static mut FACTORY: Option<Factory> = None;
pub fn set_factory(f: Factory) { unsafe { FACTORY = Some(f) } }
pub fn factory() -> Factory { unsafe { FACTORY.expect("factory") } }

#[derive(Clone, PartialEq, Debug)]
pub enum State { Fresh, Active, Ended, Cancelled, Panicked(String), Dropped }

pub struct Run {
    pub ctx: Box<Ctx>,
    pub api: String,
    pub text: String,
    pub sess: Option<Box<dyn Sess>>,
    pub kept: Vec<Box<dyn Kept>>,
    pub out: Vec<String>,
    pub state: State,
    pub keep: bool,
    pub cap: usize,
}

pub static mut PANIC_AT: String = String::new();

#[allow(static_mut_refs)]
pub fn install_panic_hook() {
    std::alloc::set_alloc_error_hook(out_of_memory);
    std::panic::set_hook(Box::new(|i| {
        let c = CUR.with(|x| x.replace(std::ptr::null_mut()));
        let loc = i.location().map(|l| { let f = l.file(); format!("{}:{}", f.rsplit('/').next().unwrap_or(f), l.line()) }).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        unsafe { PANIC_AT = format!("{} ({})", m, loc); }
        if c.is_null() { eprintln!("harness panic: {} ({})", m, loc) }
        CUR.with(|x| x.set(c));
    }));
}

impl Run {
    pub fn new(id: u64, api: &str, text: &str) -> Run {
        let n = text.chars().count();
        Run { ctx: Box::new(Ctx::new(id)), api: api.into(), text: text.into(), sess: None, kept: vec![], out: vec![], state: State::Fresh, keep: false, cap: n * 3 + 60 }
    }
    pub fn ended(&self) -> bool { !matches!(self.state, State::Fresh | State::Active) }

    /// One call into the code under test under this session's context; catches cancellation and panics.
    #[allow(static_mut_refs)]
    fn guarded<R>(&mut self, f: impl FnOnce(&mut Run) -> R) -> Option<R> {
        NEXT.with(|n| n.set(&mut *self.ctx as *mut Ctx));
        let me = self as *mut Run;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { f(&mut *me) }));
        force_leave();
        NEXT.with(|n| n.set(std::ptr::null_mut()));
        match r {
            Ok(v) => Some(v),
            Err(p) => {
                if p.downcast_ref::<Cancel>().is_some() { self.state = State::Cancelled } else { self.state = State::Panicked(unsafe { PANIC_AT.clone() }) }
                drop(p);
                self.sess = None;
                None
            }
        }
    }
    pub fn open(&mut self) {
        if self.state != State::Fresh { return }
        let r = self.guarded(|s| factory()(&s.api, &s.text));
        if let Some(x) = r { self.sess = Some(x); self.state = State::Active }
    }
    /// One request. Returns false when the session has ended (one way or another).
    pub fn step(&mut self) -> bool {
        if self.state == State::Fresh { self.open(); if self.state != State::Active { return false } }
        if self.state != State::Active { return false }
        match self.raw_step() {
            Some(true) => { self.state = State::Ended; false }
            Some(false) => {
                if self.out.len() >= self.cap { self.out.push("<<no end of text after that many requests>>".into()); self.state = State::Ended; return false }
                true
            }
            None => false,
        }
    }
    /// One request even after the end (request histories); Some(is_end) or None if it did not return.
    pub fn raw_step(&mut self) -> Option<bool> {
        let r = self.guarded(|s| s.sess.as_mut().expect("open session").step());
        let k = r?;
        let e = k.is_end();
        self.out.push(k.show());
        if self.keep { self.kept.push(k) }
        Some(e)
    }
    pub fn pos(&mut self) -> Option<u32> { self.guarded(|s| s.sess.as_ref().expect("open session").pos()) }
    pub fn finish(&mut self) { while self.step() {} }
    pub fn drop_session(&mut self) { self.sess = None; if !self.ended() { self.state = State::Dropped } }
    pub fn result(&self) -> Vec<String> {
        let mut o = self.out.clone();
        match &self.state {
            State::Panicked(m) => o.push(format!("<<panic: {}>>", m)),
            State::Cancelled => o.push("<<cancelled>>".into()),
            State::Dropped => o.push("<<dropped>>".into()),
            _ => {}
        }
        o
    }
}

/// What one undisturbed session in a pristine process did.
#[derive(Clone, Default, Debug)]
pub struct Solo { pub out: Vec<String>, pub ticks: u64, pub reads: u64, pub allocs: u64, pub bytes: u64, pub io: u64, pub peak: i64, pub left: i64, pub panicked: bool, pub step_reads: Vec<u64>, pub step_pos: Vec<u64>, pub step_ticks: Vec<u64> }

pub struct W(pub Vec<u8>);
impl W {
    pub fn u(&mut self, v: u64) -> &mut W { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn s(&mut self, v: &str) -> &mut W { self.u(v.len() as u64); self.0.extend_from_slice(v.as_bytes()); self }
    pub fn v(&mut self, v: &[String]) -> &mut W { self.u(v.len() as u64); for x in v { self.s(x); } self }
    pub fn n(&mut self, v: &[u64]) -> &mut W { self.u(v.len() as u64); for x in v { self.u(*x); } self }
}
pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    pub fn u(&mut self) -> u64 { if self.0.len() < 8 { return 0 } let (a, b) = self.0.split_at(8); self.0 = b; u64::from_le_bytes(a.try_into().unwrap()) }
    pub fn s(&mut self) -> String { let n = (self.u() as usize).min(self.0.len()); let (a, b) = self.0.split_at(n); self.0 = b; String::from_utf8_lossy(a).into_owned() }
    pub fn v(&mut self) -> Vec<String> { let n = self.u(); (0..n).map(|_| self.s()).collect() }
    pub fn n(&mut self) -> Vec<u64> { let n = self.u(); (0..n).map(|_| self.u()).collect() }
}

impl Solo {
    pub fn enc(&self) -> Vec<u8> {
        let mut w = W(vec![]);
        w.v(&self.out).u(self.ticks).u(self.reads).u(self.allocs).u(self.bytes).u(self.io).u(self.peak as u64).u(self.left as u64).u(self.panicked as u64).n(&self.step_reads).n(&self.step_pos).n(&self.step_ticks);
        w.0
    }
    pub fn dec(b: &[u8]) -> Solo {
        let mut r = R(b);
        Solo { out: r.v(), ticks: r.u(), reads: r.u(), allocs: r.u(), bytes: r.u(), io: r.u(), peak: r.u() as i64, left: r.u() as i64, panicked: r.u() != 0, step_reads: r.n(), step_pos: r.n(), step_ticks: r.n() }
    }
    pub fn of(run: &mut Run) -> Solo {
        use std::sync::atomic::Ordering::Relaxed;
        let (mut sr, mut sp, mut st) = (vec![], vec![], vec![]);
        loop {
            let go = run.step();
            sr.push(run.ctx.reads);
            st.push(run.ctx.ticks);
            if run.sess.is_some() && matches!(run.state, State::Active | State::Ended) { sp.push(run.pos().unwrap_or(0) as u64) }
            if !go { break }
        }
        run.drop_session();
        Solo { out: run.result(), ticks: run.ctx.ticks, reads: run.ctx.reads, allocs: run.ctx.allocs, bytes: run.ctx.bytes, io: amb().n_io, peak: PEAK.load(Relaxed), left: LIVE_BYTES.load(Relaxed),
               panicked: matches!(run.state, State::Panicked(_)), step_reads: sr, step_pos: sp, step_ticks: st }
    }
}

pub const TICKS_MAX: u64 = 100_000_000;
pub const WALL: u64 = 150;
/// Outside the ambient property, system services seen by code under test are simulated, too, with fixed answers.
pub fn base_ambient() { let a = amb(); a.active = true; a.env = 11; a.clock = 2; a.random = 12; a.now = 1_700_000_000_000_000_000; }
pub const STACK: usize = 64 << 20;

/// Runs `f` on a fresh big-stack thread of the current process (no slot, no preemption) and returns its result.
pub fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).expect("spawn").join()).unwrap_or_else(|_| die(DIE_HARNESS))
}

/// The oracle for most properties: the session alone, in a pristine process.
pub fn solo(api: &str, text: &str, tick_limit: u64) -> Result<Solo, crate::child::End> {
    let (api, text) = (api.to_string(), text.to_string());
    let e = crate::child::fork_run(WALL, &mut || {
        base_ambient();
        on_thread(|| {
            let mut r = Run::new(1, &api, &text);
            r.ctx.tick_limit = tick_limit;
            Solo::of(&mut r).enc()
        })
    });
    match e { crate::child::End::Ok(b) => Ok(Solo::dec(&b)), o => Err(o) }
}
