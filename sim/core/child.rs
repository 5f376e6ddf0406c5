//! Runs a piece of work in a forked child: pristine process state for every episode, and a safe place to crash.
use crate::hooks::*;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn close(f: i32) -> i32;
    fn poll(p: *mut [i32; 2], n: u64, ms: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, pr: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
    fn dup2(a: i32, b: i32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

#[derive(Clone, Debug, PartialEq)]
pub enum End { Ok(Vec<u8>), Signal(i32), Code(i32), Timeout }

impl End {
    pub fn describe(&self) -> String {
        match self {
            End::Ok(_) => "finished".into(),
            End::Signal(6) => "process aborted (SIGABRT)".into(),
            End::Signal(11) => "process crashed (SIGSEGV)".into(),
            End::Signal(s) => format!("process killed by signal {}", s),
            End::Code(c) if *c == DIE_TICKS => "no end within the tick limit (hang)".into(),
            End::Code(c) if *c == DIE_MEM => "memory grew without bound".into(),
            End::Code(c) if *c == DIE_DEADLOCK => "deadlock: every thread waits".into(),
            End::Code(c) => format!("process exited with {}", c),
            End::Timeout => "no end within the wall clock limit (hang)".into(),
        }
    }
    pub fn harness_error(&self) -> bool { matches!(self, End::Code(c) if *c == DIE_HARNESS) }
}

pub static mut QUIET: bool = true;

pub fn fork_run(wall_s: u64, f: &mut dyn FnMut() -> Vec<u8>) -> End {
    unsafe {
        let mut fd = [0i32; 2];
        if pipe(fd.as_mut_ptr()) != 0 { eprintln!("harness: pipe failed"); std::process::exit(2) }
        let pid = fork();
        if pid < 0 { eprintln!("harness: fork failed"); std::process::exit(2) }
        if pid == 0 {
            close(fd[0]);
            let lim = [0u64, 0];
            setrlimit(4, &lim); // no core files
            if QUIET {
                let z = b"/dev/null\0";
                let n = open64(z.as_ptr(), 2, 0);
                if n >= 0 { dup2(n, 2); dup2(n, 1); close(n); }
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
            match r {
                Ok(b) => {
                    let mut o = 0;
                    while o < b.len() { let k = sys3(1, fd[1] as i64, b.as_ptr().add(o) as i64, (b.len() - o) as i64); if k <= 0 { die(DIE_HARNESS) } o += k as usize; }
                    die(0)
                }
                Err(_) => die(DIE_HARNESS),
            }
        }
        close(fd[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        let t0 = std::time::Instant::now();
        let mut timeout = false;
        loop {
            let left = (wall_s * 1000) as i64 - t0.elapsed().as_millis() as i64;
            if left <= 0 { timeout = true; break }
            let mut p = [fd[0], 1];
            let r = poll(&mut p, 1, left.min(1000) as i32);
            if r == 0 { continue }
            let k = sys3(0, fd[0] as i64, buf.as_mut_ptr() as i64, buf.len() as i64);
            if k == -4 { continue }
            if k <= 0 { break }
            out.extend_from_slice(&buf[..k as usize]);
        }
        if timeout { kill(pid, 9); }
        close(fd[0]);
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        if timeout { return End::Timeout }
        if st & 0x7f != 0 { return End::Signal(st & 0x7f) }
        let code = (st >> 8) & 0xff;
        if code != 0 { return End::Code(code) }
        End::Ok(out)
    }
}

/// Starts a worker process; returns its pid and the read end of its pipe.
pub fn spawn(f: &mut dyn FnMut() -> Vec<u8>) -> (i32, i32) {
    unsafe {
        let mut fd = [0i32; 2];
        if pipe(fd.as_mut_ptr()) != 0 { eprintln!("harness: pipe failed"); std::process::exit(2) }
        let pid = fork();
        if pid < 0 { eprintln!("harness: fork failed"); std::process::exit(2) }
        if pid == 0 {
            close(fd[0]);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
            if let Ok(b) = r {
                let mut o = 0;
                while o < b.len() { let k = sys3(1, fd[1] as i64, b.as_ptr().add(o) as i64, (b.len() - o) as i64); if k <= 0 { break } o += k as usize; }
                die(0)
            }
            die(DIE_HARNESS)
        }
        close(fd[1]);
        (pid, fd[0])
    }
}

pub fn collect(w: (i32, i32)) -> Result<Vec<u8>, String> {
    unsafe {
        let mut out = Vec::new();
        let mut buf = vec![0u8; 65536];
        loop {
            let k = sys3(0, w.1 as i64, buf.as_mut_ptr() as i64, buf.len() as i64);
            if k == -4 { continue }
            if k <= 0 { break }
            out.extend_from_slice(&buf[..k as usize]);
        }
        close(w.1);
        let mut st = 0;
        while waitpid(w.0, &mut st, 0) < 0 {}
        if st != 0 { return Err(format!("worker ended with status {}", st)) }
        Ok(out)
    }
}

pub fn shared(n: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0);
        if p as isize == -1 { eprintln!("harness: mmap failed"); std::process::exit(2) }
        p
    }
}
