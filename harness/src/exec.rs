//! Executing one case in a forked child.
use crate::types::{Case, Outcome};
use std::{
    io::Read,
    os::fd::FromRawFd,
    sync::atomic::{AtomicU64, Ordering},
    time::Instant,
};

pub const WALL_LIMIT: u64 = 120_000;
pub static WALL_LIMIT_MS: AtomicU64 = AtomicU64::new(WALL_LIMIT);

/// How a case is run; the function lives in the instrumented binary.
pub type RunFn = fn(&Case, &Opts) -> Outcome;

#[derive(Clone, Default)]
pub struct Opts {
    pub want_log: bool,
    pub scratch: String,
    pub verbose: bool,
    pub simcli: String,
}

/// Newer kernels give each multi-threaded process a futex hash of its own, and free its address
/// space only some time after its end; a high rate of such processes fills the memory. This asks
/// for the global hash instead (older kernels refuse, and do not need it).
fn global_futex_hash() {
    const PR_FUTEX_HASH: i32 = 78;
    const PR_FUTEX_HASH_SET_SLOTS: u64 = 1;
    unsafe {
        libc::prctl(PR_FUTEX_HASH, PR_FUTEX_HASH_SET_SLOTS, 0u64, 0u64, 0u64);
    }
}

/// Fork, run, collect. An abort, crash or wall-clock timeout of the child becomes part of the
/// outcome.
pub fn forked(case: &Case, opts: &Opts, f: RunFn) -> Outcome {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Outcome { error: Some("pipe".into()), ..Default::default() };
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return Outcome { error: Some("fork".into()), ..Default::default() };
        }
        if pid == 0 {
            libc::close(fds[0]);
            global_futex_hash();
            if !opts.verbose {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                if n >= 0 {
                    libc::dup2(n, 2);
                }
            }
            let o = f(case, opts);
            let s = serde_json::to_vec(&o).unwrap();
            let mut off = 0;
            while off < s.len() {
                let n = libc::write(fds[1], s[off..].as_ptr() as *const _, s.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let start = Instant::now();
        let limit = WALL_LIMIT_MS.load(Ordering::Relaxed);
        let mut file = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = Vec::new();
        let mut timed_out = false;
        loop {
            let left = limit.saturating_sub(start.elapsed().as_millis() as u64);
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut p, 1, left.min(i32::MAX as u64) as i32);
            if n == 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if n < 0 {
                continue;
            }
            let mut chunk = [0u8; 65536];
            match file.read(&mut chunk) {
                Ok(0) => break,
                Ok(k) => buf.extend_from_slice(&chunk[..k]),
                Err(_) => break,
            }
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        if timed_out {
            return Outcome { error: Some("wall-clock limit of one run exceeded".into()), ..Default::default() };
        }
        if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            if sig == libc::SIGKILL {
                return Outcome { error: Some("a run was killed (memory?)".into()), ..Default::default() };
            }
            return Outcome {
                viol: Some(("abort".into(), format!("the process died from signal {sig}"))),
                nontrivial: true,
                evals: 1,
                ..Default::default()
            };
        }
        let code = libc::WEXITSTATUS(status);
        match serde_json::from_slice(&buf) {
            Ok(o) => o,
            Err(_) => Outcome {
                error: Some(format!("a run ended with status {code} and no outcome")),
                ..Default::default()
            },
        }
    }
}
