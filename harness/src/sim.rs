//! Interface to sim/sim.c.
use serde::{Deserialize, Serialize};
use std::{ffi::CString, os::raw::c_char, os::raw::c_void};

pub const F_SPURIOUS: usize = 0;
pub const F_STALL: usize = 1;
pub const F_SPAWN: usize = 2;
pub const F_RTJUMP: usize = 3;
pub const F_OPEN_ERR: usize = 4;
pub const F_READ_SHORT: usize = 5;
pub const F_READ_EINTR: usize = 6;
pub const F_READ_ERR: usize = 7;
pub const F_WRITE_SHORT: usize = 8;
pub const F_WRITE_EINTR: usize = 9;
pub const F_WRITE_ERR: usize = 10;
pub const F_DISK_FULL: usize = 11;
pub const F_MKDIR_ERR: usize = 12;
pub const F_MISC_ERR: usize = 13;
pub const F_KILL: usize = 14;
pub const F_STDOUT_ERR: usize = 15;
pub const F_ENTROPY: usize = 16;
pub const F_KINDS: usize = 17;
pub const FAULT_NAMES: [&str; F_KINDS] = [
    "spurious_wakeup",
    "thread_stall",
    "thread_start_fails",
    "wall_clock_jump",
    "open_error",
    "short_read",
    "interrupted_read",
    "read_error",
    "short_write",
    "interrupted_write",
    "write_error",
    "disk_full",
    "mkdir_error",
    "other_file_error",
    "process_kill",
    "stdout_error",
    "entropy_short_or_interrupted",
];

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct SimRec {
    pub tid: u32,
    pub cls: u32,
    pub key: u64,
    pub val: u64,
}

#[repr(C)]
struct RawCfg {
    seed: u64,
    entropy_seed: u64,
    strategy: u32,
    preempt_mean: u32,
    ns_per_tick: u32,
    rare: u32,
    rare_ppm: u32,
    p_stay: u32,
    tick_cap: u64,
    fair_ticks: u64,
    stall_max_ns: u64,
    disk_budget: u64,
    kill_io: u64,
    kill_wr: u64,
    kill_tick: u64,
    ppm: [u32; F_KINDS],
    fault_after: u32,
    fs_prefix: *const c_char,
    script: *const SimRec,
    nscript: usize,
    start_ns: u64,
    ncpu: u64,
}

#[repr(C)]
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Report {
    pub status: i32,
    pub root_done: i32,
    pub ticks: u64,
    pub clock_ns: u64,
    pub idle_ns: u64,
    pub switches: u64,
    pub decisions: u64,
    pub hash: u64,
    pub inter_hash: u64,
    pub nthreads: u64,
    pub max_alive: u64,
    pub io_ops: u64,
    pub edges: u64,
    pub faults: [u64; F_KINDS],
    pub wr_ops: u64,
    pub workers: u64,
}

extern "C" {
    fn sim_run(cfg: *const RawCfg, f: extern "C" fn(*mut c_void), arg: *mut c_void, rep: *mut Report);
    fn sim_log(out: *mut *const SimRec) -> usize;
    fn sim_now() -> u64;
    fn sim_ticks() -> u64;
    fn sim_thread_ticks(tid: i32) -> u64;
    fn sim_thread_yields(tid: i32) -> u64;
    fn sim_unfinished(creator: i32, lo: u64, hi: u64) -> u64;
    fn sim_tid() -> i32;
    fn sim_threads_created() -> u64;
    fn sim_alive() -> u64;
    fn sim_faults_fired(kind: i32) -> u64;
    fn sim_yield_point();
    fn sim_atomic(d: i32);
    fn sim_calm();
    fn sim_share_cov();
    fn sim_edges_hit() -> u64;
    fn sim_edges_total() -> u64;
}

/// Everything the simulator decides, as data.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct SimSpec {
    pub seed: u64,
    pub entropy: u64,
    pub strategy: u32,
    pub preempt_mean: u32,
    pub ns_per_tick: u32,
    pub p_stay: u32,
    pub rare: u32,
    pub rare_ppm: u32,
    pub tick_cap: u64,
    pub fair_ticks: u64,
    pub stall_max_ns: u64,
    pub disk_budget: Option<u64>,
    pub kill_io: u64,
    pub kill_wr: u64,
    pub kill_tick: u64,
    pub ppm: [u32; F_KINDS],
    pub fault_after: u32,
    pub start_ns: u64,
    /// processors of the simulated machine
    pub ncpu: u64,
    /// explicit decisions (thread, class, key, value); used with strategy 2
    pub script: Vec<(u32, u32, u64, u64)>,
}

impl Default for SimSpec {
    fn default() -> Self {
        SimSpec {
            seed: 1,
            entropy: 1,
            strategy: 0,
            preempt_mean: 0,
            ns_per_tick: 1,
            p_stay: 0,
            rare: 0,
            rare_ppm: 0,
            tick_cap: 50_000_000,
            fair_ticks: 50_000,
            stall_max_ns: 0,
            disk_budget: None,
            kill_io: 0,
            kill_wr: 0,
            kill_tick: 0,
            ppm: [0; F_KINDS],
            fault_after: 0,
            start_ns: 1_000_000_000,
            ncpu: 1,
            script: Vec::new(),
        }
    }
}

struct Root<'a>(Option<Box<dyn FnOnce() + Send + 'a>>);

extern "C" fn root(p: *mut c_void) {
    let r = unsafe { &mut *(p as *mut Root) };
    let f = r.0.take().unwrap();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
}

/// Run `f` as the root thread of a simulated execution.
pub fn run(spec: &SimSpec, fs_prefix: Option<&str>, f: Box<dyn FnOnce() + Send + '_>) -> Report {
    let prefix = fs_prefix.map(|p| CString::new(p).unwrap());
    let mut script: Vec<SimRec> = spec
        .script
        .iter()
        .map(|&(tid, cls, key, val)| SimRec { tid, cls, key, val })
        .collect();
    script.sort();
    let cfg = RawCfg {
        seed: spec.seed,
        entropy_seed: spec.entropy,
        strategy: spec.strategy,
        preempt_mean: spec.preempt_mean,
        ns_per_tick: spec.ns_per_tick,
        p_stay: spec.p_stay,
        rare: spec.rare,
        rare_ppm: spec.rare_ppm,
        tick_cap: spec.tick_cap,
        fair_ticks: spec.fair_ticks,
        stall_max_ns: spec.stall_max_ns,
        disk_budget: spec.disk_budget.unwrap_or(u64::MAX),
        kill_io: spec.kill_io,
        kill_wr: spec.kill_wr,
        kill_tick: spec.kill_tick,
        ppm: spec.ppm,
        fault_after: spec.fault_after,
        fs_prefix: prefix.as_ref().map_or(std::ptr::null(), |p| p.as_ptr()),
        script: script.as_ptr(),
        nscript: script.len(),
        start_ns: spec.start_ns,
        ncpu: spec.ncpu,
    };
    let mut rep = Report::default();
    let mut r = Root(Some(f));
    unsafe { sim_run(&cfg, root, &mut r as *mut Root as *mut c_void, &mut rep) };
    rep
}

/// The configuration file of the whole-process mode.
pub fn cli_cfg(spec: &SimSpec, fs_prefix: &str, out: &str) -> String {
    let mut s = String::new();
    let mut kv = |k: &str, v: u64| s.push_str(&format!("{k} {v}\n"));
    kv("seed", spec.seed);
    kv("entropy_seed", spec.entropy);
    kv("strategy", spec.strategy as u64);
    kv("preempt_mean", spec.preempt_mean as u64);
    kv("ns_per_tick", spec.ns_per_tick as u64);
    kv("p_stay", spec.p_stay as u64);
    kv("rare", spec.rare as u64);
    kv("rare_ppm", spec.rare_ppm as u64);
    kv("tick_cap", spec.tick_cap);
    kv("fair_ticks", spec.fair_ticks);
    kv("stall_max_ns", spec.stall_max_ns);
    kv("disk_budget", spec.disk_budget.unwrap_or(u64::MAX));
    kv("kill_io", spec.kill_io);
    kv("kill_wr", spec.kill_wr);
    kv("kill_tick", spec.kill_tick);
    kv("fault_after", spec.fault_after as u64);
    kv("start_ns", spec.start_ns);
    kv("ncpu", spec.ncpu);
    for (i, p) in spec.ppm.iter().enumerate() {
        s.push_str(&format!("ppm {i} {p}\n"));
    }
    s.push_str(&format!("fs_prefix {fs_prefix}\nout {out}\n"));
    let mut script = spec.script.clone();
    script.sort();
    for (a, b, c, d) in script {
        s.push_str(&format!("rec {a} {b} {c} {d}\n"));
    }
    s
}

pub fn parse_cli_report(text: &str) -> Option<(Report, Vec<(u32, u32, u64, u64)>)> {
    let mut r = Report { status: -1, ..Default::default() };
    let mut log = Vec::new();
    for l in text.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok());
        match *w.first()? {
            "status" => r.status = n(1)? as i32,
            "root_done" => r.root_done = n(1)? as i32,
            "ticks" => r.ticks = n(1)?,
            "clock_ns" => r.clock_ns = n(1)?,
            "idle_ns" => r.idle_ns = n(1)?,
            "switches" => r.switches = n(1)?,
            "decisions" => r.decisions = n(1)?,
            "hash" => r.hash = n(1)?,
            "inter_hash" => r.inter_hash = n(1)?,
            "nthreads" => r.nthreads = n(1)?,
            "max_alive" => r.max_alive = n(1)?,
            "workers" => r.workers = n(1)?,
            "io_ops" => r.io_ops = n(1)?,
            "wr_ops" => r.wr_ops = n(1)?,
            "edges" => r.edges = n(1)?,
            "fault" => r.faults[n(1)? as usize] = n(2)?,
            "rec" => log.push((n(1)? as u32, n(2)? as u32, n(3)?, n(4)?)),
            _ => {},
        }
    }
    Some((r, log))
}

pub fn log() -> Vec<(u32, u32, u64, u64)> {
    let mut p = std::ptr::null();
    unsafe {
        let n = sim_log(&mut p);
        if n == 0 {
            return Vec::new();
        }
        std::slice::from_raw_parts(p, n)
            .iter()
            .map(|r| (r.tid, r.cls, r.key, r.val))
            .collect()
    }
}
pub fn now() -> u64 {
    unsafe { sim_now() }
}
pub fn ticks() -> u64 {
    unsafe { sim_ticks() }
}
pub fn thread_ticks(tid: i32) -> u64 {
    unsafe { sim_thread_ticks(tid) }
}
/// ticks of a thread without those it may have spent spinning for another thread
pub fn thread_work(tid: i32) -> u64 {
    thread_ticks(tid).saturating_sub(1000 * unsafe { sim_thread_yields(tid) })
}
/// threads started by `creator` as number lo+1 ..= hi that have not ended
pub fn unfinished(creator: i32, lo: u64, hi: u64) -> u64 {
    unsafe { sim_unfinished(creator, lo, hi) }
}
pub fn tid() -> i32 {
    unsafe { sim_tid() }
}
pub fn threads_created() -> u64 {
    unsafe { sim_threads_created() }
}
pub fn alive() -> u64 {
    unsafe { sim_alive() }
}
pub fn faults_fired(kind: usize) -> u64 {
    unsafe { sim_faults_fired(kind as i32) }
}
pub fn yield_point() {
    unsafe { sim_yield_point() }
}
pub fn share_cov() {
    unsafe { sim_share_cov() }
}
pub fn edges_hit() -> u64 {
    unsafe { sim_edges_hit() }
}
pub fn edges_total() -> u64 {
    unsafe { sim_edges_total() }
}

/// From now on no file operation of the run fails.
pub fn calm() {
    unsafe { sim_calm() }
}

/// While it lives, the current thread is not preempted (used for the harness's own bookkeeping).
pub struct Atomic;
impl Atomic {
    pub fn enter() -> Self {
        unsafe { sim_atomic(1) };
        Atomic
    }
}
impl Drop for Atomic {
    fn drop(&mut self) {
        unsafe { sim_atomic(-1) };
    }
}
