//! Orchestration: workers, evidence, violations, replays.
use crate::{
    cases,
    exec::{forked, Opts, RunFn},
    rng::{hash_bytes, mix},
    shrink,
    sim::{FAULT_NAMES, F_KINDS},
    types::*,
};
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, BTreeSet},
    io::{BufRead, BufReader, Write},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
struct Stats {
    runs: u64,
    evals: u64,
    nontrivial: u64,
    ticks: u64,
    sim_ns: u64,
    switches: u64,
    threads: u64,
    max_alive: u64,
    io_ops: u64,
    faults: [u64; F_KINDS],
    runs_with_fault: [u64; F_KINDS],
    status: [u64; 4],
    probes: BTreeMap<String, u64>,
    inter: BTreeSet<u64>,
    distinct: BTreeSet<u64>,
    rechecked: u64,
    mismatches: u64,
    edges: u64,
    edges_total: u64,
    last: u64,
    cut: bool,
}

#[derive(Serialize, Deserialize)]
enum Msg {
    Viol { idx: u64, case: Box<Case>, class: String, text: String },
    Error { idx: u64, text: String },
    Done(Box<Stats>),
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned()
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn scratch() -> String {
    let base = if std::fs::metadata("/dev/shm").is_ok_and(|m| m.is_dir())
        && std::fs::write(format!("/dev/shm/.dst-{}", std::process::id()), b"x").is_ok()
    {
        let _ = std::fs::remove_file(format!("/dev/shm/.dst-{}", std::process::id()));
        "/dev/shm"
    } else {
        "/tmp"
    };
    let d = format!("{base}/dst-{:010}", std::process::id());
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

fn opts() -> Opts {
    let me = std::env::current_exe().unwrap();
    let cli = me.parent().unwrap().join("simcli");
    Opts { scratch: scratch(), simcli: cli.to_string_lossy().into_owned(), ..Default::default() }
}

pub fn main(f: RunFn) {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let code = match cmd.as_str() {
        "check" => check(),
        "worker" => worker(f),
        "shrink" => do_shrink(f),
        "replay" => replay(f),
        "show" => show(f),
        "selftest" => selftest(f),
        _ => {
            eprintln!("usage: dst check|worker|shrink|replay|show|selftest ...");
            2
        },
    };
    std::process::exit(code);
}

fn pin(core: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let avail: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if avail.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(avail[core % avail.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

struct Cleanup(String);
impl Drop for Cleanup {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Runs the cases with index = from, from + step, ... < count of one variant.
fn worker(f: RunFn) -> i32 {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGTERM);
    }
    let prop = arg("--prop").unwrap();
    let seed = num("--seed", 1);
    let count = num("--count", 100);
    let from = num("--from", 0);
    let step = num("--step", 2);
    let recheck = num("--recheck", 40);
    let slow = std::env::var("DST_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let deadline = Instant::now() + Duration::from_secs(num("--secs", 600));
    pin(num("--core", 0) as usize);
    let opts = opts();
    let _c = Cleanup(opts.scratch.clone());
    crate::sim::share_cov();
    let mut st = Stats::default();
    let out = std::io::stdout();
    let mut idx = from;
    let mut nrun = 0u64;
    while idx < count {
        if Instant::now() > deadline {
            st.cut = true;
            break;
        }
        let case = cases::make(&prop, seed, idx);
        let t0 = Instant::now();
        let mut o = forked(&case, &opts, f);
        if o.error.is_some() {
            o = forked(&case, &opts, f);
        }
        let ms = t0.elapsed().as_millis() as u64;
        if ms >= slow {
            eprintln!("slow {prop} {idx} {ms} ms {} ticks {} switches {} threads", o.report.ticks, o.report.switches, o.report.nthreads);
        }
        nrun += 1;
        st.last = idx;
        if let Some(e) = &o.error {
            let m = Msg::Error { idx, text: e.clone() };
            writeln!(out.lock(), "{}", serde_json::to_string(&m).unwrap()).unwrap();
            idx += step;
            continue;
        }
        st.runs += 1;
        st.evals += o.evals;
        st.ticks += o.report.ticks;
        st.sim_ns = st.sim_ns.saturating_add(o.report.clock_ns);
        st.switches += o.report.switches;
        st.threads += o.report.nthreads;
        st.max_alive = st.max_alive.max(o.report.max_alive);
        st.io_ops += o.report.io_ops;
        st.status[o.report.status.clamp(0, 3) as usize] += 1;
        for k in 0..F_KINDS {
            st.faults[k] += o.report.faults[k];
            st.runs_with_fault[k] += (o.report.faults[k] > 0) as u64;
        }
        for p in &o.probes {
            *st.probes.entry(p.clone()).or_insert(0) += 1;
        }
        st.inter.insert(o.report.inter_hash);
        if o.nontrivial {
            st.nontrivial += 1;
            st.distinct.insert(o.digest);
        }
        if let Some((class, text)) = &o.viol {
            let m = Msg::Viol { idx, case: Box::new(case.clone()), class: class.clone(), text: text.clone() };
            writeln!(out.lock(), "{}", serde_json::to_string(&m).unwrap()).unwrap();
        } else if recheck > 0 && nrun % recheck == 0 {
            let p = forked(&case, &opts, f);
            st.rechecked += 1;
            if p.digest != o.digest || p.report.hash != o.report.hash {
                st.mismatches += 1;
            }
        }
        idx += step;
    }
    st.edges = crate::sim::edges_hit();
    st.edges_total = crate::sim::edges_total();
    writeln!(out.lock(), "{}", serde_json::to_string(&Msg::Done(Box::new(st))).unwrap()).unwrap();
    0
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub violation: String,
    pub found: String,
    pub schedule: String,
    pub case: Case,
}

fn class_list(prop: &str, class: &str) -> bool {
    // an abort of the process is a violation only where the property speaks about the call's end
    !(class == "abort" && matches!(prop, "C01" | "C02" | "C04"))
}

#[derive(Deserialize)]
struct Known {
    property: String,
    status: String,
    #[serde(default)]
    class: String,
    #[serde(default)]
    matches: String,
    what: String,
}

fn known(dir: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{dir}/known_findings.json")).unwrap_or_else(|_| "[]".into());
    serde_json::from_str::<Vec<Known>>(&t).expect("known_findings.json")
}

fn check() -> i32 {
    let prop = std::env::args().nth(2).unwrap_or_default();
    let Some(info) = cases::info(&prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let start = Instant::now();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(num("--seed", 1));
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") || arg("--tier").is_some_and(|t| t == "thorough");
    let dir = arg("--dir").unwrap_or_else(|| "/verif".into());
    let bins = [arg("--debug").unwrap(), arg("--release").unwrap()];
    let count = num("--count", if thorough { info.thorough } else { info.quick });
    let secs = num("--secs", if thorough { 3 * 3600 } else { 90 });
    let ncpu = std::thread::available_parallelism().map_or(4, |x| x.get());
    let per = num("--workers", (ncpu as u64 / 2).clamp(1, 16));
    println!("property {prop}: seed {seed}, {count} runs, {} workers", 2 * per);

    // a message of a lane; None when its worker ended
    let (tx, rx) = std::sync::mpsc::channel::<(usize, Option<Msg>)>();
    let mut readers = Vec::new();
    let mut start_lane = |lane: u64| {
        let (variant, k) = (lane % 2, lane / 2);
        let mut c = Command::new(&bins[variant as usize])
            .args(["worker", "--prop", &prop])
            .args(["--seed", &seed.to_string()])
            .args(["--count", &count.to_string()])
            .args(["--from", &lane.to_string()])
            .args(["--step", &(2 * per).to_string()])
            .args(["--secs", &secs.saturating_sub(start.elapsed().as_secs()).max(5).to_string()])
            .args(["--core", &(variant * per + k).to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .expect("worker");
        let o = c.stdout.take().unwrap();
        let tx = tx.clone();
        readers.push(std::thread::spawn(move || {
            for l in BufReader::new(o).lines() {
                let Ok(l) = l else { break };
                if let Ok(m) = serde_json::from_str::<Msg>(&l) {
                    let _ = tx.send((lane as usize, Some(m)));
                }
            }
            let _ = tx.send((lane as usize, None));
        }));
        c
    };
    let mut kids: Vec<_> = (0..2 * per).map(&mut start_lane).collect();
    let mut lane_done = vec![false; kids.len()];
    let mut restarts = 0;
    let known = known(&dir);
    let mut stats: Vec<Stats> = Vec::new();
    let mut viols: Vec<(u64, Case, String, String)> = Vec::new();
    let mut known_seen: BTreeSet<usize> = BTreeSet::new();
    let mut errors: Vec<String> = Vec::new();
    let mut nerr = 0u64;
    let mut ended = 0;
    let mut stop_at: Option<Instant> = None;
    while ended < kids.len() {
        let wait = stop_at.map_or(Duration::from_secs(3600), |t| t.saturating_duration_since(Instant::now()));
        match rx.recv_timeout(wait) {
            Ok((lane, None)) => {
                if lane_done[lane] {
                    ended += 1;
                } else if restarts < 4 {
                    // ended by something else (lack of memory): its cases again
                    restarts += 1;
                    let _ = kids[lane].wait();
                    kids[lane] = start_lane(lane as u64);
                } else {
                    ended += 1;
                    nerr += 1;
                    errors.push(format!("the worker of lane {lane} ended early"));
                }
            },
            Ok((lane, Some(Msg::Done(s)))) => {
                lane_done[lane] = true;
                stats.push(*s)
            },
            Ok((_, Some(Msg::Error { idx, text }))) => {
                nerr += 1;
                if errors.len() < 5 {
                    errors.push(format!("case {idx}: {text}"));
                }
            },
            Ok((_, Some(Msg::Viol { idx, case, class, text }))) => {
                if !class_list(&prop, &class) {
                    continue;
                }
                let js = serde_json::to_string(&case).unwrap();
                if let Some(k) = known.iter().position(|k| {
                    k.property == prop && k.status == "finding" && k.class == class && (js.contains(&k.matches) || text.contains(&k.matches))
                }) {
                    known_seen.insert(k);
                    continue;
                }
                viols.push((idx, *case, class, text));
                // a little longer, to report the earliest case
                if std::env::var_os("DST_ALL").is_none() {
                    stop_at.get_or_insert(Instant::now() + Duration::from_secs(2));
                }
            },
            Err(_) => break,
        }
        if stop_at.is_some_and(|t| Instant::now() >= t) {
            break;
        }
    }
    for k in kids.iter_mut() {
        unsafe { libc::kill(k.id() as i32, libc::SIGTERM) };
        let _ = k.wait();
    }
    for r in readers {
        let _ = r.join();
    }
    clean_scratch(&kids.iter().map(|k| k.id()).collect::<Vec<_>>());
    let wall = start.elapsed().as_secs_f64();
    evidence(&dir, &prop, info, seed, thorough, &stats, &viols, wall, per, nerr, &errors);
    for (i, k) in known.iter().enumerate() {
        if k.property == prop && k.status == "finding" {
            let _ = known_seen.contains(&i);
            println!("KNOWN-FINDING: property={prop} {}", k.what);
        }
    }
    let runs: u64 = stats.iter().map(|s| s.runs).sum();
    println!("{runs} runs in {wall:.1} s, {} violating, {nerr} errors", viols.len());
    if std::env::var_os("DST_ALL").is_some() {
        // only counts
        return !viols.is_empty() as i32;
    }
    if !viols.is_empty() {
        viols.sort_by_key(|v| v.0);
        let mut unreproduced = 0;
        for (idx, case, class, text) in viols.iter().take(5) {
            if let Some(path) = report(&dir, &prop, *idx, seed, case, class, text, &bins, thorough) {
                println!("VIOLATION property={prop} replay={path}");
                return 1;
            }
            unreproduced += 1;
        }
        println!("{unreproduced} violations did not reproduce");
        return 3;
    }
    if nerr > 0 {
        for e in &errors {
            println!("error: {e}");
        }
        return 2;
    }
    0
}

fn clean_scratch(pids: &[u32]) {
    for p in pids {
        for b in ["/dev/shm", "/tmp"] {
            let d = format!("{b}/dst-{p:010}");
            if std::path::Path::new(&d).is_dir() {
                let _ = std::fs::remove_dir_all(&d);
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn report(dir: &str, prop: &str, idx: u64, seed: u64, case: &Case, class: &str, text: &str, bins: &[String; 2], thorough: bool) -> Option<String> {
    let rdir = format!("{dir}/replays");
    std::fs::create_dir_all(&rdir).ok()?;
    let bin = if case.variant == "debug" { &bins[0] } else { &bins[1] };
    let raw = format!("{rdir}/{prop}-{seed}-{idx}.raw.json");
    let path = format!("{rdir}/{prop}-{seed}-{idx}.json");
    let rp = Replay {
        property: prop.into(),
        class: class.into(),
        violation: text.into(),
        found: format!("seed {seed}, case {idx}, {} variant", case.variant),
        schedule: "seeded".into(),
        case: case.clone(),
    };
    std::fs::write(&raw, serde_json::to_string_pretty(&rp).unwrap()).ok()?;
    let budget = if thorough { 300 } else { 45 };
    let _ = Command::new(bin)
        .args(["shrink", &raw, &path, "--secs", &budget.to_string()])
        .stdout(Stdio::null())
        .status();
    // replay in a fresh process; fall back to the unshrunk case
    for p in [&path, &raw] {
        if !std::path::Path::new(p).is_file() {
            continue;
        }
        let o = Command::new(bin).args(["replay", p]).output().ok()?;
        if o.status.code() == Some(1) {
            let t = String::from_utf8_lossy(&o.stdout);
            for l in t.lines() {
                println!("  {l}");
            }
            if *p == path {
                let _ = std::fs::remove_file(&raw);
            }
            return Some(p.clone());
        }
    }
    None
}

fn read_replay() -> Replay {
    let p = std::env::args().nth(2).expect("replay file");
    serde_json::from_str(&std::fs::read_to_string(p).expect("replay file")).expect("replay file")
}

fn do_shrink(f: RunFn) -> i32 {
    let mut r = read_replay();
    let out = std::env::args().nth(3).unwrap();
    let opts = opts();
    let _c = Cleanup(opts.scratch.clone());
    pin(0);
    let (case, runs) = shrink::shrink(&r.case, &r.class, &opts, f, Duration::from_secs(num("--secs", 45)));
    let o = forked(&case, &opts, f);
    let Some((_, text)) = o.viol else { return 3 };
    r.violation = text;
    r.schedule = if case.sim.strategy == 2 {
        format!("explicit: {} decisions differ from the default (minimised in {runs} runs)", case.sim.script.len())
    } else {
        format!("seeded (minimised in {runs} runs)")
    };
    r.case = case;
    std::fs::write(out, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    0
}

/// Exit 1 if the file reproduces its violation.
fn replay(f: RunFn) -> i32 {
    let r = read_replay();
    let opts = opts();
    let _c = Cleanup(opts.scratch.clone());
    pin(0);
    let o = forked(&r.case, &opts, f);
    match (o.viol, o.error) {
        (Some((class, text)), _) => {
            println!("{} ({class}): {text}", r.property);
            println!("found by {}; schedule {}", r.found, r.schedule);
            if class == r.class { 1 } else { 4 }
        },
        (None, Some(e)) => {
            println!("error: {e}");
            2
        },
        _ => {
            println!("no violation");
            0
        },
    }
}

fn show(f: RunFn) -> i32 {
    let case = if std::env::args().nth(2).is_some_and(|a| a.ends_with(".json")) {
        read_replay().case
    } else {
        cases::make(&std::env::args().nth(2).unwrap(), num("--seed", 1), num("--idx", 0))
    };
    println!("{}", serde_json::to_string(&case).unwrap());
    let o = Opts { verbose: true, want_log: true, ..opts() };
    let _c = Cleanup(o.scratch.clone());
    let t = Instant::now();
    let mut r = forked(&case, &o, f);
    let n = r.log.len();
    r.log.truncate(20);
    println!("{r:#?}\n{n} log records, {:?}", t.elapsed());
    0
}

/// Same cases, executed twice in different processes order: everything observed must be equal.
fn selftest(f: RunFn) -> i32 {
    let opts = opts();
    let _c = Cleanup(opts.scratch.clone());
    pin(num("--core", 0) as usize);
    let seed = num("--seed", 1);
    let n = num("--count", 200);
    let mut h = 0u64;
    for p in cases::PROPS {
        if arg("--prop").is_some_and(|x| x != p.id) {
            continue;
        }
        let mut hp = 0u64;
        for idx in 0..n {
            let case = cases::make(p.id, seed, idx);
            let o = forked(&case, &opts, f);
            let s = format!("{:?} {:?} {} {:?}", o.viol, o.error, o.digest, o.report);
            hp = mix(hp ^ hash_bytes(s.as_bytes()));
            if arg("--verbose").is_some() {
                println!("{} {idx} {:016x}", p.id, hash_bytes(s.as_bytes()));
            }
        }
        println!("{} {hp:016x}", p.id);
        h = mix(h ^ hp);
    }
    println!("all {h:016x}");
    0
}

#[allow(clippy::too_many_arguments)]
fn evidence(dir: &str, prop: &str, info: &cases::PropInfo, seed: u64, thorough: bool, stats: &[Stats], viols: &[(u64, Case, String, String)], wall: f64, per: u64, nerr: u64, errors: &[String]) {
    let sum = |g: fn(&Stats) -> u64| stats.iter().map(g).sum::<u64>();
    let mut inter: BTreeSet<u64> = BTreeSet::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults = serde_json::Map::new();
    for s in stats {
        inter.extend(s.inter.iter());
        distinct.extend(s.distinct.iter());
        for (k, v) in &s.probes {
            *probes.entry(k.clone()).or_insert(0) += v;
        }
    }
    for k in 0..F_KINDS {
        let n: u64 = stats.iter().map(|s| s.faults[k]).sum();
        let r: u64 = stats.iter().map(|s| s.runs_with_fault[k]).sum();
        if n > 0 {
            faults.insert(FAULT_NAMES[k].into(), serde_json::json!({"fired": n, "in_runs": r}));
        }
    }
    let samples: Vec<serde_json::Value> = [0u64, 1]
        .iter()
        .map(|i| serde_json::to_value(cases::make(prop, seed, *i)).unwrap())
        .collect();
    let runs = sum(|s| s.runs);
    let status: Vec<u64> = (0..4).map(|i| stats.iter().map(|s| s.status[i]).sum()).collect();
    let edges: Vec<u64> = vec![
        stats.iter().map(|s| s.edges).max().unwrap_or(0),
        stats.iter().map(|s| s.edges_total).max().unwrap_or(0),
    ];
    let cli = prop == "C21";
    let ev = serde_json::json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct.len(),
            "rule": info.rule,
            "samples": samples,
            "calls_judged": sum(|s| s.evals),
            "runs_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": stats.iter().map(|s| s.sim_ns as f64 / 1e9).sum::<f64>(),
            "scheduler_steps": sum(|s| s.ticks),
            "context_switches": sum(|s| s.switches),
            "threads_started": sum(|s| s.threads),
            "max_threads_alive": stats.iter().map(|s| s.max_alive).max().unwrap_or(0),
            "file_operations": sum(|s| s.io_ops),
            "faults_injected": faults,
            "distinct_interleavings": inter.len(),
            "interleaving_measure": "hash of the sequence of (thread, next thread, code location) context switches of a run",
            "code_edges_reached": edges[0],
            "code_edges_instrumented": edges[1],
            "rare_conditions": probes,
            "ended": {"all_threads_finished": status[0], "deadlock": status[1], "step_limit": status[2], "killed": status[3]},
            "determinism": {"reexecuted": sum(|s| s.rechecked), "different": sum(|s| s.mismatches)},
            "cut_by_wall_clock": stats.iter().any(|s| s.cut),
            "harness_errors": nerr,
            "harness_error_samples": errors,
            "workers": 2 * per,
            "real_components": ["mbqc_scheduling (both with and without debug assertions)", "scoped_threadpool", "std threads, Mutex, Condvar, mpsc, fs", "serde_json, bincode, tracing", if cli { "the command-line program main.rs/cli.rs" } else { "callers are harness threads" }],
            "stubbed_components": ["thread scheduling", "futex wait/wake", "clock and sleeps", "getrandom", "outcome of thread starts and file operations (files themselves are real, in a scratch directory)"],
        },
        "assumptions": [
            "interleavings are explored at basic-block granularity under sequential consistency; std, serde and the allocator are not preempted inside",
            "a killed process keeps what it has written (no power loss)",
        ],
        "wall_s": wall,
        "violations": viols.len(),
    });
    let p = format!("{dir}/evidence/{prop}.json");
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    std::fs::write(p, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
}
