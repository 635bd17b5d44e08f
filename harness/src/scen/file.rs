//! `File` scenarios: file-based runs, through the library or the command-line program.
use super::search::{accept_func, payload};
use dstlib::{
    exec::Opts,
    files::{self, Reported},
    rec,
    sim::{self, *},
    types::*,
};
use mbqc_scheduling::interface;
use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    process::{Command, Stdio},
    sync::{Arc, Mutex},
    time::Duration,
};

type Then = Option<(Reported, Option<Vec<u8>>)>;

fn alone(p: &Problem, c: &Call) -> Option<Vec<Sched>> {
    if c.search && (c.nthreads > 1 || c.prob.is_some() || !p.tractable()) {
        return None;
    }
    catch_unwind(AssertUnwindSafe(|| {
        interface::run(&p.nb, &p.order, c.search, None, c.nthreads, c.task_bound, None)
            .into_iter()
            .map(|p| Sched { time: p.time, space: p.space, steps: p.steps })
            .collect()
    }))
    .ok()
}

fn library(case: &Case, s: &FileScen, f: &files::Files) -> (Report, Reported, u64, Vec<Reported>, Then, Option<Vec<u8>>) {
    if s.out_obstacle == 3 {
        let _ = std::env::set_current_dir(&f.dir);
    }
    let told = Arc::new(Mutex::new(None));
    let (t2, s2) = (told.clone(), s.clone());
    let (a, b, o) = (f.input_arg[0].clone(), f.input_arg[1].clone(), f.out_arg.clone());
    let (real_in, real_out) = (f.input.clone(), f.out.clone());
    let then: Arc<Mutex<(Option<Reported>, Option<Vec<u8>>)>> = Default::default();
    let then2 = then.clone();
    let peers = Arc::new(Mutex::new(vec![None; s.peers.len()]));
    let peers2 = peers.clone();
    let outs: Vec<String> = f.peers.iter().map(|p| p.1.clone()).collect();
    let rep = sim::run(
        &case.sim,
        Some(&format!("{}/", f.dir)),
        Box::new(move || {
            let s = s2;
            let c = &s.call;
            let others: Vec<_> = (0..s.peers.len())
                .map(|k| {
                    let (s, a, b, o, peers) = (s.clone(), a.clone(), b.clone(), outs[k].clone(), peers2.clone());
                    std::thread::spawn(move || {
                        let (fmt, c) = &s.peers[k];
                        if c.delay > 0 {
                            std::thread::sleep(Duration::from_nanos(c.delay));
                        }
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            interface::run_serialized((a, &s.formats[0]), (b, &s.formats[1]), c.search, None, c.nthreads, c.task_bound, None, (o, fmt))
                                .map_err(|e| e.to_string())
                        }));
                        let _a = Atomic::enter();
                        peers.lock().unwrap()[k] = Some(reported(r));
                    })
                })
                .collect();
            let (a2, b2, o2) = (a.clone(), b.clone(), o.clone());
            let id = rec::begin(0, 0, None);
            let r = catch_unwind(AssertUnwindSafe(|| {
                interface::run_serialized(
                    (a, &s.formats[0]),
                    (b, &s.formats[1]),
                    c.search,
                    c.timeout.map(|(s, n)| Duration::new(s, n)),
                    c.nthreads,
                    c.task_bound,
                    c.prob.as_ref().map(|(a, _)| accept_func(a, c, Some(id), None)),
                    (o, &s.formats[2]),
                )
                .map_err(|e| e.to_string())
            }));
            {
                let _a = Atomic::enter();
                *t2.lock().unwrap() = Some(reported(r));
            }
            for h in others {
                let _ = h.join();
            }
            if let Some((p, c)) = &s.then {
                {
                    let _a = Atomic::enter();
                    then2.lock().unwrap().1 = read(&real_out);
                    if s.then_calm {
                        sim::calm();
                        match s.out_obstacle {
                            1 => drop(std::path::Path::new(&real_out).ancestors().find(|p| p.is_file()).map(std::fs::remove_file)),
                            2 => drop(std::fs::remove_dir(&real_out)),
                            _ => {},
                        }
                    }
                    for (i, at) in real_in.iter().enumerate() {
                        let _ = std::fs::remove_dir(at);
                        let fmt = &s.formats[i];
                        std::fs::write(at, if i == 0 { files::encode(&p.nb, fmt, false) } else { files::encode(&p.order, fmt, false) }).unwrap();
                    }
                }
                let r = catch_unwind(AssertUnwindSafe(|| {
                    interface::run_serialized((a2, &s.formats[0]), (b2, &s.formats[1]), c.search, None, c.nthreads, c.task_bound, None, (o2, &s.formats[2]))
                        .map_err(|e| e.to_string())
                }));
                let _a = Atomic::enter();
                then2.lock().unwrap().0 = Some(reported(r));
            }
        }),
    );
    let _ = std::env::set_current_dir("/");
    let panics = rec::take().iter().map(|r| r.panics).sum();
    // what was reported before the end counts
    let end = |t: Option<Reported>| match (rep.status, t) {
        (1, _) => Reported::Hang("deadlock".into()),
        (2, _) => Reported::Hang(format!("not finished after {} steps", rep.ticks)),
        (_, Some(t)) => t,
        (0, None) => Reported::Panic("no report".into()),
        _ => Reported::Killed,
    };
    let told = end(told.lock().unwrap_or_else(|e| e.into_inner()).take());
    let peers = peers.lock().unwrap_or_else(|e| e.into_inner()).drain(..).map(end).collect();
    let (t, first_out) = std::mem::take(&mut *then.lock().unwrap_or_else(|e| e.into_inner()));
    let then = s.then.is_some().then(|| (end(t), read(&f.out)));
    (rep, told, panics, peers, then, first_out)
}

fn read(p: &str) -> Option<Vec<u8>> {
    if std::path::Path::new(p).is_file() { std::fs::read(p).ok() } else { None }
}

fn reported(r: std::thread::Result<Result<(), String>>) -> Reported {
    match r {
        Ok(Ok(())) => Reported::Success,
        Ok(Err(e)) => Reported::Error(e),
        Err(e) => Reported::Panic(payload(e)),
    }
}

fn program(case: &Case, s: &FileScen, f: &files::Files, opts: &Opts) -> Result<(Report, Reported, Vec<(u32, u32, u64, u64)>), String> {
    let c = &s.call;
    let (cfg, out) = (format!("{}/cfg", opts.scratch), format!("{}/report", opts.scratch));
    let _ = std::fs::remove_file(&out);
    std::fs::write(&cfg, sim::cli_cfg(&case.sim, &format!("{}/", f.dir), &out)).map_err(|e| e.to_string())?;
    let pos = vec![
        f.input_arg[0].clone(),
        s.formats[0].clone(),
        f.input_arg[1].clone(),
        s.formats[1].clone(),
        f.out_arg.clone(),
        s.formats[2].clone(),
    ];
    let long = s.verb & 1 != 0;
    let mut o: Vec<String> = Vec::new();
    if c.search {
        o.push(if long { "--search" } else { "-s" }.into());
    }
    if c.prob.is_some() {
        // the long spelling of this option is misspelt in the program; it is not relied upon
        o.push("-p".into());
    }
    let mut val = |l: &str, sh: &str, x: u64| {
        if long && s.verb & 16 != 0 {
            o.push(format!("{l}={x}"));
        } else if !long && s.verb & 64 != 0 {
            o.push(format!("{sh}{x}"));
        } else {
            o.push(if long { l } else { sh }.into());
            o.push(x.to_string());
        }
    };
    if let Some((t, _)) = c.timeout {
        val("--timeout", "-t", t);
    }
    if c.nthreads != 1 || s.verb & 32 != 0 {
        val("--nthreads", "-n", c.nthreads as u64);
    }
    if let Some(b) = c.task_bound {
        val("--task-bound", "-b", b as u64);
    }
    let args: Vec<String> = if s.verb & 128 != 0 {
        // options between the other arguments
        let at = 1 + s.verb as usize % 5;
        pos[..at].iter().cloned().chain(o).chain(pos[at..].iter().cloned()).collect()
    } else if s.verb & 2 != 0 { o.into_iter().chain(pos).collect() } else { pos.into_iter().chain(o).collect() };
    let mut cmd = Command::new(&opts.simcli);
    cmd.args(&args).env_clear().env("DST_CFG", &cfg).env("RUST_BACKTRACE", "0").current_dir(&f.dir);
    if let Some(l) = &s.log_env {
        cmd.env("RUST_LOG", l);
    }
    let r = cmd
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .map_err(|e| format!("cannot start {}: {e}", opts.simcli))?;
    let err: String = String::from_utf8_lossy(&r.stderr).chars().take(300).collect();
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let (rep, log) = sim::parse_cli_report(&text).ok_or("bad report")?;
    let told = match (r.status.code(), rep.status) {
        (_, 3) => Reported::Killed,
        (_, 1) => Reported::Hang("deadlock".into()),
        (_, 2) => Reported::Hang(format!("not finished after {} steps", rep.ticks)),
        (Some(99), _) => return Err(format!("the simulator gave up: {err}")),
        (Some(0), _) => Reported::Success,
        (Some(k), _) => Reported::Error(format!("exit status {k}: {err}")),
        (None, _) => Reported::Error(format!("ended by a signal: {err}")),
    };
    Ok((rep, told, log))
}

pub fn run(case: &Case, s: &FileScen, opts: &Opts) -> Outcome {
    rec::reset();
    let first = alone(&s.problem, &s.call);
    let near = match &s.old {
        Some((5.., _)) => {
            let mut c = s.call.clone();
            (c.nthreads, c.prob, c.timeout) = (1, None, None);
            alone(&s.problem, &c)
        },
        _ => None,
    };
    let f = files::prepare(s, &opts.scratch, near.as_deref());
    let peers_alone: Vec<_> = s.peers.iter().map(|p| alone(&s.problem, &p.1)).collect();
    let (mut rep, told, panics, log, peers, then, first_out) = if s.cli {
        if let Some((how, when)) = s.crashed {
            let mut c = case.clone();
            // the recorded script is that of the run that is judged
            (c.sim.strategy, c.sim.script) = (0, vec![]);
            match how {
                0 | 1 => c.sim.kill_wr = when,
                2 => c.sim.kill_io = when,
                _ => c.sim.disk_budget = Some(when),
            }
            if let Err(e) = program(&c, s, &f, opts) {
                return Outcome { error: Some(e), ..Default::default() };
            }
        }
        match program(case, s, &f, opts) {
            Ok((r, t, l)) => (r, t, 0, l, vec![], None, None),
            Err(e) => return Outcome { error: Some(e), ..Default::default() },
        }
    } else {
        let (r, t, p, peers, then, out) = library(case, s, &f);
        (r, t, p, if opts.want_log { sim::log() } else { Vec::new() }, peers, then, out)
    };
    rep.status = rep.status.max(0);
    let inputs_same = (0..2).all(|i| match &f.bytes[i] {
        Some(b) => std::fs::read(&f.input[i]).is_ok_and(|x| x == *b),
        None => !std::path::Path::new(&f.input[i]).is_file(),
    });
    let others_same = f.others.iter().all(|(at, b)| read(at).as_ref() == Some(b));
    // if there was a second run: what the first one left
    let out = if then.as_ref().is_some_and(|_| told != Reported::Killed) { first_out } else { read(&f.out) };
    let peers: Vec<_> = peers.into_iter().zip(&f.peers).zip(peers_alone).map(|((t, (at, _)), a)| (t, read(at), a)).collect();
    // not the text of an error: it can contain thread ids
    let kind = |told: &Reported| match told {
        Reported::Error(e) => e.split(':').next().unwrap_or("").to_string(),
        Reported::Panic(_) => "panic".into(),
        x => format!("{x:?}"),
    };
    let then = then.map(|(t, o)| (t, o, s.then.as_ref().and_then(|(p, c)| alone(p, c))));
    let others: Vec<_> = peers.iter().map(|p| (kind(&p.0), &p.1)).collect();
    let mut digest = dstlib::rng::hash_bytes(format!("{}{others:?}{:?}{out:?}{inputs_same}", kind(&told), then.as_ref().map(|t| (kind(&t.0), &t.1))).replace(&opts.scratch, "").as_bytes());
    digest ^= rep.hash.rotate_left(17) ^ rep.inter_hash;
    let seen = files::Seen { case, s, f: &f, rep: &rep, told, out, inputs_same, alone: first, callback_panics: panics, peers, then, others_same };
    let o = Outcome {
        viol: seen.judge(),
        digest,
        evals: 1,
        nontrivial: seen.nontrivial(),
        probes: seen.probes(),
        log,
        trace: if opts.verbose {
            vec![format!("{:?}, {} file operations ({} since the output was opened), output {:?}", seen.told, rep.io_ops, rep.wr_ops, seen.out.as_ref().map(|o| String::from_utf8_lossy(o).chars().take(400).collect::<String>()))]
        } else {
            Vec::new()
        },
        report: rep.clone(),
        error: None,
    };
    let _ = std::fs::remove_dir_all(&f.dir);
    o
}
