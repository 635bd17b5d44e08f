//! `Search` scenarios: callers use the library.
use dstlib::{exec::Opts, judge, rec, sim, types::*};
use mbqc_scheduling::{
    interface::{self, Path},
    probabilistic::{AcceptFunc, HeavysideParameters},
};
use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Arc,
    time::Duration,
};

fn convert(l: Vec<Path>) -> Vec<Sched> {
    l.into_iter().map(|p| Sched { time: p.time, space: p.space, steps: p.steps }).collect()
}

/// what an accept function may throw that is no text
pub struct Failure(#[allow(dead_code)] pub f64);

pub fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if e.is::<Failure>() {
        "injected failure of the accept function, no text".into()
    } else {
        "?".into()
    }
}

fn param(c: f64, e: [i32; 5]) -> AcceptFunc {
    AcceptFunc::ParametrizedHeavyside {
        param: HeavysideParameters {
            cutoff: c,
            lin_num_total_nodes_exp: e[0],
            exp_num_total_nodes_exp: e[1],
            exp_num_remaining_nodes_exp: e[2],
            exp_diff_exp: e[3],
            exp_num_measured_nodes_exp: e[4],
        },
    }
}

/// The accept function of a call; recorded under `id` unless it is the built-in one passed as such.
pub fn accept_func(acc: &Acc, call: &Call, id: Option<usize>, scen: Option<&Arc<SearchScen>>) -> AcceptFunc {
    let inner = match acc {
        Acc::Builtin if call.panic_at.is_empty() && call.panic_from == 0 && call.nest.is_none() => return AcceptFunc::BuiltinHeavyside,
        Acc::Builtin | Acc::BuiltinRec => Some(AcceptFunc::BuiltinHeavyside.get_accept_func()),
        Acc::Param(c, e) => Some(param(*c, *e).get_accept_func()),
        _ => None,
    };
    let call = call.clone();
    let acc = acc.clone();
    let scen = scen.cloned();
    let told = std::sync::atomic::AtomicU64::new(0);
    AcceptFunc::Custom(Box::new(move |a, b, c, d, e, f, g| {
        let bi = inner.as_ref().map(|i| i(a, b, c, d, e, f, g));
        match id {
            Some(id) => {
                let (v, panic) = rec::accept(id, &call, &acc, bi, [a, b, c, d, e, f, g]);
                sim::yield_point();
                if let (Some((at, idx)), Some(s)) = (call.nest, &scen) {
                    if told.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1 == at {
                        one_call(s, NESTED, idx);
                    }
                }
                if panic {
                    match call.panic_kind {
                        0 => panic!("injected failure of the accept function"),
                        1 => panic!("injected failure of the accept function with {e} qubits left"),
                        2 => std::panic::panic_any(Failure(e)),
                        _ => std::panic::resume_unwind(Box::new(Failure(e))),
                    }
                }
                v
            },
            None => bi.unwrap_or_else(|| {
                rec::acc_value(&acc, c as usize, d as usize, e as usize, f as usize, g as usize)
            }),
        }
    }))
}

fn invoke(p: &Problem, c: &Call, id: Option<usize>, scen: Option<&Arc<SearchScen>>) -> Vec<Sched> {
    convert(interface::run(
        &p.nb,
        &p.order,
        c.search,
        c.timeout.map(|(s, n)| Duration::new(s, n)),
        c.nthreads,
        c.task_bound,
        c.prob.as_ref().map(|(a, s)| (accept_func(a, c, id, scen), *s)),
    ))
}

/// What the call returns alone, outside of the simulation (only for deterministic calls).
fn alone(p: &Problem, c: &Call) -> Option<Vec<Sched>> {
    if c.search && (c.nthreads > 1 || matches!(c.prob, Some((_, None)))) {
        return None;
    }
    if !c.panic_at.is_empty() || c.panic_from > 0 {
        return None;
    }
    let mut c = c.clone();
    c.timeout = None;
    catch_unwind(AssertUnwindSafe(|| invoke(p, &c, None, None))).ok()
}

fn one_call(s: &Arc<SearchScen>, caller: usize, idx: usize) {
    let c = s.call(caller, idx);
    if c.delay > 0 {
        std::thread::sleep(Duration::from_nanos(c.delay));
    }
    let p = &s.problems[c.problem];
    let id = rec::begin(caller, idx, if c.search { c.timeout_ns() } else { None });
    let res = catch_unwind(AssertUnwindSafe(|| {
        if c.copy {
            return invoke(&p.clone(), c, Some(id), Some(s));
        }
        invoke(p, c, Some(id), Some(s))
    }))
    .map_err(payload);
    rec::end(id, res, false);
}

pub struct SinkWriter;
impl std::io::Write for SinkWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn run(case: &Case, s: &SearchScen, opts: &Opts) -> Outcome {
    if s.log {
        let sub = tracing_subscriber::fmt()
            .with_max_level(tracing::Level::TRACE)
            .with_writer(|| SinkWriter)
            .finish();
        let _ = tracing::subscriber::set_global_default(sub);
    }
    mbqc_scheduling::sim_knobs::UPDATE_INTERVAL.store(s.interval, std::sync::atomic::Ordering::Relaxed);
    rec::reset();
    let before = s.problems.clone();
    let shared = Arc::new(s.clone());
    let inner = shared.clone();
    let rep = sim::run(
        &case.sim,
        None,
        Box::new(move || {
            let s = inner;
            let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
            let mut noise = Vec::new();
            for i in 0..s.noise {
                let stop = stop.clone();
                let t = std::thread::Builder::new().spawn(move || {
                    let mut x = i as u64;
                    while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                        let mut m = std::collections::HashMap::new();
                        for k in 0..20u64 {
                            m.insert(k ^ x, k);
                        }
                        x = x.wrapping_add(m.values().sum::<u64>());
                        std::thread::sleep(Duration::from_nanos(700 + x % 5000));
                    }
                });
                noise.extend(t.ok());
            }
            if s.callers.len() == 1 {
                for i in 0..s.callers[0].len() {
                    one_call(&s, 0, i);
                }
            } else {
                let hs: Vec<_> = (0..s.callers.len())
                    .filter_map(|c| {
                        let s = s.clone();
                        std::thread::Builder::new()
                            .spawn(move || {
                                for i in 0..s.callers[c].len() {
                                    one_call(&s, c, i);
                                }
                            })
                            .ok()
                    })
                    .collect();
                for h in hs {
                    let _ = h.join();
                }
            }
            stop.store(true, std::sync::atomic::Ordering::Relaxed);
            for h in noise {
                let _ = h.join();
            }
        }),
    );
    let log = if opts.want_log { sim::log() } else { Vec::new() };
    let mut recs = rec::take();
    let changed = shared.problems != before;
    for r in recs.iter_mut() {
        r.inputs_changed |= changed;
    }
    let al = |c: &Call| alone(&s.problems[c.problem], c);
    let ctx = judge::Ctx::new(case, s, &rep, &recs, &al);
    let viol = ctx.judge();
    let digest = dstlib::rng::hash_bytes(format!("{recs:?}").as_bytes()) ^ rep.hash.rotate_left(17) ^ rep.inter_hash;
    Outcome {
        viol,
        digest,
        evals: recs.len() as u64,
        nontrivial: ctx.nontrivial(),
        probes: ctx.probes(),
        log,
        report: rep,
        trace: if opts.verbose {
            recs.iter()
                .map(|r| format!("caller {} call {} on thread {}: [{} .. {}] ns, {} accept calls on {:?}, result {:?}", r.caller, r.idx, r.tid, r.t0, r.t1, r.calls, r.by_tid, r.result))
                .collect()
        } else {
            Vec::new()
        },
        error: None,
    }
}
