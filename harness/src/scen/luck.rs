//! `Luck` scenarios: searches whose random decisions are visible in the calls of the accept
//! function, and searches with the library's functions against their documented formulas.
use super::search::payload;
use dstlib::{exec::Opts, rec, rng::mix, sim, types::*};
use mbqc_scheduling::{
    interface,
    probabilistic::{AcceptFunc, HeavysideParameters},
};
use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex},
};

fn seed(s: &LuckScen, k: u64) -> Option<u64> {
    match s.seeds {
        0 => None,
        1 => Some(s.base.wrapping_add(k)),
        2 => Some((k << 40) ^ s.base),
        _ => Some(mix(s.base ^ mix(k))),
    }
}

/// Qubits `0 .. first` are free, each other one depends on the ones before it.
fn chain(s: &LuckScen) -> (Vec<Vec<usize>>, Order) {
    if s.fan > 0 {
        let w = s.fan as usize;
        return (vec![Vec::new(); w], vec![(0..w).map(|q| (q, vec![])).collect()]);
    }
    let n = s.levels.len();
    let mut nb = vec![Vec::new(); n];
    for i in 1..n {
        nb[i].push(i - 1);
        nb[i - 1].push(i);
    }
    let mut order = vec![(0..s.first).map(|q| (q, vec![])).collect::<Vec<_>>()];
    for q in s.first..n {
        order.push(vec![(q, if q == s.first { (0..s.first).collect() } else { vec![q - 1] })]);
    }
    (nb, order)
}

fn library(f: &Option<Acc>) -> AcceptFunc {
    match f {
        None => AcceptFunc::default(),
        Some(Acc::Param(c, e)) => AcceptFunc::ParametrizedHeavyside {
            param: HeavysideParameters {
                cutoff: *c,
                lin_num_total_nodes_exp: e[0],
                exp_num_total_nodes_exp: e[1],
                exp_num_remaining_nodes_exp: e[2],
                exp_diff_exp: e[3],
                exp_num_measured_nodes_exp: e[4],
            },
        },
        _ => AcceptFunc::BuiltinHeavyside,
    }
}

/// The formulas of the documentation.
fn documented(f: &Option<Acc>, minimal: f64, last_max: f64, cur: f64, remaining: f64, total: f64) -> f64 {
    let (cutoff, e) = match f {
        Some(Acc::Param(c, e)) => (*c, *e),
        _ => (0., [2, 1, 1, 3, 1]),
    };
    let diff = minimal - f64::max(cur, last_max);
    if diff < cutoff {
        return 0.;
    }
    let exp = total.powi(e[1]) * remaining.powi(e[2]) / diff.powi(e[3]) / (total - remaining).powi(e[4]);
    total.powi(e[0]) * (-exp).exp()
}

/// how likely a step is followed
fn chance(p: f64) -> f64 {
    if p >= 1. {
        1.
    } else if p > 0. {
        p
    } else {
        0.
    }
}

fn one(s: &LuckScen, k: usize, input: &(Vec<Vec<usize>>, Order)) -> bool {
    let levels = s.levels.clone();
    if s.fan > 0 {
        // 2: a first step, 1: the first step that leaves nothing, 0: a later step
        let f = move |_: f64, _: f64, last: f64, _: f64, _: f64, rem: f64, _: f64| {
            let kind = if last != 0. { 0 } else { 1 + (rem > 0.) as u64 };
            rec::luck(k, kind);
            if kind == 2 { levels[0] } else { 0. }
        };
        let bound = if s.nthreads > 1 { Some(0) } else { None };
        let r = interface::run(&input.0, &input.1, true, None, s.nthreads, bound, Some((AcceptFunc::Custom(Box::new(f)), seed(s, k as u64))));
        return !r.is_empty();
    }
    let f = move |_: f64, _: f64, _: f64, _: f64, _: f64, rem: f64, _: f64| {
        rec::luck(k, rem as u64);
        levels.get(rem as usize).copied().unwrap_or(0.)
    };
    let r = interface::run(&input.0, &input.1, true, None, s.nthreads, None, Some((AcceptFunc::Custom(Box::new(f)), seed(s, k as u64))));
    !r.is_empty()
}

type Told = Vec<[f64; 7]>;

fn compare(s: &LuckScen, k: u64, p: &Problem, f: &Option<Acc>, told: &Arc<Mutex<Told>>) -> Option<String> {
    let run = |a: AcceptFunc| {
        interface::run(&p.nb, &p.order, true, None, s.nthreads, None, Some((a, seed(s, k))))
            .into_iter()
            .map(|p| Sched { time: p.time, space: p.space, steps: p.steps })
            .collect::<Vec<_>>()
    };
    let a = run(library(f));
    let (g, t) = (f.clone(), told.clone());
    let b = run(AcceptFunc::Custom(Box::new(move |a, b, c, d, e, r, n| {
        {
            let _a = sim::Atomic::enter();
            t.lock().unwrap().push([a, b, c, d, e, r, n]);
        }
        documented(&g, b, c, e, r, n)
    })));
    (a != b).then(|| format!("with seed {:?} the search returns {a:?}, with the documented formula as a custom function {b:?}", seed(s, k)))
}

pub fn run(case: &Case, s: &LuckScen, opts: &Opts) -> Outcome {
    rec::reset();
    mbqc_scheduling::sim_knobs::UPDATE_INTERVAL.store(s.interval, std::sync::atomic::Ordering::Relaxed);
    let shared = Arc::new(s.clone());
    let inner = shared.clone();
    let found = Arc::new(Mutex::new(vec![None; s.count as usize]));
    let out = found.clone();
    let told: Arc<Mutex<Told>> = Default::default();
    let tl = told.clone();
    let differ = Arc::new(Mutex::new(None));
    let df = differ.clone();
    let rep = sim::run(
        &case.sim,
        None,
        Box::new(move || {
            let s = inner;
            if let Some((p, f)) = &s.formula {
                for k in 0..s.count {
                    let d = compare(&s, k as u64, p, f, &tl);
                    if d.is_some() {
                        let _a = sim::Atomic::enter();
                        *df.lock().unwrap() = d;
                        return;
                    }
                }
                return;
            }
            let input = Arc::new(chain(&s));
            let share = |c: usize, s: &LuckScen, input: &(Vec<Vec<usize>>, Order), out: &Mutex<Vec<Option<bool>>>| {
                let mut k = c;
                while k < s.count as usize {
                    let r = catch_unwind(AssertUnwindSafe(|| one(s, k, input)));
                    let _a = sim::Atomic::enter();
                    match r {
                        Ok(r) => out.lock().unwrap()[k] = Some(r),
                        Err(e) => rec::note(format!("search {k} panicked: {}", payload(e))),
                    }
                    k += s.callers.max(1) as usize;
                }
            };
            let hs: Vec<_> = (1..s.callers.max(1) as usize)
                .map(|c| {
                    let (s, input, out) = (s.clone(), input.clone(), out.clone());
                    std::thread::spawn(move || share(c, &s, &input, &out))
                })
                .collect();
            share(0, &s, &input, &out);
            for h in hs {
                let _ = h.join();
            }
        }),
    );
    let log = if opts.want_log { sim::log() } else { Vec::new() };
    let notes = rec::take_notes();
    let asked = rec::take_lucks();
    let found = found.lock().unwrap().clone();
    let told = told.lock().unwrap().clone();
    let differ = differ.lock().unwrap().clone();
    let (mut probes, mut nontrivial) = (Vec::new(), false);
    let viol = match (rep.status, notes.first()) {
        (_, Some(n)) => Some(("panic".into(), n.clone())),
        (1, _) => Some(("deadlock".into(), "a thread is blocked for ever".into())),
        (2, _) => Some(("no-progress".into(), format!("not finished after {} steps", rep.ticks))),
        _ => match &s.formula {
            Some((_, f)) => {
                nontrivial = !told.is_empty();
                probes.push(if f.is_some() { "formula compared" } else { "default function compared" }.to_string());
                formulas(f, &told, differ.clone())
            },
            None if s.fan > 0 => fan(s, &asked, &mut probes, &mut nontrivial),
            None => judge(s, &asked, &found, &mut probes, &mut nontrivial),
        },
    };
    let digest = dstlib::rng::hash_bytes(format!("{asked:?}{found:?}{notes:?}{told:?}{differ:?}").as_bytes()) ^ rep.hash.rotate_left(17) ^ rep.inter_hash;
    Outcome {
        viol,
        digest,
        evals: s.count as u64,
        nontrivial,
        probes,
        log,
        report: rep,
        trace: if opts.verbose {
            asked.iter().zip(&found).enumerate().map(|(k, (a, f))| format!("search {k}, seed {:?}: asked {a:?} (thread, qubits left), found {f:?}", seed(s, k as u64))).collect()
        } else {
            Vec::new()
        },
        error: None,
    }
}

/// The library's function at all that a search was told, and around.
fn formulas(f: &Option<Acc>, told: &Told, differ: Option<String>) -> Option<(String, String)> {
    if let Some(d) = differ {
        return Some(("formula".into(), d));
    }
    let lib = library(f).get_accept_func();
    for t in told.iter().take(2000) {
        for (dm, dc) in [(0., 0.), (1., 0.), (0., 1.), (3., 2.), (40., 1.)] {
            let a = [t[0], t[1] + dm, t[2], t[3], t[4] + dc, t[5], t[6]];
            let x = lib(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
            let y = documented(f, a[1], a[2], a[4], a[5], a[6]);
            if (chance(x) - chance(y)).abs() > 1e-9 {
                return Some(("formula".into(), format!("told {a:?} the function returns {x}, its documented formula gives {y}")));
            }
        }
    }
    None
}

/// Too far from `n` draws with chance `p`: probability below 2 exp(-27).
fn unlikely(hit: u64, n: u64, p: f64) -> bool {
    let (h, n) = (hit as f64, n as f64);
    let kl = |a: f64, b: f64| if a <= 0. { 0. } else { a * (a / b).ln() };
    n > 0. && n * (kl(h / n, p) + kl(1. - h / n, 1. - p)) > 27.
}

fn fan(s: &LuckScen, asked: &[Vec<(i32, u64)>], probes: &mut Vec<String>, nontrivial: &mut bool) -> Option<(String, String)> {
    let v = |c: &str, t: String| Some((c.to_string(), t));
    let p = chance(s.levels[0]);
    let rows: Vec<Vec<bool>> = asked
        .iter()
        .map(|a| (0..a.len()).filter(|i| a[*i].1 == 2).map(|i| a.get(i + 1).is_some_and(|x| x.1 == 0)).collect())
        .collect();
    let n: u64 = rows.iter().map(|r| r.len() as u64).sum();
    let hits = rows.iter().flatten().filter(|x| **x).count() as u64;
    if unlikely(hits, n, p) {
        return v("frequency", format!("told a probability of {p}, {hits} of {n} first steps were followed, in {} searches", s.count));
    }
    let like = p * p + (1. - p) * (1. - p);
    for lag in 1..rows.iter().map(|r| r.len()).max().unwrap_or(0) {
        let (mut same, mut all) = (0, 0);
        for r in &rows {
            for i in (0..r.len().saturating_sub(lag)).filter(|i| i / lag % 2 == 0) {
                all += 1;
                same += (r[i] == r[i + lag]) as u64;
            }
        }
        if unlikely(same, all, like) {
            return v("dependent", format!("of {all} pairs of steps of probability {p} that are {lag} questions apart, {same} are decided alike"));
        }
    }
    for i in 0..rows.iter().map(|r| r.len()).max().unwrap_or(0) {
        let c: Vec<bool> = rows.iter().filter_map(|r| r.get(i).copied()).collect();
        if unlikely(c.iter().filter(|x| **x).count() as u64, c.len() as u64, p) {
            return v("frequency", format!("step {i} of probability {p} was followed in {} of {} searches", c.iter().filter(|x| **x).count(), c.len()));
        }
        let pairs: Vec<_> = c.chunks_exact(2).map(|c| c[0] == c[1]).collect();
        if unlikely(pairs.iter().filter(|x| **x).count() as u64, pairs.len() as u64, like) {
            return v("dependent", format!("successive searches decide about step {i} of probability {p} too much or too little alike"));
        }
    }
    *nontrivial = n >= 20;
    probes.push("long streams of decisions".into());
    None
}

fn judge(s: &LuckScen, asked: &[Vec<(i32, u64)>], found: &[Option<bool>], probes: &mut Vec<String>, nontrivial: &mut bool) -> Option<(String, String)> {
    let v = |c: &str, t: String| Some((c.to_string(), t));
    let n = s.levels.len();
    let multi = s.nthreads > 1;
    // questions that come with no followed step before them, by the number of qubits left
    let mut starts = vec![0u64; n];
    if !multi {
        starts[n - 1] = 1;
    } else {
        starts[n - 2] = s.first as u64;
        if s.first == 2 {
            starts[n - 3] = 1;
        }
    }
    if multi && asked.iter().flatten().any(|a| a.1 as usize == n - 1) {
        // the first step is asked as well: allowed, but the decisions cannot be told apart here
        return None;
    }
    let (mut asks, mut hits) = (vec![0u64; n], vec![0u64; n]);
    let mut each: Vec<Vec<(u64, u64)>> = Vec::new();
    for k in 0..found.len() {
        let a = asked.get(k).map(|a| &a[..]).unwrap_or(&[]);
        let mut c = vec![0u64; n];
        for (_, rem) in a {
            if *rem as usize >= n {
                return v("asked", format!("search {k} asks about a step that leaves {rem} of {n} qubits"));
            }
            c[*rem as usize] += 1;
        }
        let mut row = Vec::new();
        for r in (0..n).rev() {
            let hit = if r > 0 {
                match c[r - 1].checked_sub(starts[r - 1]) {
                    Some(h) => h,
                    None => return v("asked", format!("search {k} asks {} times about a step that leaves {} qubits, at least {} expected", c[r - 1], r - 1, starts[r - 1])),
                }
            } else {
                (found[k] == Some(true) && c[0] > 0) as u64
            };
            if hit > c[r] {
                return v("asked", format!("search {k} asks {} times about a step that leaves {r} qubits and follows {hit}", c[r]));
            }
            asks[r] += c[r];
            hits[r] += hit;
            row.push((c[r], hit));
        }
        row.reverse();
        each.push(row);
    }
    let top = if multi { n - 2 } else { n - 1 };
    let mut undecided = 0;
    for r in (0..n).rev() {
        let p = chance(s.levels[r]);
        if multi && r == 0 {
            continue;
        }
        if unlikely(hits[r], asks[r], p) {
            return v("frequency", format!(
                "told a probability of {}, {} of {} steps that leave {r} qubits were followed, in {} searches", s.levels[r], hits[r], asks[r], s.count));
        }
        if p > 0. && p < 1. {
            undecided += asks[r];
        }
    }
    // two searches in a row, or two tasks of one search
    let p = chance(s.levels[top]);
    let pairs: Vec<bool> = each.chunks_exact(2).filter(|c| c.iter().all(|c| c[top].0 == s.first as u64)).map(|c| (c[0][top].1 > 0) == (c[1][top].1 > 0)).collect();
    let same = pairs.iter().filter(|x| **x).count() as u64;
    let q = if multi && s.first == 2 { 1. - (1. - p) * (1. - p) } else { p };
    if unlikely(same, pairs.len() as u64, q * q + (1. - q) * (1. - q)) {
        return v("dependent", format!(
            "of {} pairs of successive searches {same} decide alike about their first step of probability {}", pairs.len(), s.levels[top]));
    }
    if multi && s.first == 2 {
        let asked: Vec<_> = each.iter().filter(|c| c[top].0 == 2).collect();
        let split = asked.iter().filter(|c| c[top].1 == 1).count() as u64;
        if unlikely(split, asked.len() as u64, 2. * p * (1. - p)) {
            return v("dependent", format!(
                "two tasks of a search decide differently about their first step of probability {} in {split} of {} searches", s.levels[top], asked.len()));
        }
        probes.push("decisions of two tasks compared".into());
    }
    *nontrivial = undecided >= 20;
    if s.seeds == 0 {
        probes.push("decided by the system's entropy".into());
    }
    if s.callers > 1 {
        probes.push("concurrent searches".into());
    }
    if multi {
        probes.push("searches on several threads".into());
    }
    None
}
