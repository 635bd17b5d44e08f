//! Minimising a violating case: first the scenario and the fault mix, then the schedule.
use crate::{
    cases::fix_cap,
    exec::{forked, Opts, RunFn, WALL_LIMIT, WALL_LIMIT_MS},
    types::*,
};
use std::{
    sync::atomic::Ordering,
    time::{Duration, Instant},
};

const LONG_MS: u64 = 15_000;

/// Remove qubits; dependencies through them are kept transitively, layers are rebuilt.
fn remove_qubits(p: &Problem, gone: &[bool]) -> Option<Problem> {
    let n = p.n();
    let mut new = vec![0; n];
    let mut m = 0;
    for q in 0..n {
        new[q] = m;
        m += !gone[q] as usize;
    }
    if m == 0 || m == n {
        return None;
    }
    // what stands for a qubit as a dependency, in topological order
    let deps = p.deps();
    let mut stand: Vec<Vec<usize>> = vec![Vec::new(); n];
    for (q, _) in p.order.iter().flatten() {
        if gone[*q] {
            let mut d: Vec<usize> = deps[*q].iter().flat_map(|x| stand[*x].iter().copied()).collect();
            d.sort_unstable();
            d.dedup();
            stand[*q] = d;
        } else {
            stand[*q] = vec![*q];
        }
    }
    let kept = || (0..n).filter(|q| !gone[*q]);
    let nd: Vec<Vec<usize>> = kept()
        .map(|q| {
            let mut d: Vec<usize> = deps[q].iter().flat_map(|x| stand[*x].iter().map(|y| new[*y])).collect();
            d.sort_unstable();
            d.dedup();
            d
        })
        .collect();
    let nb = kept().map(|q| p.nb[q].iter().filter(|x| !gone[**x]).map(|x| new[*x]).collect()).collect();
    Some(Problem { nb, order: layers(&nd) })
}

/// Remove one qubit.
pub fn remove_qubit(p: &Problem, q: usize) -> Option<Problem> {
    let mut gone = vec![false; p.n()];
    gone[q] = true;
    remove_qubits(p, &gone)
}

fn reduce(deps: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let n = deps.len();
    let mut anc = vec![vec![false; n]; n];
    // repeated relaxation; small inputs
    let mut changed = true;
    while changed {
        changed = false;
        for i in 0..n {
            for &d in &deps[i] {
                changed |= !anc[i][d];
                anc[i][d] = true;
                for x in 0..n {
                    if anc[d][x] && !anc[i][x] {
                        anc[i][x] = true;
                        changed = true;
                    }
                }
            }
        }
    }
    deps.iter()
        .map(|ds| ds.iter().copied().filter(|x| !ds.iter().any(|y| anc[*y][*x])).collect())
        .collect()
}

/// Layers from dependencies, transitively reduced.
pub fn layers(deps: &[Vec<usize>]) -> Order {
    let deps = reduce(deps);
    let n = deps.len();
    let mut depth = vec![0usize; n];
    let mut changed = true;
    while changed {
        changed = false;
        for i in 0..n {
            let d = deps[i].iter().map(|d| depth[*d] + 1).max().unwrap_or(0);
            changed |= d != depth[i];
            depth[i] = d;
        }
    }
    let top = depth.iter().max().copied().unwrap_or(0);
    (0..=top)
        .map(|l| (0..n).filter(|i| depth[*i] == l).map(|i| (i, deps[i].clone())).collect())
        .collect()
}

fn labels_cands(l: &Option<Labels>) -> Vec<Option<Labels>> {
    let Some(l) = l else { return Vec::new() };
    let mut v = vec![None];
    if l.noise > 0 {
        v.push(Some(Labels { noise: 0, ..l.clone() }));
        v.push(Some(Labels { noise: l.noise - 1, ..l.clone() }));
    }
    if l.edges {
        v.push(Some(Labels { edges: false, noise: 0, ..l.clone() }));
    }
    if l.map > 0 {
        v.push(Some(Labels { map: 0, ..l.clone() }));
    }
    if l.room > 0 {
        v.push(Some(Labels { room: 0, ..l.clone() }));
    }
    if l.used {
        v.push(Some(Labels { used: false, ..l.clone() }));
    }
    v
}

fn problem_cands(p: &Problem) -> Vec<Problem> {
    let mut v: Vec<Problem> = Vec::new();
    let n = p.n();
    // many at once first
    let mut chunk = n / 2;
    while chunk > 1 {
        for k in 0..n.div_ceil(chunk) {
            let gone: Vec<bool> = (0..n).map(|q| q / chunk == k).collect();
            v.extend(remove_qubits(p, &gone));
        }
        chunk /= 2;
        if n > 24 && chunk < n / 16 {
            // one step after the other
            v.retain(|x| x.valid());
            return v;
        }
    }
    v.extend((0..n).filter_map(|q| remove_qubit(p, q)));
    let deps = p.deps();
    for i in 0..p.n() {
        for k in 0..deps[i].len() {
            let mut d = deps.clone();
            d[i].remove(k);
            v.push(Problem { nb: p.nb.clone(), order: layers(&d) });
        }
        for &j in &p.nb[i] {
            if j > i {
                let mut nb = p.nb.clone();
                nb[i].retain(|x| *x != j);
                nb[j].retain(|x| *x != i);
                v.push(Problem { nb, order: p.order.clone() });
            }
        }
    }
    v.retain(|x| x.valid());
    v
}

fn call_cands(c: &Call) -> Vec<Call> {
    let mut v = Vec::new();
    let mut add = |f: &dyn Fn(&mut Call)| {
        let mut d = c.clone();
        f(&mut d);
        if d != *c {
            v.push(d)
        }
    };
    add(&|d| d.timeout = None);
    add(&|d| d.prob = None);
    add(&|d| d.task_bound = None);
    add(&|d| d.delay = 0);
    add(&|d| d.nest = None);
    add(&|d| d.copy = false);
    if c.nthreads > 2 {
        add(&|d| d.nthreads = 2);
        add(&|d| d.nthreads -= 1);
    }
    add(&|d| d.nthreads = 1);
    if c.panic_at.len() > 1 {
        add(&|d| d.panic_at.truncate(1));
    }
    if c.panic_kind > 0 {
        add(&|d| d.panic_kind = 0);
    }
    if c.panic_from > 1 {
        add(&|d| d.panic_from = 1);
    }
    if let Some((s, n)) = c.timeout {
        add(&|d| d.timeout = Some((s / 2, n / 2)));
    }
    if let Some((a, _)) = &c.prob {
        let a = a.clone();
        add(&|d| d.prob = Some((Acc::Const(1.0), Some(0))));
        add(&move |d| d.prob = Some((a.clone(), Some(0))));
    }
    v
}

pub fn candidates(s: &Scen) -> Vec<Scen> {
    let mut v = Vec::new();
    match s {
        Scen::Search(s) => {
            let mut push = |x: SearchScen| v.push(Scen::Search(x));
            if s.callers.len() > 1 {
                for i in 0..s.callers.len() {
                    let mut x = s.clone();
                    x.callers.remove(i);
                    push(x);
                }
            }
            for i in 0..s.callers.len() {
                if s.callers[i].len() > 1 {
                    for j in 0..s.callers[i].len() {
                        let mut x = s.clone();
                        x.callers[i].remove(j);
                        push(x);
                    }
                }
            }
            for i in 0..s.nested.len() {
                for c in call_cands(&s.nested[i]) {
                    let mut x = s.clone();
                    x.nested[i] = c;
                    push(x);
                }
            }
            if s.noise > 0 {
                push(SearchScen { noise: 0, ..s.clone() });
            }
            if s.log {
                push(SearchScen { log: false, ..s.clone() });
            }
            if s.interval != 0 {
                push(SearchScen { interval: 0, ..s.clone() });
            }
            for (k, p) in s.problems.iter().enumerate() {
                for c in problem_cands(p) {
                    let mut x = s.clone();
                    x.problems[k] = c;
                    push(x);
                }
            }
            for i in 0..s.callers.len() {
                for j in 0..s.callers[i].len() {
                    for c in call_cands(&s.callers[i][j]) {
                        let mut x = s.clone();
                        x.callers[i][j] = c;
                        push(x);
                    }
                }
            }
        },
        Scen::Luck(s) => {
            let mut push = |x: LuckScen| v.push(Scen::Luck(x));
            for k in [s.count / 2, s.count - s.count / 4, s.count.saturating_sub(1)] {
                if k > 0 && k < s.count {
                    push(LuckScen { count: k, ..s.clone() });
                }
            }
            if s.callers > 1 {
                push(LuckScen { callers: 1, ..s.clone() });
            }
            if s.nthreads > 2 {
                push(LuckScen { nthreads: 2, ..s.clone() });
            }
            if s.base != 0 {
                push(LuckScen { base: 0, ..s.clone() });
            }
            if s.interval > 0 {
                push(LuckScen { interval: 0, ..s.clone() });
            }
            if s.fan > 2 {
                push(LuckScen { fan: s.fan - 1, ..s.clone() });
            }
            if s.formula.is_none() && s.fan == 0 {
                for i in 0..s.levels.len() {
                    let least = if s.nthreads > 1 { s.first + 2 } else { s.first };
                    if s.levels.len() > least && (i > 0 || s.nthreads < 2) {
                        let mut x = s.clone();
                        x.levels.remove(i);
                        push(x);
                    }
                    if s.levels[i] != 1. && s.levels[i] != 0. {
                        let mut x = s.clone();
                        x.levels[i] = 1.;
                        push(x);
                    }
                }
            }
            if let Some((p, f)) = &s.formula {
                for q in problem_cands(p) {
                    push(LuckScen { formula: Some((q, f.clone())), ..s.clone() });
                }
            }
        },
        Scen::Timer(s) => {
            if s.timers.len() > 1 {
                for i in 0..s.timers.len() {
                    let mut x = s.clone();
                    x.timers.remove(i);
                    v.push(Scen::Timer(x));
                }
            }
            for i in 0..s.timers.len() {
                for j in 0..s.timers[i].pollers.len() {
                    let mut x = s.clone();
                    x.timers[i].pollers.remove(j);
                    v.push(Scen::Timer(x));
                    for k in 0..s.timers[i].pollers[j].len() {
                        let mut x = s.clone();
                        x.timers[i].pollers[j].remove(k);
                        v.push(Scen::Timer(x));
                    }
                }
                for k in 0..s.timers[i].owner.len() {
                    let mut x = s.clone();
                    x.timers[i].owner.remove(k);
                    v.push(Scen::Timer(x));
                }
                let t = &s.timers[i];
                for (j, ops) in t.pollers.iter().chain([&t.owner]).enumerate() {
                    for (k, o) in ops.iter().enumerate() {
                        let TimerOp::Polls(n) = o else { continue };
                        let mut x = s.clone();
                        let t = &mut x.timers[i];
                        let ops = if j < t.pollers.len() { &mut t.pollers[j] } else { &mut t.owner };
                        ops[k] = if *n > 2 { TimerOp::Polls(n / 2) } else { TimerOp::Poll };
                        v.push(Scen::Timer(x));
                    }
                }
                if s.timers[i].unwind {
                    let mut x = s.clone();
                    x.timers[i].unwind = false;
                    v.push(Scen::Timer(x));
                }
            }
        },
        Scen::Split(s) => {
            if s.few > 1 {
                v.push(Scen::Split(SplitScen { few: s.few / 2, ..s.clone() }));
                v.push(Scen::Split(SplitScen { few: s.few - 1, ..s.clone() }));
            }
            if s.skip > 0 {
                v.push(Scen::Split(SplitScen { skip: 0, ..s.clone() }));
            }
            if s.resplit > 0 {
                v.push(Scen::Split(SplitScen { resplit: 0, ..s.clone() }));
            }
            if s.advance > 0 {
                v.push(Scen::Split(SplitScen { advance: s.advance - 1, ..s.clone() }));
            }
            if s.prefix > 0 {
                v.push(Scen::Split(SplitScen { prefix: s.prefix - 1, ..s.clone() }));
            }
            if s.workers > 1 {
                v.push(Scen::Split(SplitScen { workers: s.workers - 1, ..s.clone() }));
            }
            for p in problem_cands(&s.problem) {
                v.push(Scen::Split(SplitScen { problem: p, ..s.clone() }));
            }
            for labels in labels_cands(&s.labels) {
                v.push(Scen::Split(SplitScen { labels, ..s.clone() }));
            }
        },
        Scen::Manual(s) => {
            if s.clients.len() > 1 {
                for i in 0..s.clients.len() {
                    let mut x = s.clone();
                    x.clients.remove(i);
                    v.push(Scen::Manual(x));
                }
            }
            for i in 0..s.clients.len() {
                for j in 0..s.clients[i].len() {
                    let mut x = s.clone();
                    x.clients[i].remove(j);
                    v.push(Scen::Manual(x));
                }
            }
            for p in problem_cands(&s.problem) {
                v.push(Scen::Manual(ManualScen { problem: p, ..s.clone() }));
            }
            for labels in labels_cands(&s.labels) {
                v.push(Scen::Manual(ManualScen { labels, ..s.clone() }));
            }
            if s.parts {
                v.push(Scen::Manual(ManualScen { parts: false, ..s.clone() }));
            }
        },
        Scen::File(s) => {
            let mut push = |x: FileScen| v.push(Scen::File(x));
            for i in 0..2 {
                if s.damage[i] != Damage::None {
                    let mut x = s.clone();
                    x.damage[i] = Damage::None;
                    push(x);
                }
            }
            if s.old.is_some() {
                push(FileScen { old: None, ..s.clone() });
            }
            for i in 0..s.peers.len() {
                let mut x = s.clone();
                x.peers.remove(i);
                push(x);
                for c in call_cands(&s.peers[i].1) {
                    let mut x = s.clone();
                    x.peers[i].1 = c;
                    push(x);
                }
            }
            if let Some((p, c)) = &s.then {
                push(FileScen { then: None, ..s.clone() });
                for p in problem_cands(p) {
                    push(FileScen { then: Some((p, c.clone())), ..s.clone() });
                }
                for c in call_cands(c) {
                    push(FileScen { then: Some((p.clone(), c)), ..s.clone() });
                }
            }
            if s.crashed.is_some() {
                push(FileScen { crashed: None, ..s.clone() });
            }
            if s.names > 0 {
                push(FileScen { names: 0, ..s.clone() });
            }
            if s.depth > 0 {
                push(FileScen { depth: 0, ..s.clone() });
            }
            if s.out_obstacle > 0 {
                push(FileScen { out_obstacle: 0, ..s.clone() });
            }
            if s.log_env.is_some() {
                push(FileScen { log_env: None, ..s.clone() });
            }
            for i in 0..3 {
                if s.formats[i] == "bincode" {
                    let mut x = s.clone();
                    x.formats[i] = "serde_json".into();
                    push(x);
                }
            }
            for p in problem_cands(&s.problem) {
                push(FileScen { problem: p, ..s.clone() });
            }
            for c in call_cands(&s.call) {
                push(FileScen { call: c, ..s.clone() });
            }
        },
    }
    v
}

pub struct Shrinker<'a> {
    pub opts: &'a Opts,
    pub f: RunFn,
    pub class: String,
    pub until: Instant,
    pub runs: u64,
}

impl Shrinker<'_> {
    fn fails(&mut self, c: &Case, log: bool) -> Option<Outcome> {
        self.runs += 1;
        // a candidate that takes long is not worth it
        let limit = if self.runs == 1 { WALL_LIMIT } else { LONG_MS };
        WALL_LIMIT_MS.store(limit, Ordering::Relaxed);
        let o = forked(c, &Opts { want_log: log, ..self.opts.clone() }, self.f);
        match &o.viol {
            Some((cl, _)) if *cl == self.class => Some(o),
            _ => None,
        }
    }
    /// the case itself, then the same case under other schedules
    fn fails_some(&mut self, c: &Case, tries: u64) -> Option<Case> {
        for k in 0..tries {
            if Instant::now() > self.until {
                return None;
            }
            let mut x = c.clone();
            if k > 0 {
                x.sim.seed = crate::rng::mix(c.sim.seed.wrapping_add(k)) >> 1;
            }
            fix_cap(&mut x);
            if self.fails(&x, false).is_some() {
                return Some(x);
            }
        }
        None
    }

    pub fn scenario(&mut self, mut cur: Case, tries: u64) -> Case {
        'outer: loop {
            // fault kinds that are not needed
            for k in 0..cur.sim.ppm.len() {
                if cur.sim.ppm[k] > 0 {
                    let mut x = cur.clone();
                    x.sim.ppm[k] = 0;
                    if let Some(y) = self.fails_some(&x, 2) {
                        cur = y;
                        continue 'outer;
                    }
                }
            }
            for s in candidates(&cur.scen) {
                if Instant::now() > self.until {
                    return cur;
                }
                let mut x = cur.clone();
                x.scen = s;
                if let Some(y) = self.fails_some(&x, tries) {
                    cur = y;
                    continue 'outer;
                }
            }
            return cur;
        }
    }

    /// Turn the seeded schedule into an explicit one and drop what is not needed.
    pub fn schedule(&mut self, cur: Case) -> Case {
        let Some(o) = self.fails(&cur, true) else { return cur };
        let mut x = cur.clone();
        x.sim.strategy = 2;
        x.sim.script = o.log.clone();
        // scripted runs draw nothing; the settings that drive random decisions do not matter
        if self.fails(&x, false).is_none() {
            return cur;
        }
        let mut script = x.sim.script.clone();
        let mut chunk = script.len().div_ceil(2);
        while chunk >= 1 && !script.is_empty() {
            let mut i = 0;
            let mut removed = false;
            while i < script.len() {
                if Instant::now() > self.until {
                    x.sim.script = script;
                    return x;
                }
                let mut t = script.clone();
                t.drain(i..(i + chunk).min(t.len()));
                let mut y = x.clone();
                y.sim.script = t.clone();
                if self.fails(&y, false).is_some() {
                    script = t;
                    removed = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                if !removed {
                    break;
                }
            } else {
                chunk = chunk.div_ceil(2).min(chunk - 1);
            }
        }
        x.sim.script = script;
        x.sim.ppm = [0; crate::sim::F_KINDS];
        x
    }
}

pub fn shrink(case: &Case, class: &str, opts: &Opts, f: RunFn, budget: Duration) -> (Case, u64) {
    let start = Instant::now();
    let mut s = Shrinker { opts, f, class: class.into(), until: start + budget * 6 / 10, runs: 0 };
    let cur = if s.fails(case, false).is_some() {
        s.scenario(case.clone(), 8)
    } else {
        return (case.clone(), s.runs);
    };
    s.until = start + budget;
    let mut out = s.schedule(cur.clone());
    // the final form must fail; otherwise fall back to the seeded one
    if s.fails(&out, false).is_none() {
        out = cur;
    }
    (out, s.runs)
}
