//! `Manual` scenarios: several clients drive one shared scheduler step by step.
use super::{build, search::payload};
use dstlib::{
    exec::Opts,
    model,
    rec,
    rng::mix,
    sim,
    types::*,
};
use mbqc_scheduling::scheduler::{
    space::{Graph, State},
    time::{MeasurableSet, Partitioner, PathGenerator},
    tree::{Focus, FocusIterator},
    Scheduler,
};
use std::{
    collections::BTreeSet,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex},
};

const OK: u32 = 1;
const REJECTED: u32 = 2;
const STALE: u32 = 3;
const LEGAL: u32 = 4;
const ILLEGAL: u32 = 5;
const DISCARDED: u32 = 6;

/// Everything a user can see of a scheduler.
#[derive(Debug, Clone, PartialEq)]
struct View {
    measurable: Vec<usize>,
    current: usize,
    max: usize,
    states: Vec<u8>,
    blocked: bool,
    remaining: usize,
    children: Option<BTreeSet<Vec<usize>>>,
}

trait Kind: MeasurableSet + Clone + Send {
    fn children(_s: &Scheduler<Self>) -> Option<BTreeSet<Vec<usize>>> {
        None
    }
}
impl Kind for Vec<usize> {}
impl Kind for Partitioner {
    fn children(s: &Scheduler<Self>) -> Option<BTreeSet<Vec<usize>>> {
        if s.time().measurable().set().len() > 6 {
            return None;
        }
        let mut c = s.clone();
        let mut out = BTreeSet::new();
        let mut n = 0;
        while let Some((_, mut m)) = c.next_and_focus() {
            m.sort();
            out.insert(m);
            n += 1;
            if n > 1000 {
                break;
            }
        }
        Some(out)
    }
}

fn view<T: Kind>(s: &Scheduler<T>) -> View {
    let mut m = s.time().measurable().set().to_vec();
    m.sort();
    View {
        measurable: m,
        current: s.space().current_memory(),
        max: s.space().max_memory(),
        states: s
            .space()
            .nodes()
            .iter()
            .map(|n| match n.0 {
                State::Sleeping => 0,
                State::InMemory => 1,
                State::Measured => 2,
            })
            .collect(),
        blocked: s.time().has_unmeasureable(),
        remaining: s.time().num_remaining_nodes(),
        children: T::children(s),
    }
}

fn done_of(steps: &[Vec<usize>]) -> BTreeSet<usize> {
    steps.iter().flatten().copied().collect()
}
fn avail(p: &Problem, done: &BTreeSet<usize>) -> Vec<usize> {
    let d = p.deps();
    (0..p.n()).filter(|q| !done.contains(q) && d[*q].iter().all(|x| done.contains(x))).collect()
}

/// What a user must see after the accepted steps.
fn expected(p: &Problem, steps: &[Vec<usize>], children: bool) -> View {
    let done = done_of(steps);
    let measurable = avail(p, &done);
    let (max, current) = model::memory(p, steps);
    let states = (0..p.n())
        .map(|q| if done.contains(&q) { 2 } else if p.nb[q].iter().any(|w| done.contains(w)) { 1 } else { 0 })
        .collect();
    let children = (children && measurable.len() <= 6).then(|| {
        (1..1u32 << measurable.len())
            .map(|m| (0..measurable.len()).filter(|i| m >> i & 1 == 1).map(|i| measurable[i]).collect())
            .collect()
    });
    View {
        current,
        max,
        states,
        blocked: done.len() + measurable.len() < p.n(),
        remaining: p.n() - done.len(),
        measurable,
        children,
    }
}

fn resolve(p: &Problem, steps: &[Vec<usize>], pick: &Pick) -> Vec<usize> {
    let done = done_of(steps);
    let av = avail(p, &done);
    let legal = |m: u64| -> Vec<usize> {
        let mut v: Vec<usize> = av.iter().enumerate().filter(|(i, _)| m >> (i % 64) & 1 == 1).map(|x| *x.1).collect();
        if v.is_empty() && !av.is_empty() {
            v.push(av[m as usize % av.len()]);
        }
        if !v.is_empty() {
            let k = mix(m) as usize % v.len();
            v.rotate_left(k);
        }
        v
    };
    let insert = |mut v: Vec<usize>, x: usize, m: u64| {
        v.insert(mix(m ^ 5) as usize % (v.len() + 1), x);
        v
    };
    match pick {
        Pick::Legal(m) => legal(*m),
        Pick::Dup(m) => {
            let mut v = legal(*m);
            if let Some(&x) = v.first() {
                for k in 0..1 + (m >> 40) % 3 {
                    v = insert(v, x, m ^ k);
                }
            }
            v
        },
        Pick::Measured(m) => {
            let d: Vec<usize> = done.into_iter().collect();
            if d.is_empty() { legal(*m) } else { insert(legal(*m), d[(m >> 32) as usize % d.len()], *m) }
        },
        Pick::Blocked(m) => {
            let b: Vec<usize> = (0..p.n()).filter(|q| !done.contains(q) && !av.contains(q)).collect();
            if b.is_empty() { legal(*m) } else { insert(legal(*m), b[(m >> 32) as usize % b.len()], *m) }
        },
        Pick::Raw(v) => v.clone(),
        Pick::Empty => vec![],
    }
}

/// (accepted, violation)
fn perform<T: Kind>(p: &Problem, sch: &mut Scheduler<'_, T>, steps: &mut Vec<Vec<usize>>, ms: &[usize], op: &ManOp, part: bool) -> Option<String> {
    let before = expected(p, steps, part);
    let distinct = ms.iter().collect::<BTreeSet<_>>().len() == ms.len();
    let legal = distinct && ms.iter().all(|q| before.measurable.contains(q));
    rec::ev(if legal { LEGAL } else { ILLEGAL }, ms.len() as u64, 0);
    let inplace = matches!(op, ManOp::Inplace(_));
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        ManOp::Inplace(_) => sch.focus_inplace(ms).map(|_| None),
        ManOp::Focus(..) => sch.focus(ms).map(Some),
    }));
    let new = match r {
        Err(e) => return Some(format!("panic|the instruction {ms:?} after {steps:?} panicked: {}", payload(e))),
        Ok(Err(_)) => {
            rec::ev(REJECTED, 0, 0);
            if legal && !ms.is_empty() {
                return Some(format!("legal-rejected|the legal step {ms:?} after {steps:?} is rejected"));
            }
            let now = view(sch);
            if now != before {
                return Some(format!("not-atomic|the rejected instruction {ms:?} after {steps:?} changes {before:?} to {now:?}"));
            }
            return None;
        },
        Ok(Ok(x)) => x,
    };
    if !legal {
        return Some(format!("illegal-accepted|the illegal step {ms:?} after {steps:?} is accepted"));
    }
    rec::ev(OK, 0, 0);
    let mut longer = steps.clone();
    if !ms.is_empty() {
        longer.push(ms.to_vec());
    }
    let after = expected(p, &longer, part);
    match new {
        None => {
            debug_assert!(inplace);
            *steps = longer;
        },
        Some(n) => {
            let got = view(sch);
            if got != before {
                return Some(format!("original-changed|focusing on {ms:?} after {steps:?} changes the original from {before:?} to {got:?}"));
            }
            if let ManOp::Focus(_, true) = op {
                *sch = n;
                *steps = longer;
            } else {
                rec::ev(DISCARDED, 0, 0);
                let got = view(&n);
                if got != after {
                    return Some(format!("wrong-state|after {longer:?} the new scheduler shows {got:?} instead of {after:?}"));
                }
                return None;
            }
        },
    }
    let got = view(sch);
    if got != after {
        return Some(format!("wrong-state|after {steps:?} the scheduler shows {got:?} instead of {after:?}"));
    }
    None
}

/// A path generator and a graph without a scheduler.
struct Alone<'l, T> {
    time: PathGenerator<'l, T>,
    space: Graph<'l>,
    done: usize,
}
impl<'l, T: Kind> Alone<'l, T> {
    fn follow(&mut self, p: &Problem, steps: &[Vec<usize>], inplace: bool, last: &[usize]) -> Option<String> {
        let before = self.time.measurable().set().to_vec();
        let legal = last.iter().collect::<BTreeSet<_>>().len() == last.len() && last.iter().all(|q| before.contains(q));
        if steps.len() == self.done {
            // not a step of the scheduler: not one of the generator either, unless it was discarded
            let r = self.time.focus(last);
            if r.is_ok() != legal && !last.is_empty() {
                return Some(format!("generator|the generator answers {} to {last:?} after {steps:?}", r.is_ok()));
            }
        }
        for k in self.done..steps.len() {
            let m = &steps[k];
            let ok = if inplace {
                self.time.focus_inplace(m).is_ok() && self.space.focus_inplace(m).is_ok()
            } else {
                match (self.time.focus(m), self.space.focus(m)) {
                    (Ok(t), Ok(g)) => {
                        self.time = t;
                        self.space = g;
                        true
                    },
                    _ => false,
                }
            };
            if !ok {
                return Some(format!("generator|a generator or graph alone rejects step {k} of {steps:?}"));
            }
        }
        self.done = steps.len();
        let e = expected(p, steps, false);
        let mut m = self.time.measurable().set().to_vec();
        m.sort();
        if m != e.measurable || self.time.num_remaining_nodes() != e.remaining || self.time.has_unmeasureable() != e.blocked {
            return Some(format!("generator|the generator shows {m:?} after {steps:?}"));
        }
        if (self.space.current_memory(), self.space.max_memory()) != (e.current, e.max) {
            return Some(format!("graph|the graph needs ({}, {}) after {steps:?}", self.space.current_memory(), self.space.max_memory()));
        }
        None
    }
}

fn drive<'l, T: Kind + 'l>(s: &'l ManualScen, time: PathGenerator<'l, T>, nb: &'l [Vec<usize>], part: bool)
where
    Scheduler<'l, T>: Send,
{
    let p = &s.problem;
    let alone = Mutex::new(s.parts.then(|| Alone { time: time.clone(), space: Graph::new(nb), done: 0 }));
    let sch = Scheduler::new(time, Graph::new(nb));
    let first = view(&sch);
    let want = expected(p, &[], part);
    if first != want {
        rec::note(format!("wrong-state|the fresh scheduler shows {first:?} instead of {want:?}"));
        return;
    }
    let shared = Mutex::new((sch, Vec::<Vec<usize>>::new(), false));
    std::thread::scope(|sc| {
        for c in &s.clients {
            let (shared, alone) = (&shared, &alone);
            sc.spawn(move || {
                for op in c {
                    let pick = match op {
                        ManOp::Inplace(p) | ManOp::Focus(p, _) => p,
                    };
                    let (ms, seen) = {
                        let g = shared.lock().unwrap();
                        (resolve(p, &g.1, pick), g.1.len())
                    };
                    sim::yield_point();
                    let mut g = shared.lock().unwrap();
                    if g.2 {
                        return;
                    }
                    if g.1.len() != seen {
                        rec::ev(STALE, 0, 0);
                    }
                    let g = &mut *g;
                    if let Some(v) = perform(p, &mut g.0, &mut g.1, &ms, op, part) {
                        rec::note(v);
                        g.2 = true;
                        return;
                    }
                    let steps = g.1.clone();
                    if let Some(a) = &mut *alone.lock().unwrap() {
                        if let Some(v) = a.follow(p, &steps, ms.len() % 2 == 0, &ms) {
                            rec::note(v);
                            g.2 = true;
                            return;
                        }
                    }
                }
            });
        }
    });
}

pub fn run(case: &Case, s: &ManualScen, opts: &Opts) -> Outcome {
    rec::reset();
    let shared = Arc::new(s.clone());
    let inner = shared.clone();
    let rep = sim::run(
        &case.sim,
        None,
        Box::new(move || {
            let s = &*inner;
            let names = build::Names::new(&s.problem, &s.labels);
            let mut buf = build::buffer(&s.problem, &s.labels);
            let nb = build::space(&s.problem, &s.labels, &names);
            if s.partitioner {
                drive::<Partitioner>(s, build::time(&s.problem, &names, &mut buf), nb.as_buffer(), true);
            } else {
                drive::<Vec<usize>>(s, build::time(&s.problem, &names, &mut buf), nb.as_buffer(), false);
            }
        }),
    );
    let log = if opts.want_log { sim::log() } else { Vec::new() };
    let evs = rec::take_events();
    let notes = rec::take_notes();
    let has = |k: u32| evs.iter().any(|e| e.kind == k);
    let mut probes = Vec::new();
    let mut probe = |b: bool, t: &str| {
        if b {
            probes.push(t.to_string())
        }
    };
    probe(has(STALE), "instruction from an outdated view");
    probe(has(REJECTED), "instruction rejected");
    probe(has(OK), "instruction accepted");
    probe(has(DISCARDED), "focused scheduler discarded");
    probe(evs.iter().any(|e| e.kind == ILLEGAL && e.a > s.problem.n() as u64), "illegal instruction longer than the problem");
    probe(s.labels.as_ref().is_some_and(|l| l.map > 0), "relabelled qubits");
    probe(s.labels.as_ref().is_some_and(|l| l.noise > 0), "loops and repeated edges");
    probe(s.parts, "generator and graph driven alone");
    probe(s.problem.n() > 32, "more than 32 qubits");
    let viol = match notes.first() {
        Some(n) => n.split_once('|').map(|(a, b)| (a.to_string(), b.to_string())),
        None if rep.status != 0 => Some(("no-progress".into(), "the clients did not end".into())),
        None => None,
    };
    let digest = dstlib::rng::hash_bytes(format!("{evs:?}{notes:?}").as_bytes()) ^ rep.hash.rotate_left(17) ^ rep.inter_hash;
    Outcome {
        viol,
        digest,
        evals: evs.iter().filter(|e| e.kind == OK || e.kind == REJECTED).count() as u64,
        nontrivial: has(LEGAL) && has(ILLEGAL),
        probes,
        log,
        trace: if opts.verbose { evs.iter().map(|e| format!("{e:?}")).chain(notes).collect() } else { Vec::new() },
        report: rep,
        error: None,
    }
}
