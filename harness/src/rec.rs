//! Recording of what a simulated execution observes. All functions here run uninstrumented and
//! un-preempted, one thread at a time, so plain globals do.
use crate::{rng::mix, sim, types::*};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct CallRec {
    pub caller: usize,
    pub idx: usize,
    pub tid: i32,
    pub t0: u64,
    pub t1: u64,
    pub tick0: u64,
    pub tick1: u64,
    pub lt0: u64,
    pub lt1: u64,
    pub created0: u64,
    pub created1: u64,
    pub done: bool,
    pub result: Option<Result<Vec<Sched>, String>>,
    /// accept function invocations
    pub calls: u64,
    pub by_tid: BTreeMap<i32, u64>,
    pub late_by_tid: BTreeMap<i32, u64>,
    pub expiry: Option<u64>,
    pub totals: BTreeSet<u64>,
    pub tuples: BTreeSet<(usize, usize, usize, usize)>,
    /// (bound, minimal) arguments below usize::MAX, smallest seen
    pub min_bound: Option<f64>,
    pub min_minimal: Option<f64>,
    pub odd_arg: Option<String>,
    pub panics: u64,
    pub zeros: u64,
    pub ones: u64,
    pub mids: u64,
    /// local ticks of every thread the call started, at its end
    pub thread_ticks: Vec<u64>,
    pub inputs_changed: bool,
}

static mut RECS: Vec<CallRec> = Vec::new();
static mut EVENTS: Vec<Ev> = Vec::new();
static mut NODES: Vec<(u32, i32, Vec<u64>, usize)> = Vec::new();
static mut NOTES: Vec<String> = Vec::new();

#[allow(static_mut_refs)]
fn recs() -> &'static mut Vec<CallRec> {
    unsafe { &mut RECS }
}
#[allow(static_mut_refs)]
fn events() -> &'static mut Vec<Ev> {
    unsafe { &mut EVENTS }
}
#[allow(static_mut_refs)]
fn nodes() -> &'static mut Vec<(u32, i32, Vec<u64>, usize)> {
    unsafe { &mut NODES }
}
#[allow(static_mut_refs)]
fn notes() -> &'static mut Vec<String> {
    unsafe { &mut NOTES }
}

static mut LUCK: Vec<Vec<(i32, u64)>> = Vec::new();
#[allow(static_mut_refs)]
fn lucks() -> &'static mut Vec<Vec<(i32, u64)>> {
    unsafe { &mut LUCK }
}
/// search `k` asks about a step that leaves `rem` qubits
#[inline(never)]
pub fn luck(k: usize, rem: u64) {
    let _a = sim::Atomic::enter();
    let v = lucks();
    if v.len() <= k {
        v.resize(k + 1, Vec::new());
    }
    v[k].push((sim::tid(), rem));
}
#[inline(never)]
pub fn take_lucks() -> Vec<Vec<(i32, u64)>> {
    std::mem::take(lucks())
}

#[inline(never)]
pub fn reset() {
    lucks().clear();
    recs().clear();
    events().clear();
    notes().clear();
    nodes().clear();
}
#[inline(never)]
pub fn take() -> Vec<CallRec> {
    std::mem::take(recs())
}
/// a generic history event
#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub t: u64,
    pub tid: i32,
    pub kind: u32,
    pub a: u64,
    pub b: u64,
}
#[inline(never)]
pub fn ev(kind: u32, a: u64, b: u64) {
    let _a = sim::Atomic::enter();
    events().push(Ev { t: sim::now(), tid: sim::tid(), kind, a, b });
}
#[inline(never)]
pub fn take_events() -> Vec<Ev> {
    std::mem::take(events())
}
/// a node of the tree of schedules: (what, steps as bit masks, memory)
#[inline(never)]
pub fn node(kind: u32, path: &[u64], mem: usize) {
    let _a = sim::Atomic::enter();
    nodes().push((kind, sim::tid(), path.to_vec(), mem));
}
#[inline(never)]
pub fn take_nodes() -> Vec<(u32, i32, Vec<u64>, usize)> {
    std::mem::take(nodes())
}
/// a text for the history or a problem seen by the scenario itself
#[inline(never)]
pub fn note(s: String) {
    let _a = sim::Atomic::enter();
    notes().push(s);
}
#[inline(never)]
pub fn take_notes() -> Vec<String> {
    std::mem::take(notes())
}

#[inline(never)]
pub fn begin(caller: usize, idx: usize, timeout: Option<u64>) -> usize {
    let _a = sim::Atomic::enter();
    let tid = sim::tid();
    let t0 = sim::now();
    recs().push(CallRec {
        caller,
        idx,
        tid,
        t0,
        tick0: sim::ticks(),
        lt0: sim::thread_ticks(tid),
        created0: sim::threads_created(),
        expiry: timeout.map(|t| t0.saturating_add(t)),
        ..Default::default()
    });
    recs().len() - 1
}

#[inline(never)]
pub fn end(id: usize, result: Result<Vec<Sched>, String>, changed: bool) {
    let _a = sim::Atomic::enter();
    let created1 = sim::threads_created();
    let r = &mut recs()[id];
    r.t1 = sim::now();
    r.tick1 = sim::ticks();
    r.lt1 = sim::thread_ticks(r.tid);
    r.created1 = created1;
    r.done = true;
    r.result = Some(result);
    r.inputs_changed = changed;
    r.thread_ticks = (r.created0..created1).map(|t| sim::thread_work(t as i32 + 1)).collect();
}

pub fn acc_value(acc: &Acc, last_max: usize, last_cur: usize, cur: usize, rem: usize, total: usize) -> f64 {
    match acc {
        Acc::Const(p) => *p,
        Acc::Hash { seed, zero, mid, p, hi, mask } => {
            let mut h = mix(*seed);
            for (i, v) in [last_max, last_cur, cur, rem, total].iter().enumerate() {
                if mask >> i & 1 == 1 {
                    h = mix(h ^ (*v as u64 + 1));
                }
            }
            let x = h % 100;
            if x < *zero as u64 {
                0.
            } else if x < (*zero + *mid) as u64 {
                *p
            } else {
                *hi
            }
        },
        _ => f64::NAN,
    }
}

/// Records an invocation of the accept function; returns the probability and whether to panic.
#[inline(never)]
pub fn accept(id: usize, call: &Call, acc: &Acc, builtin: Option<f64>, a: [f64; 7]) -> (f64, bool) {
    let _a = sim::Atomic::enter();
    let r = &mut recs()[id];
    let tid = sim::tid();
    r.calls += 1;
    *r.by_tid.entry(tid).or_insert(0) += 1;
    if let Some(e) = r.expiry {
        if sim::now() > e {
            *r.late_by_tid.entry(tid).or_insert(0) += 1;
        }
    }
    if r.done {
        r.odd_arg = Some("callback invoked after the call returned".into());
    }
    let big = usize::MAX as f64;
    for (i, x) in a.iter().enumerate() {
        if !x.is_finite() || *x < 0. || x.fract() != 0. || (i >= 2 && *x > 1e9) {
            r.odd_arg = Some(format!("argument {i} is {x}"));
        }
    }
    if a[0] < big {
        r.min_bound = Some(r.min_bound.map_or(a[0], |m| m.min(a[0])));
    }
    if a[1] < big {
        r.min_minimal = Some(r.min_minimal.map_or(a[1], |m| m.min(a[1])));
    }
    let t = (a[2] as usize, a[3] as usize, a[4] as usize, a[5] as usize);
    r.totals.insert(a[6] as u64);
    if r.tuples.len() < 4096 {
        r.tuples.insert(t);
    }
    if call.panic_at.contains(&r.calls) || (call.panic_from > 0 && r.calls >= call.panic_from) {
        r.panics += 1;
        return (0., true);
    }
    let v = builtin.unwrap_or_else(|| acc_value(acc, t.0, t.1, t.2, t.3, a[6] as usize));
    if v >= 1. {
        r.ones += 1
    } else if v > 0. {
        r.mids += 1
    } else {
        r.zeros += 1
    }
    (v, false)
}
