//! `Split` scenarios: the scheduler's tree is split between threads.
use super::{build, search::payload};
use dstlib::{
    exec::Opts,
    model::{check_executable, memory, Small},
    rec,
    rng::mix,
    sim::{self, *},
    types::*,
};
use mbqc_scheduling::scheduler::{
    space::Graph,
    time::{Partitioner, PathGenerator},
    tree::{Focus, FocusIterator, Step, Sweep},
    Scheduler,
};
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Condvar, Mutex},
};

const LEAF: u32 = 1;
const SKIP: u32 = 2;
const PIECE: u32 = 3;
const MOVED: u32 = 4;
const REST: u32 = 5;
/// a path of the generator without a scheduler
const PATH: u32 = 6;

type Sch<'l> = Scheduler<'l, Partitioner>;

enum Item<'l> {
    Piece(Vec<u64>, Sch<'l>),
    /// a sweep that was begun on another thread: where it is, the depth of its root
    Begun(Vec<u64>, usize, Sweep<Sch<'l>>),
}

struct Queue<'l> {
    items: VecDeque<Item<'l>>,
    pending: usize,
}

struct Pool<'l> {
    q: Mutex<Queue<'l>>,
    cv: Condvar,
    root: usize,
}
impl<'l> Pool<'l> {
    fn push(&self, i: Item<'l>) {
        let mut q = self.q.lock().unwrap();
        q.items.push_back(i);
        q.pending += 1;
        self.cv.notify_one();
    }
    fn take(&self, seed: u64) -> Option<Item<'l>> {
        let mut q = self.q.lock().unwrap();
        loop {
            if q.pending == 0 {
                self.cv.notify_all();
                return None;
            }
            if !q.items.is_empty() {
                let k = (mix(seed ^ q.items.len() as u64) % q.items.len() as u64) as usize;
                return q.items.remove(k);
            }
            q = self.cv.wait(q).unwrap();
        }
    }
    fn done(&self) {
        let mut q = self.q.lock().unwrap();
        q.pending -= 1;
        if q.pending == 0 {
            self.cv.notify_all();
        }
    }
}

fn mask(v: &[usize]) -> u64 {
    v.iter().fold(0, |m, q| m | 1 << q)
}
fn decide(seed: u64, path: &[u64], what: u64) -> u64 {
    path.iter().fold(mix(seed ^ what.wrapping_mul(0x9e37)), |h, m| mix(h ^ m.wrapping_add(1))) % 100
}
fn with(path: &[u64], m: u64) -> Vec<u64> {
    let mut p = path.to_vec();
    p.push(m);
    p
}

fn sweep<'l>(s: &SplitScen, pool: &Pool<'l>, path: &mut Vec<u64>, base: usize, mut sw: Sweep<Sch<'l>>) {
    let mut n = 0;
    while let Some(step) = sw.next() {
        match step {
            Step::Forward(mess) => {
                path.push(mask(&mess));
                if mess.len() != mask(&mess).count_ones() as usize {
                    rec::note(format!("the step {mess:?} repeats a qubit"));
                }
                if decide(s.seed, path, 1) < s.skip as u64 {
                    rec::node(SKIP, path, 0);
                    path.pop();
                    if sw.skip_current().is_err() {
                        rec::note(format!("a node below {path:?} cannot be skipped"));
                        return;
                    }
                }
            },
            Step::Backward(leaf) => {
                if let Some(mem) = leaf {
                    rec::node(LEAF, path, mem);
                }
                path.pop();
                // what is left below a node that was entered before
                if path.len() > base && decide(s.seed, path, 900 + n) < s.skip as u64 / 2 {
                    rec::node(REST, path, 0);
                    path.pop();
                    if sw.skip_current().is_err() {
                        rec::note(format!("the rest of a node below {path:?} cannot be skipped"));
                        return;
                    }
                }
            },
        }
        n += 1;
        // hand the rest to another thread
        if s.resplit > 0 && n % 7 == 0 && decide(s.seed, path, 2 + n) < 10 {
            rec::node(MOVED, path, 0);
            pool.push(Item::Begun(path.clone(), base, sw.clone()));
            return;
        }
    }
}

/// The steps measured by hand before the tree is swept.
fn prefix(s: &SplitScen) -> Vec<u64> {
    let m = Small::new(&s.problem);
    let (mut done, mut path) = (0, Vec::new());
    for k in 0..s.prefix {
        let a = m.avail(done);
        if a == 0 {
            break;
        }
        let h = mix(s.seed ^ 77 ^ (k as u64) << 40);
        let step = if a & h != 0 { a & h } else { a & a.wrapping_neg() };
        path.push(step);
        done |= step;
    }
    path
}

/// Some of a tree that is too large to be swept.
fn some<'l>(s: &SplitScen, pool: &Pool<'l>, item: Item<'l>) {
    let Item::Piece(mut path, mut piece) = item else { return };
    rec::node(PIECE, &path, 0);
    if let Some(mem) = piece.at_leaf() {
        rec::node(LEAF, &path, mem);
        return;
    }
    if path.is_empty() {
        // the children of the root, by splitting and then by sweeping
        for k in 0..s.few {
            let Some((child, mess)) = piece.next_and_focus() else {
                rec::note(format!("only {k} children"));
                return;
            };
            rec::node(SKIP, &[mask(&mess)], 0);
            if k % 10 == 0 {
                pool.push(Item::Piece(vec![mask(&mess)], child));
            }
        }
        let mut sw = piece.into_iter();
        for k in 0..s.few {
            match sw.next() {
                Some(Step::Forward(mess)) => rec::node(SKIP, &[mask(&mess)], 0),
                x => {
                    rec::note(format!("the sweep yields {x:?} after {k} more children"));
                    return;
                },
            }
            if sw.skip_current().is_err() {
                rec::note("a node cannot be skipped".into());
                return;
            }
        }
    } else {
        let mut sw = piece.into_iter();
        for _ in 0..300 {
            match sw.next() {
                Some(Step::Forward(mess)) => path.push(mask(&mess)),
                Some(Step::Backward(leaf)) => {
                    if let Some(mem) = leaf {
                        rec::node(LEAF, &path, mem);
                    }
                    path.pop();
                },
                None => return,
            }
        }
    }
}

fn paths(t: PathGenerator<Partitioner>) {
    let mut path = Vec::new();
    for step in t {
        match step {
            Step::Forward(mess) => path.push(mask(&mess)),
            Step::Backward(leaf) => {
                if leaf.is_some() {
                    rec::node(PATH, &path, 0);
                }
                path.pop();
            },
        }
    }
    rec::node(PATH, &[], 0);
}

fn work<'l>(s: &SplitScen, pool: &Pool<'l>, item: Item<'l>) {
    match item {
        Item::Begun(mut path, base, sw) => sweep(s, pool, &mut path, base, sw),
        Item::Piece(mut path, mut piece) => {
            rec::node(PIECE, &path, 0);
            if let Some(mem) = piece.at_leaf() {
                rec::node(LEAF, &path, mem);
                return;
            }
            if path.len() == pool.root || decide(s.seed, &path, 3) < s.resplit as u64 {
                // all children, or some and the remaining sweep
                let mut left = match decide(s.seed, &path, 4) {
                    x if x < 50 => usize::MAX,
                    x => x as usize % 4,
                };
                while left > 0 {
                    let Some((child, mess)) = piece.next_and_focus() else { return };
                    let p = with(&path, mask(&mess));
                    if decide(s.seed, &p, 1) < s.skip as u64 {
                        rec::node(SKIP, &p, 0);
                    } else {
                        pool.push(Item::Piece(p, child));
                    }
                    left -= 1;
                }
            }
            let base = path.len();
            sweep(s, pool, &mut path, base, piece.into_iter());
        },
    }
}

pub fn run(case: &Case, s: &SplitScen, opts: &Opts) -> Outcome {
    rec::reset();
    let s2 = s.clone();
    let rep = sim::run(
        &case.sim,
        None,
        Box::new(move || {
            let s = s2;
            let names = build::Names::new(&s.problem, &s.labels);
            let mut buf = build::buffer(&s.problem, &s.labels);
            let nb = build::space(&s.problem, &s.labels, &names);
            let time = build::time::<Partitioner>(&s.problem, &names, &mut buf);
            let alone = (s.few == 0 && s.labels.as_ref().is_some_and(|l| l.seed % 3 == 0)).then(|| time.clone());
            let mut root = Scheduler::new(time, Graph::new(nb.as_buffer()));
            let path = if s.few > 0 { Vec::new() } else { prefix(&s) };
            for (k, step) in path.iter().enumerate() {
                // a step by hand is also possible where children were taken before
                for _ in 0..s.advance as u64 * decide(s.seed, &path[..k], 5) / 50 {
                    if root.next_and_focus().is_none() {
                        break;
                    }
                }
                let step: Vec<usize> = (0..s.problem.n()).filter(|q| step >> q & 1 == 1).collect();
                let res = if decide(s.seed, &path[..k], 6) < 50 {
                    root.focus_inplace(&step)
                } else {
                    root.focus(&step).map(|r| root = r)
                };
                if let Err(e) = res {
                    rec::note(format!("the first step {step:?} is rejected: {e}"));
                    return;
                }
            }
            let pool = Pool { q: Mutex::new(Queue { items: VecDeque::new(), pending: 0 }), cv: Condvar::new(), root: path.len() };
            pool.push(Item::Piece(path, root));
            std::thread::scope(|sc| {
                if let Some(t) = alone {
                    sc.spawn(move || paths(t));
                }
                for w in 0..s.workers {
                    let (pool, s) = (&pool, &s);
                    sc.spawn(move || {
                        let mut k = 0u64;
                        while let Some(i) = pool.take(s.seed ^ (w as u64) << 32 ^ k) {
                            k += 1;
                            if let Err(e) = catch_unwind(AssertUnwindSafe(|| if s.few > 0 { some(s, pool, i) } else { work(s, pool, i) })) {
                                rec::note(format!("panicked: {}", payload(e)));
                            }
                            pool.done();
                        }
                    });
                }
            });
        }),
    );
    let log = if opts.want_log { sim::log() } else { Vec::new() };
    let nodes = rec::take_nodes();
    let notes = rec::take_notes();
    let count = |k: u32| nodes.iter().filter(|n| n.0 == k).count();
    let mut probes = Vec::new();
    let mut probe = |b: bool, t: &str| {
        if b {
            probes.push(t.to_string())
        }
    };
    let leaf_threads: BTreeSet<i32> = nodes.iter().filter(|n| n.0 == LEAF).map(|n| n.1).collect();
    probe(s.labels.as_ref().is_some_and(|l| l.map > 0), "relabelled qubits");
    probe(count(PATH) > 0, "generator swept alone");
    probe(s.few > 0, "part of a tree with 24 to 58 qubits in the first layer");
    probe(count(PIECE) > 1, "tree split");
    probe(s.prefix > 0 && s.advance > 0, "steps made by hand after children were taken");
    probe(s.prefix > 0, "sweep begins after steps made by hand");
    probe(s.problem.n() > 8, "more than 8 qubits");
    probe(count(MOVED) > 0, "a begun sweep moved to another thread");
    probe(count(REST) > 0, "the rest of a node skipped");
    probe(count(SKIP) > 0, "nodes skipped");
    probe(leaf_threads.len() > 1, "schedules found on several threads");
    probe(leaf_threads.len() > 3, "schedules found on four or more threads");
    probe(count(LEAF) > 200, "more than 200 schedules");
    let digest = dstlib::rng::hash_bytes(format!("{nodes:?}{notes:?}").as_bytes()) ^ rep.hash.rotate_left(17) ^ rep.inter_hash;
    Outcome {
        viol: judge(s, &rep, &nodes, &notes),
        digest,
        evals: count(LEAF) as u64,
        nontrivial: leaf_threads.len() > 1 && count(PIECE) > 1,
        probes,
        log,
        trace: if opts.verbose { nodes.iter().map(|n| format!("{n:?}")).chain(notes).collect() } else { Vec::new() },
        report: rep,
        error: None,
    }
}

fn judge(s: &SplitScen, rep: &Report, nodes: &[(u32, i32, Vec<u64>, usize)], notes: &[String]) -> Option<(String, String)> {
    let v = |c: &str, t: String| Some((c.to_string(), t));
    if let Some(n) = notes.first() {
        if let Some((class, text)) = n.split_once('|').filter(|x| x.0.starts_with("wrong-")) {
            return v(class, text.into());
        }
        return v(if n.starts_with("panicked") { "panic" } else { "odd" }, n.clone());
    }
    match rep.status {
        1 => return v("deadlock", "the threads wait for ever".into()),
        2 => return v("no-progress", format!("the sweeps did not end within {} steps", rep.ticks)),
        _ => {},
    }
    if s.few > 0 {
        return judge_some(s, nodes);
    }
    let mut want: BTreeMap<Vec<u64>, usize> = Small::new(&s.problem).all();
    if nodes.iter().any(|n| n.0 == PATH) {
        let mut got: Vec<&Vec<u64>> = nodes.iter().filter(|n| n.0 == PATH && !n.2.is_empty()).map(|n| &n.2).collect();
        got.sort();
        if !got.iter().copied().eq(want.keys()) {
            return v("generator", format!("the generator alone yields {} paths that are not the {} schedules", got.len(), want.len()));
        }
    }
    let first = prefix(s);
    want.retain(|p, _| p.starts_with(&first));
    for n in nodes.iter().filter(|n| n.0 == SKIP) {
        want.retain(|p, _| !p.starts_with(&n.2));
    }
    for (i, n) in nodes.iter().enumerate().filter(|n| n.1.0 == REST) {
        // but what was visited before, and what other pieces hold
        let held = |p: &Vec<u64>| nodes.iter().any(|q| q.0 == PIECE && q.2.len() > n.2.len() && q.2.starts_with(&n.2) && p.starts_with(&q.2));
        let before: BTreeSet<&Vec<u64>> = nodes[..i].iter().filter(|q| q.0 == LEAF).map(|q| &q.2).collect();
        want.retain(|p, _| !p.starts_with(&n.2) || before.contains(p) || held(p));
    }
    let mut seen = BTreeSet::new();
    for n in nodes.iter().filter(|n| n.0 == LEAF) {
        match want.get(&n.2) {
            None => return v("wrong-schedule", format!("the sweep yields {:?} (bit masks), which is not a schedule to be visited", n.2)),
            Some(m) if *m != n.3 => return v("wrong-memory", format!("schedule {:?} (bit masks) needs {m} but is reported with {}", n.2, n.3)),
            _ => {},
        }
        if !seen.insert(n.2.clone()) {
            return v("twice", format!("schedule {:?} (bit masks) is visited twice", n.2));
        }
    }
    if let Some(p) = want.keys().find(|p| !seen.contains(*p)) {
        return v("missed", format!("schedule {p:?} (bit masks) is never visited, {} of {} are", seen.len(), want.len()));
    }
    None
}

fn judge_some(s: &SplitScen, nodes: &[(u32, i32, Vec<u64>, usize)]) -> Option<(String, String)> {
    let v = |c: &str, t: String| Some((c.to_string(), t));
    let m = Small::new(&s.problem);
    let (mut seen, mut first) = (BTreeSet::new(), BTreeSet::new());
    for n in nodes {
        let p = &n.2;
        if n.0 == SKIP {
            if p[0] == 0 || p[0] & !m.avail(0) != 0 {
                return v("wrong-schedule", format!("a child of the root measures {:?} (bit mask)", p[0]));
            }
            if !first.insert(p[0]) {
                return v("twice", format!("the child {:?} (bit mask) of the root is visited twice", p[0]));
            }
        }
        if n.0 == LEAF {
            let steps: Vec<Vec<usize>> = p.iter().map(|x| (0..s.problem.n()).filter(|q| x >> q & 1 == 1).collect()).collect();
            if let Err(e) = check_executable(&s.problem, &steps) {
                return v("wrong-schedule", format!("the sweep yields {steps:?}: {e}"));
            }
            let want = memory(&s.problem, &steps).0;
            if want != n.3 {
                return v("wrong-memory", format!("schedule {steps:?} needs {want} but is reported with {}", n.3));
            }
            if !seen.insert(p.clone()) {
                return v("twice", format!("schedule {steps:?} is visited twice"));
            }
        }
    }
    None
}
