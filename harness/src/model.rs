//! Reference models, written independently of the code under test.
use crate::types::{Problem, Sched};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// `model!(p, m => e)`: `e` with the model `m` of `p`
#[macro_export]
macro_rules! model {
    ($p:expr, $m:ident => $e:expr) => {
        if $p.n() <= <u64 as $crate::model::Set>::MOST {
            let $m = $crate::model::Model::<u64>::new($p);
            $e
        } else {
            let $m = $crate::model::Model::<$crate::model::Wide>::new($p);
            $e
        }
    };
}

impl Problem {
    pub fn n(&self) -> usize {
        self.nb.len()
    }
    pub fn deps(&self) -> Vec<Vec<usize>> {
        let mut d = vec![Vec::new(); self.n()];
        for layer in &self.order {
            for (q, ds) in layer {
                d[*q] = ds.clone();
            }
        }
        d
    }
    /// Can the search of it be completed, and the result be computed by the model?
    pub fn tractable(&self) -> bool {
        let n = self.n();
        n <= 12 || (n <= Wide::MOST && model!(self, m => m.tree_nodes_below(if n > 40 { 20_000 } else { 200_000 })).is_some())
    }
    /// Minimum number of steps any schedule needs: the longest dependency chain.
    pub fn min_steps(&self) -> usize {
        let d = self.deps();
        let mut depth = vec![0usize; self.n()];
        for layer in &self.order {
            for (q, _) in layer {
                depth[*q] = 1 + d[*q].iter().map(|x| depth[*x]).max().unwrap_or(0);
            }
        }
        depth.into_iter().max().unwrap_or(0)
    }
    /// Valid input: simple symmetric graph, every qubit once, dependencies in earlier layers.
    pub fn valid(&self) -> bool {
        let n = self.n();
        for (i, v) in self.nb.iter().enumerate() {
            let s: BTreeSet<_> = v.iter().collect();
            if s.len() != v.len() || v.iter().any(|j| *j >= n || *j == i || !self.nb[*j].contains(&i)) {
                return false;
            }
        }
        let mut seen = BTreeSet::new();
        for (li, layer) in self.order.iter().enumerate() {
            let before = seen.clone();
            if layer.is_empty() {
                return false;
            }
            for (q, ds) in layer {
                if *q >= n || !seen.insert(*q) || ds.iter().any(|d| !before.contains(d)) {
                    return false;
                }
                let u: BTreeSet<_> = ds.iter().collect();
                if u.len() != ds.len() || (li == 0) != ds.is_empty() {
                    return false;
                }
            }
        }
        seen.len() == n
    }
}

/// Is this an executable schedule? (C01)
pub fn check_executable(p: &Problem, s: &[Vec<usize>]) -> Result<(), String> {
    let n = p.n();
    let deps = p.deps();
    let mut when = vec![usize::MAX; n];
    for (t, step) in s.iter().enumerate() {
        if step.is_empty() {
            return Err(format!("step {t} is empty"));
        }
        for &q in step {
            if q >= n {
                return Err(format!("unknown qubit {q}"));
            }
            if when[q] != usize::MAX {
                return Err(format!("qubit {q} is measured twice"));
            }
            when[q] = t;
        }
    }
    for q in 0..n {
        if when[q] == usize::MAX {
            return Err(format!("qubit {q} is never measured"));
        }
        for &d in &deps[q] {
            if when[d] >= when[q] {
                return Err(format!("qubit {q} is measured at step {} but depends on {d}, measured at step {}", when[q], when[d]));
            }
        }
    }
    Ok(())
}

/// Memory needed by a sequence of steps: (maximum, current after the last step).
pub fn memory(p: &Problem, s: &[Vec<usize>]) -> (usize, usize) {
    let n = p.n();
    let mut init = vec![false; n];
    let mut done = vec![false; n];
    let mut max = 0;
    let held = |init: &[bool], done: &[bool]| (0..n).filter(|&q| init[q] && !done[q]).count();
    for step in s {
        for &q in step {
            init[q] = true;
            for &w in &p.nb[q] {
                init[w] = true;
            }
        }
        max = max.max(held(&init, &done));
        for &q in step {
            done[q] = true;
        }
    }
    (max, held(&init, &done))
}

/// A set of qubits.
pub trait Set: Copy + Ord + std::hash::Hash {
    const MOST: usize;
    fn none() -> Self;
    fn single(q: usize) -> Self;
    fn or(self, o: Self) -> Self;
    fn minus(self, o: Self) -> Self;
    fn has(self, q: usize) -> bool;
    fn len(self) -> usize;
    fn is_empty(self) -> bool {
        self.len() == 0
    }
    fn with(self, q: usize) -> Self {
        self.or(Self::single(q))
    }
    fn of(v: &[usize]) -> Self {
        v.iter().fold(Self::none(), |m, q| m.with(*q))
    }
}

impl Set for u64 {
    const MOST: usize = 63;
    fn none() -> Self {
        0
    }
    fn single(q: usize) -> Self {
        1 << q
    }
    fn or(self, o: Self) -> Self {
        self | o
    }
    fn minus(self, o: Self) -> Self {
        self & !o
    }
    fn has(self, q: usize) -> bool {
        self >> q & 1 == 1
    }
    fn len(self) -> usize {
        self.count_ones() as usize
    }
}

const WORDS: usize = 5;
pub type Wide = [u64; WORDS];
impl Set for Wide {
    const MOST: usize = 64 * WORDS;
    fn none() -> Self {
        [0; WORDS]
    }
    fn single(q: usize) -> Self {
        let mut x = [0; WORDS];
        x[q / 64] = 1 << (q % 64);
        x
    }
    fn or(self, o: Self) -> Self {
        std::array::from_fn(|i| self[i] | o[i])
    }
    fn minus(self, o: Self) -> Self {
        std::array::from_fn(|i| self[i] & !o[i])
    }
    fn has(self, q: usize) -> bool {
        self[q / 64] >> (q % 64) & 1 == 1
    }
    fn len(self) -> usize {
        self.iter().map(|w| w.count_ones() as usize).sum()
    }
}

/// Set model for problems with few schedules.
pub struct Model<S> {
    pub n: usize,
    nbm: Vec<S>,
    depm: Vec<S>,
    full: S,
}
pub type Small = Model<u64>;

pub type Pair = (usize, usize);

impl<S: Set> Model<S> {
    pub fn new(p: &Problem) -> Self {
        let n = p.n();
        assert!(n <= S::MOST);
        Model {
            n,
            nbm: p.nb.iter().enumerate().map(|(i, v)| S::of(v).with(i)).collect(),
            depm: p.deps().iter().map(|d| S::of(d)).collect(),
            full: (0..n).fold(S::none(), |m, q| m.with(q)),
        }
    }
    pub fn avail(&self, m: S) -> S {
        let mut a = S::none();
        for q in 0..self.n {
            if !m.has(q) && self.depm[q].minus(m).is_empty() {
                a = a.with(q);
            }
        }
        a
    }
    /// All non-empty subsets of what can be measured after m.
    fn steps(&self, m: S) -> impl Iterator<Item = S> {
        let a = self.avail(m);
        let qs: Vec<S> = (0..self.n).filter(|q| a.has(*q)).map(S::single).collect();
        // Gray code, so that each takes one operation
        let mut s = S::none();
        (1..1u64 << qs.len()).map(move |k| {
            let b = qs[k.trailing_zeros() as usize];
            s = if s.minus(b) == s { s.or(b) } else { s.minus(b) };
            s
        })
    }
    fn closed(&self, m: S) -> S {
        (0..self.n).filter(|q| m.has(*q)).fold(S::none(), |x, q| x.or(self.nbm[q]))
    }
    /// qubits held once `m` has been measured
    pub fn cur(&self, m: S) -> usize {
        self.closed(m).len() - m.len()
    }
    /// qubits held during the step from m that measures s
    pub fn during(&self, m: S, s: S) -> usize {
        self.closed(m.or(s)).minus(m).len()
    }
    fn downsets(&self) -> Vec<S> {
        let mut seen = BTreeSet::from([S::none()]);
        let mut todo = vec![S::none()];
        while let Some(m) = todo.pop() {
            let a = self.avail(m);
            for q in 0..self.n {
                if a.has(q) && seen.insert(m.with(q)) {
                    todo.push(m.with(q));
                }
            }
        }
        let mut v: Vec<S> = seen.into_iter().collect();
        v.sort_by_key(|m| (m.len(), *m));
        v
    }
    /// The same as `tree_nodes`, unless the tree or the number of its states is larger than `limit`.
    pub fn tree_nodes_below(&self, limit: u64) -> Option<u64> {
        let mut seen = BTreeSet::from([S::none()]);
        let mut todo = vec![S::none()];
        while let Some(m) = todo.pop() {
            let a = self.avail(m);
            if a.len() > 12 || seen.len() as u64 > limit.min(4096) {
                return None;
            }
            for q in 0..self.n {
                if a.has(q) && seen.insert(m.with(q)) {
                    todo.push(m.with(q));
                }
            }
        }
        Some(self.tree_nodes()).filter(|k| *k <= limit)
    }
    /// Number of nodes of the search tree without pruning.
    pub fn tree_nodes(&self) -> u64 {
        let ds = self.downsets();
        let mut f: HashMap<S, u64> = HashMap::new();
        for &m in ds.iter().rev() {
            let mut t = 1u64;
            for s in self.steps(m) {
                t = t.saturating_add(f[&m.or(s)]);
            }
            f.insert(m, t);
        }
        f[&S::none()]
    }
    /// Exact Pareto front over all schedules: strictly increasing time, strictly decreasing space.
    pub fn front(&self) -> Vec<Pair> {
        let mut best: BTreeMap<S, usize> = BTreeMap::from([(S::none(), 0)]);
        let mut res = Vec::new();
        for t in 1..=self.n {
            let mut next: BTreeMap<S, usize> = BTreeMap::new();
            for (&m, &b) in &best {
                for s in self.steps(m) {
                    let v = b.max(self.during(m, s));
                    let e = next.entry(m.or(s)).or_insert(usize::MAX);
                    *e = (*e).min(v);
                }
            }
            if let Some(&v) = next.get(&self.full) {
                res.push((t, v));
            }
            best = next;
        }
        pareto(res)
    }
    pub fn min_space(&self) -> usize {
        self.front().last().map_or(0, |p| p.1)
    }
    /// Front over the schedules all of whose steps satisfy `ok(last_max, last_cur, cur, remaining)`;
    /// the first step is not asked when `first_free`.
    pub fn front_if(&self, first_free: bool, ok: &dyn Fn(usize, usize, usize, usize) -> bool) -> Vec<Pair> {
        // states (m, max so far), layered by number of steps
        let mut layer: BTreeSet<(S, usize)> = BTreeSet::from([(S::none(), 0)]);
        let mut res = Vec::new();
        for t in 1..=self.n {
            let mut next = BTreeSet::new();
            for &(m, mx) in &layer {
                for s in self.steps(m) {
                    let nm = m.or(s);
                    if !(first_free && t == 1) && !ok(mx, self.cur(m), self.cur(nm), self.n - nm.len()) {
                        continue;
                    }
                    next.insert((nm, mx.max(self.during(m, s))));
                }
            }
            for &(m, mx) in &next {
                if m == self.full {
                    res.push((t, mx));
                }
            }
            layer = next;
        }
        pareto(res)
    }
    /// Does the schedule satisfy `ok` at every step (the first one excepted if `first_free`)?
    pub fn follows(&self, steps: &[Vec<usize>], first_free: bool, ok: &dyn Fn(usize, usize, usize, usize) -> bool) -> bool {
        let (mut m, mut mx) = (S::none(), 0usize);
        for (i, st) in steps.iter().enumerate() {
            let s = S::of(st);
            let nm = m.or(s);
            if !(first_free && i == 0) && !ok(mx, self.cur(m), self.cur(nm), self.n - nm.len()) {
                return false;
            }
            mx = mx.max(self.during(m, s));
            m = nm;
        }
        true
    }
    /// All (last_max, last_cur, cur, remaining) a step of some schedule can have.
    pub fn step_tuples(&self) -> BTreeSet<(usize, usize, usize, usize)> {
        let mut seen = BTreeSet::from([(S::none(), 0usize)]);
        let mut todo = vec![(S::none(), 0usize)];
        let mut out = BTreeSet::new();
        while let Some((m, mx)) = todo.pop() {
            for s in self.steps(m) {
                let nm = m.or(s);
                out.insert((mx, self.cur(m), self.cur(nm), self.n - nm.len()));
                let x = (nm, mx.max(self.during(m, s)));
                if seen.insert(x) {
                    todo.push(x);
                }
            }
        }
        out
    }
    /// All schedules (as canonical step masks) with their maximum memory.
    pub fn all(&self) -> BTreeMap<Vec<S>, usize> {
        let mut out = BTreeMap::new();
        let mut path = Vec::new();
        self.rec(S::none(), 0, &mut path, &mut out);
        out
    }
    fn rec(&self, m: S, mx: usize, path: &mut Vec<S>, out: &mut BTreeMap<Vec<S>, usize>) {
        if m == self.full {
            out.insert(path.clone(), mx);
            return;
        }
        for s in self.steps(m) {
            path.push(s);
            self.rec(m.or(s), mx.max(self.during(m, s)), path, out);
            path.pop();
        }
    }
}

/// Non-dominated pairs, by increasing time.
pub fn pareto(mut v: Vec<Pair>) -> Vec<Pair> {
    v.sort();
    let mut out: Vec<Pair> = Vec::new();
    for (t, s) in v {
        if out.last().map_or(true, |l| s < l.1) {
            out.push((t, s));
        }
    }
    out
}

pub fn pairs(l: &[Sched]) -> Vec<Pair> {
    l.iter().map(|s| (s.time, s.space)).collect()
}

/// C04
pub fn check_tradeoff(l: &[Sched]) -> Result<(), String> {
    for w in l.windows(2) {
        if w[0].time >= w[1].time || w[0].space <= w[1].space {
            return Err(format!("entry ({}, {}) is followed by ({}, {})", w[0].time, w[0].space, w[1].time, w[1].space));
        }
    }
    Ok(())
}
/// C02
pub fn check_costs(p: &Problem, l: &[Sched]) -> Result<(), String> {
    for s in l {
        if s.time != s.steps.len() {
            return Err(format!("reported time {} but {} steps", s.time, s.steps.len()));
        }
        let m = memory(p, &s.steps).0;
        if s.space != m {
            return Err(format!("reported space {} but the steps {:?} need {}", s.space, s.steps, m));
        }
    }
    Ok(())
}
/// every entry of `a` is matched or beaten in both by an entry of `b`
pub fn dominated_by(a: &[Pair], b: &[Pair]) -> Option<Pair> {
    a.iter().find(|x| !b.iter().any(|y| y.0 <= x.0 && y.1 <= x.1)).copied()
}

/// Some valid schedules of a problem too large for its frontier, as (time, space).
pub fn some_pairs(p: &Problem) -> Vec<Pair> {
    let (n, deps) = (p.n(), p.deps());
    let mut out = Vec::new();
    // what is measured in a step: everything, the cheapest qubit, the first k qubits
    for rule in 0..6usize {
        let mut done = vec![false; n];
        let mut init = vec![false; n];
        let mut steps: Vec<Vec<usize>> = Vec::new();
        let mut left = n;
        while left > 0 {
            let avail: Vec<usize> = (0..n).filter(|&q| !done[q] && deps[q].iter().all(|&d| done[d])).collect();
            let cost = |q: usize| p.nb[q].iter().chain([&q]).filter(|w| !init[**w]).count();
            let step: Vec<usize> = match rule {
                0 => avail,
                1 => avail.into_iter().min_by_key(|&q| cost(q)).into_iter().collect(),
                2 => avail.into_iter().take(1).collect(),
                3 => avail.into_iter().rev().take(1).collect(),
                k => avail.into_iter().take(k - 2).collect(),
            };
            for &q in &step {
                done[q] = true;
                init[q] = true;
                p.nb[q].iter().for_each(|&w| init[w] = true);
            }
            left -= step.len();
            steps.push(step);
        }
        out.push((steps.len(), memory(p, &steps).0));
    }
    out
}
