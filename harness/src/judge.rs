//! Verdicts over the recorded history of a `Search` scenario.
use crate::{model::*, rec::CallRec, sim::*, types::*};
use std::collections::{BTreeSet, HashMap};

pub type Viol = Option<(String, String)>;

fn v(class: &str, text: String) -> Viol {
    Some((class.to_string(), text))
}

pub fn is_search(c: &Call) -> bool {
    c.search
}
/// the search cannot have been cut short by its timeout
fn uncut(c: &Call, r: &CallRec) -> bool {
    match c.timeout_ns() {
        None => true,
        Some(t) => r.t1 < r.t0.saturating_add(t),
    }
}
fn show(l: &[Sched]) -> String {
    format!("{:?}", l.iter().map(|s| (s.time, s.space)).collect::<Vec<_>>())
}

pub struct Ctx<'a> {
    pub case: &'a Case,
    pub s: &'a SearchScen,
    pub rep: &'a Report,
    pub recs: &'a [CallRec],
    /// what the library returns for the call when it runs alone, outside of the simulation
    pub alone: &'a dyn Fn(&Call) -> Option<Vec<Sched>>,
    fronts: std::cell::RefCell<HashMap<usize, Vec<Pair>>>,
}

impl<'a> Ctx<'a> {
    pub fn new(
        case: &'a Case,
        s: &'a SearchScen,
        rep: &'a Report,
        recs: &'a [CallRec],
        alone: &'a dyn Fn(&Call) -> Option<Vec<Sched>>,
    ) -> Self {
        Ctx { case, s, rep, recs, alone, fronts: Default::default() }
    }
    fn front(&self, p: usize) -> Vec<Pair> {
        self.fronts
            .borrow_mut()
            .entry(p)
            .or_insert_with(|| model!(&self.s.problems[p], m => m.front()))
            .clone()
    }
    fn call(&self, r: &CallRec) -> &'a Call {
        self.s.call(r.caller, r.idx)
    }
    fn prob(&self, r: &CallRec) -> &'a Problem {
        &self.s.problems[self.call(r).problem]
    }
    fn who(&self, r: &CallRec) -> String {
        if r.caller == NESTED {
            return format!("nested call {}", r.idx);
        }
        format!("caller {} call {}", r.caller, r.idx)
    }
    fn spawn_failed(&self) -> bool {
        self.rep.faults[F_SPAWN] > 0
    }

    pub fn judge(&self) -> Viol {
        match self.case.prop.as_str() {
            "C01" => self.lists(|c, r, l| {
                for s in l {
                    if let Err(e) = check_executable(c.prob(r), &s.steps) {
                        return v("not-executable", format!("{}: {:?}: {e}", c.who(r), s.steps));
                    }
                }
                None
            }),
            "C02" => self.lists(|c, r, l| {
                check_costs(c.prob(r), l).err().and_then(|e| v("wrong-cost", format!("{}: {e}", c.who(r))))
            }),
            "C03" => self.exact(true),
            "C04" => self.lists(|c, r, l| {
                check_tradeoff(l).err().and_then(|e| v("not-a-trade-off", format!("{}: {e}", c.who(r))))
            }),
            "C05" => self.after_timeout(),
            "C06" => self.unexpired(),
            "C08" => self.anytime(),
            "C09" => self.terminates(),
            "C10" => self.panics(),
            "C11" => self.reproducible(),
            "C12" => self.accept(),
            "C17" => self.interference(),
            "C20" => self.limits(),
            "C22" => self.no_search(),
            p => panic!("no judge for {p}"),
        }
    }

    fn lists(&self, f: impl Fn(&Self, &CallRec, &[Sched]) -> Viol) -> Viol {
        for r in self.recs {
            if let Some(Ok(l)) = &r.result {
                if let x @ Some(_) = f(self, r, l) {
                    return x;
                }
            }
        }
        None
    }

    fn unexpected_panic(&self, r: &CallRec) -> Viol {
        match &r.result {
            Some(Err(e)) if r.panics == 0 && !self.spawn_failed() => {
                v("panic", format!("{}: panicked: {e}", self.who(r)))
            },
            _ => None,
        }
    }
    fn hang(&self) -> Viol {
        match (self.rep.status, self.rep.root_done) {
            (1, 0) => v("deadlock", "all threads are blocked for ever and the call has not returned".into()),
            (1, _) => v("thread-left", "a thread started by the call never terminates".into()),
            (2, 0) => v("no-progress", format!("not finished after {} steps of all threads", self.rep.ticks)),
            (2, _) => v("thread-left", format!("a thread started by the call still runs after {} steps", self.rep.ticks)),
            _ => None,
        }
    }

    fn exact(&self, need_return: bool) -> Viol {
        for r in self.recs {
            let c = self.call(r);
            if !is_search(c) || r.panics > 0 {
                continue;
            }
            if let x @ Some(_) = self.unexpected_panic(r) {
                return x;
            }
            if let Some(Ok(l)) = &r.result {
                if uncut(c, r) && c.prob.is_none() && !self.prob(r).tractable() {
                    let got = pairs(l);
                    if let Some(x) = dominated_by(&some_pairs(self.prob(r)), &got) {
                        return v("not-the-frontier", format!(
                            "{}: returned {got:?}, but a schedule with (time, space) = {x:?} exists", self.who(r)));
                    }
                } else if uncut(c, r) && c.prob.is_none() {
                    let f = self.front(c.problem);
                    let got = pairs(l);
                    let a: BTreeSet<_> = got.iter().copied().collect();
                    let b: BTreeSet<_> = f.iter().copied().collect();
                    if a != b {
                        return v("not-the-frontier", format!("{}: returned {got:?}, exact frontier {f:?}", self.who(r)));
                    }
                }
            }
        }
        if need_return && self.recs.iter().any(|r| !r.done) {
            return self.hang();
        }
        None
    }

    fn after_timeout(&self) -> Viol {
        for r in self.recs {
            let c = self.call(r);
            let Some(exp) = r.expiry else { continue };
            if let x @ Some(_) = self.unexpected_panic(r) {
                return x;
            }
            let end = if r.done { r.t1 } else { self.case.sim.start_ns + self.rep.clock_ns };
            let n = self.prob(r).n();
            let steps = steps_after_expiry(self.s.interval);
            if end > exp {
                let late = (end - exp) / self.case.sim.ns_per_tick.max(1) as u64;
                let a = allowance(n, c.nthreads, self.s.interval, self.case.sim.fair_ticks);
                if late > a {
                    let d = if r.done { "returned" } else { "still running" };
                    return v("late", format!(
                        "{}: {d} {late} steps after the timeout (allowed {a} for {} threads)", self.who(r), c.nthreads));
                }
            }
            for (t, k) in &r.late_by_tid {
                if *k > steps + 60 * self.case.sim.fair_ticks / 20 {
                    return v("late", format!("{}: thread {t} took {k} search steps after the timeout", self.who(r)));
                }
            }
        }
        if self.rep.status == 1 && self.rep.root_done == 0 {
            return self.hang();
        }
        None
    }

    fn unexpired(&self) -> Viol {
        if let x @ Some(_) = self.exact(false) {
            return x;
        }
        for r in self.recs {
            let c = self.call(r);
            let Some(t) = c.timeout_ns() else { continue };
            if !r.done {
                continue;
            }
            // nothing of the run takes simulated time except its own steps, so a long timeout
            // cannot pass while it searches
            let own = (r.tick1 - r.tick0).saturating_mul(self.case.sim.ns_per_tick as u64);
            let spent = r.t1 - r.t0;
            if self.rep.faults[F_STALL] == 0 && t > 4 * own + 10_000_000_000 && spent > own + 5_000_000_000 {
                return v("waited", format!(
                    "{}: the search took {own} ns of its own but the call {spent} ns, with a timeout of {t} ns", self.who(r)));
            }
        }
        None
    }

    fn anytime(&self) -> Viol {
        let mut pts: Vec<(&CallRec, &[Sched])> = Vec::new();
        for r in self.recs {
            if let x @ Some(_) = self.unexpected_panic(r) {
                return x;
            }
            if let Some(Ok(l)) = &r.result {
                let c = self.call(r);
                if c.prob.is_none() && !l.is_empty() {
                    let m = self.prob(r).min_steps();
                    if !l.iter().any(|s| s.time == m) {
                        return v("no-fastest", format!(
                            "{}: returned {} without a schedule of {m} steps", self.who(r), show(l)));
                    }
                }
                pts.push((r, l));
            }
        }
        for (a, la) in &pts {
            for (b, lb) in &pts {
                let (ca, cb) = (self.call(a), self.call(b));
                if ca.problem != cb.problem || ca.prob != cb.prob || ca.nthreads > 1 || cb.nthreads > 1 || !ca.search || !cb.search {
                    continue;
                }
                // how far each got in the one deterministic search
                let later = if ca.prob.is_some() {
                    b.calls > a.calls
                } else {
                    let (x, y) = (a.lt1 - a.lt0, b.lt1 - b.lt0);
                    y > x + x / 20 + 3000 + 60 * self.prob(a).n() as u64
                };
                if later {
                    if let Some(x) = dominated_by(&pairs(la), &pairs(lb)) {
                        return v("worse-later", format!(
                            "{} found {} but {}, which was cut off later, returns {}: ({}, {}) is lost",
                            self.who(a), show(la), self.who(b), show(lb), x.0, x.1));
                    }
                }
            }
        }
        None
    }

    fn terminates(&self) -> Viol {
        if let x @ Some(_) = self.hang() {
            return x;
        }
        for r in self.recs {
            if let x @ Some(_) = self.unexpected_panic(r) {
                return x;
            }
        }
        None
    }

    fn panics(&self) -> Viol {
        if let x @ Some(_) = self.hang() {
            return x;
        }
        let mut spawn_left = self.rep.faults[F_SPAWN];
        for r in self.recs {
            let failed = r.panics > 0;
            match &r.result {
                Some(Ok(l)) if failed => {
                    return v("panic-lost", format!(
                        "{}: {} invocation(s) of the accept function panicked but the call returned {}",
                        self.who(r), r.panics, show(l)));
                },
                Some(Err(e)) if !failed => {
                    if spawn_left == 0 {
                        return v("panic", format!("{}: panicked without reason: {e}", self.who(r)));
                    }
                    spawn_left -= 1;
                },
                Some(Ok(l)) => {
                    let c = self.call(r);
                    if c.prob.is_none() && c.search && c.timeout.is_none() {
                        let f = self.front(c.problem);
                        if pairs(l) != f {
                            return v("not-normal-afterwards", format!(
                                "{}: returned {} instead of {f:?}", self.who(r), show(l)));
                        }
                    }
                },
                _ => {},
            }
        }
        if spawn_left > 0 && self.recs.iter().all(|r| r.done) && self.s.callers.len() == 1 && self.s.noise == 0 {
            return v("spawn-failure-lost", format!(
                "{} thread start(s) were refused but that many calls did not panic", self.rep.faults[F_SPAWN]));
        }
        None
    }

    fn same_as_alone(&self, r: &CallRec, l: &[Sched]) -> Viol {
        let c = self.call(r);
        if c.nthreads < 2 || !c.search {
            if let Some(want) = (self.alone)(c) {
                if want != l {
                    return v("differs", format!("{}: returned {l:?}, alone {want:?}", self.who(r)));
                }
            }
        }
        None
    }

    fn reproducible(&self) -> Viol {
        for r in self.recs {
            if let x @ Some(_) = self.unexpected_panic(r) {
                return x;
            }
            let c = self.call(r);
            if let Some(Ok(l)) = &r.result {
                if c.nthreads < 2 && uncut(c, r) {
                    if let x @ Some(_) = self.same_as_alone(r, l) {
                        return x;
                    }
                }
            }
        }
        None
    }

    fn interference(&self) -> Viol {
        if let x @ Some(_) = self.exact(false) {
            return x;
        }
        for r in self.recs {
            if r.inputs_changed {
                return v("inputs-changed", self.who(r));
            }
            let c = self.call(r);
            if let Some(Ok(l)) = &r.result {
                if uncut(c, r) {
                    if let x @ Some(_) = self.same_as_alone(r, l) {
                        return x;
                    }
                }
                for s in l {
                    if let Err(e) = check_executable(self.prob(r), &s.steps) {
                        return v("not-executable", format!("{}: {:?}: {e}", self.who(r), s.steps));
                    }
                }
                if let Err(e) = check_costs(self.prob(r), l).and_then(|_| check_tradeoff(l)) {
                    return v("wrong-list", format!("{}: {e}", self.who(r)));
                }
            }
        }
        self.hang()
    }

    fn limits(&self) -> Viol {
        if let x @ Some(_) = self.exact(true) {
            return x;
        }
        for r in self.recs {
            let c = self.call(r);
            if !r.done || !c.search {
                continue;
            }
            let mut workers: BTreeSet<i64> = r.by_tid.keys().map(|t| *t as i64).collect();
            if self.recs.len() == 1 || self.s.callers.len() == 1 {
                for (i, t) in r.thread_ticks.iter().enumerate() {
                    if *t > 20_000 {
                        workers.insert(r.created0 as i64 + i as i64 + 1);
                    }
                }
            }
            if c.nthreads < 2 {
                if workers.iter().any(|t| *t != r.tid as i64) {
                    return v("other-thread", format!("{}: {} threads requested but threads {workers:?} search (caller is {})", self.who(r), c.nthreads, r.tid));
                }
            } else {
                if workers.len() > c.nthreads as usize {
                    return v("too-many-threads", format!("{}: {} threads requested, {} search", self.who(r), c.nthreads, workers.len()));
                }
                if let Some(b) = c.task_bound {
                    if workers.len() as u64 > b as u64 + 1 {
                        return v("task-bound", format!("{}: task bound {b} but {} threads search", self.who(r), workers.len()));
                    }
                }
            }
            if let (Some((Acc::Const(x), _)), Some(Ok(l)), None) = (&c.prob, &r.result, c.timeout) {
                if *x >= 1. && pairs(l) != self.front(c.problem) {
                    return v("not-the-frontier", format!("{}: returned {}, exact frontier {:?}", self.who(r), show(l), self.front(c.problem)));
                }
            }
        }
        None
    }

    fn no_search(&self) -> Viol {
        for r in self.recs {
            let c = self.call(r);
            if c.search {
                continue;
            }
            match &r.result {
                Some(Err(e)) => return v("panic", format!("{}: panicked: {e}", self.who(r))),
                Some(Ok(l)) => {
                    let p = self.prob(r);
                    if l.len() != 1 {
                        return v("not-one", format!("{}: {} schedules", self.who(r), l.len()));
                    }
                    let s = &l[0];
                    if let Err(e) = check_executable(p, &s.steps) {
                        return v("not-executable", format!("{}: {:?}: {e}", self.who(r), s.steps));
                    }
                    if let Err(e) = check_costs(p, l) {
                        return v("wrong-cost", format!("{}: {e}", self.who(r)));
                    }
                    if s.time != p.min_steps() {
                        return v("not-minimal", format!("{}: {} steps, {} suffice", self.who(r), s.time, p.min_steps()));
                    }
                    if let x @ Some(_) = self.same_as_alone(r, l) {
                        return x;
                    }
                    if r.calls > 0 {
                        return v("accept-called", format!("{}: the accept function was invoked without search", self.who(r)));
                    }
                },
                None => {
                    if let x @ Some(_) = self.hang() {
                        return x;
                    }
                },
            }
        }
        None
    }

    fn accept(&self) -> Viol {
        for r in self.recs {
            if let x @ Some(_) = self.unexpected_panic(r) {
                return x;
            }
            let c = self.call(r);
            let Some((acc, _)) = &c.prob else { continue };
            let p = self.prob(r);
            let n = p.n();
            if let Some(o) = &r.odd_arg {
                return v("odd-argument", format!("{}: {o}", self.who(r)));
            }
            if r.totals.iter().any(|t| *t != n as u64) {
                return v("wrong-total", format!("{}: told totals {:?} for {n} qubits", self.who(r), r.totals));
            }
            if p.tractable() {
                let (ok, lo) = model!(p, m => (m.step_tuples(), m.min_space()));
                if let Some(t) = r.tuples.iter().find(|t| !ok.contains(t)) {
                    let rem_ok = ok.iter().any(|o| (o.0, o.1, o.2) == (t.0, t.1, t.2));
                    let class = if rem_ok { "wrong-remaining" } else { "wrong-memory-argument" };
                    return v(class, format!(
                        "{}: told (max so far, last, current, remaining) = {t:?}, which no step of a schedule has", self.who(r)));
                }
                let lo = lo as f64;
                for (name, b) in [("bound_best_mem", r.min_bound), ("minimal_mem", r.min_minimal)] {
                    if let Some(b) = b {
                        if b < lo {
                            return v("impossible-bound", format!("{}: told {name} = {b}, no schedule needs less than {lo}", self.who(r)));
                        }
                    }
                }
            }
            let Some(Ok(l)) = &r.result else { continue };
            for s in l {
                if let Err(e) = check_executable(p, &s.steps) {
                    return v("not-executable", format!("{}: {:?}: {e}", self.who(r), s.steps));
                }
            }
            if !uncut(c, r) || !p.tractable() {
                continue;
            }
            let val = |a: usize, b: usize, d: usize, e: usize| crate::rec::acc_value(acc, a, b, d, e, n);
            match acc {
                Acc::Const(_) | Acc::Hash { .. } => {
                    let multi = c.nthreads >= 2;
                    let never_zero = |a, b, d, e| val(a, b, d, e) > 0.;
                    let sure = |a, b, d, e| val(a, b, d, e) >= 1.;
                    for s in l {
                        if !model!(p, m => m.follows(&s.steps, multi, &never_zero)) {
                            return v("rejected-branch", format!("{}: returned {:?}, which takes a step whose probability is zero", self.who(r), s.steps));
                        }
                    }
                    let must = model!(p, m => m.front_if(false, &sure));
                    if let Some(x) = dominated_by(&must, &pairs(l)) {
                        return v("accepted-branch-missed", format!(
                            "{}: returned {}, but ({}, {}) takes only accepted steps", self.who(r), show(l), x.0, x.1));
                    }
                },
                _ => {},
            }
        }
        None
    }

    /// Did the run exercise what the property is about?
    pub fn nontrivial(&self) -> bool {
        let multi = self.recs.iter().any(|r| r.thread_ticks.iter().filter(|t| **t > 300).count() >= 2);
        let found = self.recs.iter().any(|r| matches!(&r.result, Some(Ok(l)) if !l.is_empty()));
        match self.case.prop.as_str() {
            "C03" => multi && found,
            "C05" => self.recs.iter().any(|r| r.expiry.is_some_and(|e| r.t1 >= e)),
            "C06" => self.recs.iter().any(|r| r.expiry.is_some_and(|e| r.done && r.t1 < e)),
            "C08" => {
                let mut k: Vec<u64> = self.recs.iter().filter(|r| r.done).map(|r| r.lt1 - r.lt0).collect();
                k.sort();
                k.dedup();
                k.len() >= 3 && found
            },
            "C09" => multi,
            "C10" => self.recs.iter().any(|r| r.panics > 0) || self.spawn_failed(),
            "C11" => self.recs.len() >= 2 && found,
            "C12" => self.recs.iter().any(|r| r.calls >= 2),
            "C17" => self.recs.len() >= 2,
            "C20" => self.recs.iter().any(|r| !r.by_tid.is_empty()),
            "C22" => self.recs.iter().any(|r| !self.call(r).search),
            _ => found,
        }
    }
    pub fn probes(&self) -> Vec<String> {
        let mut p = Vec::new();
        let mut add = |c: bool, s: &str| {
            if c {
                p.push(s.to_string())
            }
        };
        let rs = self.recs;
        add(rs.iter().any(|r| r.expiry.is_some_and(|e| r.t1 >= e)), "timeout expired during a call");
        add(rs.iter().any(|r| r.expiry.is_some_and(|e| r.t1 < e)), "call finished before its timeout");
        add(rs.iter().any(|r| matches!(&r.result, Some(Ok(l)) if l.is_empty())), "empty list returned");
        add(rs.iter().any(|r| matches!(&r.result, Some(Ok(l)) if l.len() >= 2)), "several trade-offs returned");
        add(rs.iter().any(|r| matches!(&r.result, Some(Ok(l)) if l.len() >= 3)), "three or more trade-offs returned");
        add(rs.iter().any(|r| r.by_tid.len() >= 2), "accept function invoked on several threads");
        add(rs.iter().any(|r| r.panics > 0), "accept function panicked");
        add(rs.iter().any(|r| r.panics > 1), "accept function panicked repeatedly");
        add(rs.iter().any(|r| r.mids > 0), "random accept decision");
        add(rs.iter().any(|r| r.min_minimal.is_some()), "accept function was told a bound");
        add(rs.iter().any(|r| r.thread_ticks.iter().filter(|t| **t > 1000).count() >= 2), "two or more workers searched");
        add(rs.iter().any(|r| r.thread_ticks.iter().filter(|t| **t > 1000).count() >= 4), "four or more workers searched");
        add(rs.iter().any(|r| r.caller == NESTED && r.done), "a search within an accept function");
        add(
            rs.iter().any(|r| r.panics > 0 && rs.iter().any(|q| q.tid == r.tid && q.t0 >= r.t1 && matches!(q.result, Some(Ok(_))))),
            "a search after a failed one on the same thread",
        );
        add(self.spawn_failed(), "a thread start was refused");
        let whole = |k: usize| rs.iter().any(|r| self.call(r).search && r.done && uncut(self.call(r), r) && self.prob(r).n() > k);
        add(rs.iter().any(|r| matches!(&r.result, Some(Ok(l)) if l.iter().any(|s| s.space > 255))), "more than 255 qubits held at once");
        let wide = |r: &CallRec| self.prob(r).order.iter().flatten().any(|(_, d)| d.len() > 255);
        add(rs.iter().any(|r| r.done && wide(r)), "a qubit with more than 255 dependencies");
        add(rs.len() > 16, "more than 16 calls in one process");
        add(rs.len() > 128, "more than 128 calls in one process");
        add(whole(64), "a whole search of more than 64 qubits");
        add(whole(256), "a whole search of more than 256 qubits");
        add(rs.windows(2).any(|w| w[1].t0 < w[0].t1 && w[0].caller != w[1].caller), "calls overlapped");
        p
    }
}

pub fn steps_after_expiry(interval: usize) -> u64 {
    let iv = if interval == 0 { 1000 } else { interval as u64 };
    5 * iv + 3000
}
/// ticks a search may take after its timeout: a bounded number of steps per thread, and the time the
/// timer thread may have to wait for its turn
pub fn allowance(n: usize, nthreads: u16, interval: usize, fair: u64) -> u64 {
    let k = if nthreads < 2 { 1 } else { nthreads as u64 };
    k * steps_after_expiry(interval) * (150 + 25 * n as u64) + 60 * fair * (k + 2) + 100_000
}
