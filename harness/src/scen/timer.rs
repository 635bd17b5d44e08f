//! `Timer` scenarios: timers polled and dropped by several threads.
use super::search::payload;
use dstlib::{
    exec::Opts,
    rec::{self, Ev},
    sim::{self, *},
    types::*,
};
use mbqc_scheduling::timer::Timer;
use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Arc,
    time::Duration,
};

const START0: u32 = 1;
const START1: u32 = 2;
const POLL0: u32 = 3;
const POLL1: u32 = 4;
const DROP0: u32 = 5;
const DROP1: u32 = 6;
const END: u32 = 7;

struct Tm {
    t: Option<Timer>,
    k: u64,
    creator: i32,
    lo: u64,
    hi: u64,
}
impl Drop for Tm {
    fn drop(&mut self) {
        let t = self.t.take();
        rec::ev(DROP0, self.k, 0);
        drop(t);
        rec::ev(DROP1, self.k, sim::unfinished(self.creator, self.lo, self.hi));
    }
}

fn poll(tm: &Tm) {
    rec::ev(POLL0, tm.k, 0);
    let v = tm.t.as_ref().unwrap().finished();
    rec::ev(POLL1, tm.k, v as u64);
}

fn program(tm: &Tm, ops: &[TimerOp]) {
    for o in ops {
        match o {
            TimerOp::Sleep(d) => std::thread::sleep(Duration::from_nanos(*d)),
            TimerOp::Yield => std::thread::yield_now(),
            TimerOp::Poll => poll(tm),
            TimerOp::Polls(n) => (0..*n).for_each(|_| poll(tm)),
        }
    }
}

fn owner(k: usize, c: &TimerCase) {
    let mut t = Timer::new();
    let lo = sim::threads_created();
    if let Some((s, n)) = c.dur {
        rec::ev(START0, k as u64, 0);
        t.start(Duration::new(s, n));
        rec::ev(START1, k as u64, 0);
    }
    let hi = sim::threads_created();
    let tm = Arc::new(Tm { t: Some(t), k: k as u64, creator: sim::tid(), lo, hi });
    let hs: Vec<_> = c
        .pollers
        .iter()
        .map(|ops| {
            let (tm, ops) = (tm.clone(), ops.clone());
            std::thread::spawn(move || program(&tm, &ops))
        })
        .collect();
    let r = catch_unwind(AssertUnwindSafe(move || {
        program(&tm, &c.owner);
        if c.unwind {
            panic!("the owner fails");
        }
        drop(tm);
    }));
    if let (Err(e), false) = (r, c.unwind) {
        rec::note(format!("the owner of timer {k} panicked: {}", payload(e)));
    }
    for h in hs {
        if let Err(e) = h.join() {
            rec::note(format!("a poller of timer {k} panicked: {}", payload(e)));
        }
    }
}

pub fn run(case: &Case, s: &TimerScen, opts: &Opts) -> Outcome {
    rec::reset();
    let shared = Arc::new(s.clone());
    let inner = shared.clone();
    let rep = sim::run(
        &case.sim,
        None,
        Box::new(move || {
            let hs: Vec<_> = (0..inner.timers.len())
                .map(|k| {
                    let s = inner.clone();
                    std::thread::spawn(move || owner(k, &s.timers[k]))
                })
                .collect();
            for h in hs {
                if let Err(e) = h.join() {
                    rec::note(format!("panicked: {}", payload(e)));
                }
            }
            rec::ev(END, 0, 0);
        }),
    );
    let log = if opts.want_log { sim::log() } else { Vec::new() };
    let evs = rec::take_events();
    let notes = rec::take_notes();
    let mut probes = Vec::new();
    let mut nontrivial = false;
    let viol = judge(case, s, &rep, &evs, &notes, &mut probes, &mut nontrivial);
    probes.sort();
    probes.dedup();
    let digest = dstlib::rng::hash_bytes(format!("{evs:?}{notes:?}").as_bytes()) ^ rep.hash.rotate_left(17) ^ rep.inter_hash;
    Outcome {
        viol,
        digest,
        evals: evs.iter().filter(|e| e.kind == POLL1 || e.kind == DROP1).count() as u64,
        nontrivial,
        probes,
        log,
        report: rep,
        trace: if opts.verbose {
            let name = ["", "start", "started", "poll", "polled", "drop", "dropped", "end"];
            evs.iter().map(|e| format!("{} ns thread {}: timer {} {} {}", e.t, e.tid, e.a, name[e.kind as usize], e.b)).chain(notes).collect()
        } else {
            Vec::new()
        },
        error: None,
    }
}

#[allow(clippy::too_many_arguments)]
fn judge(
    case: &Case,
    s: &TimerScen,
    rep: &Report,
    evs: &[Ev],
    notes: &[String],
    probes: &mut Vec<String>,
    nontrivial: &mut bool,
) -> Option<(String, String)> {
    let v = |c: &str, t: String| Some((c.to_string(), t));
    let mut probe = |b: bool, t: &str| {
        if b {
            probes.push(t.to_string())
        }
    };
    let stalled = rep.faults[F_STALL] > 0;
    let slack = (10 * (rep.nthreads + 2) * case.sim.fair_ticks + 20_000) * case.sim.ns_per_tick.max(1) as u64;
    if let Some(n) = notes.first() {
        return v("panic", n.clone());
    }
    for (k, c) in s.timers.iter().enumerate() {
        let mine: Vec<(usize, &Ev)> = evs.iter().enumerate().filter(|(_, e)| e.a == k as u64 && e.kind != END).collect();
        let at = |kind: u32| mine.iter().find(|(_, e)| e.kind == kind).map(|(_, e)| **e);
        let dur = c.dur.map(|(s, n)| s.saturating_mul(1_000_000_000).saturating_add(n as u64));
        let (s0, s1) = (at(START0), at(START1));
        let due = s0.and_then(|e| Some(e.t.saturating_add(dur?)));
        let overdue = s1.and_then(|e| Some(e.t.saturating_add(dur?).saturating_add(slack)));
        let mut fired: Option<usize> = None;
        let mut open: std::collections::HashMap<i32, (usize, u64)> = Default::default();
        let (mut before, mut after) = (false, false);
        for (i, e) in &mine {
            match e.kind {
                POLL0 => {
                    open.insert(e.tid, (*i, e.t));
                },
                POLL1 => {
                    let (i0, t0) = open[&e.tid];
                    if e.b == 1 {
                        match due {
                            None => return v("never-started", format!("timer {k} was never started but reports to have finished")),
                            Some(d) if e.t < d => {
                                return v("early", format!("timer {k} finished at {} ns, due at {d} ns", e.t))
                            },
                            _ => {},
                        }
                        after = true;
                        fired.get_or_insert(*i);
                    } else {
                        if fired.is_some_and(|f| f < i0) {
                            return v("unlatched", format!("timer {k} reports unfinished at {} ns after it had reported finished", e.t));
                        }
                        if !stalled && overdue.is_some_and(|o| t0 > o) {
                            return v("late", format!("timer {k} reports unfinished at {t0} ns, due at {} ns", due.unwrap()));
                        }
                        before = true;
                    }
                },
                _ => {},
            }
        }
        if let (Some(a), Some(b)) = (at(DROP0), at(DROP1)) {
            if b.b > 0 {
                return v("thread-left", format!("dropping timer {k} returned while its thread still runs"));
            }
            if !stalled && b.t - a.t > slack {
                return v("slow-drop", format!("dropping timer {k} took {} ns, at most {slack} ns expected", b.t - a.t));
            }
            let early = due.is_some_and(|d| a.t < d);
            probe(early, "dropped before it was due");
            probe(due.is_some_and(|d| a.t >= d), "dropped after it was due");
            probe(due.is_some_and(|d| a.t < d && b.t >= d), "due while being dropped");
            probe(mine.iter().any(|(_, e)| e.kind == POLL0) && mine.iter().find(|(_, e)| e.kind == START0).is_some_and(|(_, e)| e.tid != a.tid), "dropped by a poller");
            *nontrivial |= early;
        }
        probe(fired.is_some(), "seen to fire");
        probe(before && after, "seen before and after firing");
        probe(c.dur == Some((0, 0)), "zero duration");
        probe(c.dur.is_none(), "never started");
        probe(c.unwind, "owner unwinds");
        *nontrivial |= before && after;
    }
    match (rep.status, rep.root_done) {
        (1, _) => return v("deadlock", "a thread is blocked for ever".into()),
        (2, _) => return v("no-progress", format!("not finished after {} steps", rep.ticks)),
        _ => {},
    }
    if let Some(e) = evs.iter().find(|e| e.kind == END) {
        let end = case.sim.start_ns + rep.clock_ns;
        if !stalled && end > e.t + slack {
            return v("thread-left", format!("threads of the timers were left: they ran until {end} ns, the last owner ended at {} ns", e.t));
        }
    }
    None
}
