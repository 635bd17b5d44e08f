//! From (property, seed, index) to a case.
use crate::{gen, judge, model, rng::*, sim::*, types::*};

pub struct PropInfo {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

pub const PROPS: &[PropInfo] = &[
    PropInfo { id: "C01", quick: 40000, thorough: 800000, rule: "random problem, options, interleaving and expiry; non-trivial: at least one schedule was returned and checked" },
    PropInfo { id: "C02", quick: 40000, thorough: 800000, rule: "as C01; non-trivial: at least one schedule's costs were recomputed" },
    PropInfo { id: "C03", quick: 60000, thorough: 1200000, rule: "random problem with known exact frontier; non-trivial: two or more workers searched and schedules were returned" },
    PropInfo { id: "C04", quick: 40000, thorough: 800000, rule: "as C01; non-trivial: at least one schedule was returned" },
    PropInfo { id: "C05", quick: 10000, thorough: 200000, rule: "searches too long to finish; non-trivial: the timeout expired inside the call" },
    PropInfo { id: "C06", quick: 50000, thorough: 1000000, rule: "small searches with timeouts near and far; non-trivial: a call finished before its timeout" },
    PropInfo { id: "C07", quick: 80000, thorough: 1600000, rule: "timers polled by several threads; non-trivial: polls before and after the deadline, or a drop before it" },
    PropInfo { id: "C08", quick: 25000, thorough: 500000, rule: "one search cut at several instants; non-trivial: three or more different instants and a schedule found" },
    PropInfo { id: "C09", quick: 35000, thorough: 700000, rule: "multi-threaded searches; non-trivial: two or more workers ran" },
    PropInfo { id: "C10", quick: 50000, thorough: 1000000, rule: "callbacks panic and thread starts fail; non-trivial: at least one did" },
    PropInfo { id: "C11", quick: 40000, thorough: 800000, rule: "the same call repeated on different threads, with other entropy and load; non-trivial: two or more calls and a schedule found" },
    PropInfo { id: "C12", quick: 70000, thorough: 1400000, rule: "accept functions of the told quantities; non-trivial: two or more invocations" },
    PropInfo { id: "C13", quick: 60000, thorough: 1200000, rule: "file runs with short and interrupted transfers; non-trivial: the run reported success and its file was decoded" },
    PropInfo { id: "C14", quick: 60000, thorough: 1200000, rule: "file runs with failing I/O; non-trivial: a fault fired or an input was damaged" },
    PropInfo { id: "C15", quick: 60000, thorough: 1200000, rule: "file runs killed or failing while writing; non-trivial: killed or failed after the output was opened" },
    PropInfo { id: "C16", quick: 25000, thorough: 500000, rule: "file runs failing before the result; non-trivial: the run failed or was killed before its result" },
    PropInfo { id: "C17", quick: 40000, thorough: 800000, rule: "several callers and calls in one process; non-trivial: two or more calls" },
    PropInfo { id: "C18", quick: 25000, thorough: 500000, rule: "the tree split between threads; non-trivial: two or more pieces swept" },
    PropInfo { id: "C19", quick: 80000, thorough: 1600000, rule: "clients measure on one shared scheduler; non-trivial: legal and illegal instructions were issued" },
    PropInfo { id: "C20", quick: 50000, thorough: 1000000, rule: "thread counts and task bounds; non-trivial: the accept function was invoked" },
    PropInfo { id: "C21", quick: 25000, thorough: 500000, rule: "the command-line program; non-trivial: it ran to its end" },
    PropInfo { id: "C22", quick: 50000, thorough: 1000000, rule: "calls without search among others; non-trivial: such a call was made" },
    PropInfo { id: "C23", quick: 20000, thorough: 400000, rule: "many small searches with known chances; non-trivial: twenty or more decisions with a chance between 0 and 1, or two formulas compared" },
    PropInfo { id: "C24", quick: 50000, thorough: 1000000, rule: "schedulers on relabelled and reused buffers, stepped or swept by several threads; non-trivial: as for C18 or C19" },
];

pub fn info(p: &str) -> Option<&'static PropInfo> {
    PROPS.iter().find(|x| x.id == p)
}

/// Case number `idx` of a property.
pub fn make(prop: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::new(mix(seed ^ 0x51_7cc1_b727_220a) ^ mix(hash_bytes(prop.as_bytes()).wrapping_add(idx)));
    let variant = if idx % 2 == 0 { "debug" } else { "release" };
    let mut sim = gen::sim(&mut r);
    let scen = match prop {
        "C01" | "C02" | "C04" => lists(&mut r, &mut sim),
        "C03" => exact(&mut r, &mut sim),
        "C05" => late(&mut r, &mut sim),
        "C06" => early(&mut r, &mut sim),
        "C07" => timer(&mut r, &mut sim),
        "C08" => anytime(&mut r, &mut sim),
        "C09" => terminate(&mut r, &mut sim),
        "C10" => panics(&mut r, &mut sim),
        "C11" => repro(&mut r, &mut sim),
        "C12" => accept(&mut r, &mut sim),
        "C13" => crate::files::make(&mut r, &mut sim, 13),
        "C14" => crate::files::make(&mut r, &mut sim, 14),
        "C15" => crate::files::make(&mut r, &mut sim, 15),
        "C16" => crate::files::make(&mut r, &mut sim, 16),
        "C17" => concurrent(&mut r, &mut sim),
        "C18" => split(&mut r, &mut sim),
        "C19" => manual(&mut r, &mut sim),
        "C20" => limits(&mut r, &mut sim),
        "C21" => crate::files::make(&mut r, &mut sim, 21),
        "C22" => nosearch(&mut r, &mut sim),
        "C23" => luck(&mut r, &mut sim),
        "C24" => labelled(&mut r, &mut sim),
        p => panic!("unknown property {p}"),
    };
    let mut c = Case { prop: prop.into(), variant: variant.into(), scen, sim };
    fix_cap(&mut c);
    c
}

/// The tick cap follows from the scenario, so that a shrunk scenario gets its own.
pub fn fix_cap(c: &mut Case) {
    if let Scen::File(s) = &c.scen {
        let p = &s.problem;
        let mut b = gen::tick_bound(p);
        if let (Some(t), true) = (s.call.timeout_ns(), !p.tractable()) {
            b = (t / c.sim.ns_per_tick.max(1) as u64).min(50_000_000) + 20_000_000;
        }
        let plain = 4 * (p.n() as u64).pow(3);
        if !s.call.search {
            b = plain;
        }
        if let Some((p, c)) = &s.then {
            b += 50_000_000 + if c.search { gen::tick_bound(p) } else { 4 * (p.n() as u64).pow(3) };
        }
        for (_, o) in &s.peers {
            b += 50_000_000 + if o.search { gen::tick_bound(p) } else { plain };
        }
        c.sim.tick_cap = 50_000_000 + b;
    }
    if let Scen::Luck(s) = &c.scen {
        let one = match &s.formula {
            Some((p, _)) => 2 * gen::tick_bound(p),
            None => 3u64.pow(s.fan as u32) * 2000 + 100_000 + 400 * c.sim.fair_ticks * s.nthreads as u64,
        };
        c.sim.tick_cap = 20_000_000 + s.count as u64 * one;
    }
    if let Scen::Search(s) = &c.scen {
        let mut cap: u64 = 3_000_000;
        for call in s.callers.iter().flatten().chain(&s.nested) {
            let p = &s.problems[call.problem];
            let mut b = gen::tick_bound(p);
            if let Some(t) = call.timeout_ns() {
                if !p.tractable() {
                    b = (t / c.sim.ns_per_tick.max(1) as u64).min(100_000_000)
                        + judge::allowance(p.n(), call.nthreads, s.interval, c.sim.fair_ticks)
                        + 500_000;
                }
            }
            cap = cap.saturating_add(b);
        }
        c.sim.tick_cap = cap.min(3_000_000_000);
    }
}

fn luck(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    gen::spurious(r, sim);
    gen::rtjump(r, sim);
    sim.preempt_mean = *r.pick(&[0, 0, 10000, 2000, 500, 50]);
    sim.rare = 0;
    sim.fair_ticks = *r.pick(&[2_000, 10_000]);
    sim.ppm[F_ENTROPY] = *r.pick(&[0, 0, 200_000, 600_000]);
    let seeds = r.below(4) as u8;
    if r.pct(35) {
        let problem = gen::problem(r, 2, 7, 3_000);
        let f = match r.below(6) {
            0 => None,
            1 => Some(Acc::Builtin),
            _ => {
                let mut e = [0; 5];
                let (lo, hi) = *r.pick(&[(0, 2), (0, 3), (-1, 2), (-3, 4)]);
                e.iter_mut().for_each(|x| *x = r.range(0, (hi - lo) as u64) as i32 + lo);
                Some(Acc::Param(*r.pick(&[0.0, 0.0, -2.0, 1.0, 0.5, -0.5, 3.0, -1e9, 1e9]), e))
            },
        };
        let seeds = if seeds == 0 { 3 } else { seeds };
        return Scen::Luck(LuckScen { seeds, base: r.next(), count: r.range(3, 25) as u32, nthreads: r.below(2) as u16, callers: 1, formula: Some((problem, f)), ..Default::default() });
    }
    if r.pct(15) {
        let fan = r.range(4, 7) as u8;
        return Scen::Luck(LuckScen {
            fan,
            levels: vec![*r.pick(&[0.5, 0.5, 0.3, 0.8, 0.1])],
            seeds,
            base: r.next(),
            count: (r.range(40, 160) >> (2 * (fan - 4))).max(2) as u32,
            nthreads: *r.pick(&[0, 1, 1, 2, 3]),
            callers: if r.pct(70) { 1 } else { 2 },
            interval: gen::interval(r),
            ..Default::default()
        });
    }
    let multi = r.pct(40);
    let first = if multi { r.range(1, 2) as usize } else { 1 };
    let n = first + r.range(if multi { 2 } else { 1 }, 5) as usize;
    let mode = r.below(4);
    let p = r.range(1, 999) as f64 / 1000.;
    let mut levels: Vec<f64> = (0..n)
        .map(|_| match mode {
            0 => 0.5,
            1 => p,
            2 => *r.pick(&[0.5, 0.8, 0.9, 0.97, 1.0, 3.5, 0.3, 0.6]),
            _ => match r.below(10) {
                0 => 1.0,
                1 => *r.pick(&[1.0000001, 2.0, 1e300, f64::MAX]),
                2 => 0.0,
                3 => *r.pick(&[0.001, 1e-9, 1e-300, 0.999]),
                4 => 1.0 - f64::EPSILON,
                _ => r.range(1, 999) as f64 / 1000.,
            },
        })
        .collect();
    if multi {
        levels[0] = 0.;
    }
    let count = if multi { r.range(20, 80) } else { *r.pick(&[60, 120, 120, 300, 300, 1500]) };
    Scen::Luck(LuckScen {
        first,
        levels,
        seeds,
        base: r.next(),
        count: count as u32,
        nthreads: if multi { gen::nthreads(r).min(5) } else { r.below(2) as u16 },
        callers: if r.pct(60) { 1 } else { r.range(2, 3) as u8 },
        interval: gen::interval(r),
        ..Default::default()
    })
}

fn acc(r: &mut Rng) -> Acc {
    match r.below(12) {
        0 | 1 => Acc::Const(1.0),
        2 => Acc::Const(*r.pick(&[0.0, 0.3, 0.7, 0.95, 2.0, 1e300])),
        3 => Acc::Builtin,
        4 => Acc::BuiltinRec,
        5 => Acc::Param(*r.pick(&[0.0, -2.0, 1.0]), [r.range(0, 3) as i32, r.range(0, 2) as i32, r.range(0, 2) as i32, r.range(0, 4) as i32, r.range(0, 2) as i32]),
        _ => Acc::Hash {
            seed: r.next(),
            zero: *r.pick(&[5, 10, 20, 40]),
            mid: *r.pick(&[0, 0, 10, 40]),
            p: *r.pick(&[0.1, 0.5, 0.9]),
            hi: *r.pick(&[1.0, 1.0, 3.5]),
            mask: *r.pick(&[0b01000, 0b00100, 0b01100, 0b01111, 0b01001, 0b00011]),
        },
    }
}
fn rseed(r: &mut Rng) -> Option<u64> {
    match r.below(4) {
        0 => None,
        1 => Some(*r.pick(&[0, 1, u64::MAX])),
        _ => Some(r.next()),
    }
}
fn timeout_ns(ns: u64) -> Option<(u64, u32)> {
    Some((ns / 1_000_000_000, (ns % 1_000_000_000) as u32))
}
fn any_call(r: &mut Rng) -> Call {
    Call {
        problem: 0,
        search: true,
        timeout: None,
        nthreads: if r.pct(25) { r.below(2) as u16 } else { gen::nthreads(r) },
        task_bound: gen::task_bound(r),
        prob: if r.pct(40) { Some((acc(r), rseed(r))) } else { None },
        ..Default::default()
    }
}
fn faults(r: &mut Rng, sim: &mut SimSpec) {
    if r.pct(50) {
        gen::spurious(r, sim)
    }
    if r.pct(40) {
        gen::rtjump(r, sim)
    }
    if r.pct(40) {
        gen::stalls(r, sim)
    }
}

/// C01, C02, C04: any call
fn lists(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    faults(r, sim);
    let big = r.pct(12);
    let most = if r.pct(30) { 80 } else { 24 };
    let p = if big { gen::big_problem(r, 13, most) } else { gen::problem(r, 1, 7, 20_000) };
    let mut c = any_call(r);
    if big || r.pct(35) {
        c.timeout = timeout_ns(r.logu(1, if big { 300_000 } else { 3_000_000 }));
    } else if r.pct(10) {
        c.search = false;
    }
    let mut p = p;
    if !c.search && r.pct(30) {
        p = gen::huge_problem(r);
    }
    if r.pct(2) {
        c.nthreads = r.range(200, 300) as u16;
    }
    Scen::Search(SearchScen {
        problems: vec![p],
        callers: vec![vec![c]],
        log: r.pct(15),
        interval: gen::interval(r),
        noise: 0,
        ..Default::default()
    })
}

fn exact(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    if r.pct(40) {
        faults(r, sim)
    }
    let most = if r.pct(20) { 60_000 } else { 12_000 };
    let p = gen::problem(r, 1, 8, most);
    let mut c = any_call(r);
    c.prob = None;
    if r.pct(80) {
        c.nthreads = gen::nthreads(r);
    }
    let mut p = p;
    if r.pct(2) {
        // far too long to finish before the timeout, so it must not claim to
        p = gen::wide_problem(r);
        c.timeout = timeout_ns(r.logu(50_000, 1_000_000));
        sim.ns_per_tick = 1;
    }
    Scen::Search(SearchScen {
        problems: vec![p],
        callers: vec![vec![c]],
        log: r.pct(10),
        interval: if r.pct(60) { *r.pick(&[1, 2, 3, 5, 8, 13, 30]) } else { gen::interval(r) },
        noise: 0,
        ..Default::default()
    })
}

fn late(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    if r.pct(50) {
        gen::spurious(r, sim)
    }
    if r.pct(50) {
        gen::rtjump(r, sim)
    }
    sim.fair_ticks = *r.pick(&[2_000, 5_000]);
    let n = r.range(14, 22) as usize;
    let first = r.range(2, 12) as usize;
    let nl = r.range(2, 5) as usize;
    let mut p = Problem { nb: gen::graph(r, n), order: gen::order_layers(r, n, nl, Some(first)) };
    if r.pct(15) {
        p = gen::big_problem(r, 30, 90);
    }
    let mut c = any_call(r);
    c.timeout = timeout_ns(if r.pct(10) { 0 } else { r.logu(1, 3_000_000) });
    if let Some((a, _)) = &mut c.prob {
        if r.pct(70) {
            *a = Acc::Const(*r.pick(&[1.0, 0.9, 0.5]));
        }
    }
    if r.pct(60) {
        c.task_bound = None;
    }
    let mut interval = *r.pick(&[0, 0, 0, 100, 10]);
    if r.pct(1) {
        // a long search before the expiry
        let n = r.range(16, 20) as usize;
        let first = r.range(14, n as u64) as usize;
        p = Problem { nb: gen::graph(r, n), order: gen::order_layers(r, n, 2, Some(first)) };
        c.timeout = timeout_ns(r.logu(20_000_000, 80_000_000));
        c.nthreads = *r.pick(&[0, 1, 1, 2, 3]);
        interval = *r.pick(&[100, 300, 0]);
        sim.ns_per_tick = 1;
    }
    Scen::Search(SearchScen {
        problems: vec![p],
        callers: vec![vec![c]],
        log: false,
        interval,
        noise: 0,
        ..Default::default()
    })
}

fn early(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    gen::spurious(r, sim);
    gen::rtjump(r, sim);
    if r.pct(40) {
        gen::stalls(r, sim)
    }
    sim.ns_per_tick = *r.pick(&[1, 1, 7, 1000]);
    let p = gen::problem(r, 1, 7, 6_000);
    let ncalls = r.range(1, 3);
    let mut calls = Vec::new();
    for _ in 0..ncalls {
        let mut c = any_call(r);
        c.prob = None;
        c.timeout = match r.below(6) {
            0 => Some((u64::MAX, 999_999_999)),
            1 => Some((*r.pick(&[i64::MAX as u64, u32::MAX as u64, 1 << 40]), 0)),
            2 => Some((r.logu(10, 1_000_000), 0)),
            _ => timeout_ns(r.logu(1000, 3_000_000).saturating_mul(sim.ns_per_tick as u64)),
        };
        calls.push(c);
    }
    Scen::Search(SearchScen { problems: vec![p], callers: vec![calls], log: r.pct(8), interval: gen::interval(r), noise: 0, ..Default::default() })
}

fn timer(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    if r.pct(70) {
        gen::spurious(r, sim)
    }
    gen::rtjump(r, sim);
    if r.pct(30) {
        gen::stalls(r, sim)
    }
    sim.fair_ticks = *r.pick(&[500, 2_000, 10_000]);
    sim.preempt_mean = *r.pick(&[1, 2, 3, 5, 10, 30, 100]);
    sim.ns_per_tick = *r.pick(&[1, 100, 10_000]);
    sim.tick_cap = 20_000_000;
    let mut timers = Vec::new();
    for _ in 0..r.range(1, 3) {
        let dur = match r.below(10) {
            0 => None,
            1 => Some((0, 0)),
            2 => Some((u64::MAX, 999_999_999)),
            3 => Some((r.logu(1, 1 << 40), r.below(1_000_000_000) as u32)),
            _ => timeout_ns(r.logu(1, 1_000_000_000_000)),
        };
        let d = dur.map_or(1_000_000, |(s, n)| s.saturating_mul(1_000_000_000).saturating_add(n as u64)).min(1 << 50).max(10);
        let ops = |r: &mut Rng| {
            let mut v = Vec::new();
            for _ in 0..r.range(1, 6) {
                v.push(match r.below(5) {
                    0 => TimerOp::Yield,
                    4 if r.pct(40) => TimerOp::Polls(r.logu(2, 700) as u32),
                    1 => TimerOp::Sleep(match r.below(4) {
                        0 => d,
                        1 => d - d / 100,
                        2 => d + d / 100,
                        _ => r.logu(1, 2 * d),
                    }),
                    _ => TimerOp::Poll,
                });
            }
            v.push(TimerOp::Poll);
            v
        };
        let np = if r.pct(5) { r.range(4, 12) } else { r.below(4) };
        timers.push(TimerCase {
            dur,
            pollers: (0..np).map(|_| ops(r)).collect(),
            owner: ops(r),
            unwind: r.pct(15),
        });
    }
    Scen::Timer(TimerScen { timers })
}

fn anytime(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    sim.preempt_mean = *r.pick(&[20, 200, 2000, 0]);
    sim.fair_ticks = *r.pick(&[300, 2_000, 10_000]);
    if r.pct(40) {
        gen::spurious(r, sim)
    }
    let p = if r.pct(60) { gen::problem(r, 3, 8, 60_000) } else { gen::big_problem(r, 13, 22) };
    let prob = if r.pct(40) { Some((acc(r), Some(r.next()))) } else { None };
    // the built-in function is passed as such or wrapped; wrap it to see its invocations
    let prob = prob.map(|(a, s)| (if a == Acc::Builtin { Acc::BuiltinRec } else { a }, s));
    let k = r.range(3, 8);
    let top = if !p.tractable() { 400_000 } else { (gen::tick_bound(&p) / 8).min(1_000_000) };
    let nthreads = r.below(2) as u16;
    let mut calls: Vec<Call> = (0..k)
        .map(|_| Call { timeout: timeout_ns(r.logu(100, top)), nthreads, prob: prob.clone(), ..Default::default() })
        .collect();
    if p.tractable() && r.pct(50) {
        calls.push(Call { nthreads, prob, ..Default::default() });
    }
    Scen::Search(SearchScen { problems: vec![p], callers: vec![calls], log: false, interval: 0, noise: 0, ..Default::default() })
}

fn terminate(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    faults(r, sim);
    let p = gen::problem(r, 1, 7, 4_000);
    let mut c = any_call(r);
    c.nthreads = match r.below(12) {
        0 => r.range(20, 64) as u16,
        1 => r.range(200, 300) as u16,
        _ => gen::nthreads(r),
    };
    if c.nthreads > 100 && r.pct(70) {
        c.nthreads = 6;
    }
    if r.pct(50) {
        c.timeout = if r.pct(20) { Some((u64::MAX, 0)) } else { timeout_ns(r.logu(1, 1_000_000)) };
    }
    Scen::Search(SearchScen {
        problems: vec![p],
        callers: vec![vec![c]],
        log: r.pct(50),
        interval: *r.pick(&[0, 1, 1, 2, 5, 20]),
        noise: 0,
        ..Default::default()
    })
}

fn panics(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    faults(r, sim);
    let p = gen::problem(r, 1, 7, 4_000);
    let spawn = r.pct(35);
    if spawn {
        sim.ppm[F_SPAWN] = *r.pick(&[30_000, 150_000, 500_000, 1_000_000]);
    }
    let mut calls = Vec::new();
    for _ in 0..r.range(1, 3) {
        let mut c = any_call(r);
        if r.pct(70) {
            c.nthreads = *r.pick(&[2, 2, 2, 3, 4, 8]);
        }
        if r.pct(70) {
            let a = match r.below(4) {
                0 => Acc::Const(0.5),
                1 => Acc::BuiltinRec,
                _ => Acc::Const(1.0),
            };
            c.prob = Some((a, rseed(r)));
            match r.below(4) {
                0 => c.panic_from = r.logu(1, 40),
                1 => c.panic_from = 1,
                2 => c.panic_at = (0..r.range(1, 4)).map(|_| r.logu(1, 200)).collect(),
                _ => c.panic_at = vec![r.logu(1, 60)],
            }
            c.panic_kind = *r.pick(&[0, 0, 1, 2, 3]);
        } else {
            c.prob = None;
        }
        if r.pct(30) {
            c.timeout = if r.pct(50) { Some((1 << 33, 0)) } else { timeout_ns(r.logu(1, 1_000_000)) };
        }
        calls.push(c);
    }
    // afterwards everything works normally
    if r.pct(70) {
        calls.push(Call { nthreads: gen::nthreads(r), ..Default::default() });
    }
    Scen::Search(SearchScen { problems: vec![p], callers: vec![calls], log: r.pct(20), interval: gen::interval(r), noise: 0, ..Default::default() })
}

fn repro(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    faults(r, sim);
    let np = r.range(1, 2) as usize;
    let problems = gen::problems(r, np, 2, 7, 3_000);
    let copies = if r.pct(40) { 70 } else { 0 };
    let proto: Vec<Call> = (0..r.range(1, 2))
        .map(|_| Call {
            problem: r.below(np as u64) as usize,
            nthreads: r.below(2) as u16,
            prob: if r.pct(75) { Some((acc(r), Some(if r.pct(15) { *r.pick(&[0, u64::MAX]) } else { r.next() }))) } else { None },
            timeout: if r.pct(25) { Some((r.logu(1 << 20, 1 << 33), 0)) } else { None },
            task_bound: gen::task_bound(r),
            copy: r.pct(copies),
            ..Default::default()
        })
        .collect();
    let callers = (0..r.range(1, 3))
        .map(|_| (0..r.range(1, 3)).map(|_| Call { delay: if r.pct(20) { r.logu(1, 1_000_000) } else { 0 }, ..r.pick(&proto).clone() }).collect())
        .collect();
    Scen::Search(SearchScen { problems, callers, log: r.pct(10), interval: 0, noise: r.below(3) as u8, ..Default::default() })
}

fn accept(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    if r.pct(30) {
        faults(r, sim)
    }
    let p = gen::problem(r, 1, 7, 6_000);
    let mut c = any_call(r);
    let mut a = acc(r);
    if a == Acc::Builtin {
        a = Acc::BuiltinRec;
    }
    c.prob = Some((a, rseed(r)));
    if r.pct(40) {
        c.nthreads = r.below(2) as u16;
    }
    Scen::Search(SearchScen { problems: vec![p], callers: vec![vec![c]], log: r.pct(5), interval: gen::interval(r), noise: 0, ..Default::default() })
}

/// a long history of short calls
fn many_calls(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    if r.pct(20) {
        faults(r, sim)
    }
    let np = r.range(1, 4) as usize;
    let problems = gen::problems(r, np, 1, 4, 60);
    let copies = if r.pct(40) { 70 } else { 0 };
    let failing = r.pct(30);
    let most = if r.pct(20) { 300 } else { 80 };
    let callers = (0..r.range(1, 2))
        .map(|_| {
            (0..r.range(17, most))
                .map(|_| {
                    let mut c = any_call(r);
                    c.problem = r.below(np as u64) as usize;
                    c.search = r.pct(90);
                    c.copy = r.pct(copies);
                    c.nthreads = if r.pct(60) { r.below(2) as u16 } else { c.nthreads.min(3) };
                    if r.pct(10) {
                        c.timeout = if r.pct(50) { Some((1 << 34, 0)) } else { timeout_ns(r.logu(100, 100_000)) };
                    }
                    if failing && r.pct(20) {
                        c.prob = Some((acc(r), rseed(r)));
                        c.panic_at = vec![r.logu(1, 10)];
                    }
                    c
                })
                .collect()
        })
        .collect();
    Scen::Search(SearchScen { problems, callers, log: r.pct(3), interval: gen::interval(r), noise: 0, ..Default::default() })
}

fn concurrent(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    if r.pct(2) {
        return many_calls(r, sim);
    }
    if r.pct(30) {
        faults(r, sim)
    }
    let np = r.range(1, 3) as usize;
    let problems = gen::problems(r, np, 1, 6, 800);
    let copies = if r.pct(40) { 70 } else { 0 };
    let failing = r.pct(30);
    let nesting = r.pct(25);
    let mut nested = Vec::new();
    let callers = (0..r.range(1, 4))
        .map(|_| {
            (0..r.range(1, 3) + failing as u64)
                .map(|_| {
                    let mut c = any_call(r);
                    c.problem = r.below(np as u64) as usize;
                    c.search = r.pct(90);
                    c.copy = r.pct(copies);
                    if r.pct(40) {
                        c.nthreads = r.below(2) as u16;
                    }
                    if c.nthreads > 4 {
                        c.nthreads = 3;
                    }
                    if r.pct(20) {
                        c.timeout = if r.pct(50) { Some((1 << 34, 0)) } else { timeout_ns(r.logu(1000, 500_000)) };
                    }
                    if failing && r.pct(40) {
                        c.prob = Some((acc(r), rseed(r)));
                        c.panic_at = vec![r.logu(1, 30)];
                        c.panic_kind = *r.pick(&[0, 0, 1, 2, 3]);
                    }
                    if nesting && c.nthreads < 4 && r.pct(50) {
                        let a = if r.pct(50) { Acc::Const(1.0) } else { acc(r) };
                        c.prob = Some((a, rseed(r)));
                        c.nest = Some((r.logu(1, 40), nested.len()));
                        let mut n = any_call(r);
                        n.problem = r.below(np as u64) as usize;
                        if r.pct(60) {
                            n.nthreads = r.below(2) as u16;
                        }
                        n.nthreads = n.nthreads.min(3);
                        if r.pct(20) {
                            n.panic_at = vec![r.logu(1, 30)];
                        }
                        nested.push(n);
                    }
                    c
                })
                .collect()
        })
        .collect();
    Scen::Search(SearchScen { nested, problems, callers, log: r.pct(10), interval: gen::interval(r), noise: r.below(2) as u8, ..Default::default() })
}

fn limits(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    if r.pct(20) {
        faults(r, sim)
    }
    let p = gen::problem(r, 2, 7, 12_000);
    let mut c = any_call(r);
    c.prob = if r.pct(80) { Some((Acc::Const(*r.pick(&[1.0, 1.0, 2.0, 0.9])), rseed(r))) } else { None };
    c.nthreads = *r.pick(&[0, 1, 1, 2, 2, 3, 4, 8, 16, 40]);
    if r.pct(1) {
        c.nthreads = *r.pick(&[255, 256, 257, 300, 512]);
    }
    c.task_bound = *r.pick(&[None, Some(0), Some(0), Some(1), Some(1), Some(2), Some(3), Some(5), Some(u32::MAX), Some(1 << 31)]);
    if r.pct(20) {
        c.timeout = Some((1 << 34, 0));
    }
    Scen::Search(SearchScen { problems: vec![p], callers: vec![vec![c]], log: false, interval: gen::interval(r), noise: 0, ..Default::default() })
}

fn nosearch(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    faults(r, sim);
    let np = r.range(1, 3) as usize;
    let problems: Vec<Problem> = (0..np)
        .map(|i| {
            // calls that do search share the process; they use the first problem
            if i == 0 {
                gen::problem(r, 1, 6, 1500)
            } else if r.pct(10) {
                gen::huge_problem(r)
            } else {
                let n = r.range(1, 14) as usize;
                Problem { nb: gen::graph(r, n), order: gen::order(r, n, None) }
            }
        })
        .collect();
    // such a call needs no thread
    let refused = r.pct(12);
    if refused {
        sim.ppm[F_SPAWN] = *r.pick(&[300_000, 1_000_000]);
    }
    let callers: Vec<_> = (0..if refused { 1 } else { r.range(1, 3) })
        .map(|_| {
            (0..r.range(1, 4))
                .map(|_| {
                    let mut c = any_call(r);
                    c.problem = r.below(np as u64) as usize;
                    c.search = false;
                    if r.pct(15) {
                        c.search = true;
                        c.problem = 0;
                        c.nthreads = c.nthreads.min(3);
                    }
                    if r.pct(50) {
                        c.timeout = Some((*r.pick(&[0, 1, u64::MAX]), *r.pick(&[0, 1])));
                    }
                    c
                })
                .collect()
        })
        .collect();
    Scen::Search(SearchScen { problems, callers, log: r.pct(10), interval: 0, noise: if refused { 0 } else { r.below(2) as u8 }, ..Default::default() })
}

fn split(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    sim.tick_cap = 2_000_000_000;
    let least = *r.pick(&[1, 12, 40, 40, 200]);
    let mut p = gen::problem(r, 1, 7, 3_000);
    while p.n() > 40 || model!(&p, m => m.tree_nodes()) < least {
        p = gen::problem(r, 3, 7, 3_000);
    }
    if r.pct(3) {
        return Scen::Split(SplitScen {
            problem: gen::wide_problem(r),
            workers: r.range(1, 4) as u8,
            seed: r.next(),
            few: *r.pick(&[30, 100, 300, 600]),
            labels: r.pct(10).then(|| labels(r)),
            ..Default::default()
        });
    }
    Scen::Split(SplitScen {
        few: 0,
        labels: r.pct(10).then(|| labels(r)),
        problem: p,
        workers: r.range(1, 5) as u8,
        seed: r.next(),
        resplit: *r.pick(&[0, 20, 60]),
        skip: *r.pick(&[0, 0, 5, 20]),
        prefix: *r.pick(&[0, 0, 1, 2]),
        advance: *r.pick(&[0, 0, 1, 2, 4]),
    })
}

fn manual(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    sim.tick_cap = 100_000_000;
    if r.pct(20) {
        gen::spurious(r, sim)
    }
    let hi = if r.pct(10) { 80 } else { 9 };
    let n = r.range(1, hi) as usize;
    let p = Problem { nb: gen::graph(r, n), order: gen::order(r, n, None) };
    let clients = (0..r.range(1, 4))
        .map(|_| {
            (0..r.range(2, 14))
                .map(|_| {
                    let m = r.next();
                    let pick = match r.below(14) {
                        0 => Pick::Dup(m),
                        1 => Pick::Measured(m),
                        2 => Pick::Blocked(m),
                        3 => Pick::Raw((0..r.below(2 * n as u64 + 3)).map(|_| r.below(n as u64 + if m % 4 == 0 { 3 } else { 0 }) as usize).collect()),
                        4 => Pick::Empty,
                        5 => Pick::Legal(u64::MAX),
                        6 => Pick::Legal(m & r.next() & r.next()),
                        _ => Pick::Legal(m & r.next()),
                    };
                    if r.pct(65) { ManOp::Inplace(pick) } else { ManOp::Focus(pick, r.pct(60)) }
                })
                .collect()
        })
        .collect();
    Scen::Manual(ManualScen { problem: p, clients, partitioner: r.pct(30), labels: r.pct(10).then(|| labels(r)), parts: r.pct(10) })
}

fn labels(r: &mut Rng) -> Labels {
    let edges = r.pct(70);
    Labels {
        seed: r.next(),
        edges,
        noise: if edges && r.pct(60) { r.range(1, 9) as u8 } else { 0 },
        map: r.below(5) as u8,
        room: *r.pick(&[0, 0, 1, 7, 100]),
        used: r.pct(40),
    }
}

fn labelled(r: &mut Rng, sim: &mut SimSpec) -> Scen {
    let mut s = if r.pct(25) { split(r, sim) } else { manual(r, sim) };
    match &mut s {
        Scen::Split(x) => x.labels = Some(labels(r)),
        Scen::Manual(x) => {
            x.labels = Some(labels(r));
            x.parts = r.pct(50);
        },
        _ => {},
    }
    s
}
