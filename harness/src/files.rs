//! Generation of file scenarios, preparation and inspection of their files.
use crate::{gen, model::*, rng::*, sim::*, types::*};
use serde::{de::DeserializeOwned, Serialize};

pub fn make(r: &mut Rng, sim: &mut SimSpec, what: u32) -> Scen {
    let mut s = FileScen::default();
    let fmt = |r: &mut Rng| if r.pct(50) { "serde_json".to_string() } else { "bincode".to_string() };
    s.formats = [fmt(r), fmt(r), fmt(r)];
    s.verb = r.below(256) as u8;
    s.depth = *r.pick(&[0, 0, 1, 2, 3]);
    s.old = if r.pct(55) { Some((r.below(7) as u8, r.logu(1, 3000) as u32)) } else { None };
    if r.pct(10) {
        s.out_obstacle = 3;
    }
    s.cli = what == 21 || r.pct(match what {
        13 => 8,
        14 => 20,
        _ => 12,
    });
    sim.preempt_mean = *r.pick(&[50, 150, 500, 2000, 10000, 0]);
    s.problem = gen::problem(r, 1, 6, 600);
    s.call.search = r.pct(70);
    s.call.nthreads = match r.below(10) {
        0..=5 => r.below(2) as u16,
        _ => r.range(2, 4) as u16,
    };
    if what == 21 && r.pct(10) {
        s.call.nthreads = if r.pct(10) { r.range(120, 300) } else { r.range(5, 24) } as u16;
    }
    s.call.task_bound = gen::task_bound(r);
    if !s.call.search && r.pct(30) {
        let n = if r.pct(10) { r.range(200, 1000) } else { r.range(1, 120) } as usize;
        s.problem = Problem { nb: gen::graph(r, n), order: gen::order(r, n, None) };
    }
    if s.cli {
        s.log_env = match r.below(5) {
            0 => Some("trace".into()),
            1 => Some((*r.pick(&["debug", "info", "off", "=nonsense,,"])).into()),
            _ => None,
        };
    }
    let soft = |r: &mut Rng, sim: &mut SimSpec| {
        sim.ppm[F_READ_SHORT] = *r.pick(&[0, 0, 100_000, 600_000]);
        sim.ppm[F_WRITE_SHORT] = *r.pick(&[0, 0, 100_000, 600_000]);
        sim.ppm[F_READ_EINTR] = *r.pick(&[0, 0, 20_000, 300_000]);
        sim.ppm[F_WRITE_EINTR] = *r.pick(&[0, 0, 20_000, 300_000]);
    };
    match what {
        13 => {
            soft(r, sim);
            if r.pct(if s.call.search { 40 } else { 20 }) {
                s.call.prob = Some((prob(r, s.cli), None));
            }
            if r.pct(25) {
                s.call.timeout = if r.pct(50) || s.cli { Some((r.logu(1 << 20, 1 << 31), 0)) } else { Some((0, r.logu(1, 3_000_000) as u32)) };
            }
        },
        14 => {
            if r.pct(if s.call.search { 30 } else { 10 }) {
                s.call.prob = Some((prob(r, s.cli), None));
            }
            if r.pct(30) {
                soft(r, sim);
            }
            match r.below(10) {
                0..=2 => damage(r, &mut s),
                3 => unknown(r, &mut s),
                4 => s.out_obstacle = r.range(1, 2) as u8,
                5..=6 => sim.disk_budget = Some(if r.pct(30) { r.below(20) } else { r.logu(1, 3000) }),
                _ => {
                    for k in [F_OPEN_ERR, F_READ_ERR, F_WRITE_ERR, F_MKDIR_ERR, F_MISC_ERR] {
                        if r.pct(35) {
                            sim.ppm[k] = *r.pick(&[1000, 5000, 30_000, 200_000]);
                        }
                    }
                    sim.fault_after = if r.pct(50) { 0 } else { r.logu(1, 1000) as u32 };
                },
            }
        },
        15 => {
            // the complete result is known: no filter that rejects
            if s.call.search && r.pct(20) && !s.cli {
                s.call.prob = Some((Acc::Const(1.0), None));
            }
            if r.pct(30) {
                soft(r, sim);
            }
            match r.below(10) {
                0..=5 => sim.kill_wr = r.logu(1, 700),
                6 => sim.kill_io = r.logu(1, 1500),
                7 => sim.kill_tick = r.logu(1, 200_000),
                8 => sim.disk_budget = Some(r.logu(1, 3000)),
                _ => sim.ppm[F_WRITE_ERR] = *r.pick(&[3_000, 20_000, 100_000]),
            }
        },
        16 => {
            if s.old.is_none() {
                s.old = Some((r.below(7) as u8, r.logu(1, 3000) as u32));
            }
            match r.below(10) {
                0..=2 => damage(r, &mut s),
                3 => unknown(r, &mut s),
                4 if r.pct(40) => {
                    // a thread that is needed for the search cannot be started
                    s.call.search = true;
                    s.call.timeout = if r.pct(60) { Some((r.logu(1 << 20, 1 << 31), 0)) } else { None };
                    if s.call.timeout.is_none() {
                        s.call.nthreads = r.range(2, 4) as u16;
                    }
                    if s.problem.n() > 12 {
                        s.problem = gen::problem(r, 1, 6, 600);
                    }
                    sim.ppm[F_SPAWN] = *r.pick(&[300_000, 1_000_000]);
                },
                4 => sim.ppm[F_READ_ERR] = *r.pick(&[1000, 5000, 50_000]),
                5 | 6 => {
                    s.cli = false;
                    s.log_env = None;
                    if !s.call.search {
                        s.problem = gen::problem(r, 1, 6, 600);
                    }
                    s.call.search = true;
                    s.call.prob = Some((Acc::Const(1.0), None));
                    s.call.panic_kind = r.below(4) as u8;
                    s.call.panic_from = if r.pct(50) { 1 } else { r.logu(1, 40) };
                },
                _ => {
                    // a search that cannot finish
                    s.problem = gen::endless_problem(r);
                    s.call.search = true;
                    s.call.timeout = None;
                    sim.kill_tick = r.logu(1000, 3_000_000);
                    if r.pct(20) {
                        sim.kill_io = r.logu(1, 1500);
                    }
                    if r.pct(30) && !s.cli {
                        s.call.prob = Some((Acc::Const(1.0), None));
                    }
                },
            }
        },
        _ => {
            if r.pct(40) {
                soft(r, sim);
            }
            if r.pct(30) {
                s.call.prob = Some((Acc::Builtin, None));
            }
            if r.pct(40) {
                gen::spurious(r, sim);
            }
            if s.call.search && r.pct(40) {
                // cut off by the timeout, in whole seconds
                sim.ns_per_tick = *r.pick(&[5_000, 20_000, 100_000]);
                sim.fair_ticks = *r.pick(&[500, 2_000]);
                s.problem = gen::endless_problem(r);
                s.call.timeout = Some((r.below(4), 0));
            } else if r.pct(30) {
                s.call.timeout = Some((r.logu(1, u32::MAX as u64), 0));
            }
        },
    }
    let many = what == 13 && r.pct(25) || (14..=16).contains(&what) && r.pct(12);
    if r.pct(40) {
        s.names = 1 + r.below(7) as u8;
    }
    if s.old.is_some() && r.pct(10) {
        s.names |= 16;
    }
    if what == 21 && r.pct(12) {
        s.crashed = Some((r.below(4) as u8, r.logu(1, 2000)));
    }
    if what == 21 && r.pct(12) {
        // nobody reads what the program prints
        sim.ppm[F_STDOUT_ERR] = *r.pick(&[300_000, 1_000_000]);
    }
    if (what == 13 || what == 14) && !s.cli && !many && r.pct(12) && s.problem.n() < 100 {
        s.then_calm = r.pct(60);
        if what == 13 && s.then_calm && r.pct(50) {
            // the first run fails
            match r.below(4) {
                0 => damage(r, &mut s),
                1 => s.out_obstacle = r.range(1, 2) as u8,
                2 => sim.disk_budget = Some(r.logu(1, 300)),
                _ => sim.ppm[F_WRITE_ERR] = 300_000,
            }
            if matches!(s.out_obstacle, 1 | 2) {
                s.old = None;
            }
        }
        let small = Call { search: r.pct(70), nthreads: r.below(3) as u16, ..Default::default() };
        let mut p = gen::problem(r, 1, 6, 600);
        if r.pct(50) && s.problem.n() <= 6 {
            // of the same size
            let n = s.problem.n();
            for _ in 0..20 {
                p = gen::problem(r, n, n, 600);
                if p.nb.iter().map(|x| x.len()).sum::<usize>() == s.problem.nb.iter().map(|x| x.len()).sum::<usize>() {
                    break;
                }
            }
        }
        s.then = Some((p, small));
    }
    if many && !s.cli && s.problem.n() <= 400 && sim.ppm[F_SPAWN] == 0 {
        let small = s.problem.tractable() && s.problem.n() < 12;
        for _ in 0..r.range(1, 3) {
            s.peers.push((
                fmt(r),
                Call {
                    search: small && r.pct(50),
                    nthreads: if r.pct(80) { r.below(2) as u16 } else { 2 },
                    delay: if r.pct(30) { r.logu(1, 100_000) } else { 0 },
                    ..Default::default()
                },
            ));
        }
    }
    Scen::File(s)
}

fn prob(r: &mut Rng, cli: bool) -> Acc {
    if cli {
        return Acc::Builtin;
    }
    match r.below(3) {
        0 => Acc::Builtin,
        1 => Acc::Const(1.0),
        _ => Acc::BuiltinRec,
    }
}

fn damage(r: &mut Rng, s: &mut FileScen) {
    let i = r.below(2) as usize;
    s.damage[i] = match r.below(9) {
        0 => Damage::Missing,
        1 => Damage::Empty,
        2 | 3 => Damage::Truncate(r.below(1000) as u32),
        4 => Damage::Garbage(r.next()),
        5 => Damage::WrongType,
        6 => Damage::OtherFormat,
        7 => Damage::Trailing(r.next()),
        _ => Damage::IsDir,
    };
    if r.pct(10) {
        s.damage[1 - i] = Damage::Missing;
    }
}
fn unknown(r: &mut Rng, s: &mut FileScen) {
    let i = r.below(3) as usize;
    s.formats[i] = (*r.pick(&["json", "Bincode", "serde-json", "serde_json ", "SERDE_JSON", "bin", "yaml", "bincode2"])).into();
}

pub fn known(f: &str) -> bool {
    f == "serde_json" || f == "bincode"
}
pub fn encode<T: Serialize>(v: &T, fmt: &str, pretty: bool) -> Vec<u8> {
    if fmt == "bincode" {
        bincode::serialize(v).unwrap()
    } else if pretty {
        serde_json::to_vec_pretty(v).unwrap()
    } else {
        serde_json::to_vec(v).unwrap()
    }
}
/// as a reader that does not insist on the end of a binary file
pub fn decode<T: DeserializeOwned>(b: &[u8], fmt: &str) -> Option<T> {
    match fmt {
        "serde_json" => serde_json::from_slice(b).ok(),
        "bincode" => bincode::deserialize(b).ok(),
        _ => None,
    }
}
/// nothing may follow
pub fn decode_all<T: DeserializeOwned>(b: &[u8], fmt: &str) -> Option<T> {
    match fmt {
        "serde_json" => serde_json::from_slice(b).ok(),
        "bincode" => {
            let mut c = std::io::Cursor::new(b);
            let v = bincode::deserialize_from(&mut c).ok()?;
            (c.position() == b.len() as u64).then_some(v)
        },
        _ => None,
    }
}

pub struct Files {
    pub dir: String,
    pub input: [String; 2],
    pub input_arg: [String; 2],
    /// files that are none of the run's business
    pub others: Vec<(String, Vec<u8>)>,
    pub out: String,
    /// as given to the program (may be relative to `dir`)
    pub out_arg: String,
    /// outputs of the further runs: where they are, as given
    pub peers: Vec<(String, String)>,
    pub bytes: [Option<Vec<u8>>; 2],
    pub bad: [bool; 2],
    pub old: Option<Vec<u8>>,
}

/// The bytes of a damaged input; None if it is missing or no file.
fn damaged(s: &FileScen, i: usize) -> (Option<Vec<u8>>, bool) {
    let fmt = &s.formats[i];
    let pretty = s.verb & 4 != 0;
    let good = if i == 0 { encode(&s.problem.nb, fmt, pretty) } else { encode(&s.problem.order, fmt, pretty) };
    let b = match &s.damage[i] {
        Damage::None => good.clone(),
        Damage::Missing | Damage::IsDir => return (None, true),
        Damage::Empty => vec![],
        Damage::Truncate(k) => good[..good.len() * *k as usize / 1000].to_vec(),
        Damage::Garbage(x) => (0..1 + x % 300).map(|k| mix(x ^ k) as u8).collect(),
        Damage::WrongType => {
            if i == 0 {
                encode(&s.problem.order, fmt, pretty)
            } else {
                encode(&s.problem.nb, fmt, pretty)
            }
        },
        Damage::OtherFormat => {
            let other = if fmt == "bincode" { "serde_json" } else { "bincode" };
            if i == 0 { encode(&s.problem.nb, other, pretty) } else { encode(&s.problem.order, other, pretty) }
        },
        Damage::Trailing(x) => {
            let mut g = good.clone();
            g.extend((0..1 + x % 9).map(|k| b"x]0,{"[(mix(x ^ k) % 5) as usize]));
            g
        },
    };
    let same = if i == 0 {
        decode::<Vec<Vec<usize>>>(&b, fmt).map(|v| v == s.problem.nb)
    } else {
        decode::<Order>(&b, fmt).map(|v| v == s.problem.order)
    };
    match same {
        None if known(fmt) => (Some(b), true),
        // still the same problem
        Some(true) => (Some(b), false),
        // decodes to something else: not what is meant here
        _ => (Some(good), false),
    }
}

fn old_content(p: &Problem, kind: u8, size: u32, fmt: &str) -> Vec<u8> {
    match kind {
        4 => {
            // a result of the same shape as the new one may have, of an earlier version of the problem
            let mut steps: Vec<Vec<usize>> = p.order.iter().map(|l| l.iter().map(|x| x.0).collect()).collect();
            let mut l = Vec::new();
            for i in 0..1 + size as usize % 6 {
                l.push(Sched { time: steps.len(), space: p.n() + 6 - i, steps: steps.clone() });
                let Some(k) = steps.iter().position(|s| s.len() > 1) else { break };
                let rest = steps[k].split_off(1);
                steps.insert(k + 1, rest);
            }
            encode(&l, fmt, false)
        },
        0 | 1 => {
            // an earlier result
            let k = (size as usize / 40).max(1);
            let l: Vec<Sched> = (0..k.min(60))
                .map(|i| Sched {
                    time: i + 1,
                    space: 100 - i,
                    steps: (0..=i).map(|x| if kind == 0 { vec![x] } else { (0..1 + (x * 7 + size as usize) % 5).collect() }).collect(),
                })
                .collect();
            encode(&l, fmt, false)
        },
        2 => vec![],
        _ => (0..size as u64).map(|i| mix(i ^ size as u64) as u8).collect(),
    }
}

/// Older content that is nearly the result of this run.
fn nearly(l: &[Sched], how: u32, fmt: &str) -> Vec<u8> {
    let mut l = l.to_vec();
    match how % 9 {
        0 => {},
        1 => {
            // another measurement order of the same shape
            for s in l.iter_mut() {
                let k = s.steps.len();
                if k > 1 {
                    let q = s.steps[0][0];
                    s.steps[0][0] = std::mem::replace(&mut s.steps[k - 1][0], q);
                }
            }
        },
        2 => {
            // of the last one only
            if let Some(s) = l.last_mut() {
                s.steps.reverse();
            }
        },
        3 => {
            l.pop();
        },
        4 => {
            if let Some(s) = l.first_mut() {
                s.space += 1;
            }
        },
        5 => {
            let mut s = l.last().cloned().unwrap_or(Sched { time: 0, space: 0, steps: vec![] });
            s.space = s.space.saturating_sub(1);
            l.push(s);
        },
        6 => return encode(&l, if fmt == "bincode" { "serde_json" } else { "bincode" }, false),
        7 => {
            let mut b = encode(&l, fmt, false);
            b.push(b'\n');
            return b;
        },
        _ => {
            let mut b = encode(&l, fmt, false);
            b.pop();
            return b;
        },
    }
    encode(&l, fmt, false)
}

pub fn prepare(s: &FileScen, scratch: &str, alone: Option<&[Sched]>) -> Files {
    let dir = format!("{scratch}/run");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("run directory");
    // (graph, order, output, directory): a name says nothing about a format
    let names = match s.names & 7 {
        1 => ("graph.json", "order.bincode", "result.json", "out"),
        2 => ("graph.bincode", "order.json", "result.bincode", "out.d"),
        3 => ("räum lich", "zeit lich", "ergeb nis", "aus gabe "),
        4 => ("in.put", "in.put2", "in.put3", "..out"),
        5 => (".graph", ".order", ".result", ".out"),
        6 => ("problem.graph", "problem.order", "problem.paths", "problem"),
        7 => ("a", "b", "a.b", "c%20d"),
        _ => ("graph", "order", "result.x", "out"),
    };
    let input = [format!("{dir}/{}", names.0), format!("{dir}/{}", names.1)];
    let mut f = Files {
        dir: dir.clone(),
        input: input.clone(),
        input_arg: input.clone(),
        others: vec![],
        out: String::new(),
        out_arg: String::new(),
        peers: vec![],
        bytes: [None, None],
        bad: [false; 2],
        old: None,
    };
    for i in 0..2 {
        let (b, bad) = damaged(s, i);
        if let Some(b) = &b {
            std::fs::write(&input[i], b).unwrap();
        } else if s.damage[i] == Damage::IsDir {
            std::fs::create_dir(&input[i]).unwrap();
        }
        f.bytes[i] = b;
        f.bad[i] = bad;
    }
    let mut out = dir.clone();
    let depth = if s.out_obstacle == 3 { 0 } else { s.depth.max((s.out_obstacle == 1) as u8) };
    for k in 0..depth {
        out.push_str(&format!("/{}{k}", names.3));
    }
    let parent = out.clone();
    out.push_str(&format!("/{}", names.2));
    match s.out_obstacle {
        1 => {
            std::fs::write(format!("{dir}/{}0", names.3), b"not a directory").unwrap();
        },
        2 => std::fs::create_dir_all(&out).unwrap(),
        _ => {
            if let Some((kind, size)) = s.old {
                std::fs::create_dir_all(&parent).unwrap();
                let fmt = if known(&s.formats[2]) { &s.formats[2] } else { "serde_json" };
                let b = match alone {
                    Some(l) if kind >= 5 => nearly(l, size, fmt),
                    _ => old_content(&s.problem, if kind >= 5 { 4 } else { kind }, size, fmt),
                };
                if s.names & 16 != 0 {
                    std::fs::write(format!("{dir}/elsewhere"), &b).unwrap();
                    std::os::unix::fs::symlink(format!("{dir}/elsewhere"), &out).unwrap();
                } else {
                    std::fs::write(&out, &b).unwrap();
                }
                f.old = Some(b);
            } else if depth > 1 && s.verb & 8 != 0 {
                std::fs::create_dir_all(format!("{dir}/{}0", names.3)).unwrap();
            }
        },
    }
    for k in 0..s.peers.len() {
        let name = format!("peer{k}.x");
        let at = format!("{parent}/{name}");
        f.peers.push((at.clone(), if s.out_obstacle == 3 { name } else { at }));
    }
    f.out_arg = if s.out_obstacle == 3 { names.2.into() } else { out.clone() };
    if s.out_obstacle == 3 && s.verb & 64 != 0 {
        f.input_arg = [names.0.into(), format!("./{}", names.1)];
    }
    for (k, d) in [&dir, &parent].into_iter().enumerate() {
        let at = format!("{d}/other.files");
        if std::path::Path::new(d).is_dir() && !std::path::Path::new(&at).exists() {
            let b = vec![k as u8; 40];
            std::fs::write(&at, &b).unwrap();
            f.others.push((at, b));
        }
    }
    f.out = out;
    f
}

/// What the run reported.
#[derive(Clone, Debug, PartialEq)]
pub enum Reported {
    Success,
    Error(String),
    Panic(String),
    /// killed by the simulator
    Killed,
    Hang(String),
}

pub struct Seen<'a> {
    pub case: &'a Case,
    pub s: &'a FileScen,
    pub f: &'a Files,
    pub rep: &'a Report,
    pub told: Reported,
    pub out: Option<Vec<u8>>,
    pub inputs_same: bool,
    /// what the library returns for the call alone, if that is determined
    pub alone: Option<Vec<Sched>>,
    pub callback_panics: u64,
    /// of each further run: what it reported, its output, what the library returns for it
    pub peers: Vec<(Reported, Option<Vec<u8>>, Option<Vec<Sched>>)>,
    /// the same of the run made afterwards
    pub then: Option<(Reported, Option<Vec<u8>>, Option<Vec<Sched>>)>,
    pub others_same: bool,
}

impl Seen<'_> {
    fn unfinishable(&self) -> bool {
        // the subsets of the first layer alone take more steps than any of these runs has
        self.s.call.search && self.s.problem.order[0].len() >= gen::ENDLESS
    }
    fn unknown_format(&self) -> bool {
        self.s.formats.iter().any(|f| !known(f))
    }
    fn must_fail(&self) -> Option<&'static str> {
        if self.f.bad.iter().any(|b| *b) {
            Some("an input cannot be decoded")
        } else if self.unknown_format() {
            Some("a format is unknown")
        } else if matches!(self.s.out_obstacle, 1 | 2) {
            Some("the output cannot be created")
        } else {
            None
        }
    }
    fn uncut(&self) -> bool {
        self.s.call.timeout_ns().map_or(true, |t| self.rep.clock_ns < t)
    }

    /// Is this list the result of the library?
    fn result(&self, p: &Problem, call: &Call, alone: &Option<Vec<Sched>>, l: &[Sched]) -> Result<(), String> {
        let uncut = call.timeout_ns().map_or(true, |t| self.rep.clock_ns < t);
        if let Some(a) = alone {
            if uncut || !call.search {
                return if a == l { Ok(()) } else { Err(format!("{l:?} instead of {a:?}")) };
            }
        }
        for x in l {
            check_executable(p, &x.steps).map_err(|e| format!("{:?}: {e}", x.steps))?;
        }
        check_costs(p, l)?;
        check_tradeoff(l)?;
        let complete = match &call.prob {
            None => true,
            Some((Acc::Const(x), _)) => *x >= 1.,
            _ => false,
        };
        if call.search && complete && uncut && p.tractable() {
            let f = model!(p, m => m.front());
            if pairs(l) != f {
                return Err(format!("{:?} instead of the frontier {f:?}", pairs(l)));
            }
        }
        Ok(())
    }
    fn complete(&self) -> Result<(), String> {
        self.complete_as(&self.s.problem, &self.out, &self.s.formats[2], &self.s.call, &self.alone)
    }
    fn complete_as(&self, p: &Problem, out: &Option<Vec<u8>>, fmt: &str, call: &Call, alone: &Option<Vec<Sched>>) -> Result<(), String> {
        let Some(b) = out else { return Err("there is no output file".into()) };
        match decode_all::<Vec<Sched>>(b, fmt) {
            None => Err(format!("the output ({} bytes) is not exactly a list of schedules in {fmt}", b.len())),
            Some(l) => self.result(p, call, alone, &l),
        }
    }
    /// The further runs of the process.
    fn judge_peers(&self, hard: u64) -> Option<(String, String)> {
        let v = |c: &str, t: String| Some((c.to_string(), t));
        for (k, ((told, out, alone), (fmt, call))) in self.peers.iter().zip(&self.s.peers).enumerate() {
            let whole = || self.complete_as(&self.s.problem, out, fmt, call, alone);
            let bad = self.f.bad.iter().any(|b| *b) || self.s.formats[..2].iter().any(|f| !known(f));
            match (self.case.prop.as_str(), told) {
                ("C13", Reported::Success) => {
                    if let Err(e) = whole() {
                        return v("wrong-result", format!("run {k} beside the first one: success is reported but: {e}"));
                    }
                },
                ("C13", Reported::Error(e) | Reported::Panic(e)) if hard == 0 && !bad => {
                    return v("fails", format!("run {k} beside the first one: it fails although nothing is wrong: {e}"));
                },
                ("C14", Reported::Success) => {
                    if let Err(e) = whole() {
                        return v("unreported", format!("run {k} beside the first one: success is reported but: {e}"));
                    }
                },
                ("C14", Reported::Panic(e)) => {
                    return v("panic", format!("run {k} beside the first one: the failure is not reported but panics: {e}"));
                },
                ("C15", t) if *t != Reported::Success => {
                    if let Some(l) = out.as_ref().and_then(|b| decode::<Vec<Sched>>(b, fmt)) {
                        if let Err(e) = self.result(&self.s.problem, call, alone, &l) {
                            return v("mistaken", format!("run {k} beside the first one was interrupted ({told:?}) and its output decodes to {e}"));
                        }
                    }
                },
                _ => {},
            }
        }
        None
    }

    /// The run made afterwards in the same process, after the inputs were replaced.
    fn judge_then(&self, hard: u64) -> Option<(String, String)> {
        let v = |c: &str, t: String| Some((c.to_string(), t));
        let ((told, out, alone), (p, call)) = (self.then.as_ref()?, self.s.then.as_ref()?);
        let calm = self.s.then_calm;
        let doomed = self.unknown_format() || !calm && matches!(self.s.out_obstacle, 1 | 2);
        match told {
            Reported::Success if doomed => v("unreported", format!("a second run reports success although {:?}", self.must_fail())),
            Reported::Success => self
                .complete_as(p, out, &self.s.formats[2], call, alone)
                .err()
                .and_then(|e| v("wrong-result", format!("a second run, after the inputs were replaced, reports success but: {e}"))),
            Reported::Error(e) | Reported::Panic(e) if (hard == 0 || calm) && !doomed => {
                v("fails", format!("a second run, after the inputs were replaced, fails although nothing is wrong: {e}"))
            },
            Reported::Panic(e) if self.case.prop == "C14" => v("panic", format!("the failure of a second run is not reported but panics: {e}")),
            _ => None,
        }
    }

    pub fn judge(&self) -> Option<(String, String)> {
        let v = |c: &str, t: String| Some((c.to_string(), t));
        let hard: u64 = [F_OPEN_ERR, F_READ_ERR, F_WRITE_ERR, F_DISK_FULL, F_MKDIR_ERR, F_MISC_ERR].iter().map(|k| self.rep.faults[*k]).sum();
        let prop = self.case.prop.as_str();
        if let (Reported::Hang(t), false) = (&self.told, prop == "C15" || prop == "C16") {
            return v("no-end", t.clone());
        }
        if let x @ Some(_) = self.judge_peers(hard) {
            return x;
        }
        if let x @ Some(_) = self.judge_then(hard) {
            return x;
        }
        match prop {
            "C13" => match &self.told {
                Reported::Success => self.complete().err().and_then(|e| v("wrong-result", format!("success is reported but: {e}"))),
                Reported::Error(e) | Reported::Panic(e) if hard == 0 && self.must_fail().is_none() => {
                    v("fails", format!("the run fails although nothing is wrong: {e}"))
                },
                _ => None,
            },
            "C14" => match &self.told {
                Reported::Success => match self.must_fail() {
                    Some(w) => v("unreported", format!("success is reported although {w}")),
                    None => self.complete().err().and_then(|e| v("unreported", format!("success is reported but: {e}"))),
                },
                Reported::Panic(e) => v("panic", format!("the failure is not reported but panics: {e}")),
                _ => None,
            },
            "C15" => {
                let Some(b) = &self.out else { return None };
                if self.f.old.as_ref() == Some(b) {
                    return None;
                }
                let l = decode::<Vec<Sched>>(b, &self.s.formats[2])?;
                if self.told == Reported::Success {
                    return None;
                }
                self.result(&self.s.problem, &self.s.call, &self.alone, &l).err().and_then(|e| v("mistaken", format!("the run was interrupted ({:?}) and the output decodes to {e}", self.told)))
            },
            "C16" => {
                if !self.inputs_same {
                    return v("input-modified", "an input file was modified".into());
                }
                if !self.others_same {
                    return v("other-modified", "a file that is neither input nor output was modified".into());
                }
                let early = match &self.told {
                    Reported::Success => false,
                    Reported::Error(_) | Reported::Panic(_) => {
                        self.f.bad.iter().any(|b| *b)
                            || self.unknown_format()
                            || self.callback_panics > 0
                            || (self.rep.faults[F_SPAWN] > 0 && hard == 0)
                            || (self.rep.faults[F_READ_ERR] > 0 && hard == self.rep.faults[F_READ_ERR])
                    },
                    Reported::Killed => self.unfinishable(),
                    Reported::Hang(_) => false,
                };
                if early && self.f.old.is_some() && self.out != self.f.old {
                    return v("output-touched", format!(
                        "the run failed before it had a result ({:?}) but the output changed from {} to {} bytes",
                        self.told,
                        self.f.old.as_ref().unwrap().len(),
                        self.out.as_ref().map_or("no file, 0".into(), |o| o.len().to_string())
                    ));
                }
                None
            },
            _ => self.program(),
        }
    }

    /// C21
    fn program(&self) -> Option<(String, String)> {
        let v = |c: &str, t: String| Some((c.to_string(), t));
        let c = &self.s.call;
        if self.told != Reported::Success {
            return v("exit-status", format!("valid inputs and options, but the program ends with {:?}", self.told));
        }
        if let Err(e) = self.complete() {
            return v("wrong-result", e);
        }
        if let (true, Some(t)) = (self.unfinishable(), c.timeout_ns()) {
            let a = crate::judge::allowance(self.s.problem.n(), c.nthreads, 0, self.case.sim.fair_ticks) + 3_000_000;
            let late = t.saturating_add(a * self.case.sim.ns_per_tick as u64);
            if self.rep.clock_ns > late {
                return v("not-cut-off", format!("timeout {t} ns, but the program ran for {} ns", self.rep.clock_ns));
            }
            if self.rep.clock_ns < t && c.prob.is_none() {
                return v("cut-off-early", format!("timeout {t} ns, but the program ended after {} ns", self.rep.clock_ns));
            }
        }
        if c.search {
            let extra = c.timeout.is_some() as u64;
            if c.nthreads < 2 && self.unfinishable() && self.rep.workers > 0 {
                return v("threads", format!("{} threads beside the first one searched for -n {}", self.rep.workers, c.nthreads));
            }
            let room = c.task_bound.map_or(true, |b| b >= 8) && self.unfinishable();
            if c.nthreads >= 2 && room && c.timeout_ns().map_or(true, |t| t > 0) && self.rep.nthreads < 1 + extra {
                return v("threads", format!("no search threads were started for -n {}", c.nthreads));
            }
        }
        None
    }

    pub fn nontrivial(&self) -> bool {
        let fired: u64 = self.rep.faults[F_OPEN_ERR..=F_STDOUT_ERR].iter().sum();
        match self.case.prop.as_str() {
            "C13" => self.told == Reported::Success,
            "C14" => self.must_fail().is_some() || fired > 0,
            "C15" => self.told != Reported::Success && self.rep.wr_ops > 0,
            "C16" => self.told != Reported::Success,
            _ => self.told == Reported::Success,
        }
    }
    pub fn probes(&self) -> Vec<String> {
        let mut p = Vec::new();
        let mut add = |b: bool, t: &str| {
            if b {
                p.push(t.to_string())
            }
        };
        add(self.s.cli, "command-line program");
        add(!self.peers.is_empty(), "several runs at the same time");
        add(self.peers.iter().any(|p| p.0 == Reported::Success) && self.told == Reported::Success, "several runs at the same time succeeded");
        add(self.then.as_ref().is_some_and(|t| t.0 == Reported::Success), "repeated in the same process after the inputs were replaced");
        add(self.then.as_ref().is_some_and(|t| t.0 == Reported::Success) && self.told != Reported::Success, "succeeded after a failed run");
        add(self.s.crashed.is_some(), "run after one that was killed or failed");
        add(self.s.names & 16 != 0 && self.f.old.is_some(), "output is a symbolic link");
        add(self.s.names & 7 != 0, "unusual file names");
        add(self.told == Reported::Success, "success reported");
        add(matches!(self.told, Reported::Error(_)), "error reported");
        add(matches!(self.told, Reported::Panic(_)), "panicked");
        add(self.told == Reported::Killed, "killed");
        add(self.f.bad.iter().any(|b| *b), "damaged input");
        add(self.unknown_format(), "unknown format");
        add(matches!(self.s.out_obstacle, 1 | 2), "output obstructed");
        add(self.f.old.is_some(), "older output present");
        add(self.told == Reported::Killed && self.rep.wr_ops > 1, "killed while writing the output");
        add(self.out.is_some() && self.out != self.f.old && self.told != Reported::Success, "partial output left");
        add(self.told == Reported::Success && self.f.old.as_ref().is_some_and(|o| self.out.as_ref().is_some_and(|n| n.len() < o.len())), "longer old output replaced");
        add(self.s.call.nthreads > 1 && self.s.call.search, "multi-threaded search");
        add(self.rep.faults[F_SPAWN] > 0, "a thread start was refused");
        add(self.told == Reported::Success && !self.uncut(), "cut off by the timeout");
        p
    }
}
