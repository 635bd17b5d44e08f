//! Cases: what is run, as data. A case plus the code under test determines an execution.
use crate::sim::SimSpec;
use serde::{Deserialize, Serialize};

pub type Order = Vec<Vec<(usize, Vec<usize>)>>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Problem {
    pub nb: Vec<Vec<usize>>,
    pub order: Order,
}

/// The list entries a search returns.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Sched {
    pub time: usize,
    pub space: usize,
    pub steps: Vec<Vec<usize>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Acc {
    /// the same probability for every branch
    Const(f64),
    /// the library's built-in function, passed as such
    Builtin,
    /// the built-in function called through a recording callback
    BuiltinRec,
    /// library's parametrised function: cutoff and exponents
    Param(f64, [i32; 5]),
    /// 0, `p` or `hi` depending on a hash of (last_max, last_cur, cur, remaining, total) & mask;
    /// `zero`, `mid` are percentages
    Hash { seed: u64, zero: u8, mid: u8, p: f64, hi: f64, mask: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Call {
    pub problem: usize,
    pub search: bool,
    pub timeout: Option<(u64, u32)>,
    pub nthreads: u16,
    pub task_bound: Option<u32>,
    pub prob: Option<(Acc, Option<u64>)>,
    /// invocations of the callback (counted over the call, from 1) that panic
    pub panic_at: Vec<u64>,
    /// from this invocation on every one panics (0 = never)
    pub panic_from: u64,
    /// payload of the panics: 0 a literal, 1 a formatted text, 2 some other type, 3 as 2 but without
    /// running the panic hook
    #[serde(skip_serializing_if = "is_zero")]
    pub panic_kind: u8,
    /// simulated ns the caller sleeps before the call
    pub delay: u64,
    /// the call gets its own copy of the input, which is freed afterwards
    #[serde(skip_serializing_if = "is_false")]
    pub copy: bool,
    /// at this invocation of the callback it makes that call of `SearchScen::nested`
    #[serde(skip_serializing_if = "Option::is_none")]
    pub nest: Option<(u64, usize)>,
}
fn is_false(x: &bool) -> bool {
    !*x
}
fn is_zero(x: &u8) -> bool {
    *x == 0
}
impl Default for Call {
    fn default() -> Self {
        Call {
            problem: 0,
            search: true,
            timeout: None,
            nthreads: 1,
            task_bound: None,
            prob: None,
            panic_at: vec![],
            panic_from: 0,
            panic_kind: 0,
            delay: 0,
            copy: false,
            nest: None,
        }
    }
}
impl Call {
    pub fn timeout_ns(&self) -> Option<u64> {
        self.timeout.map(|(s, n)| s.saturating_mul(1_000_000_000).saturating_add(n as u64))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct SearchScen {
    pub problems: Vec<Problem>,
    /// one entry per caller thread: its calls in order
    pub callers: Vec<Vec<Call>>,
    /// calls made from within the accept functions of other calls
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub nested: Vec<Call>,
    pub log: bool,
    pub interval: usize,
    /// threads of the process that do unrelated work meanwhile
    pub noise: u8,
}

/// `CallRec::caller` of a nested call
pub const NESTED: usize = usize::MAX;
impl SearchScen {
    pub fn call(&self, caller: usize, idx: usize) -> &Call {
        if caller == NESTED { &self.nested[idx] } else { &self.callers[caller][idx] }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TimerOp {
    Sleep(u64),
    Yield,
    Poll,
    /// as many in a row
    Polls(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct TimerScen {
    /// (duration of the timer or None = not started, programs of the pollers, sleep of the owner
    /// before dropping)
    pub timers: Vec<TimerCase>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct TimerCase {
    pub dur: Option<(u64, u32)>,
    pub pollers: Vec<Vec<TimerOp>>,
    pub owner: Vec<TimerOp>,
    /// the owner panics (unwinds) instead of dropping normally
    pub unwind: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct SplitScen {
    pub problem: Problem,
    pub workers: u8,
    /// decides which pieces are split again, who takes them, and which nodes are skipped
    pub seed: u64,
    pub resplit: u8,
    pub skip: u8,
    /// steps made by hand before
    pub prefix: u8,
    /// children taken before each of them
    pub advance: u8,
    /// of a tree too large to be swept: how many children are taken (0 = sweep all of it)
    #[serde(skip_serializing_if = "is_zero32")]
    pub few: u32,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub labels: Option<Labels>,
}

/// How the buffers of a scheduler are built.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Labels {
    pub seed: u64,
    /// from a list of edges instead of lists of neighbours
    pub edges: bool,
    /// loops and repeated edges in the list, to be skipped (their number)
    pub noise: u8,
    /// names of the qubits: 0 their numbers, 1 a permutation of them, 2 large numbers, 3 some of them
    /// others, 4 their numbers, but a relabelling is passed
    pub map: u8,
    /// the dependency buffer is longer than needed
    pub room: u8,
    /// and was used before
    pub used: bool,
}
fn is_zero32(x: &u32) -> bool {
    *x == 0
}
impl Default for Problem {
    fn default() -> Self {
        Problem { nb: vec![vec![]], order: vec![vec![(0, vec![])]] }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ManOp {
    /// focus_inplace
    Inplace(Pick),
    /// focus, result replaces the scheduler when `keep`
    Focus(Pick, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pick {
    /// bits of the mask select from the measurable set at that time
    Legal(u64),
    /// legal, plus one repeated element
    Dup(u64),
    /// legal plus a qubit that was measured already
    Measured(u64),
    /// legal plus a qubit that is still blocked
    Blocked(u64),
    /// explicit list
    Raw(Vec<usize>),
    Empty,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct ManualScen {
    pub problem: Problem,
    pub clients: Vec<Vec<ManOp>>,
    /// use the partition-based scheduler instead of the plain one
    pub partitioner: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub labels: Option<Labels>,
    /// a path generator and a graph are driven alone, next to the scheduler
    #[serde(default, skip_serializing_if = "is_false")]
    pub parts: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Damage {
    None,
    Missing,
    Empty,
    /// keep this share (per mille)
    Truncate(u32),
    Garbage(u64),
    /// a valid encoding of something else
    WrongType,
    /// encoded in the other format
    OtherFormat,
    Trailing(u64),
    IsDir,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct FileScen {
    pub problem: Problem,
    pub call: Call,
    pub formats: [String; 3],
    pub damage: [Damage; 2],
    /// old content of the output: None = no file, else (kind, size)
    pub old: Option<(u8, u32)>,
    /// directories to create for the output
    pub depth: u8,
    /// 1: a file stands where an output directory should be, 2: the output is a directory,
    /// 3 (no obstacle): the output is given as a bare file name
    pub out_obstacle: u8,
    /// run as the command-line program
    pub cli: bool,
    pub log_env: Option<String>,
    /// spelling of arguments and inputs
    pub verb: u8,
    /// further runs of the process at the same time (output format and options), with the same
    /// inputs and outputs beside the first one's
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub peers: Vec<(String, Call)>,
    /// afterwards, in the same process: the inputs are replaced by this problem and the run is repeated
    #[serde(skip_serializing_if = "Option::is_none")]
    pub then: Option<(Problem, Call)>,
    /// what stood in the way of the first run is removed before, and its faults end
    #[serde(skip_serializing_if = "is_false")]
    pub then_calm: bool,
    /// before, the program is run on the same files and dies: (how, when)
    #[serde(skip_serializing_if = "Option::is_none")]
    pub crashed: Option<(u8, u64)>,
    /// names of files and directories: 0 plain, else unusual ones; bit 4: the output is a symbolic link
    #[serde(skip_serializing_if = "is_zero")]
    pub names: u8,
}
impl Default for FileScen {
    fn default() -> Self {
        FileScen {
            problem: Problem::default(),
            call: Call::default(),
            formats: ["serde_json".into(), "serde_json".into(), "serde_json".into()],
            damage: [Damage::None, Damage::None],
            old: None,
            depth: 0,
            out_obstacle: 0,
            cli: false,
            log_env: None,
            verb: 0,
            peers: vec![],
            then: None,
            then_calm: false,
            crashed: None,
            names: 0,
        }
    }
}

/// Many small searches whose random decisions can be told from the calls of the accept function.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct LuckScen {
    /// qubits of the first layer (1 or 2); the others form a chain after it
    pub first: usize,
    /// probability of a step, by the number of qubits that are left after it
    pub levels: Vec<f64>,
    /// 0: none, 1: consecutive, 2: they differ in the high bits only, 3: random
    pub seeds: u8,
    pub base: u64,
    pub count: u32,
    pub nthreads: u16,
    /// threads that share the searches
    pub callers: u8,
    /// instead: that many free qubits and no others, a chance only for the first step; all decisions
    /// of a search come from one stream
    #[serde(skip_serializing_if = "is_zero")]
    pub fan: u8,
    pub interval: usize,
    /// instead: searches with that function of the library (None: the default one) against searches
    /// with its documented formula
    #[serde(skip_serializing_if = "Option::is_none")]
    pub formula: Option<(Problem, Option<Acc>)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Scen {
    Luck(LuckScen),
    Search(SearchScen),
    Timer(TimerScen),
    Split(SplitScen),
    Manual(ManualScen),
    File(FileScen),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prop: String,
    /// "debug" or "release"
    pub variant: String,
    pub scen: Scen,
    pub sim: SimSpec,
}

/// What one execution produced.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
pub struct Outcome {
    /// violated: (class, text)
    pub viol: Option<(String, String)>,
    /// the harness itself failed
    pub error: Option<String>,
    pub report: crate::sim::Report,
    /// digest of everything observed, for determinism tests
    pub digest: u64,
    /// executions inside this case (for example twin runs)
    pub evals: u64,
    /// whether the case exercised what the property is about
    pub nontrivial: bool,
    /// rare conditions seen
    pub probes: Vec<String>,
    /// non-default decisions, when asked for
    pub log: Vec<(u32, u32, u64, u64)>,
    pub trace: Vec<String>,
}
