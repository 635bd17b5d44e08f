//! The harness binary. This crate is instrumented: the scenarios in it run under the simulator.
mod scen {
    pub mod build;
    pub mod file;
    pub mod luck;
    pub mod manual;
    pub mod search;
    pub mod split;
    pub mod timer;
}
use dstlib::{check, exec::Opts, types::*};

fn run_case(case: &Case, opts: &Opts) -> Outcome {
    match &case.scen {
        Scen::Search(s) => scen::search::run(case, s, opts),
        Scen::Luck(s) => scen::luck::run(case, s, opts),
        Scen::Timer(s) => scen::timer::run(case, s, opts),
        Scen::Split(s) => scen::split::run(case, s, opts),
        Scen::Manual(s) => scen::manual::run(case, s, opts),
        Scen::File(s) => scen::file::run(case, s, opts),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    check::main(run_case);
}
