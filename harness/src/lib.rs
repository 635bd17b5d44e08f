//! Parts of the harness that are not instrumented: the simulator's interface, input generation,
//! reference models and the orchestration of runs.
#[macro_use]
pub mod model;
pub mod cases;
pub mod check;
pub mod exec;
pub mod files;
pub mod gen;
pub mod judge;
pub mod rec;
pub mod rng;
pub mod shrink;
pub mod sim;
pub mod types;
