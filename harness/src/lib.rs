//! Runtime-monitoring harness for redscript: workload generators, independent reference models
//! ("oracles") and the reporting/verdict machinery shared by every check.
pub mod report;
pub mod rng;
pub mod spec;
pub mod obs;
pub mod gen;
pub mod alloc;
pub mod faulty;
pub mod xast;
pub mod prog;
