//! The part of the harness that runs inside a simulated process: plans and their execution against the real polodb_core.
pub mod sys;
pub mod rng;
pub mod plan;
pub mod res;
pub mod exec;
