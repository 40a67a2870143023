//! Deterministic simulation runtime: one seed (or one list of choices) is one exactly repeatable execution.
//! Tasks are real threads, but only the one holding the baton runs; who holds it next, when it is preempted
//! (at any control-flow edge of the code under test), what the clock, the network, the file system and the
//! entropy source do, and who crashes when, are all decided by the choice sequence.
#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions)]
pub mod choice;
pub mod entropy;
pub mod fs;
pub mod raw;
pub mod remote;
pub mod shm;
pub mod sys;
pub mod world;

pub use choice::Rng;
pub use remote::Remote;
pub use world::*;
