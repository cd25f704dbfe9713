//! Entry programs of the analysis. They are type checked and lowered to MIR together with cbored,
//! and never executed: each function states a situation over the public API, with its parameters
//! standing for every possible value. `nondet` is an unknown boolean, `op_*` are unknown decoders
//! and encoders: the analysis knows nothing of them but their contract.
#![allow(unused_must_use, dead_code, clippy::all)]
pub mod ops;
pub mod spec;
pub mod reading;
pub mod writing;
pub mod numbers;
pub mod flat;
pub mod model;
pub mod strings;
pub mod machine;
pub mod panics;
pub mod structs;
pub mod decoders;
pub mod equal;
pub mod errors;
pub mod items;
pub mod floats;
