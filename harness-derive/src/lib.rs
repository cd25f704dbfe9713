//! Entry programs over definitions with the derive macro (see harness): for every form of definition, what
//! the generated code has to do with any fields and any input. Never executed.
#![allow(unused_must_use, dead_code, clippy::all)]
pub mod ops;
pub mod spec;
pub mod writing;
pub mod numbers;
pub mod flat;
pub mod model;
pub mod strings;
pub mod generated;
pub mod derived;
