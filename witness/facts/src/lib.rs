//! the crates whose facts are collected are dependencies of this one
pub use cbored;
