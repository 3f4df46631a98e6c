//! Symbolic execution of field-generic Rust code by instantiation: the code under test runs
//! unchanged with `Sym<F>` as its field.
pub mod arena;
pub mod config;
pub mod ctx;
pub mod field;
mod roots;
pub mod solver;
pub use config::*;
pub use ctx::{assume, decide_zero, explore, note, Model, Opts, Stats, Violation};
pub use field::{Sym, SymV, LANES};
