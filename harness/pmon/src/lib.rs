//! Runtime monitors for parsel: oracles over executions of the real crates.
#![allow(clippy::all)]
extern crate self as pmon;
pub mod rng;
pub mod tok;
pub mod lits;
pub mod model;
pub mod gram;
pub mod probe;
pub mod ops;
pub mod gen;
pub mod report;
pub mod zoo;
pub mod kwops;
pub mod eng;
pub mod props;
pub mod cli;
pub mod inside;
