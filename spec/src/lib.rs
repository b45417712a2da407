//! Reference functions: what the kernels of hybridcvrp are required to compute.
//! They are never executed; the analysis compares their summaries with those of /repo.
#![allow(dead_code, unused_variables, clippy::all)]
pub mod compare;
pub mod types;
pub mod matrix;
pub mod problem;
pub mod solution;
pub mod context;
pub mod population;
pub mod genetic;
pub mod split;
pub mod history;
pub mod individual;
pub mod random;
pub mod schedule;
pub mod ruin_recreate;
pub mod decomposition;
pub mod local_search;
pub mod parser;
pub mod output;
pub mod config;
