//! Monitoring harness for neure.  See /verif/DESIGN.md.
#![allow(clippy::all)]
pub mod ast;
pub mod build;
pub mod case;
pub mod ctxs;
pub mod drv;
pub mod generate;
pub mod model;
pub mod probe;
pub mod rng;
pub mod sink;
