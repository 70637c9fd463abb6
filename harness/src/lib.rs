//! Property-based verification harness for grenad (see /verif/DESIGN.md).
#![allow(clippy::type_complexity, clippy::too_many_arguments)]

#[macro_use]
pub mod engine;
pub mod decode;
pub mod encode;
pub mod gen;
pub mod memprobe;
pub mod props;
pub mod runner;
pub mod scen;
pub mod sim;
pub mod sorterkit;
pub mod util;
