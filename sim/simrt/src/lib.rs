//! Deterministic simulation runtime: coroutines, seeded scheduler, virtual clocks, simulated
//! network and processes, and the libc seams that put unmodified code behind them.
#![allow(clippy::all, suspicious_runtime_symbol_definitions, unused_unsafe)]
pub mod alloc;
pub mod child;
mod core;
pub mod interpose;
pub mod net;
pub mod rng;
pub mod sys;
pub mod thread;
pub use crate::core::*;
