//! `std` as the code under test sees it: everything is the real std except the primitives through
//! which threads meet (locks, condition variables, channels, once cells, atomics, threads, sleep),
//! which are scheduling points of the simulator. Outside a simulation they behave as std's.
pub use std::*;

pub mod sync;
pub mod thread;
