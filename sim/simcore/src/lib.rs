//! Deterministic simulator core: one seeded PRNG decides which simulated thread runs next, every
//! fault of the simulated file system, the number of CPUs and the bytes the OS hands out as
//! randomness. Simulated threads are OS threads passing one baton: exactly one runs at a time, and
//! only `Sim::choose` decides who.
pub mod interpose;
pub mod rng;
pub mod sched;
pub mod simfs;

pub use rng::Rng;
pub use sched::*;
