//! The readers over bellman.
#[path = "../r1cs.rs"]
pub mod r1cs;
#[path = "../witness.rs"]
pub mod witness;
mod lib;
