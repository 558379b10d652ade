//! num_cpus as the simulated host reports it.
pub fn get() -> usize {
    simcore::cpus().unwrap_or(4)
}
pub fn get_physical() -> usize {
    simcore::cpus().unwrap_or(4)
}
