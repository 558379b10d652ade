mod bell;
mod bn;
mod circuit;
mod contract;
mod fields;
mod g16;
mod gnark;
mod gpu;
mod sol;
mod wasm;
use simharness::disk::disk_config;
use simharness::{one_in, Prop, Run};

/// The circuit readers are there twice, over bellperson and over bellman.
fn r1cs() -> Run {
    if one_in(3) {
        bell::r1cs::run()
    } else {
        gpu::r1cs::run()
    }
}
fn witness() -> Run {
    if one_in(3) {
        bell::witness::run()
    } else {
        gpu::witness::run()
    }
}

fn main() {
    // WebAssembly memories reserve their whole address space
    simharness::ADDRESS_SPACE.store(1 << 40, std::sync::atomic::Ordering::Relaxed);
    simharness::main(&[
        Prop { id: "P11", config: disk_config, prewarm: gpu::r1cs::prewarm, run: r1cs, cpu_limit: 60 },
        Prop { id: "P12", config: disk_config, prewarm: gpu::witness::prewarm, run: witness, cpu_limit: 60 },
        Prop { id: "P13", config: disk_config, prewarm: g16::prewarm, run: g16::run, cpu_limit: 60 },
        Prop { id: "P14", config: disk_config, prewarm: gnark::prewarm, run: gnark::run, cpu_limit: 60 },
        Prop { id: "P20", config: disk_config, prewarm: contract::prewarm, run: contract::run, cpu_limit: 60 },
    ]);
}
