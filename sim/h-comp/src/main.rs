#[path = "../../h-alg/src/circuit.rs"]
mod circuit;
mod comp;
#[path = "../../h-alg/src/fields.rs"]
mod fields;
mod rounds;
#[path = "../../h-alg/src/wasm.rs"]
mod wasm;
use simharness::disk::disk_config;
use simharness::Prop;

fn main() {
    // WebAssembly memories reserve their whole address space
    simharness::ADDRESS_SPACE.store(1 << 40, std::sync::atomic::Ordering::Relaxed);
    simharness::main(&[Prop { id: "P16", config: disk_config, prewarm: comp::prewarm, run: comp::run, cpu_limit: 240 }]);
}
