mod air;
mod arith;
mod byz;
mod circom;
mod fft;
mod files;
mod hashes;
mod merkle;
mod refhash;
mod stark;
mod transcript;
mod util;
mod vcirc;
mod vector;
use simharness::Prop;

fn main() {
    simharness::main(&[
        Prop {
            id: "P01",
            config: merkle::build_config,
            prewarm: merkle::prewarm,
            run: merkle::build_run,
            cpu_limit: 120,
        },
        Prop {
            id: "P02",
            config: merkle::opening_config,
            prewarm: merkle::prewarm,
            run: merkle::opening,
            cpu_limit: 120,
        },
        Prop { id: "P03", config: fft::config, prewarm: fft::prewarm, run: fft::run, cpu_limit: 120 },
        Prop {
            id: "P04",
            config: transcript::config,
            prewarm: merkle::prewarm,
            run: transcript::run,
            cpu_limit: 120,
        },
        Prop { id: "P05", config: stark::config, prewarm: stark::prewarm, run: stark::complete, cpu_limit: 240 },
        Prop { id: "P06", config: stark::config, prewarm: stark::prewarm, run: stark::sound, cpu_limit: 240 },
        Prop { id: "P07", config: stark::config, prewarm: stark::prewarm, run: stark::deterministic, cpu_limit: 240 },
        Prop { id: "P08", config: simharness::disk::disk_config, prewarm: files::prewarm, run: files::traces, cpu_limit: 120 },
        Prop { id: "P09", config: simharness::disk::disk_config, prewarm: files::prewarm, run: files::prove_command, cpu_limit: 120 },
        Prop { id: "P10", config: simharness::disk::disk_config, prewarm: files::prewarm, run: files::join, cpu_limit: 60 },
        Prop { id: "P17", config: arith::config, prewarm: arith::prewarm, run: arith::run, cpu_limit: 60 },
        Prop { id: "P18", config: hashes::config, prewarm: merkle::prewarm, run: hashes::run, cpu_limit: 60 },
        Prop { id: "P19", config: stark::config, prewarm: vcirc::prewarm, run: vcirc::run, cpu_limit: 240 },
        Prop { id: "P15", config: vector::config, prewarm: stark::prewarm, run: vector::run, cpu_limit: 240 },
    ]);
}
