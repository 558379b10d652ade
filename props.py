"""What each check runs: harness, number of runs, and what its evidence says about it."""

GROUPS = ["starky", "alg", "comp"]
# the same harness, compiled for a CPU with vector instructions
VARIANTS = {
    "starky-avx2": {"of": "starky", "cpu": ["avx2"], "rustflags": "-C target-feature=+avx2"},
    "starky-avx512": {
        "of": "starky",
        "cpu": ["avx512bw", "avx512cd", "avx512dq", "avx512f", "avx512vl"],
        "rustflags": "-C target-feature=+avx512bw,+avx512cd,+avx512dq,+avx512f,+avx512vl",
        "args": ["--features", "starky/avx512"],
        "env": {"RUSTC_BOOTSTRAP": "1"},  # the crates ask for a nightly feature gate here
    },
}

SIM = [
    "std::sync and std::thread of the repository's crates (simstd: every lock, atomic, channel, once and spawn is a scheduling point)",
    "rayon-core's thread pool (fibers under the seeded scheduler; rayon's iterators are the real ones)",
    "num_cpus (worker count from the run's seed)",
    "libc open/read/write/fsync/close under /simfs, getrandom and clocks (simulated disk, seeded entropy, simulated time)",
]
BASE = [
    "the scheduler switches threads at synchronisation operations and pool task boundaries only: data races between plain memory accesses (unsafe code) are not explored",
    "sampling, not enumeration: a clean batch is evidence, not proof",
]

PROPS = {
    "P01": {
        "group": "starky",
        "quick": {"runs": 1200, "secs": 30},
        "thorough": {"runs": 10**9, "secs": 600},
        "rule": "One run builds 1-3 Merkle trees (Goldilocks, BN128 or BLS12-381 hashing; narrow, wide-row and tall shapes, "
        "chosen so that each parallel loop is split over several workers) in concurrent caller threads under a seeded "
        "schedule with 1-64 CPUs and 1-8 pool threads, then opens rows from 1-3 concurrent readers.",
        "real": ["starky::merklehash{,_bn128,_bls12381}", "starky::linearhash*", "starky::poseidon*_opt", "rayon iterators"],
        "stub": SIM,
        "assumptions": BASE + ["the reference's Poseidon is written from its definition and checked against published vectors; it shares the round constants with the code, in their unoptimised form"],
    },
    "P02": {
        "group": "starky",
        "quick": {"runs": 20000, "secs": 20},
        "thorough": {"runs": 10**9, "secs": 600},
        "rule": "One run commits to a matrix, answers 1-6 queries and delivers up to 12 answers over a link that misdelivers, "
        "mixes, damages or repeats them (sometimes the prover restarts from its stored tree first, and answers travel as JSON); each delivery is verified by a fresh verifier and compared with the reference tree.",
        "real": ["starky::merklehash{,_bn128,_bls12381}", "starky::linearhash*", "starky::poseidon*_opt"],
        "stub": SIM + ["the link between prover and verifier"],
        "assumptions": BASE + ["damage keeps the shape of an opening (number of values, path length)", "trees of at least two rows"],
    },
    "P03": {
        "group": "starky",
        "quick": {"runs": 1600, "secs": 30},
        "thorough": {"runs": 10**9, "secs": 600},
        "rule": "One run makes 1-5 transforms (parallel forward, inverse, extension; the sequential transform object, used "
        "repeatedly, and the sequential extension; evaluations and batch inversions; cubic and quintic coordinates) of random shapes in concurrent callers under a seeded schedule with 1-64 CPUs and 1-8 pool threads, and "
        "compares each with a reference transform.",
        "real": ["starky::fft", "starky::fft_p", "starky::fft_worker", "starky::polutils", "F3G, F5G and Goldilocks arithmetic", "rayon iterators"],
        "stub": SIM,
        "assumptions": BASE + ["mostly shapes up to 2^13 values, 2^15 to 2^19 rarely, where a boundary needs them"],
    },
    "P04": {
        "group": "starky",
        "quick": {"runs": 12000, "secs": 25},
        "thorough": {"runs": 10**9, "secs": 600},
        "rule": "One run is a conversation of up to 30 absorb and draw operations between a prover's and a verifier's transcript "
        "over a link that loses, repeats, swaps or damages messages; each drawn value is compared with a reference sponge over the "
        "messages that side absorbed.",
        "real": ["starky::transcript{,_bn128,_bls12381}", "starky::poseidon*_opt"],
        "stub": SIM + ["the link between prover and verifier"],
        "assumptions": BASE + ["the reference's Poseidon shares the round constants with the code, in their unoptimised form"],
    },
    "P05": {
        "group": "starky",
        "quick": {"runs": 1600, "secs": 75},
        "thorough": {"runs": 10**9, "secs": 760},
        "cpu_limit": 240,
        "rule": "One run generates 1-3 random constraint systems (recurrences, polynomial identities, lookups, permutations and copy "
        "constraints, with or without selectors, next-row references and public values) with a satisfying trace, proves them in "
        "concurrent jobs under a seeded schedule and verifies each with a second setup made under other hash seeds and CPU counts, "
        "before and after writing and reading the proof, and sometimes after writing and reading either setup.",
        "real": ["starky: setup, code generation, prover, FRI, verifier, serializer, Merkle trees, transcripts, transforms", "rayon iterators"],
        "stub": SIM + ["pilcom (the compiled constraint system is generated directly)"],
        "assumptions": BASE + ["traces of 4 to 128 rows (some of 2048)", "identities the way pilcom emits them: a Global.L1 column, named expressions in topological order"],
    },
    "P06": {
        "group": "starky",
        "quick": {"runs": 2400, "secs": 60},
        "thorough": {"runs": 10**9, "secs": 760},
        "cpu_limit": 240,
        "rule": "One run does one of three things. (1) It proves a random system from a trace with one wrong cell. (2) It takes a genuine "
        "proof and damages up to 16 of its values one at a time, loses or repeats entries of its lists, mixes it with another genuine proof "
        "of the same circuit, or delivers it to a verifier holding another key. (3) A Byzantine prover, written for this check, follows the "
        "protocol except for one seeded lie (identity, degree, one FRI layer, the last layer, an opened row or group, the width of the "
        "groups) and repairs everything downstream so that, where possible, exactly one check can notice; an independent reference verifier "
        "names the checks that refute the message, and the lie is in the history only when it refutes it. Every one of these must be "
        "rejected, and genuine proofs must satisfy both verifiers.",
        "real": ["starky: setup, prover, FRI, verifier, Merkle trees, transcripts"],
        "stub": SIM + ["pilcom", "the link between prover and verifier", "the lying prover (its commitments, transforms and transcripts are real code)"],
        "assumptions": BASE + ["parameters with queries x extension bits >= 56, so that acceptance by luck is negligible", "the lying prover's commitments are built with the code's own trees, whose own properties are P01, P02 and P04"],
    },
    "P07": {
        "group": "starky",
        "quick": {"runs": 900, "secs": 60},
        "thorough": {"runs": 10**9, "secs": 760},
        "cpu_limit": 240,
        "rule": "One run makes setup, proof and verifier circuit of a random system once, sequentially, and then 1-3 times more in "
        "concurrent jobs with other CPU counts, hash-map seeds and a seeded schedule, with unrelated jobs in between; all artefacts "
        "must be identical byte for byte.",
        "real": ["starky: setup, code generation, prover, verifier-circuit generation", "rayon iterators"],
        "stub": SIM + ["pilcom"],
        "assumptions": BASE + ["the pool size is fixed within a run"],
    },
    "P08": {
        "group": "starky",
        "quick": {"runs": 10000, "secs": 35},
        "thorough": {"runs": 10**9, "secs": 600},
        "rule": "One run fills, saves and loads 1-3 polynomial arrays or exec files of random shapes over a simulated disk with short "
        "transfers, EINTR, I/O errors, full disks and crashes (rarely an array beyond the 128 MB buffers), and compares file and array "
        "with the values; files are also cut short or extended before they are loaded.",
        "real": ["starky::polsarray", "recursion::io_utils", "rayon iterators"],
        "stub": SIM,
        "assumptions": BASE + ["save is given a plain file, as by its callers"],
    },
    "P09": {
        "group": "starky",
        "quick": {"runs": 2400, "secs": 45},
        "thorough": {"runs": 10**9, "secs": 600},
        "cpu_limit": 240,
        "rule": "One run writes a random system, its parameters, constants and trace as files, runs the proving command up to 4 times on a "
        "failing disk and then on a working one, and compares both output files with the proof and circuit computed in memory; every "
        "success is checked, also those under faults. Inputs are sometimes missing or cut short.",
        "real": ["starky::prove", "starky: everything it calls"],
        "stub": SIM + ["pilcom"],
        "assumptions": BASE + ["a crash after success may still lose what the command did not sync"],
    },
    "P10": {
        "group": "starky",
        "quick": {"runs": 20000, "secs": 15},
        "thorough": {"runs": 10**9, "secs": 300},
        "rule": "One run joins two random documents on a failing disk until it succeeds, and compares the file with the documents' union "
        "under prefixes; inputs are sometimes cut short.",
        "real": ["starky::zkin_join"],
        "stub": SIM,
        "assumptions": BASE,
    },
    "P11": {
        "group": "alg",
        "quick": {"runs": 50000, "secs": 25},
        "thorough": {"runs": 10**9, "secs": 600},
        "rule": "One run writes 1-3 random circuits (3 fields, binary with sections in any order or JSON), a third of them with one thing "
        "wrong, reads them over a failing disk and compares every field; a recording constraint system then receives the synthesis over a "
        "random witness, mapping and offset.",
        "real": ["algebraic_gpu::{r1cs_file, reader, circom_circuit}", "algebraic::{r1cs_file, reader, circom_circuit, utils} (a third of the runs)"],
        "stub": SIM + ["the BN128 and Goldilocks field types (declared for this check with ff_derive; BLS12-381's is blstrs')", "bellperson's proving systems (a recorder stands in)", "franklin-crypto's bellman (traits, and its two scalar fields derived anew)"],
        "assumptions": BASE,
    },
    "P12": {
        "group": "alg",
        "quick": {"runs": 6000, "secs": 40},
        "thorough": {"runs": 10**9, "secs": 600},
        "rule": "One run emits a random witness program as WebAssembly with circom's interface (1 or 2, several limb counts; sometimes "
        "circom's own output), loads it from a failing disk, computes 1-4 witnesses with one calculator from input documents, half of "
        "them odd (unknown, extra, missing, negative, too large, no number, cut), compares with the program's values, saves and reads back "
        "the witness file, and reads damaged ones.",
        "real": ["algebraic_gpu::{witness, reader}", "algebraic::{witness, reader} (a third of the runs)", "wasmer with its singlepass compiler"],
        "stub": SIM + ["the witness programs (emitted by this check; two are circom's)", "franklin-crypto's bellman (traits, and its two scalar fields derived anew)"],
        "assumptions": BASE + ["inputs out of range may be refused or reduced, not ignored"],
    },
    "P13": {
        "group": "alg",
        "quick": {"runs": 1800, "secs": 55},
        "thorough": {"runs": 10**9, "secs": 760},
        "rule": "One run takes a random circuit through the setup, prove and verify commands, each on a failing disk until it succeeds, then "
        "verifies tampered proofs and inputs, other rounds', other keys' and unsatisfying witnesses' proofs and cut files.",
        "real": ["groth16 (its BLS12-381 build)", "algebraic_gpu", "bellperson's CPU prover and verifier", "wasmer"],
        "stub": SIM + ["the witness program", "the GPU (absent; bellperson falls back to the CPU)"],
        "assumptions": BASE + ["the BN128 build of groth16 needs crates this sandbox lacks; it shares api.rs's command structure but not the field code", "public inputs are field elements in decimal or hexadecimal"],
    },
    "P14": {
        "group": "alg",
        "quick": {"runs": 10000, "secs": 30},
        "thorough": {"runs": 10**9, "secs": 600},
        "rule": "One run writes and reads a random Groth16 key, proof and inputs as JSON (also rewritten with other projective coordinates), "
        "damages them, or reads lists of points and elements from binary files over a failing disk with several workers.",
        "real": ["recursion-gnark-ffi::{json_util, traits}", "ark-groth16", "rayon iterators"],
        "stub": SIM,
        "assumptions": BASE + ["the Go side of recursion-gnark cannot be built here"],
    },
    "P15": {
        "group": "starky",
        "variants": ["starky-avx2", "starky-avx512"],
        "quick": {"runs": 4000, "secs": 40},
        "thorough": {"runs": 10**9, "secs": 760},
        "cpu_limit": 240,
        "rule": "The harness is compiled once for AVX2 and once for AVX-512. One run makes 1-3 concurrent jobs, each a packed arithmetic "
        "exercise on edge values (canonical or any 64-bit word), direct permutations, a transcript conversation, a Merkle tree with its openings, or "
        "a whole proof of a random system with its verification; everything is compared with references on plain integers.",
        "real": ["fields::arch::x86_64", "fields::packed", "starky::arch::x86_64", "starky::linearhash (two rows at a time)", "starky's prover and verifier on top of them"],
        "stub": SIM + ["the link between prover and verifier", "pilcom"],
        "assumptions": BASE + ["variants this machine's CPU cannot execute are left out (the evidence lists the builds that ran); if it has neither, the scalar build runs"],
    },
    "P16": {
        "group": "comp",
        "quick": {"runs": 2400, "secs": 50},
        "thorough": {"runs": 10**9, "secs": 760},
        "cpu_limit": 240,
        "rule": "One run takes a random Goldilocks circuit (constraints of every shape, four kinds of custom gate, any number of public wires) "
        "through the compressor's setup and exec commands, also on a failing disk; evaluates the written and the exported constraints on the "
        "column files row by row, follows the copy constraints, and compares the verdicts for honest, changed and random witnesses with the "
        "circuit's own; changes cells and public values; one run in sixty also proves and verifies the columns.",
        "real": ["recursion::{compressor12, r1cs2plonk, pilcom, io_utils}", "algebraic (the bellman-based crate)", "starky", "wasmer"],
        "stub": SIM + ["powdr's PIL analyser (a small parser for the language the templates use)", "franklin-crypto's field and circuit traits", "the witness programs"],
        "assumptions": BASE + ["the copy argument itself is starky's (P05, P06)", "circuits use the gates as circom's verifier circuits declare them: each template once per parameter list, the constant wire not a gate's input"],
    },
    "P17": {
        "group": "starky",
        "quick": {"runs": 80000, "secs": 25},
        "thorough": {"runs": 10**9, "secs": 600},
        "rule": "One run is 1-3 concurrent callers, each driving a machine of 20 registers through 20-120 operations: Goldilocks, its cubic and "
        "quintic extensions and the BN128 and BLS12-381 scalar fields, with values and stored words at carry and reduction boundaries, mixed "
        "dimensions and elements with common prefixes; every result is compared with plain integers and polynomials. Registers are also "
        "written to the simulated disk as JSON and read back.",
        "real": ["fields::field_gl", "starky::{f3g, f5g, field_bn128, field_bls12381, helper, serializer}"],
        "stub": SIM,
        "assumptions": BASE + ["the inverse of zero is outside the property (the code gives zero)"],
    },
    "P18": {
        "group": "starky",
        "quick": {"runs": 40000, "secs": 25},
        "thorough": {"runs": 10**9, "secs": 600},
        "rule": "One run is 1-3 concurrent callers that share hashers and hash inputs of random lengths, capacities, output counts and batch sizes "
        "with the permutations, the linear hashes, the matrix hashes and the node hashes of the three families; each digest is compared with a reference "
        "written from the definition, and invalid shapes must be refused.",
        "real": ["starky::poseidon*_opt", "starky::linearhash*", "starky::digest", "rayon iterators"],
        "stub": SIM,
        "assumptions": BASE + ["the reference shares the round constants with the code (in their unoptimised form where there is one); a fingerprint of the permutations over them is compared with the published instances'"],
    },
    "P19": {
        "group": "starky",
        "quick": {"runs": 3000, "secs": 60},
        "thorough": {"runs": 10**9, "secs": 760},
        "cpu_limit": 240,
        "rule": "One run proves a random system, generates its verifier circuit with random options and runs it, with the circuit library, in a circom "
        "interpreter on the prover's inputs; then every sort of value is changed once and the interpreter's verdict must be a refusal, and the verdict on "
        "proofs for other statements the verifier's own. Aggregations of two proofs are joined by the real command on the simulated disk. Assignments "
        "without a constraint are attacked by giving them other values. The library's components (Poseidon, Merkle paths, tree selectors, transforms, range "
        "checks) are run against the code they mirror.",
        "real": ["starky::{stark_verifier_circom, stark_verifier_circom_onchain, pil2circom, zkin_join, serializer}", "stark-circuits/circuits (BLS12-381 library text)", "starky's setup, prover and verifier"],
        "stub": SIM + ["the circom compiler (an interpreter of the language)", "the Goldilocks and BN128 circuit libraries, which are not in the repository (built from their definitions)"],
        "assumptions": BASE + ["systems whose constraints are all linear have no verifier circuit (known finding F08, P09)", "values are attacked one place or one unconstrained signal at a time"],
    },
    "P20": {
        "group": "alg",
        "quick": {"runs": 6000, "secs": 45},
        "thorough": {"runs": 10**9, "secs": 600},
        "rule": "One run makes a BN254 key with known exponents, renders its contract over a failing disk, parses it and calls verifyTx on a simulated EVM "
        "(Solidity's memory layout, inline assembly, checked arithmetic, precompiles 6, 7 and 8) with three valid proofs and seven other transactions, one of "
        "them with a precompile call that fails; the verdict must be the pairing equation's.",
        "real": ["groth16::api::generate_verifier, the contract template and the pairing library's text"],
        "stub": SIM + ["the Solidity compiler and the EVM (an interpreter of the contract's text)", "pairings (decided by the known discrete logarithms)", "the BN128 prover, which cannot be built here"],
        "assumptions": BASE + ["contracts that use Solidity beyond the interpreter's part are counted and not judged", "the order of a point's coordinates in the call is the key file's"],
    },
}
