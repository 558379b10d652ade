//! Setup, prove and verify as parties that share nothing but files and messages.
use crate::air::{self, Air};
use crate::util::*;
use serde_json::Value;
use simcore::{Kind, Rng, SimConfig};
use simharness::*;
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::pil2circom::{pil2circom, StarkOption};
use starky::stark_gen::StarkProof;
use starky::stark_setup::StarkSetup;
use starky::stark_verify::stark_verify;
use starky::traits::{MerkleTree, Transcript};
use starky::transcript::TranscriptGL;
use starky::transcript_bls12381::TranscriptBLS128;
use starky::transcript_bn128::TranscriptBN128;
use starky::types::StarkStruct;
use starky::ElementDigest;
use std::sync::Arc;

pub fn config(rng: &mut Rng, c: &mut SimConfig) {
    sched_config(rng, c);
    c.p[Kind::App as usize] = 0.3;
}
pub fn prewarm() {
    crate::merkle::prewarm();
    crate::fft::prewarm();
}

pub trait Sys: 'static {
    type F: ff::PrimeField + Default;
    type M: MerkleTree<MTNode = ElementDigest<4, Self::F>, ExtendField = starky::f3g::F3G>
        + serde::Serialize
        + serde::de::DeserializeOwned
        + Default
        + Send
        + Sync
        + PartialEq
        + 'static;
    type T: Transcript;
    const HASH: &'static str;
}
pub struct SGl;
impl Sys for SGl {
    type F = FGL;
    type M = MerkleTreeGL;
    type T = TranscriptGL;
    const HASH: &'static str = "GL";
}
pub struct SBn;
impl Sys for SBn {
    type F = crate::merkle::BnFr;
    type M = MerkleTreeBN128;
    type T = TranscriptBN128;
    const HASH: &'static str = "BN128";
}
pub struct SBls;
impl Sys for SBls {
    type F = crate::merkle::BlsFr;
    type M = MerkleTreeBLS12381;
    type T = TranscriptBLS128;
    const HASH: &'static str = "BLS12381";
}

pub const ADDR: &str = "273030697313060285579891744179749754319274977764";

/// simulated threads are fibers of one OS thread
pub struct Carry<T>(pub T);
unsafe impl<T> Send for Carry<T> {}
unsafe impl<T> Sync for Carry<T> {}

pub fn setup<S: Sys>(a: &Air, ss: &StarkStruct) -> Result<StarkSetup<S::M>, String> {
    let mut pil = a.pil();
    match guarded(|| StarkSetup::<S::M>::new(&a.const_pols(), &mut pil, ss, None)) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}
pub fn prove<S: Sys>(
    a: &Air,
    ss: &StarkStruct,
    st: &StarkSetup<S::M>,
) -> Result<StarkProof<S::M>, String> {
    let pil = a.pil();
    let r = guarded(|| {
        StarkProof::<S::M>::stark_gen::<S::T>(
            a.cm_pols(),
            a.const_pols(),
            &st.const_tree,
            &st.starkinfo,
            &st.program,
            &pil,
            ss,
            ADDR,
        )
    });
    match r {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}
/// Ok(false), an error and a panic are all rejections
pub fn verify<S: Sys>(
    p: &StarkProof<S::M>,
    ss: &StarkStruct,
    st: &StarkSetup<S::M>,
) -> Result<bool, String> {
    match guarded(|| {
        stark_verify::<S::M, S::T>(p, &st.const_root, &st.starkinfo, ss, &st.program)
    }) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}
pub fn circom<S: Sys>(a: &Air, ss: &StarkStruct, agg: bool, norm: bool) -> Result<String, String> {
    circom_with::<S>(a, ss, agg, norm, false)
}
pub fn circom_with<S: Sys>(
    a: &Air,
    ss: &StarkStruct,
    agg: bool,
    norm: bool,
    skip: bool,
) -> Result<String, String> {
    let r = guarded(|| {
        let mut pil = a.pil();
        let mut s = StarkSetup::<S::M>::new(&a.const_pols(), &mut pil, ss, None)?;
        let opt = StarkOption {
            enable_input: false,
            verkey_input: norm,
            skip_main: skip,
            agg_stage: agg,
        };
        pil2circom::<S::F>(&pil, &s.const_root, ss, &mut s.starkinfo, &mut s.program, &opt)
    });
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

pub fn size<S: Sys>() -> (usize, usize) {
    if S::HASH == "GL" {
        match pick(60) {
            // several chunks of rows per worker
            0 => (11, 2),
            // chunks of rows that are no multiple of the blow-up factor
            1 => (12, 1),
            2 => (13, 1),
            k => (2 + k % 6, 3),
        }
    } else {
        (2 + pick(2), 2)
    }
}

/// A setup after writing and reading it.
fn stored<S: Sys>(st: StarkSetup<S::M>, what: &str) -> Result<StarkSetup<S::M>, Viol> {
    count("stored_setups", 1);
    let text = match guarded(|| serde_json::to_string(&st)) {
        Ok(Ok(t)) => t,
        r => return viol("stark: setup cannot be written", format!("{what}: {r:?}")),
    };
    match guarded(|| serde_json::from_str::<StarkSetup<S::M>>(&text)) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => viol("stark: setup cannot be read back", format!("{what}: {e}")),
        Err(e) => viol("stark: setup cannot be read back", format!("{what}: {e}")),
    }
}

fn one<S: Sys>(who: usize) -> Run {
    let (bits, gadgets) = size::<S>();
    let mut a = air::generate(bits, gadgets);
    if one_in(4) {
        a.respell(&mut pick_rng());
    }
    let mut ss = air::stark_struct(&a, S::HASH);
    if one_in(12) {
        // too small an extension for the constraints: refused, or still fine
        let mut j = serde_json::to_value(&ss).unwrap();
        j["nBitsExt"] = (bits + 1).into();
        j["steps"] = serde_json::json!([{"nBits": bits + 1}, {"nBits": 1}]);
        j["nQueries"] = (56 / (bits + 1) + 1).into();
        ss = serde_json::from_value(j).expect("stark struct");
    }
    let what = format!(
        "job {who}: {} {:?} 2^{bits} rows, ext 2^{}, steps {:?}, {} queries",
        S::HASH,
        a.gadgets,
        ss.nBitsExt,
        ss.steps.iter().map(|s| s.nBits).collect::<Vec<_>>(),
        ss.nQueries
    );
    log(what.clone());
    state_of(&(&a.gadgets, bits, ss.nBitsExt, ss.steps.len()));
    let publics = a.publics_values();
    if let Some(b) = a.broken(&publics) {
        return viol("harness: the generated trace is not valid", format!("{what}: {b}"));
    }
    let st = match setup::<S>(&a, &ss) {
        Ok(s) => s,
        Err(e) if e.starts_with("error") && (1 << (ss.nBitsExt - bits)) + 1 < a.degrees().1 => {
            count("refused_degree", 1);
            return Ok(());
        }
        Err(e) => return viol("stark: setup failed", format!("{what}: {e}")),
    };
    let st = if one_in(4) { stored::<S>(st, &what)? } else { st };
    let proof = match prove::<S>(&a, &ss, &st) {
        Ok(p) => p,
        Err(e) => return viol("stark: no proof for a valid trace", format!("{what}: {e}")),
    };
    count(&format!("proofs_{}", S::HASH), 1);
    for g in &a.gadgets {
        count(g, 1);
    }
    let claimed: Vec<u64> = proof.publics.iter().map(|p| p.cube[0].as_int()).collect();
    if claimed != publics {
        return viol(
            "stark: public values are not those of the trace",
            format!("{what}: {claimed:?}, expected {publics:?}"),
        );
    }
    // the verifier is another process: it has its own setup, and reads the proof as a file
    let text = serde_json::to_string(&proof).unwrap_or_default();
    simcore::reseed_entropy(pick(1 << 20) as u64);
    simcore::set_cpus(*pick_of(&[1, 2, 5, 16]));
    let theirs = match setup::<S>(&a, &ss) {
        Ok(s) => s,
        Err(e) => return viol("stark: second setup failed", format!("{what}: {e}")),
    };
    if theirs.const_root != st.const_root {
        return viol("stark: setups disagree on the verification key", what);
    }
    let theirs = if one_in(3) { stored::<S>(theirs, &what)? } else { theirs };
    let pil = a.pil_json();
    let cell = Carry((text, what, proof, ss, theirs, pil));
    let v = fiber("verifier", move || -> Run {
        let cell = cell;
        let Carry((text, what, proof, ss, theirs, pil)) = cell;
        let back: StarkProof<S::M> = match guarded(|| serde_json::from_str(&text)) {
            Ok(Ok(p)) => p,
            r => return viol("stark: proof cannot be read back", format!("{what}: {:?}", r.err())),
        };
        if serde_json::to_string(&back).ok().as_ref() != Some(&text) {
            return viol("stark: proof changes when read and written", what);
        }
        for (name, p) in [("as made", &proof), ("as read back", &back)] {
            match verify::<S>(p, &ss, &theirs) {
                Ok(true) => {}
                r => {
                    if std::env::var("SIM_DUMP").is_ok() {
                        eprintln!("{pil}\nim {:?} q_deg {}", theirs.starkinfo.im_exps, theirs.starkinfo.q_deg);
                    }
                    return viol("stark: genuine proof rejected", format!("{what} ({name}): {r:?}"))
                }
            }
        }
        Ok(())
    });
    v.join()
}

pub fn gl_proof(who: usize) -> Run {
    one::<SGl>(who)
}
fn any(who: usize) -> Run {
    match pick(24) {
        22 => one::<SBn>(who),
        23 => one::<SBls>(who),
        _ => one::<SGl>(who),
    }
}

pub fn complete() -> Run {
    let jobs = 1 + pick(3);
    if jobs == 1 {
        return any(0);
    }
    let hs: Vec<_> = (0..jobs).map(|i| fiber("job", move || any(i))).collect();
    for h in hs {
        h.join()?;
    }
    Ok(())
}

/// everything observable that a run of setup and prover produces
fn artefacts<S: Sys>(a: &Air, ss: &StarkStruct) -> Result<Vec<(&'static str, String)>, String> {
    let st = setup::<S>(a, ss)?;
    let p = prove::<S>(a, ss, &st)?;
    Ok(vec![
        ("verification key", format!("{:?}", st.const_root)),
        ("proof", serde_json::to_string(&p).map_err(|e| e.to_string())?),
        (
            "verifier circuit",
            // (a quotient of degree 0 has no circuit: the refusal is the same every time)
            format!("{:?}", circom::<S>(a, ss, S::HASH == "GL" && a.bits % 2 == 0, a.bits % 3 == 0)),
        ),
    ])
}
fn reproduce<S: Sys>() -> Run {
    let (bits, gadgets) = size::<S>();
    let a = Arc::new(air::generate(bits, gadgets));
    let ss = air::stark_struct(&a, S::HASH);
    let what = format!("{} {:?} 2^{bits} rows", S::HASH, a.gadgets);
    log(what.clone());
    state_of(&(&a.gadgets, bits, ss.nBitsExt, ss.steps.len()));
    // once, sequentially, on a one-worker machine
    let cpus = simcore::cpus().unwrap_or(1);
    simcore::set_faults(false);
    simcore::set_cpus(2);
    simcore::reseed_entropy(1);
    let first = match artefacts::<S>(&a, &ss) {
        Ok(x) => Arc::new(x),
        Err(e) => return viol("stark: no proof for a valid trace", format!("{what}: {e}")),
    };
    simcore::set_faults(true);
    simcore::set_cpus(cpus);
    simcore::reseed_entropy(pick(1 << 20) as u64);
    // again, several at once, with other work going on
    let jobs = 1 + pick(3);
    let noise = pick(2) == 1;
    let mut hs = vec![];
    for i in 0..jobs {
        let (a, ss, first, what) = (a.clone(), ss.clone(), first.clone(), what.clone());
        hs.push(fiber("job", move || -> Run {
            let again = match artefacts::<S>(&a, &ss) {
                Ok(x) => x,
                Err(e) => return viol("stark: no proof for a valid trace", format!("{what}: {e}")),
            };
            count("reruns", 1);
            for (x, y) in first.iter().zip(&again) {
                if x.1 != y.1 {
                    let at = x.1.bytes().zip(y.1.bytes()).position(|(a, b)| a != b).unwrap_or(0);
                    let cut = |s: &str| short(s.get(at.saturating_sub(40)..).unwrap_or(""), 120);
                    return viol(
                        format!("stark: {} depends on the schedule or the process", x.0),
                        format!("{what}, job {i}: at byte {at}: {:?} / {:?}", cut(&x.1), cut(&y.1)),
                    );
                }
            }
            Ok(())
        }));
    }
    if noise {
        hs.push(fiber("noise", || {
            let (b, g) = (3, 1);
            let a = air::generate(b, g);
            let ss = air::stark_struct(&a, "GL");
            let _ = artefacts::<SGl>(&a, &ss);
            Ok(())
        }));
    }
    for h in hs {
        h.join()?;
    }
    Ok(())
}
pub fn deterministic() -> Run {
    match pick(20) {
        18 => reproduce::<SBn>(),
        19 => reproduce::<SBls>(),
        _ => reproduce::<SGl>(),
    }
}

// ------------------------------------------------------------------ soundness
/// Changes one committed cell so that the trace no longer satisfies the constraints.
fn break_trace(a: &Air, publics: &[u64]) -> Option<(Air, String)> {
    let mut r = pick_rng();
    for _ in 0..20 {
        let mut b = a.clone();
        let c = r.below(b.cm.len() as u64) as usize;
        let row = match r.below(4) {
            0 => 0,
            1 => b.n() - 1,
            _ => r.below(b.n() as u64) as usize,
        };
        let old = b.cm[c][row];
        b.cm[c][row] = if b.flags.contains(&c) {
            1 - old
        } else {
            match r.below(3) {
                // a value that occurs elsewhere
                0 => b.cm[c][r.below(b.n() as u64) as usize],
                _ => other_elem(FGL::from(old), &mut r).as_int(),
            }
        };
        let _ = publics;
        let p = b.publics_values();
        if let Some(why) = b.broken(&p) {
            return Some((b, format!("column {c} row {row}: {why}")));
        }
    }
    None
}

fn is_number(v: &Value) -> bool {
    matches!(v, Value::String(s) if s.parse::<num_bigint::BigUint>().is_ok())
}
pub(crate) fn collect_paths(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                // not part of what is verified: the key the verifier holds is used, not rootC
                if k != "rootC" && k != "proverAddr" {
                    collect_paths(x, format!("{at}/{k}"), out);
                }
            }
        }
        Value::Array(l) => {
            for (i, x) in l.iter().enumerate() {
                collect_paths(x, format!("{at}/{i}"), out);
            }
        }
        x if is_number(x) => out.push(at),
        _ => {}
    }
}
fn collect_lists(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                if k != "rootC" && k != "proverAddr" {
                    collect_lists(x, format!("{at}/{k}"), out);
                }
            }
        }
        Value::Array(l) if !l.is_empty() => {
            out.push(at.clone());
            for (i, x) in l.iter().enumerate() {
                collect_lists(x, format!("{at}/{i}"), out);
            }
        }
        _ => {}
    }
}
pub(crate) fn field_of(path: &str) -> String {
    path.split('/').nth(1).unwrap_or("").to_string()
}

pub(crate) struct Instance<S: Sys> {
    pub ss: StarkStruct,
    pub st: StarkSetup<S::M>,
    pub json: Value,
    pub what: String,
}
pub(crate) fn accept<S: Sys>(inst: &Instance<S>, v: &Value) -> Result<bool, String> {
    let p: StarkProof<S::M> = match guarded(|| serde_json::from_value(v.clone())) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return Err(format!("unreadable: {e}")),
        Err(e) => return Err(format!("unreadable: {e}")),
    };
    verify::<S>(&p, &inst.ss, &inst.st)
}

fn forge<S: Sys>() -> Run {
    let (bits, gadgets) = if S::HASH == "GL" { (2 + pick(4), 2) } else { (2, 1) };
    let mut a = air::generate(bits, gadgets);
    if one_in(3) {
        // a circuit for which another trace is at hand
        a = air::generate_of(bits, &[0]);
    }
    let ss = air::stark_struct(&a, S::HASH);
    let what = format!("{} {:?} 2^{bits} rows", S::HASH, a.gadgets);
    log(what.clone());
    let st = match setup::<S>(&a, &ss) {
        Ok(s) => s,
        Err(e) => return viol("stark: setup failed", format!("{what}: {e}")),
    };
    let publics = a.publics_values();
    // 1. a trace that breaks a constraint
    if pick(2) == 0 {
        if let Some((bad, why)) = break_trace(&a, &publics) {
            count("broken_traces", 1);
            state_of(&("trace", &a.gadgets, &why));
            match prove::<S>(&bad, &ss, &st) {
                Err(_) => count("refused_by_prover", 1),
                Ok(p) => match verify::<S>(&p, &ss, &st) {
                    Ok(true) => {
                        return viol("stark: proof of a false statement accepted", format!("{what}: {why}"))
                    }
                    _ => count("rejected", 1),
                },
            }
        }
        return Ok(());
    }
    let proof = match prove::<S>(&a, &ss, &st) {
        Ok(p) => p,
        Err(e) => return viol("stark: no proof for a valid trace", format!("{what}: {e}")),
    };
    let json = serde_json::to_value(&proof).unwrap();
    let inst = Instance::<S> { ss, st, json, what };
    if accept::<S>(&inst, &inst.json) != Ok(true) {
        return viol("stark: genuine proof rejected", inst.what);
    }
    let why = crate::byz::refuted_by::<S>(&proof, &inst.ss, &inst.st);
    if !why.is_empty() {
        let why: Vec<String> = why.into_iter().collect();
        return viol(
            format!("stark: genuine proof refuted by the reference verifier: {}", why.join(", ")),
            inst.what,
        );
    }
    // 2. a proof damaged on the way
    let mut paths = vec![];
    collect_paths(&inst.json, String::new(), &mut paths);
    let mut fields: Vec<String> = paths.iter().map(|p| field_of(p)).collect();
    fields.dedup();
    let mut r = pick_rng();
    for _ in 0..4 + pick(12) {
        // every part of the proof is as likely, whatever its size
        let f = pick_of(&fields).clone();
        let of: Vec<&String> = paths.iter().filter(|p| field_of(p) == f).collect();
        let at = of[r.below(of.len() as u64) as usize];
        let mut v = inst.json.clone();
        let slot = v.pointer_mut(at).unwrap();
        let old = slot.as_str().unwrap().to_string();
        let new = damaged(&old, S::HASH == "GL" || small_field(&f), &mut r);
        if new == old {
            continue;
        }
        *slot = Value::String(new.clone());
        count("damaged_proofs", 1);
        state_of(&("damage", &f, &inst.what));
        if accept::<S>(&inst, &v) == Ok(true) {
            return viol(
                "stark: damaged proof accepted",
                format!("{}: {at} was {old}, now {new}", inst.what),
            );
        }
    }
    // parts of it lost or repeated
    let mut lists = vec![];
    collect_lists(&inst.json, String::new(), &mut lists);
    let mut fields: Vec<String> = lists.iter().map(|p| field_of(p)).collect();
    fields.dedup();
    for _ in 0..3 {
        if fields.is_empty() {
            break;
        }
        let f = pick_of(&fields).clone();
        let of: Vec<&String> = lists.iter().filter(|p| field_of(p) == f).collect();
        let at = of[r.below(of.len() as u64) as usize];
        let mut v = inst.json.clone();
        let l = v.pointer_mut(at).unwrap().as_array_mut().unwrap();
        let was = l.len();
        match r.below(4) {
            0 => drop(l.pop()),
            1 => drop(l.remove(0)),
            2 => l.push(l[was - 1].clone()),
            _ => l.insert(0, l[0].clone()),
        }
        match guarded(|| serde_json::from_value::<StarkProof<S::M>>(v.clone())) {
            // what the reading leaves out is not part of the proof
            Ok(Ok(p)) if strip(&serde_json::to_value(&p).unwrap()) == strip(&inst.json) => continue,
            Ok(Ok(_)) => (),
            _ => continue,
        }
        count("misshapen_proofs", 1);
        if accept::<S>(&inst, &v) == Ok(true) {
            return viol("stark: misshapen proof accepted", format!("{}: {at} with {was} entries", inst.what));
        }
    }
    // 3. another statement's proof, or parts of it
    let mut other = a.clone();
    let mut change = pick_rng();
    for v in other.cm.iter_mut().chain(other.cons.iter_mut().skip(1)) {
        if change.below(3) == 0 {
            let i = change.below(v.len() as u64) as usize;
            v[i] = other_elem(FGL::from(v[i]), &mut change).as_int();
        }
    }
    match if second_trace(&a).is_some() { 2 } else { pick(2) } {
        0 => {
            // the verifier holds the key of another circuit
            let theirs = match setup::<S>(&other, &inst.ss) {
                Ok(s) => s,
                Err(e) => return viol("stark: setup failed", format!("{}: {e}", inst.what)),
            };
            if theirs.const_root != inst.st.const_root {
                count("foreign_keys", 1);
                if verify::<S>(&proof, &inst.ss, &theirs) == Ok(true) {
                    return viol("stark: proof accepted under another key", inst.what);
                }
            }
        }
        1 => {
            let b = air::generate(bits, gadgets);
            let (pa, pb) = (a.pil_json(), b.pil_json());
            if pa != pb {
                if let Ok(theirs) = setup::<S>(&b, &inst.ss) {
                    count("foreign_circuits", 1);
                    let v = verify::<S>(&proof, &inst.ss, &theirs);
                    if v == Ok(true) && theirs.const_root != inst.st.const_root {
                        return viol("stark: proof accepted for another circuit", inst.what);
                    }
                }
            }
        }
        _ => {
            // parts of two genuine proofs of the same circuit
            if let Some(second) = second_trace(&a) {
                let p2 = match prove::<S>(&second, &inst.ss, &inst.st) {
                    Ok(p) => p,
                    Err(e) => {
                        return viol("stark: no proof for a valid trace", format!("{}: {e}", inst.what))
                    }
                };
                let j2 = serde_json::to_value(&p2).unwrap();
                let keys: Vec<String> = inst.json.as_object().unwrap().keys().cloned().collect();
                for _ in 0..6 {
                    let mut v = inst.json.clone();
                    let mut took = vec![];
                    for k in &keys {
                        if k != "rootC" && k != "proverAddr" && r.below(4) == 0 && v[k] != j2[k] {
                            v[k] = j2[k].clone();
                            took.push(k.clone());
                        }
                    }
                    if took.is_empty() || strip(&v) == strip(&j2) {
                        continue;
                    }
                    count("mixed_proofs", 1);
                    if accept::<S>(&inst, &v) == Ok(true) {
                        return viol(
                            "stark: mixture of two proofs accepted",
                            format!("{}: {took:?} from the other", inst.what),
                        );
                    }
                }
            }
        }
    }
    Ok(())
}
pub(crate) fn strip(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(m) = v.as_object_mut() {
        m.remove("rootC");
        m.remove("proverAddr");
    }
    v
}
/// another valid trace for the same constraints (only circuits of one recurrence have one at hand)
pub(crate) fn second_trace(a: &Air) -> Option<Air> {
    if a.gadgets != ["recurrence"] {
        return None;
    }
    let mut b = a.clone();
    let n = b.n();
    use crate::fft::{addp, mulp};
    b.cm[0][0] = addp(b.cm[0][0], 1);
    for i in 1..n {
        b.cm[0][i] =
            addp(mulp(b.cm[0][i - 1], b.cm[0][i - 1]), mulp(b.cm[1][i - 1], b.cm[1][i - 1]));
        b.cm[1][i] = b.cm[0][i - 1];
    }
    let p = b.publics_values();
    match b.broken(&p) {
        None => Some(b),
        Some(_) => None,
    }
}
/// values that are Goldilocks elements whatever the hash
pub(crate) fn small_field(f: &str) -> bool {
    f == "evals" || f == "publics" || f == "finalPol" || f.contains("_vals")
}
pub(crate) fn damaged(old: &str, small: bool, r: &mut Rng) -> String {
    use num_bigint::BigUint;
    let x: BigUint = old.parse().unwrap();
    let p = BigUint::from(GLP);
    let one = BigUint::from(1u32);
    let y = if small {
        match r.below(4) {
            0 => (x + &one) % &p,
            1 => BigUint::from(0u32),
            2 => (x + &p - &one) % &p,
            _ => BigUint::from(r.next() % GLP),
        }
    } else {
        match r.below(3) {
            0 => x + &one,
            1 => BigUint::from(0u32),
            _ => BigUint::from(r.next() % GLP),
        }
    };
    y.to_string()
}
/// A prover that chooses what it commits to and repairs all but one of the verifier's checks.
fn lie<S: Sys>() -> Run {
    use crate::byz::*;
    let (bits, gadgets) = if S::HASH == "GL" { (2 + pick(3), 2) } else { (2, 1) };
    let mut a = if one_in(3) { air::generate_of(bits, &[pick(2)]) } else { air::generate(bits, gadgets) };
    if one_in(4) {
        a.respell(&mut pick_rng());
    }
    let ss = air::stark_struct(&a, S::HASH);
    let steps: Vec<usize> = ss.steps.iter().map(|s| s.nBits).collect();
    let what = format!("{} {:?} 2^{bits} rows, ext 2^{}, steps {steps:?}", S::HASH, a.gadgets, ss.nBitsExt);
    log(what.clone());
    let st = match setup::<S>(&a, &ss) {
        Ok(s) => s,
        Err(e) => return viol("stark: setup failed", format!("{what}: {e}")),
    };
    let mut r = pick_rng();
    let all = lies(&ss);
    let n = if S::HASH == "GL" { 6 } else { 2 };
    for _ in 0..n {
        let lie = *pick_of(&all);
        let mut publics = a.publics_values();
        if lie != Lie::Nothing && lie != Lie::OneTooHigh {
            for p in publics.iter_mut() {
                if one_in(2) {
                    *p = other_elem(FGL::from(*p), &mut r).as_int();
                }
            }
        }
        let prover = Prover::<S> { a: &a, ss: &ss, st: &st, lie, swaps: Default::default() };
        let Some(p) = prover.run(&publics, &mut r) else { continue };
        let why = refuted_by::<S>(&p, &ss, &st);
        let why: Vec<String> = why.into_iter().collect();
        let said = verify::<S>(&p, &ss, &st);
        count(match lie {
            Lie::Nothing => "reference_proofs",
            Lie::Identity => "lies_identity",
            Lie::Degree | Lie::OneTooHigh => "lies_degree",
            Lie::Last | Lie::Layer(_) => "lies_folding",
            Lie::Wide => "lies_shape",
            Lie::Row(_) | Lie::Group(_) | Lie::Alias => "lies_opening",
        }, 1);
        if why.len() == 1 {
            count("lies_left_to_one_check", 1);
        }
        state_of(&("lie", format!("{lie:?}"), &why, S::HASH));
        if said == Ok(true) && !why.is_empty() {
            return viol(
                format!("stark: accepted although refuted by: {}", why.join(", ")),
                format!("{what}, {lie:?}"),
            );
        }
        if said != Ok(true) && why.is_empty() {
            return viol("stark: a proof that passes all checks is rejected", format!("{what}, {lie:?}: {said:?}"));
        }
        if lie == Lie::Nothing && !why.is_empty() {
            return viol("stark: harness: the reference prover fails", format!("{what}: {why:?}"));
        }
    }
    Ok(())
}

pub fn sound() -> Run {
    if pick(3) == 0 {
        return match pick(20) {
            18 => lie::<SBn>(),
            19 => lie::<SBls>(),
            _ => lie::<SGl>(),
        };
    }
    match pick(20) {
        18 => forge::<SBn>(),
        19 => forge::<SBls>(),
        _ => forge::<SGl>(),
    }
}
