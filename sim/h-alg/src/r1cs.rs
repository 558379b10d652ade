//! Circuit files: what is read is what was written, and what is synthesized is what was read.
use super::lib::*;
use crate::circuit::*;
use crate::fields::*;
use algebraic_gpu::circom_circuit::{CircomCircuit, R1CS};
use num_bigint::BigUint;
use serde_json::{json, Map, Value};
use simcore::{simfs, Rng};
use simharness::disk::*;
use simharness::*;
use std::collections::BTreeMap;

fn json_circuit<F: Kind>(s: &Spec<F>) -> Value {
    let lc = |t: &Terms<F>| -> Map<String, Value> {
        t.iter().map(|(w, c)| (w.to_string(), json!(c.big().to_string()))).collect()
    };
    json!({
        "constraints": s.constraints.iter().map(|c| vec![lc(&c[0]), lc(&c[1]), lc(&c[2])]).collect::<Vec<_>>(),
        "nPubInputs": s.ins, "nOutputs": s.outs, "nVars": s.wires,
    })
}

type Norm = BTreeMap<usize, BigUint>;
fn norm<F: Kind>(t: impl IntoIterator<Item = (usize, F)>) -> Norm {
    let mut m: BTreeMap<usize, F> = BTreeMap::new();
    for (w, c) in t {
        let e = m.entry(w).or_insert(F::ZERO);
        *e += c;
    }
    m.into_iter().filter(|x| x.1 != F::ZERO).map(|(w, c)| (w, c.big())).collect()
}
type Norms = Vec<[Norm; 3]>;
/// The constraints that say something, in a fixed order.
fn content(mut v: Norms) -> Norms {
    v.retain(|c| !((c[0].is_empty() || c[1].is_empty()) && c[2].is_empty()));
    v.sort();
    v
}
fn norms<F: Kind>(c: &[[Terms<F>; 3]]) -> Norms {
    c.iter().map(|c| [norm(c[0].clone()), norm(c[1].clone()), norm(c[2].clone())]).collect()
}

/// Where the read circuit differs from the file's.
fn differs<F: Kind>(s: &Spec<F>, x: &R1CS<F>, json: bool) -> Option<String> {
    let inputs = 1 + s.outs + s.ins;
    let got = (x.num_inputs, x.num_aux, x.num_variables, x.num_outputs);
    let want = (inputs, s.wires - inputs, s.wires, s.outs);
    if got != want {
        return Some(format!("sizes {got:?}, not {want:?}"));
    }
    let c: Vec<[Terms<F>; 3]> =
        x.constraints.iter().map(|c| [c.0.clone(), c.1.clone(), c.2.clone()]).collect();
    if norms(&c) != norms(&s.constraints) {
        return Some(format!("{} constraints of {}, or other ones", c.len(), s.constraints.len()));
    }
    if json {
        return None;
    }
    let g: Vec<_> = x.custom_gates.iter().map(|g| (g.template_name.clone(), g.parameters.clone())).collect();
    let u: Vec<_> = x.custom_gates_uses.iter().map(|u| (u.id as u32, u.signals.clone())).collect();
    if g != s.gates || u != s.uses {
        return Some(format!("custom gates {g:?} {u:?}"));
    }
    None
}

fn public_json<F: Kind>(c: &CircomCircuit<F>, publics: &[F]) -> Run {
    let text: Vec<String> = match serde_json::from_str(&public_inputs_json(c)) {
        Ok(t) => t,
        Err(e) => return viol("r1cs: public inputs are no JSON", e),
    };
    if text != publics.iter().map(|x| x.big().to_string()).collect::<Vec<_>>() {
        return viol("r1cs: wrong public inputs", format!("{text:?}"));
    }
    Ok(())
}

/// The circuit over a witness asks for exactly the file's constraints over exactly that witness.
fn synthesis<F: Kind>(s: &Spec<F>, x: R1CS<F>) -> Run {
    let mut r = pick_rng();
    let n_in = 1 + s.outs + s.ins;
    let values: Vec<F> = (0..s.wires).map(|i| if i == 0 { F::ONE } else { some(&mut r) }).collect();
    // the witness may list the wires in another order
    let mut map: Vec<usize> = (0..s.wires).collect();
    let mapped = one_in(3);
    if mapped {
        for i in (2..s.wires).rev() {
            map.swap(i, 1 + r.below(i as u64) as usize);
        }
    }
    let mut witness = vec![F::ZERO; s.wires];
    for (i, v) in values.iter().enumerate() {
        witness[map[i]] = *v;
    }
    let offset = if one_in(4) { pick(4) } else { 0 };
    if one_in(8) {
        let c = CircomCircuit::<F> { r1cs: x.clone(), witness: None, wire_mapping: None, aux_offset: offset };
        let none = guarded(|| (public_inputs(&c).is_none(), public_inputs_json(&c)));
        if none != Ok((true, "[]".into())) {
            return viol("r1cs: wrong public inputs", format!("without a witness: {none:?}"));
        }
    }
    let c = CircomCircuit {
        r1cs: x,
        witness: Some(witness),
        wire_mapping: if mapped { Some(map) } else { None },
        aux_offset: offset,
    };
    let publics = &values[1..n_in];
    if public_inputs(&c).as_deref() != Some(publics) {
        return viol("r1cs: wrong public inputs", format!("{:?}", public_inputs(&c)));
    }
    // elements print as the repository's own fields do: Scalar(0x…) or 0x…
    if PRINTS_ALL || F::NAME != "BN128" {
        public_json(&c, publics)?;
    }
    let cs = match guarded(|| synthesize(c, offset)) {
        Ok(Ok(cs)) => cs,
        e => return viol("r1cs: no synthesis", outcome(&e)),
    };
    if cs.inputs[..] != values[..n_in] || cs.aux[offset..] != values[n_in..] {
        return viol("r1cs: synthesized another assignment", format!("{} wires, mapped {mapped}", s.wires));
    }
    let mut got: Norms = vec![];
    for c in &cs.cons {
        let mut one: [Norm; 3] = Default::default();
        for (k, l) in c.iter().enumerate() {
            for (input, i, _) in l {
                let ok = if *input { *i < n_in } else { *i >= offset && i - offset < s.wires - n_in };
                if !ok {
                    return viol("r1cs: constraint over unknown wires", format!("{input} {i}"));
                }
            }
            one[k] = norm(l.iter().map(|(input, i, c)| (if *input { *i } else { i - offset + n_in }, *c)));
        }
        got.push(one);
    }
    let (got, want) = (content(got), content(norms(&s.constraints)));
    if got != want {
        return viol(
            "r1cs: synthesized other constraints",
            format!("{} of {}, offset {offset}", got.len(), want.len()),
        );
    }
    Ok(())
}

fn one<F: Kind>(who: usize) -> Run {
    let mut r = pick_rng();
    let s = spec::<F>(&mut r);
    let json = one_in(4);
    let what = format!(
        "{CRATE}{} {} wires ({} out, {} in), {} constraints, {} gates{}",
        F::NAME,
        s.wires,
        s.outs,
        s.ins,
        s.constraints.len(),
        s.gates.len(),
        if json { ", JSON" } else { "" }
    );
    use Wrong::*;
    let wrong = match pick(3) {
        0 => *pick_of(&[
            Magic, Version, FieldSize, Prime, OtherPrime, HeaderSize, MapSize, MapZero, Coefficient, PublicWires, WireIndex,
            NoSection(1), NoSection(2), NoSection(3), Cut, Cut, Cut, Cut, Cut,
        ]),
        _ => Nothing,
    };
    let path = format!("/simfs/c{who}.{}", if json { "json" } else { "r1cs" });
    let (file, damaged) = if json {
        let mut t = json_circuit(&s).to_string().into_bytes();
        let cut = wrong != Nothing;
        if cut {
            t.truncate(r.below(t.len() as u64) as usize);
        }
        (t, cut)
    } else {
        let seed = r.next();
        let f = encode(&s, wrong, &mut Rng::new(seed));
        let clean = encode(&s, Nothing, &mut Rng::new(seed));
        let d = f != clean;
        (f, d)
    };
    log(format!("{what}, {wrong:?}"));
    simfs::put(&path, &file);
    for _ in 0..1 + pick(2) {
        let (x, failed) = on_disk(|| Ok::<_, String>(load_r1cs::<F>(&path)));
        simfs::put(&path, &file);
        count(if damaged { "damaged_files" } else { "files" }, 1);
        count(if !CRATE.is_empty() { "bellman_files" } else { "bellperson_files" }, 1);
        state_of(&(CRATE, F::NAME, json, format!("{wrong:?}"), outcome(&x).split('(').next(), failed));
        match x {
            Ok(Ok(x)) => {
                if let Some(d) = differs(&s, &x, json) {
                    let sig = if damaged { "r1cs: damaged file read" } else { "r1cs: not what the file says" };
                    return viol(sig, format!("{what}, {wrong:?}: {d}"));
                }
                if damaged && wrong != Cut {
                    return viol("r1cs: damaged file read", format!("{what}, {wrong:?}"));
                }
                synthesis(&s, x)?;
            }
            _ if failed || damaged => {}
            x => return viol("r1cs: not read, without a cause", format!("{what}: {}", outcome(&x))),
        }
    }
    Ok(())
}

pub fn run() -> Run {
    simcore::set_faults(false);
    let n = 1 + pick(3);
    for who in 0..n {
        match pick(3) {
            0 => one::<Bn>(who)?,
            1 => one::<blstrs::Scalar>(who)?,
            _ => one::<Gl>(who)?,
        }
    }
    Ok(())
}
pub fn prewarm() {}
