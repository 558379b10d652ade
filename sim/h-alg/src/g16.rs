//! Groth16's commands, from circuit and witness program to key, proof, verdict and contract, on a
//! failing disk: what a command calls done can be used, honest proofs are accepted, others never are.
use crate::fields::*;
use crate::circuit::{encode, Spec, Terms, Wrong};
use crate::wasm::*;
use blstrs::{Fp, Fp2, G1Affine, G2Affine, Scalar as F};
use ff::Field;
use group::prime::PrimeCurveAffine;
use group::Curve;
use groth16::api::*;
use num_bigint::BigUint;
use serde_json::{json, Value};
use simcore::{simfs, Rng};
use simharness::disk::*;
use simharness::*;

const CURVE: &str = "BLS12381";
const R1CS: &str = "/simfs/c.r1cs";
const WASM: &str = "/simfs/c.wasm";
const INPUT: &str = "/simfs/input.json";
const PK: &str = "/simfs/g16.zkey";
pub const VK: &str = "/simfs/vk.json";
const PROOF: &str = "/simfs/proof.json";
const PUBLIC: &str = "/simfs/public.json";

/// A circuit any choice of whose free wires extends to exactly one witness.
struct Circuit {
    spec: Spec<F>,
    free: Vec<usize>,
    /// The wires that follow, in this order; each by one constraint.
    made: Vec<(usize, Terms<F>, Terms<F>, Terms<F>)>,
}
fn circuit(r: &mut Rng) -> Circuit {
    let (outs, ins, prv) = (r.below(3) as usize, r.below(4) as usize, 1 + r.below(4) as usize);
    let made = 1 + outs + r.below(6) as usize;
    let wires = 1 + ins + prv + made;
    // outputs come first, then inputs, then the rest
    let free: Vec<usize> = (1 + outs..1 + outs + ins + prv).collect();
    let mut order: Vec<usize> = (1..1 + outs).chain(1 + outs + ins + prv..wires).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    let mut known: Vec<usize> = std::iter::once(0).chain(free.iter().copied()).collect();
    let mut spec = Spec {
        outs,
        ins,
        prv,
        wires,
        labels: (0..wires as u64).collect(),
        constraints: vec![],
        gates: vec![],
        uses: vec![],
    };
    let mut steps = vec![];
    for w in order {
        let lc = |r: &mut Rng, most: u64| -> Terms<F> {
            let mut t: Terms<F> = vec![];
            for _ in 0..r.below(most + 1) {
                let k = known[r.below(known.len() as u64) as usize];
                if t.iter().all(|x| x.0 != k) {
                    t.push((k, nonzero(r)));
                }
            }
            t
        };
        steps.push((w, lc(r, 3), lc(r, 3), lc(r, 2)));
        known.push(w);
    }
    // every private wire has to appear somewhere: the rest join the last step's
    let used: std::collections::BTreeSet<usize> =
        steps.iter().flat_map(|s| s.1.iter().chain(&s.2).chain(&s.3).map(|x| x.0).chain([s.0]).collect::<Vec<_>>()).collect();
    let left: Vec<usize> = free.iter().copied().filter(|f| !used.contains(f)).collect();
    let last = steps.last_mut().unwrap();
    for f in left {
        let t = [&mut last.1, &mut last.2, &mut last.3];
        t[r.below(3) as usize].push((f, nonzero(r)));
    }
    for (w, a, b, c) in &steps {
        let mut rhs = c.clone();
        rhs.push((*w, F::ONE));
        spec.constraints.push([a.clone(), b.clone(), rhs]);
    }
    Circuit { spec, free, made: steps }
}
fn nonzero(r: &mut Rng) -> F {
    loop {
        let x: F = some(r);
        if x != F::ZERO {
            return x;
        }
    }
}
impl Circuit {
    fn witness(&self, r: &mut Rng) -> Vec<F> {
        let mut w = vec![F::ZERO; self.spec.wires];
        w[0] = F::ONE;
        for f in &self.free {
            w[*f] = some(r);
        }
        for (k, a, b, c) in &self.made {
            let v = |t: &Terms<F>| t.iter().map(|(i, x)| w[*i] * x).sum::<F>();
            w[*k] = v(a) * v(b) - v(c);
        }
        w
    }
    fn program(&self, r: &mut Rng) -> Program {
        let n = self.spec.wires - 1;
        let mut p = Program {
            n32: 8,
            prime: F::modulus(),
            version: Some(2),
            signals: vec![],
            inputs: n,
            wires: std::iter::once(Wire::Const(BigUint::from(1u8))).chain((0..n).map(Wire::Input)).collect(),
            counts_inputs: true,
            imports_memory: false,
            old_errors: false,
        };
        let mut at = 0;
        while at < n {
            let size = 1 + r.below((n - at) as u64) as usize;
            p.signals.push(Signal { name: format!("s{at}"), size, at, even: false });
            at += size;
        }
        p
    }
    fn publics<'a>(&self, w: &'a [F]) -> &'a [F] {
        &w[1..1 + self.spec.outs + self.spec.ins]
    }
}
fn inputs(p: &Program, w: &[F]) -> Vec<u8> {
    let o: serde_json::Map<String, Value> = p
        .signals
        .iter()
        .map(|s| {
            let v: Vec<String> = (s.at..s.at + s.size).map(|i| w[1 + i].big().to_string()).collect();
            (s.name.clone(), json!(v))
        })
        .collect();
    json!(o).to_string().into_bytes()
}

/// Runs a command until it says Ok, with faults first.
pub fn done<E: std::fmt::Display>(what: &str, inputs: &[&str], cmd: impl Fn() -> Result<(), E>) -> Run {
    let attempts = pick(3);
    let keep: Vec<_> = inputs.iter().map(|p| simfs::get(p).unwrap()).collect();
    for k in 0..attempts + 1 {
        if k > 0 {
            // earlier outputs may not have been synced
            inputs.iter().zip(&keep).for_each(|(p, d)| simfs::put(p, d));
        }
        let last = k == attempts;
        let (x, failed) = if last { (guarded(&cmd), false) } else { on_disk(&cmd) };
        count(if last { "clean_attempts" } else { "faulty_attempts" }, 1);
        state_of(&(what, failed, last, outcome(&x).split('(').next()));
        log(format!("{what} {k}: {}, failed calls: {failed}", outcome(&x)));
        match x {
            Ok(Ok(())) if failed && crashed() => {}
            Ok(Ok(())) => return Ok(()),
            x if !failed => return viol(format!("groth16: {what} fails without a cause"), outcome(&x)),
            _ => {}
        }
    }
    viol("harness: not reached", "")
}
/// With faults first: never a wrong yes, never a no without a cause.
fn verdict(what: &str, valid: bool) -> Run {
    for last in [false, true] {
        if !last && one_in(2) {
            continue;
        }
        let keep = [R1CS, WASM, PK, VK, PUBLIC, PROOF].map(|p| (p, simfs::get(p).unwrap()));
        let cmd = || groth16_verify(CURVE, VK, PUBLIC, PROOF);
        let (x, failed) = if last { (guarded(cmd), false) } else { on_disk(cmd) };
        keep.iter().for_each(|(p, d)| simfs::put(p, d));
        let yes = matches!(x, Ok(Ok(())));
        count(if valid { "honest_verdicts" } else { "other_verdicts" }, 1);
        if yes && !valid {
            return viol("groth16: accepts what is no proof", what);
        }
        if !yes && valid && !failed {
            return viol("groth16: refuses an honest proof", format!("{what}: {}", outcome(&x)));
        }
    }
    Ok(())
}
fn text(x: &BigUint, hex: bool) -> Value {
    let h = x.to_str_radix(16);
    json!(if hex { format!("0x{}{h}", &"0"[h.len() % 2 ^ 1..]) } else { x.to_string() })
}
fn fp(x: &Fp) -> BigUint {
    BigUint::from_bytes_be(&x.to_bytes_be())
}
fn g1(p: &G1Affine, hex: bool) -> Value {
    json!({"x": text(&fp(&p.x()), hex), "y": text(&fp(&p.y()), hex)})
}
fn g2(p: &G2Affine, hex: bool) -> Value {
    let two = |c: Fp2| json!([text(&fp(&c.c0()), hex), text(&fp(&c.c1()), hex)]);
    json!({"x": two(p.x()), "y": two(p.y())})
}
fn some_fp(r: &mut Rng) -> Fp {
    loop {
        let b: Vec<u8> = (0..48).map(|i| if i == 0 { r.below(27) as u8 } else { r.next() as u8 }).collect();
        if let Some(x) = Option::<Fp>::from(Fp::from_bytes_be(&b.try_into().unwrap())) {
            return x;
        }
    }
}
fn read_fp(v: &Value) -> Fp {
    let s = v.as_str().unwrap();
    let x = match s.strip_prefix("0x") {
        Some(h) => BigUint::parse_bytes(h.as_bytes(), 16).unwrap(),
        None => s.parse().unwrap(),
    };
    let mut b = le(&x, 48);
    b.reverse();
    Fp::from_bytes_be(&b.try_into().unwrap()).unwrap()
}
fn read_g1(v: &Value) -> G1Affine {
    G1Affine::from_raw_unchecked(read_fp(&v["x"]), read_fp(&v["y"]), false)
}
fn read_g2(v: &Value) -> G2Affine {
    let two = |c: &Value| Fp2::new(read_fp(&c[0]), read_fp(&c[1]));
    G2Affine::from_raw_unchecked(two(&v["x"]), two(&v["y"]), false)
}
/// On the curve and outside the group, of an order the pairing does not see.
fn stray1(r: &mut Rng) -> G1Affine {
    loop {
        let x = some_fp(r);
        let y: Option<Fp> = (x.square() * x + Fp::from(4u64)).sqrt().into();
        if let Some(y) = y {
            let p = G1Affine::from_raw_unchecked(x, y, false);
            let q = (times_order(p.to_curve())).to_affine();
            if !bool::from(q.is_identity()) {
                return q;
            }
        }
    }
}
fn stray2(r: &mut Rng) -> G2Affine {
    loop {
        let x = Fp2::new(some_fp(r), some_fp(r));
        let four = Fp::from(4u64);
        let y: Option<Fp2> = (x.square() * x + Fp2::new(four, four)).sqrt().into();
        if let Some(y) = y {
            let p = G2Affine::from_raw_unchecked(x, y, false);
            let q = (times_order(p.to_curve())).to_affine();
            if !bool::from(q.is_identity()) {
                return q;
            }
        }
    }
}
fn times_order<G: group::Group>(p: G) -> G {
    let m = F::modulus().to_bytes_be();
    let mut acc = G::identity();
    for b in m {
        for i in (0..8).rev() {
            acc = acc.double();
            if b >> i & 1 == 1 {
                acc += p;
            }
        }
    }
    acc
}

pub fn run() -> Run {
    simcore::set_faults(false);
    let mut r = pick_rng();
    let c = circuit(&mut r);
    let p = c.program(&mut r);
    let hex = one_in(2);
    log(format!("{} wires, {} public, {} constraints, hex {hex}", c.spec.wires, c.spec.outs + c.spec.ins, c.spec.constraints.len()));
    simfs::put(R1CS, &encode(&c.spec, Wrong::Nothing, &mut r));
    simfs::put(WASM, &compile(&p));
    done("setup", &[R1CS], || groth16_setup(CURVE, R1CS, PK, VK, hex))?;
    let vk = simfs::get(VK).unwrap();
    let mut last = None;
    for round in 0..1 + pick(2) {
        let w = c.witness(&mut r);
        simfs::put(INPUT, &inputs(&p, &w));
        let hex = one_in(2);
        done("prove", &[R1CS, WASM, PK, VK, INPUT], || groth16_prove(CURVE, R1CS, WASM, PK, INPUT, PUBLIC, PROOF, hex))?;
        let public: Option<Vec<String>> = simfs::get(PUBLIC).and_then(|d| serde_json::from_slice(&d).ok());
        let want: Vec<String> = c.publics(&w).iter().map(|x| x.big().to_string()).collect();
        if public.as_ref() != Some(&want) {
            return viol("groth16: other public inputs than the witness's", format!("{public:?}, not {want:?}"));
        }
        verdict(&format!("round {round}"), true)?;
        if let Some((proof, public)) = last.replace((simfs::get(PROOF).unwrap(), want.clone())) {
            // the other round's proof holds for these inputs only if they are the same
            let mine = simfs::get(PROOF).unwrap();
            simfs::put(PROOF, &proof);
            verdict("another round's proof", public == want)?;
            simfs::put(PROOF, &mine);
        }
    }
    let (proof, public) = last.unwrap();
    let doc: Value = serde_json::from_slice(&proof).unwrap();
    tamper(&doc, &public, &mut r)?;
    simfs::put(PROOF, &proof);
    simfs::put(PUBLIC, json!(public).to_string().as_bytes());
    match pick(4) {
        3 => inplace(&c, &p, &mut r)?,
        0 => {
            // a witness that does not satisfy the circuit
            let mut w = c.witness(&mut r);
            let Some(k) = (!c.made.is_empty()).then(|| c.made[pick(c.made.len())].0) else { return Ok(()) };
            w[k] += F::ONE;
            let ok = c.spec.constraints.iter().all(|t| {
                let v = |t: &Terms<F>| t.iter().map(|(i, x)| w[*i] * x).sum::<F>();
                v(&t[0]) * v(&t[1]) == v(&t[2])
            });
            simfs::put(INPUT, &inputs(&p, &w));
            simfs::remove(PROOF);
            let x = guarded(|| groth16_prove(CURVE, R1CS, WASM, PK, INPUT, PUBLIC, PROOF, hex));
            count("bad_witnesses", 1);
            if !ok && matches!(x, Ok(Ok(()))) {
                verdict("an unsatisfying witness", false)?;
            }
        }
        1 => {
            // another key of the same circuit
            done("setup", &[R1CS], || groth16_setup(CURVE, R1CS, PK, VK, hex))?;
            verdict("another key", false)?;
        }
        _ => {
            simfs::put(VK, &vk);
            let x = guarded(|| groth16_verify("BLS12-377", VK, PUBLIC, PROOF));
            if matches!(x, Ok(Ok(()))) {
                return viol("groth16: accepts what is no proof", "an unknown curve");
            }
        }
    }
    Ok(())
}

/// The same with circuit and keys kept in memory, for more than one proof.
fn inplace(c: &Circuit, p: &Program, r: &mut Rng) -> Run {
    if matches!(guarded(|| groth16_setup_inplace("BN-128", R1CS).is_ok()), Ok(true)) {
        return viol("groth16: sets up for an unknown curve", "");
    }
    let (circuit, pk, vk) = match guarded(|| groth16_setup_inplace(CURVE, R1CS)) {
        Ok(Ok(SetupResult::BLS12381(c, pk, vk))) => (c, pk, vk),
        Ok(Err(e)) => return viol("groth16: setup fails without a cause", e),
        Err(e) => return viol("groth16: setup fails without a cause", e),
    };
    let doc = match guarded(|| groth16::json_utils::serialize_vk(&vk, CURVE, one_in(2))) {
        Ok(Ok(d)) => d,
        x => return viol("groth16: key not written", outcome(&x)),
    };
    simfs::put(VK, doc.as_bytes());
    for round in 0..1 + pick(2) {
        let w = c.witness(r);
        simfs::put(INPUT, &inputs(p, &w));
        let hex = one_in(2);
        if one_in(2) {
            // a proof of its own, by way of the witness
            let all: Vec<_> = w.iter().map(|x| num_bigint::BigInt::from(x.big())).collect();
            let with = match guarded(|| create_circuit_add_witness(circuit.clone(), all)) {
                Ok(x) => x,
                Err(p) => return viol("groth16: witness not added", p),
            };
            let want: Vec<String> = c.publics(&w).iter().map(|x| x.big().to_string()).collect();
            let got: Option<Vec<String>> = guarded(|| serde_json::from_str(&with.get_public_inputs_json()).unwrap()).ok();
            if with.witness.as_ref() != Some(&w) || got != Some(want) || with.get_public_inputs().as_deref() != Some(c.publics(&w)) {
                return viol("groth16: other public inputs than the witness's", format!("{got:?}"));
            }
        }
        done("prove", &[WASM, INPUT, VK], || {
            groth16_prove_inplace(CURVE, circuit.clone(), WASM, pk.clone(), INPUT, PUBLIC, PROOF, hex)
        })?;
        let public: Option<Vec<String>> = simfs::get(PUBLIC).and_then(|d| serde_json::from_slice(&d).ok());
        let want: Vec<String> = c.publics(&w).iter().map(|x| x.big().to_string()).collect();
        if public.as_ref() != Some(&want) {
            return viol("groth16: other public inputs than the witness's", format!("{public:?}, not {want:?}"));
        }
        let doc: Value = serde_json::from_slice(&simfs::get(PROOF).unwrap()).unwrap();
        if doc["protocol"] != "groth16" || doc["curve"] != CURVE {
            return viol("groth16: mislabelled proof", doc);
        }
        count("proofs_in_place", 1);
        verdict(&format!("in place, round {round}"), true)?;
        let other = text(&(c.publics(&w).first().map(|x| x.big()).unwrap_or_default() + 1u8), false);
        let mut public = want;
        match public.first_mut() {
            Some(x) => *x = other.as_str().unwrap().to_string(),
            None => public.push("1".into()),
        }
        simfs::put(PUBLIC, json!(public).to_string().as_bytes());
        verdict("another public input", false)?;
    }
    Ok(())
}

fn tamper(doc: &Value, public: &[String], r: &mut Rng) -> Run {
    let bytes = doc.to_string().into_bytes();
    let hex = one_in(2);
    for _ in 0..2 {
        simfs::put(PROOF, &bytes);
        simfs::put(PUBLIC, json!(public).to_string().as_bytes());
        let mut d = doc.clone();
        let mut x = public.to_vec();
        let kind = pick(9);
        let what = match kind {
            0 if !x.is_empty() => {
                let i = r.below(x.len() as u64) as usize;
                let v: BigUint = x[i].parse().unwrap();
                let n = if r.below(2) == 0 { v + 1u8 } else { some::<F>(r).big() };
                if n.to_string() == x[i] {
                    continue;
                }
                let n = n % F::modulus();
                // the same residue, but no field element, is another input too
                let v: BigUint = x[i].parse().unwrap();
                let n = if r.below(4) == 0 { v + F::modulus() } else { n };
                x[i] = text(&n, hex).as_str().unwrap().to_string();
                "another public input"
            }
            1 => {
                if r.below(2) == 0 && !x.is_empty() {
                    x.pop();
                } else {
                    x.push("0".into());
                }
                "another number of public inputs"
            }
            2 => {
                d["pi_a"] = doc["pi_c"].clone();
                "another point"
            }
            3 => {
                d["pi_b"] = g2(&-read_g2(&doc["pi_b"]), hex);
                "a negated point"
            }
            4 => {
                let k = ["pi_a", "pi_c"][r.below(2) as usize];
                let p = (read_g1(&doc[k]).to_curve() + stray1(r).to_curve()).to_affine();
                d[k] = g1(&p, hex);
                "a point outside the group"
            }
            5 => {
                let p = (read_g2(&doc["pi_b"]).to_curve() + stray2(r).to_curve()).to_affine();
                d["pi_b"] = g2(&p, hex);
                "a point outside the group"
            }
            6 => {
                let k = ["pi_a", "pi_c"][r.below(2) as usize];
                d[k]["y"] = text(&fp(&some_fp(r)), hex);
                "a point off the curve"
            }
            7 => {
                d["pi_a"] = g1(&(read_g1(&doc["pi_a"]).to_curve() + G1Affine::generator().to_curve()).to_affine(), hex);
                "another point"
            }
            _ => {
                let t = if r.below(2) == 0 { &bytes } else { &json!(public).to_string().into_bytes() };
                let t = &t[..r.below(t.len() as u64) as usize];
                simfs::put(if t.starts_with(b"{") { PROOF } else { PUBLIC }, t);
                if t.is_empty() {
                    simfs::put(PROOF, t);
                }
                verdict("a cut file", false)?;
                continue;
            }
        };
        simfs::put(PROOF, d.to_string().as_bytes());
        simfs::put(PUBLIC, json!(x).to_string().as_bytes());
        verdict(what, false)?;
    }
    // the same proof written in the other radix
    let both = |f: bool| {
        json!({"pi_a": g1(&read_g1(&doc["pi_a"]), f), "pi_b": g2(&read_g2(&doc["pi_b"]), f),
               "pi_c": g1(&read_g1(&doc["pi_c"]), f), "protocol": "groth16", "curve": CURVE})
    };
    simfs::put(PROOF, both(hex).to_string().as_bytes());
    let v: Vec<Value> = public.iter().map(|x| text(&x.parse().unwrap(), hex)).collect();
    simfs::put(PUBLIC, json!(v).to_string().as_bytes());
    verdict("the same proof in another radix", true)
}

pub fn prewarm() {}
