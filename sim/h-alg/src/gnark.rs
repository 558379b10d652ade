//! Groth16 keys, proofs and public inputs exchanged with gnark and snarkjs: what is read is what was
//! written, invalid points never get through, and what comes back verifies exactly as before.
use ark_bls12_381::{Bls12_381, Fq, Fq12, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::{AdditiveGroup, BigInteger, Field, PrimeField};
use ark_groth16::{prepare_verifying_key, Groth16, Proof, VerifyingKey};
use recursion_gnark_ffi::json_util::*;
use recursion_gnark_ffi::traits::*;
use serde_json::{json, Value};
use simcore::{simfs, Rng};
use simharness::disk::*;
use simharness::*;
use std::fs::File;
use std::io::BufReader;

type Vk = JsonVerificationKey<Bls12_381>;
type Pf = Groth16Proof<Bls12_381>;
type Pi = JsonPublicInput<Fr>;

const R: &str = "52435875175126190479447740508185965837690552500527637822603658699938581184513";
const Q: &str = "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787";

fn fr(r: &mut Rng) -> Fr {
    match r.below(8) {
        0 => Fr::ZERO,
        1 => Fr::ONE,
        2 => -Fr::ONE,
        3 => Fr::from(r.below(1000)),
        _ => Fr::from_le_bytes_mod_order(&(0..48).map(|_| r.next() as u8).collect::<Vec<_>>()),
    }
}
fn nz(r: &mut Rng) -> Fr {
    loop {
        let x = fr(r);
        if x != Fr::ZERO {
            return x;
        }
    }
}
fn fq(r: &mut Rng) -> Fq {
    match r.below(8) {
        0 => Fq::ZERO,
        1 => -Fq::ONE,
        2 => Fq::from(r.below(1000)),
        _ => Fq::from_le_bytes_mod_order(&(0..64).map(|_| r.next() as u8).collect::<Vec<_>>()),
    }
}
fn g1(x: Fr) -> G1Affine {
    (G1Projective::generator() * x).into_affine()
}
fn g2(x: Fr) -> G2Affine {
    (G2Projective::generator() * x).into_affine()
}
/// A valid key with known exponents, its proof for some inputs.
struct Setup {
    vk: Vk,
    proof: Pf,
    publics: Vec<Fr>,
}
fn setup(r: &mut Rng) -> Setup {
    let (al, be, ga, de) = (nz(r), nz(r), nz(r), nz(r));
    let n = r.below(5) as usize;
    let u: Vec<Fr> = (0..n + 1).map(|_| fr(r)).collect();
    let publics: Vec<Fr> = (0..n).map(|_| fr(r)).collect();
    let ic = u[0] + u[1..].iter().zip(&publics).map(|(a, b)| *a * b).sum::<Fr>();
    let (a, b) = (fr(r), fr(r));
    let c = (a * b - al * be - ga * ic) * de.inverse().unwrap();
    let (alpha, beta) = (g1(al), g2(be));
    Setup {
        vk: Vk {
            protocol: "groth16".into(),
            n_public: n,
            alpha_1: alpha,
            beta_2: beta,
            gamma_2: g2(ga),
            delta_2: g2(de),
            alpha_beta_gt: Bls12_381::pairing(alpha, beta).0,
            ic: u.into_iter().map(g1).collect(),
        },
        proof: Pf {
            pi_a: g1(a),
            pi_b: g2(b),
            pi_c: g1(c),
            protocol: "groth16".into(),
            curve: "bls12381".into(),
        },
        publics,
    }
}
fn verifies(vk: &Vk, p: &Pf, x: &[Fr]) -> bool {
    let vk = VerifyingKey::<Bls12_381> {
        alpha_g1: vk.alpha_1,
        beta_g2: vk.beta_2,
        gamma_g2: vk.gamma_2,
        delta_g2: vk.delta_2,
        gamma_abc_g1: vk.ic.clone(),
    };
    let p = Proof { a: p.pi_a, b: p.pi_b, c: p.pi_c };
    matches!(Groth16::<Bls12_381>::verify_proof(&prepare_verifying_key(&vk), &p, x), Ok(true))
}

// ------------------------------------------------------------------ the format
fn dec<F: PrimeField>(x: &F) -> Value {
    json!(num_bigint::BigUint::from_bytes_le(&x.into_bigint().to_bytes_le()).to_string())
}
fn dec2(x: &Fq2) -> Value {
    json!([dec(&x.c0), dec(&x.c1)])
}
/// `z`: which of its projective representations.
fn j1(p: &G1Affine, z: Fq) -> Value {
    if p.is_zero() {
        return json!(["0", "1", "0"]);
    }
    json!([dec(&(p.x * z.square())), dec(&(p.y * z.square() * z)), dec(&z)])
}
fn j2(p: &G2Affine, z: Fq2) -> Value {
    if p.is_zero() {
        return json!([["0", "0"], ["1", "0"], ["0", "0"]]);
    }
    json!([dec2(&(p.x * z.square())), dec2(&(p.y * z.square() * z)), dec2(&z)])
}
fn jt(t: &Fq12) -> Value {
    let six = |x: &ark_bls12_381::Fq6| json!([dec2(&x.c0), dec2(&x.c1), dec2(&x.c2)]);
    json!([six(&t.c0), six(&t.c1)])
}
/// The key as gnark writes it; `z1`, `z2` give each point's representation.
fn jvk(v: &Vk, z1: &mut dyn FnMut() -> Fq, z2: &mut dyn FnMut() -> Fq2) -> Value {
    json!({
        "protocol": v.protocol, "nPublic": v.n_public,
        "vk_alpha_1": j1(&v.alpha_1, z1()), "vk_beta_2": j2(&v.beta_2, z2()),
        "vk_gamma_2": j2(&v.gamma_2, z2()), "vk_delta_2": j2(&v.delta_2, z2()),
        "vk_alphabeta_12": jt(&v.alpha_beta_gt),
        "IC": v.ic.iter().map(|p| j1(p, z1())).collect::<Vec<_>>(),
    })
}
fn jpf(p: &Pf, z1: &mut dyn FnMut() -> Fq, z2: &mut dyn FnMut() -> Fq2) -> Value {
    json!({
        "pi_a": j1(&p.pi_a, z1()), "pi_b": j2(&p.pi_b, z2()), "pi_c": j1(&p.pi_c, z1()),
        "protocol": p.protocol, "curve": p.curve,
    })
}

/// A point that is no group element: off the curve, or on it and outside the subgroup.
fn bad1(r: &mut Rng) -> (Fq, Fq) {
    loop {
        let x = fq(r);
        let y2 = x.square() * x + Fq::from(4u64);
        if r.below(2) == 0 {
            let y = fq(r);
            // both zero is how the identity is written
            if y.square() != y2 && (x, y) != (Fq::ZERO, Fq::ZERO) {
                return (x, y);
            }
        } else if let Some(y) = y2.sqrt() {
            if !G1Affine::new_unchecked(x, y).is_in_correct_subgroup_assuming_on_curve() {
                return (x, y);
            }
        }
    }
}
fn bad2(r: &mut Rng) -> (Fq2, Fq2) {
    loop {
        let x = Fq2::new(fq(r), fq(r));
        let y2 = x.square() * x + Fq2::new(Fq::from(4u64), Fq::from(4u64));
        if r.below(2) == 0 {
            let y = Fq2::new(fq(r), fq(r));
            // both zero is how the identity is written
            if y.square() != y2 && (x, y) != (Fq2::ZERO, Fq2::ZERO) {
                return (x, y);
            }
        } else if let Some(y) = y2.sqrt() {
            if !G2Affine::new_unchecked(x, y).is_in_correct_subgroup_assuming_on_curve() {
                return (x, y);
            }
        }
    }
}

/// One thing wrong with a document; `None` if nothing could be changed there.
fn damage(v: &mut Value, r: &mut Rng) -> Option<String> {
    let o = v.as_object_mut().unwrap();
    let keys: Vec<String> =
        o.keys().filter(|k| k.starts_with("vk_") || k.starts_with("pi_") || *k == "IC").cloned().collect();
    let k = keys[r.below(keys.len() as u64) as usize].clone();
    if r.below(8) == 0 {
        o.remove(&k);
        return Some(format!("{k} missing"));
    }
    let e = o.get_mut(&k).unwrap();
    let i = if k == "IC" { r.below(e.as_array().unwrap().len() as u64) as usize } else { 0 };
    let point = if k == "IC" { &mut e[i] } else { e };
    let g2 = point[0].is_array();
    let target = k == "vk_alphabeta_12";
    match r.below(4) {
        0 if !target => {
            // another point's representation may not have this z
            if g2 {
                let (x, y) = bad2(r);
                *point = json!([dec2(&x), dec2(&y), ["1", "0"]]);
            } else {
                let (x, y) = bad1(r);
                *point = json!([dec(&x), dec(&y), "1"]);
            }
            Some(format!("{k} no group element"))
        }
        1 => {
            let a = point.as_array_mut().unwrap();
            // the target group's elements say how long they are only where it matters
            if r.below(3) > 0 || target {
                a.truncate(r.below(a.len() as u64) as usize);
            } else {
                let more = if r.below(2) == 0 { a[0].clone() } else { json!("1") };
                a.push(more);
            }
            Some(format!("{k} of another length"))
        }
        2 if g2 => {
            let n = point.as_array().unwrap().len() as u64;
            let mut at = &mut point[r.below(n) as usize];
            while at[0].is_array() && r.below(2) == 0 {
                let n = at.as_array().unwrap().len() as u64;
                at = &mut at[r.below(n) as usize];
            }
            let a = at.as_array_mut().unwrap();
            if r.below(2) == 0 {
                a.truncate(r.below(a.len() as u64) as usize);
            } else {
                a.push(a[0].clone());
            }
            Some(format!("{k} with a coordinate of another length"))
        }
        _ => {
            let n = point.as_array().unwrap().len() as u64;
            let mut at = &mut point[r.below(n) as usize];
            while at.is_array() {
                let n = at.as_array().unwrap().len() as u64;
                at = &mut at[r.below(n) as usize];
            }
            *at = [json!("x1"), json!(""), json!(12), json!("0x10"), json!(null), json!("1.0"), json!("1 ")]
                [r.below(7) as usize]
                .clone();
            Some(format!("{k} with no number"))
        }
    }
}

/// Reads a document from the failing disk, and compares.
fn read_doc<T: PartialEq + std::fmt::Debug>(
    what: &str,
    text: &[u8],
    want: Option<&T>,
    read: impl Fn(BufReader<File>) -> Result<T, serde_json::Error>,
) -> Run {
    let path = "/simfs/doc.json";
    simfs::put(path, text);
    let (x, failed) = on_disk(|| -> Result<T, String> {
        read(BufReader::new(File::open(path).map_err(|e| e.to_string())?)).map_err(|e| e.to_string())
    });
    count(if want.is_some() { "documents" } else { "damaged_documents" }, 1);
    state_of(&(what.split(' ').next(), failed, outcome(&x).split('(').next()));
    match (x, want) {
        (Err(p), _) if !failed => viol("gnark: panic on a document", format!("{what}: {p}")),
        (Ok(Ok(v)), Some(w)) if v == *w => Ok(()),
        (Ok(Ok(v)), Some(_)) => viol("gnark: read another one than was written", format!("{what}: {}", short(&format!("{v:?}"), 300))),
        (Ok(Ok(_)), None) => viol("gnark: damaged document read", what),
        (x, Some(_)) if !failed => viol("gnark: document not read, without a cause", format!("{what}: {}", outcome(&x))),
        _ => Ok(()),
    }
}

fn documents() -> Run {
    let mut r = pick_rng();
    let s = setup(&mut r);
    if !verifies(&s.vk, &s.proof, &s.publics) {
        return viol("harness: the proof is none", "");
    }
    // written
    let one1 = &mut || Fq::ONE;
    let one2 = &mut || Fq2::ONE;
    let want = [jvk(&s.vk, one1, one2), jpf(&s.proof, one1, one2), json!(s.publics.iter().map(dec).collect::<Vec<_>>())];
    let wrote = guarded(|| {
        let p = Pi { values: s.publics.clone() };
        [serde_json::to_string(&s.vk), serde_json::to_string_pretty(&s.proof), serde_json::to_string(&p)]
    });
    let wrote = match wrote {
        Ok(w) => w,
        Err(p) => return viol("gnark: panic while writing", p),
    };
    let mut texts = vec![];
    for (w, want) in wrote.into_iter().zip(&want) {
        let text = match w {
            Ok(t) => t,
            Err(e) => return viol("gnark: not written", e),
        };
        let v: Value = serde_json::from_str(&text).unwrap();
        if v != *want {
            return viol("gnark: wrote another document than the format's", format!("{} for {}", short(&text, 300), short(&want.to_string(), 300)));
        }
        texts.push(text.into_bytes());
    }
    // read
    read_doc("key as written", &texts[0], Some(&s.vk), Vk::from_reader)?;
    read_doc("proof as written", &texts[1], Some(&s.proof), |f| serde_json::from_reader(f))?;
    read_doc("inputs as written", &texts[2], Some(&Pi { values: s.publics.clone() }), |f| serde_json::from_reader(f))?;
    // other representations of the same points
    let mut q = Rng::new(r.next());
    let z1 = &mut || loop {
        let z = fq(&mut q);
        if z != Fq::ZERO {
            return z;
        }
    };
    let mut q2 = Rng::new(r.next());
    let z2 = &mut || loop {
        let z = Fq2::new(fq(&mut q2), fq(&mut q2));
        if z != Fq2::ZERO {
            return z;
        }
    };
    read_doc("key in other coordinates", jvk(&s.vk, z1, z2).to_string().as_bytes(), Some(&s.vk), Vk::from_reader)?;
    read_doc("proof in other coordinates", jpf(&s.proof, z1, z2).to_string().as_bytes(), Some(&s.proof), |f| {
        serde_json::from_reader(f)
    })?;
    // another proof, or other inputs, read back: the verdict is the same as before
    let mut p = s.proof;
    let mut x = s.publics.clone();
    match pick(3) {
        0 => std::mem::swap(&mut p.pi_a, &mut p.pi_c),
        1 if !x.is_empty() => {
            let i = pick(x.len());
            x[i] += Fr::ONE;
        }
        _ => p.pi_b = -p.pi_b,
    }
    let text = serde_json::to_string(&p).unwrap();
    if let Ok(back) = serde_json::from_str::<Pf>(&text) {
        if verifies(&s.vk, &back, &x) != verifies(&s.vk, &p, &x) {
            return viol("gnark: a read proof has another verdict", text);
        }
    }
    // damaged
    for (what, text, proof) in [("key", &texts[0], false), ("proof", &texts[1], true)] {
        if one_in(2) {
            let mut v: Value = serde_json::from_slice(text).unwrap();
            if let Some(d) = damage(&mut v, &mut r) {
                let t = v.to_string().into_bytes();
                let what = format!("{what}, {d}");
                if proof {
                    read_doc::<Pf>(&what, &t, None, |f| serde_json::from_reader(f))?;
                } else {
                    read_doc::<Vk>(&what, &t, None, Vk::from_reader)?;
                }
            }
        } else {
            let t = &text[..pick(text.len().saturating_sub(2).max(1))];
            if proof {
                read_doc::<Pf>("proof cut", t, None, |f| serde_json::from_reader(f))?;
            } else {
                read_doc::<Vk>("key cut", t, None, Vk::from_reader)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ binary files
fn raw(x: &Fq) -> Vec<u8> {
    // as in memory: times R
    x.0.to_bytes_le()
}
fn raw1(p: (Fq, Fq)) -> Vec<u8> {
    [raw(&p.0), raw(&p.1)].concat()
}
fn raw2(p: (Fq2, Fq2)) -> Vec<u8> {
    [raw(&p.0.c0), raw(&p.0.c1), raw(&p.1.c0), raw(&p.1.c1)].concat()
}
fn binary() -> Run {
    let mut r = pick_rng();
    let n = *pick_of(&[0usize, 1, 2, 3, 9, 40]);
    let second = one_in(2);
    let mut bytes = vec![];
    let mut p1 = vec![];
    let mut p2 = vec![];
    let bad = (one_in(3) && n > 0).then(|| pick(n));
    let some: Vec<Fr> = (0..4).map(|_| fr(&mut r)).collect();
    for i in 0..n {
        let k = if i < 4 { some[i] } else { some[i % 4] + Fr::from((i / 4) as u64) };
        if second {
            let p = g2(k);
            let mut c = p.xy().unwrap_or((Fq2::ZERO, Fq2::ZERO));
            if bad == Some(i) {
                c = bad2(&mut r);
            }
            p2.push(if c == (Fq2::ZERO, Fq2::ZERO) { G2Affine::zero() } else { G2Affine::new_unchecked(c.0, c.1) });
            bytes.extend(raw2(c));
        } else {
            let p = g1(k);
            let mut c = p.xy().unwrap_or((Fq::ZERO, Fq::ZERO));
            if bad == Some(i) {
                c = bad1(&mut r);
            }
            p1.push(if c == (Fq::ZERO, Fq::ZERO) { G1Affine::zero() } else { G1Affine::new_unchecked(c.0, c.1) });
            bytes.extend(raw1(c));
        }
    }
    let cut = (one_in(4) && !bytes.is_empty()).then(|| pick(bytes.len()));
    if let Some(c) = cut {
        bytes.truncate(c);
    } else {
        // more follows in such files
        bytes.extend((0..pick(200)).map(|_| r.next() as u8));
    }
    let check = one_in(2);
    let refused = cut.is_some() || (bad.is_some() && check);
    let ce = || if check { CheckElement::Yes } else { CheckElement::No };
    let path = "/simfs/points";
    simfs::put(path, &bytes);
    let single = n > 0 && one_in(4);
    let buffered = one_in(2);
    let what = format!("{n} G{} points, check {check}, bad {bad:?}, cut {cut:?}, one by one {single}", 1 + second as u8);
    log(&what);
    count("point_files", 1);
    let (x, failed) = on_disk(|| -> Result<bool, String> {
        let f = File::open(path).map_err(|e| e.to_string())?;
        let mut f: Box<dyn std::io::Read> = if buffered { Box::new(BufReader::new(f)) } else { Box::new(f) };
        let e = |e: ark_serialize::SerializationError| e.to_string();
        Ok(if second {
            let v = if single {
                (0..n).map(|_| Bls12_381::g2_from_reader(&mut f, ce())).collect::<Result<Vec<_>, _>>().map_err(e)?
            } else {
                Bls12_381::g2_vec_from_reader(&mut f, n, ce()).map_err(e)?
            };
            v == p2
        } else {
            let v = if single {
                (0..n).map(|_| Bls12_381::g1_from_reader(&mut f, ce())).collect::<Result<Vec<_>, _>>().map_err(e)?
            } else {
                Bls12_381::g1_vec_from_reader(&mut f, n, ce()).map_err(e)?
            };
            v == p1
        })
    });
    state_of(&(n, second, check, bad.is_some(), cut.is_some(), single, failed));
    match x {
        Err(p) => viol("gnark: panic on points", format!("{what}: {p}")),
        Ok(Ok(_)) if refused => viol("gnark: invalid points read", what),
        Ok(Ok(false)) => viol("gnark: other points than the file's", what),
        Ok(Err(e)) if !failed && !refused => viol("gnark: points not read, without a cause", format!("{what}: {e}")),
        _ => Ok(()),
    }
}

/// Single elements, written to and read from documents.
fn values() -> Run {
    let mut r = pick_rng();
    let x = fr(&mut r);
    let k = fr(&mut r);
    let (p, q) = (g1(k), g2(x));
    let mut t = Bls12_381::pairing(p, q).0;
    t.c0.c0.c0 += Fq::from(r.below(3));
    let z1 = loop {
        let z = fq(&mut r);
        if z != Fq::ZERO {
            break z;
        }
    };
    let ser = || serde_json::value::Serializer;
    let wrote = guarded(|| {
        [
            Bls12_381::serialize_fr(&x, ser()),
            Bls12_381::serialize_g1(&p, ser()),
            Bls12_381::serialize_g2(&q, ser()),
            Bls12_381::serialize_gt(&t, ser()),
        ]
    });
    let want = [dec(&x), j1(&p, Fq::ONE), j2(&q, Fq2::ONE), jt(&t)];
    let wrote = match wrote {
        Ok(w) => w,
        Err(p) => return viol("gnark: panic while writing", p),
    };
    for (w, want) in wrote.into_iter().zip(&want) {
        match w {
            Ok(w) if w == *want => {}
            w => return viol("gnark: wrote another document than the format's", format!("{w:?} for {want}")),
        }
    }
    // the fourth with all three other coordinates
    let [wx, wp, wq, wt] = [want[0].clone(), j1(&p, z1), j2(&q, Fq2::new(z1, fq(&mut r))), want[3].clone()];
    let back = guarded(|| {
        (
            Bls12_381::deserialize_fr_element(wx).map_err(|e| e.to_string()),
            Bls12_381::deserialize_g1_element(wp).map_err(|e| e.to_string()),
            Bls12_381::deserialize_g2_element(wq).map_err(|e| e.to_string()),
            Bls12_381::deserialize_gt_element(wt).map_err(|e| e.to_string()),
        )
    });
    match back {
        Ok((a, b, c, d)) if a == Ok(x) && b == Ok(p) && c == Ok(q) && d == Ok(t) => {}
        Ok(v) => return viol("gnark: read another one than was written", short(&format!("{v:?}, not {x} {p} {q} {t}"), 600)),
        Err(p) => return viol("gnark: panic on a document", p),
    }
    // the points by their coordinates, checked and not
    let off = bad1(&mut r);
    let off2 = bad2(&mut r);
    let c = |x: &Fq| dec(x).as_str().unwrap().to_string();
    for check in [false, true] {
        let ce = || if check { CheckElement::Yes } else { CheckElement::No };
        let got = guarded(|| {
            let z = |z: Fq| (z.square(), z.square() * z, z);
            let (z2, z3, z1) = z(z1);
            (
                Bls12_381::g1_from_strings_projective(&c(&(off.0 * z2)), &c(&(off.1 * z3)), &c(&z1), ce()).ok(),
                Bls12_381::g2_from_strings_projective(
                    &c(&(off2.0.c0 * z2)),
                    &c(&(off2.0.c1 * z2)),
                    &c(&(off2.1.c0 * z3)),
                    &c(&(off2.1.c1 * z3)),
                    &c(&z1),
                    "0",
                    ce(),
                )
                .ok(),
            )
        });
        match got {
            Err(p) => return viol("gnark: panic on points", p),
            Ok((None, None)) if check => {}
            Ok(g) if check => return viol("gnark: invalid points read", format!("{g:?}")),
            Ok((Some(a), Some(b))) if a.xy() == Some(off) && b.xy() == Some(off2) => {}
            Ok(g) => return viol("gnark: other points than the file's", format!("{g:?} unchecked, for {off:?} {off2:?}")),
        }
    }
    // text that is no element
    for t in [json!("x1"), json!(""), json!(7), json!("-"), json!(null), json!(["1"]), json!("1 "), json!("0x1")] {
        let r = guarded(|| Bls12_381::deserialize_fr_element(&t).map_err(|e| e.to_string()));
        if !matches!(r, Ok(Err(_))) {
            return viol("gnark: damaged document read", format!("{t} as {r:?}"));
        }
    }
    let name = Bls12_381::get_arkworks_name();
    if name != "bls12381" {
        return viol("gnark: another curve's name", name);
    }
    count("single_values", 4);
    Ok(())
}

fn elements() -> Run {
    let mut r = pick_rng();
    // Montgomery's factors
    let two_pow = |n: u64| Fr::from(2u64).pow([n]);
    let q_pow = |n: u64| Fq::from(2u64).pow([n]);
    for _ in 0..4 {
        let x = fr(&mut r);
        let y = fq(&mut r);
        let le = |v: Vec<u8>| v;
        let get = guarded(|| {
            (
                Fr::from_reader(&le(x.into_bigint().to_bytes_le())[..]).ok(),
                Fr::montgomery_bigint_from_reader(&le((x * two_pow(256)).into_bigint().to_bytes_le())[..]).ok(),
                Fr::from_reader_for_groth16_zkey(&le((x * two_pow(512)).into_bigint().to_bytes_le())[..]).ok(),
                Fq::from_reader(&le(y.into_bigint().to_bytes_le())[..]).ok(),
                Fq::montgomery_bigint_from_reader(&le((y * q_pow(384)).into_bigint().to_bytes_le())[..]).ok(),
                Fq::from_reader_for_groth16_zkey(&le((y * q_pow(768)).into_bigint().to_bytes_le())[..]).ok(),
            )
        });
        let want = (Some(x), Some(x), Some(x), Some(y), Some(y), Some(y));
        match get {
            Ok(g) if g == want => {}
            g => return viol("gnark: other field elements than the file's", format!("{g:?}, not {x} {y}")),
        }
        // numbers of the full width stand for their remainders
        let mut wide = [0u8; 48];
        wide.iter_mut().for_each(|b| *b = if r.below(4) == 0 { 0xff } else { r.next() as u8 });
        let rest = |m: &str, n: usize| {
            num_bigint::BigUint::from_bytes_le(&wide[..n]) % num_bigint::BigUint::parse_bytes(m.as_bytes(), 10).unwrap()
        };
        let get = guarded(|| {
            let big = |v: Vec<u8>| num_bigint::BigUint::from_bytes_le(&v);
            (
                Fr::from_reader(&wide[..]).map(|x| big(x.into_bigint().to_bytes_le())).ok(),
                Fq::from_reader(&wide[..]).map(|x| big(x.into_bigint().to_bytes_le())).ok(),
            )
        });
        match get {
            Ok((Some(a), Some(b))) if a == rest(R, 32) && b == rest(Q, 48) => {}
            g => return viol("gnark: other field elements than the file's", format!("{g:?} for {wide:x?}")),
        }
        let short = &[0u8; 48][..r.below(48) as usize];
        let few = &[0u8; 32][..r.below(32) as usize];
        let get = guarded(|| {
            [
                Fr::from_reader(few).is_ok(),
                Fr::montgomery_bigint_from_reader(few).is_ok(),
                Fr::from_reader_for_groth16_zkey(few).is_ok(),
                Fq::from_reader(short).is_ok(),
                Fq::montgomery_bigint_from_reader(short).is_ok(),
                Fq::from_reader_for_groth16_zkey(short).is_ok(),
                Bls12_381::g1_from_reader(short, CheckElement::No).is_ok(),
                Bls12_381::g2_from_reader(short, CheckElement::No).is_ok(),
                // whole first coordinates
                Bls12_381::g1_from_bytes(&[0u8; 96][..48 + short.len()], CheckElement::No).is_ok(),
            ]
        });
        if get != Ok([false; 9]) {
            return viol("gnark: damaged document read", format!("short element: {get:?}"));
        }
    }
    Ok(())
}

pub fn run() -> Run {
    simcore::set_faults(false);
    match pick(4) {
        0 => documents(),
        1 => binary(),
        2 => elements(),
        _ => values(),
    }
}
pub fn prewarm() {}
