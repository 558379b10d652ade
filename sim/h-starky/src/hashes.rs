//! P18: the hash functions under their own names. Concurrent callers share hashers and hash inputs of every length, capacity and number of outputs; each
//! answer is compared with a reference built from the definition.
use crate::merkle::{gl_sponge, Bls, BlsFr, Bn, BnFr, Fam};
use crate::util::*;
use ff::{Field as _, PrimeField};
use simcore::{Rng, SimConfig};
use simharness::*;
use starky::linearhash::LinearHash;
use starky::linearhash_bls12381::LinearHashBLS12381;
use starky::linearhash_bn128::LinearHashBN128;
use starky::traits::MTNodeType;
use starky::ElementDigest;
use std::sync::Arc;

pub fn config(rng: &mut Rng, c: &mut SimConfig) {
    sched_config(rng, c);
}
const SIG: &str = "hash: an output differs from the reference";
const SHAPE: &str = "hash: an input of an invalid shape is not refused";

struct Hashers {
    gl: starky::poseidon_opt::Poseidon,
    bn: starky::poseidon_bn128_opt::Poseidon,
    bls: starky::poseidon_bls12381_opt::Poseidon,
    lgl: LinearHash,
    lbn: LinearHashBN128,
    lbls: LinearHashBLS12381,
}
fn hashers() -> Hashers {
    Hashers {
        gl: starky::poseidon_opt::Poseidon::new(),
        bn: starky::poseidon_bn128_opt::Poseidon::new(),
        bls: starky::poseidon_bls12381_opt::Poseidon::new(),
        lgl: LinearHash::new(),
        lbn: LinearHashBN128::new(),
        lbls: LinearHashBLS12381::new(),
    }
}

fn text(x: &impl std::fmt::Debug) -> String {
    short(&format!("{x:?}"), 300)
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: Result<anyhow::Result<T>, String>, want: Option<T>) -> Run {
    count("hashes", 1);
    match (got, want) {
        (Ok(Ok(g)), Some(w)) if g == w => Ok(()),
        (Ok(Ok(g)), Some(w)) => viol(SIG, format!("{what}: {}, expected {}", text(&g), text(&w))),
        (Ok(Ok(g)), None) => viol(SHAPE, format!("{what}: {}", text(&g))),
        (Ok(Err(_)) | Err(_), None) => Ok(()),
        (Ok(Err(e)), Some(_)) => viol("hash: a valid input is refused", format!("{what}: {e}")),
        (Err(p), Some(_)) => viol("hash: panics on a valid input", format!("{what}: {p}")),
    }
}

/// The AVX-512 build hashes two inputs of one length at a time.
trait Limbs {
    const INPUTS: usize;
    fn limbs(&self) -> Vec<FGL>;
}
impl Limbs for starky::ElementDigest<4, FGL> {
    const INPUTS: usize = 1;
    fn limbs(&self) -> Vec<FGL> {
        self.as_elements().to_vec()
    }
}
impl Limbs for [starky::ElementDigest<4, FGL>; 2] {
    const INPUTS: usize = 2;
    fn limbs(&self) -> Vec<FGL> {
        [self[0].as_elements(), self[1].as_elements()].concat()
    }
}
fn inputs_of<T: Limbs>(_: impl Fn(&LinearHash) -> anyhow::Result<T>) -> usize {
    T::INPUTS
}

/// The sponge over batches: every batch is hashed alone, and their digests together.
fn batches(v: &[FGL], batch: usize) -> Vec<FGL> {
    if v.len() <= 4 {
        return gl_sponge(v).to_vec();
    }
    let b = if batch == 0 { std::cmp::max(8, v.len().div_ceil(4)) } else { batch };
    let parts: Vec<FGL> = v.chunks(b).flat_map(gl_sponge).collect();
    gl_sponge(&parts).to_vec()
}

fn goldilocks(hs: &Hashers, r: &mut Rng) -> Run {
    match pick(4) {
        0 | 1 => {
            let n = if one_in(5) { pick(14) } else { 8 };
            let c = if one_in(6) { pick(7) } else { 4 };
            let out = 1 + pick(12);
            let (inp, cap) = (elems(n, r), elems(c, r));
            let want = (n == 8 && c == 4).then(|| crate::refhash::gl(&inp, &cap)[..out].to_vec());
            state_of(&("gl", n, c, out));
            same(
                &format!("Goldilocks permutation of {} with capacity {}, {out} outputs", text(&inp), text(&cap)),
                guarded(|| hs.gl.hash(&inp, &cap, out)),
                want,
            )
        }
        2 => {
            let n = *pick_of(&[0, 1, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 32, 33, 40, 64, 100]);
            let n = if one_in(3) { pick(70) } else { n };
            let b = *pick_of(&[0, 0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 30, 200]);
            let inputs = inputs_of(|h| h.hash(&[], 0));
            let v: Vec<Vec<FGL>> = (0..inputs).map(|_| elems(n, r)).collect();
            state_of(&("gl linear", n, b));
            same(
                &format!("Goldilocks linear hash of {n} elements {}, batches of {b}", text(&v)),
                guarded(|| hs.lgl.hash(&v.concat(), b).map(|d| d.limbs())),
                Some(v.iter().flat_map(|v| batches(v, b)).collect()),
            )
        }
        _ => {
            let (cols, rows) = (1 + pick(9), 1 + pick(12));
            let b = *pick_of(&[0, 0, 0, 4, 8, 11, 16]);
            let m: Vec<Vec<FGL>> = (0..cols).map(|_| elems(rows, r)).collect();
            state_of(&("gl matrix", cols, rows, b));
            same(
                &format!("Goldilocks hash of {cols} columns of {rows}: {}, batches of {b}", text(&m)),
                guarded(|| hs.lgl.hash_element_matrix(&m, b).map(|d| d.as_elements().to_vec())),
                Some(batches(&m.concat(), b)),
            )
        }
    }
}

macro_rules! wide {
    ($fun:ident, $fam:ident, $fr:ty, $p:ident, $l:ident, $perm:path, $lane:literal, $mont:path) => {
        fn $fun(hs: &Hashers, r: &mut Rng) -> Run {
            let name = stringify!($fam);
            let fr = |r: &mut Rng| -> $fr {
                match r.below(6) {
                    0 => <$fr>::zero(),
                    1 => {
                        let mut x = <$fr>::one();
                        x.negate();
                        x
                    }
                    2 => $fam::big(&[r.below(5)]),
                    _ => $fam::big(&[r.next(), r.next(), r.next(), r.next()]),
                }
            };
            match pick(7) {
                0 | 1 => {
                    let n = if one_in(8) { *pick_of(&[0, 17, 18, 32]) } else { 1 + pick(16) };
                    let inp: Vec<$fr> = (0..n).map(|_| fr(r)).collect();
                    let cap = fr(r);
                    let ok = (1..=16).contains(&n);
                    let lanes = ok.then(|| $perm(&inp, &cap));
                    let what = format!("{name} permutation of {n} elements {}, capacity {}", text(&inp), text(&cap));
                    state_of(&(name, n));
                    if one_in(2) {
                        return same(&what, guarded(|| hs.$p.hash(&inp, &cap)), lanes.map(|v| v[$lane]));
                    }
                    let out = 1 + pick(if ok { n + 1 } else { 1 });
                    same(
                        &format!("{what}, {out} outputs"),
                        guarded(|| hs.$p.hash_ex(&inp, &cap, out)),
                        lanes.map(|v| v[..out].to_vec()),
                    )
                }
                2 => {
                    let kids: Vec<$fr> = (0..16).map(|_| fr(r)).collect();
                    let cap = if one_in(2) { <$fr>::zero() } else { fr(r) };
                    let want = $perm(&kids, &cap)[$lane];
                    let d: Vec<ElementDigest<4, $fr>> = kids.iter().map(ElementDigest::from_scalar).collect();
                    state_of(&(name, "node"));
                    same(
                        &format!("{name} node over {}, capacity {}", text(&kids), text(&cap)),
                        guarded(|| hs.$l.hash_node(&d, &cap).map(|n| n.as_scalar::<$fr>())),
                        Some(want.into_raw_repr()),
                    )
                }
                3 | 4 => {
                    let n = if one_in(12) { pick(200) } else { pick(60) };
                    let v = elems(n, r);
                    state_of(&(name, "row", n));
                    same(
                        &format!("{name} hash of {n} elements {}", text(&v)),
                        guarded(|| hs.$l.hash_element_array(&v).map(|n| n.as_scalar::<$fr>())),
                        Some($fam::leaf(&v)[0].into_raw_repr()),
                    )
                }
                5 => {
                    let (cols, rows) = (pick(8), 1 + pick(12));
                    let m: Vec<Vec<FGL>> = (0..cols).map(|_| elems(rows, r)).collect();
                    let ints: Vec<u64> = m.iter().flatten().map(|e| e.as_int()).collect();
                    let vals: Vec<$fr> = ints.chunks(3).map($fam::big).collect();
                    let want = match vals.len() {
                        0 => <$fr>::zero(),
                        1 => vals[0],
                        _ => vals.chunks(16).fold(<$fr>::zero(), |st, c| $perm(c, &st)[$lane]),
                    };
                    state_of(&(name, "matrix", ints.len()));
                    same(
                        &format!("{name} hash of {cols} columns of {rows}: {}", text(&m)),
                        guarded(|| hs.$l.hash_element_matrix(&m)),
                        Some(want),
                    )
                }
                _ => {
                    // four words as an integer, into the digest of the element it stands for
                    let e: Vec<FGL> = elems(4, r);
                    let ints: Vec<u64> = e.iter().map(|e| e.as_int()).collect();
                    let four: [FGL; 4] = e.try_into().unwrap();
                    let d = guarded(|| {
                        let m = $mont(four);
                        Ok(ElementDigest::<4, $fr>::new(&m).as_scalar::<$fr>())
                    });
                    same(&format!("{name} digest of the integer {ints:?}"), d, Some($fam::big(&ints).into_raw_repr()))
                }
            }
        }
    };
}
wide!(bn128, Bn, BnFr, bn, lbn, crate::refhash::bn, 0, LinearHashBN128::to_bn128_mont);
wide!(bls12381, Bls, BlsFr, bls, lbls, crate::refhash::bls, 1, LinearHashBLS12381::to_bls12381_mont);

fn caller(hs: &Hashers) -> Run {
    let mut r = pick_rng();
    // a wide permutation takes about a hundred times as long
    let family = pick(5);
    for _ in 0..if family < 2 { 3 + pick(20) } else { 1 + pick(5) } {
        match family {
            0 | 1 => goldilocks(hs, &mut r)?,
            2 => bn128(hs, &mut r)?,
            3 => bls12381(hs, &mut r)?,
            _ => match pick(3) {
                0 => goldilocks(hs, &mut r)?,
                1 => bn128(hs, &mut r)?,
                _ => bls12381(hs, &mut r)?,
            },
        }
        if one_in(2) {
            simcore::yield_point();
        }
    }
    Ok(())
}

pub fn run() -> Run {
    let hs = Arc::new(hashers());
    let n = 1 + pick(3);
    if n == 1 {
        caller(&hs)?;
    } else {
        let fs: Vec<_> = (0..n)
            .map(|_| {
                let hs = hs.clone();
                fiber("caller", move || caller(&hs))
            })
            .collect();
        for f in fs {
            f.join()?;
        }
    }
    crate::refhash::parameters()
}
