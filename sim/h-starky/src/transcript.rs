//! A prover and a verifier replay one conversation; the link between them may lose, repeat, swap or
//! damage messages. Each side's challenges are checked against a reference sponge over its history.
use crate::merkle::{BlsFr, BnFr};
use crate::util::*;
use ff::{Field as _, PrimeField, PrimeFieldRepr};
use num_bigint::BigUint;
use simcore::{Kind, Rng, SimConfig};
use simharness::*;
use starky::f3g::F3G;
use starky::traits::{FieldExtension, MTNodeType, Transcript};
use starky::transcript::TranscriptGL;
use starky::transcript_bls12381::TranscriptBLS128;
use starky::transcript_bn128::TranscriptBN128;
use starky::ElementDigest;
use std::sync::Arc;

pub fn config(rng: &mut Rng, c: &mut SimConfig) {
    sched_config(rng, c);
    c.p[Kind::App as usize] = *[0.0, 0.0, 0.05, 0.3].get(rng.below(4) as usize).unwrap();
}

/// Every duplex of the sponge: what was absorbed since the last one, the squeezed block, and how
/// much of it has been handed out.
trait Model {
    fn new() -> Self;
    fn put(&mut self, msg: &[Vec<FGL>]);
    fn field(&mut self) -> u64;
    fn perm(&mut self, n: usize, bits: usize) -> Vec<usize>;
}

fn bits_of(words: &[BigUint], per: usize, n: usize, bits: usize) -> Vec<usize> {
    let bit = |i: usize| words[i / per].bit((i % per) as u64) as usize;
    (0..n).map(|q| (0..bits).map(|j| bit(q * bits + j) << j).sum()).collect()
}

struct GlModel {
    state: Vec<FGL>,
    absorbed: Vec<FGL>,
    block: Vec<FGL>,
}
impl GlModel {
    fn duplex(&mut self) {
        self.absorbed.resize(8, FGL::ZERO);
        self.block = crate::refhash::gl(&self.absorbed, &self.state).to_vec();
        self.state = self.block[..4].to_vec();
        self.absorbed.clear();
    }
}
impl Model for GlModel {
    fn new() -> Self {
        GlModel { state: vec![FGL::ZERO; 4], absorbed: vec![], block: vec![] }
    }
    fn put(&mut self, msg: &[Vec<FGL>]) {
        for e in msg.concat() {
            self.block.clear();
            self.absorbed.push(e);
            if self.absorbed.len() == 8 {
                self.duplex();
            }
        }
    }
    fn field(&mut self) -> u64 {
        if self.block.is_empty() {
            self.duplex();
        }
        self.block.remove(0).as_int()
    }
    fn perm(&mut self, n: usize, bits: usize) -> Vec<usize> {
        let w: Vec<BigUint> =
            (0..(n * bits).div_ceil(63)).map(|_| BigUint::from(self.field())).collect();
        bits_of(&w, 63, n, bits)
    }
}

macro_rules! wide_model {
    ($name:ident, $fr:ty, $perm:path) => {
        struct $name {
            state: $fr,
            absorbed: Vec<$fr>,
            block: Vec<$fr>,
            thirds: Vec<u64>,
        }
        impl $name {
            fn duplex(&mut self) {
                self.absorbed.resize(16, <$fr>::zero());
                self.block = $perm(&self.absorbed, &self.state);
                self.state = self.block[0];
                self.absorbed.clear();
                self.thirds.clear();
            }
            fn next(&mut self) -> BigUint {
                if self.block.is_empty() {
                    self.duplex();
                }
                let mut b = vec![];
                self.block.remove(0).into_repr().write_le(&mut b).unwrap();
                BigUint::from_bytes_le(&b)
            }
        }
        impl Model for $name {
            fn new() -> Self {
                $name { state: <$fr>::zero(), absorbed: vec![], block: vec![], thirds: vec![] }
            }
            fn put(&mut self, msg: &[Vec<FGL>]) {
                for e in msg {
                    // nothing squeezed before this message is handed out after it
                    self.block.clear();
                    self.thirds.clear();
                    let x = if e.len() == 1 {
                        <$fr>::from_repr(<$fr as PrimeField>::Repr::from(e[0].as_int())).unwrap()
                    } else {
                        let d: ElementDigest<4, $fr> = ElementDigest::new(e);
                        <$fr>::from_raw_repr(d.as_scalar::<$fr>()).unwrap()
                    };
                    self.absorbed.push(x);
                    if self.absorbed.len() == 16 {
                        self.duplex();
                    }
                }
            }
            fn field(&mut self) -> u64 {
                if self.thirds.is_empty() {
                    let b = self.next().to_u64_digits();
                    self.thirds = (0..3).map(|i| b.get(i).copied().unwrap_or(0) % GLP).collect();
                }
                self.thirds.remove(0)
            }
            fn perm(&mut self, n: usize, bits: usize) -> Vec<usize> {
                let w: Vec<BigUint> = (0..(n * bits).div_ceil(253)).map(|_| self.next()).collect();
                bits_of(&w, 253, n, bits)
            }
        }
    };
}
wide_model!(BnModel, BnFr, crate::refhash::bn);
wide_model!(BlsModel, BlsFr, crate::refhash::bls);

#[derive(Clone, Debug)]
enum Op {
    Put(Vec<Vec<FGL>>),
    Field,
    Ext,
    Perm(usize, usize),
}
type Answers = Vec<Vec<u64>>;

fn play<T: Transcript, M: Model>(who: &str, ops: &[Op]) -> Result<Answers, Viol> {
    let mut t = T::new();
    let mut m = M::new();
    let mut out = vec![];
    for (i, op) in ops.iter().enumerate() {
        simcore::yield_point();
        let (got, want): (Vec<u64>, Vec<u64>) = match op {
            Op::Put(msg) => {
                if let Err(e) = t.put(msg) {
                    return viol("transcript: put failed", e);
                }
                m.put(msg);
                continue;
            }
            Op::Field => match t.get_fields1() {
                Ok(x) => (vec![x.as_int()], vec![m.field()]),
                Err(e) => return viol("transcript: get failed", e),
            },
            Op::Ext => {
                let f: F3G = t.get_field();
                (
                    f.as_elements().iter().map(|e| e.as_int()).collect(),
                    vec![m.field(), m.field(), m.field()],
                )
            }
            Op::Perm(n, b) => match t.get_permutations(*n, *b) {
                Ok(v) => (
                    v.iter().map(|x| *x as u64).collect(),
                    m.perm(*n, *b).iter().map(|x| *x as u64).collect(),
                ),
                Err(e) => return viol("transcript: get failed", e),
            },
        };
        count("challenges", 1);
        if got != want {
            return viol(
                "transcript: challenge differs from the reference sponge",
                format!("{who}, operation {i} ({}): {got:?}, expected {want:?}", short(&format!("{op:?}"), 80)),
            );
        }
        out.push(got);
    }
    Ok(out)
}

fn message(wide: bool, r: &mut Rng) -> Vec<Vec<FGL>> {
    let n = 1 + r.below(if wide { 6 } else { 5 }) as usize;
    (0..n)
        .map(|_| match r.below(3) {
            0 if wide => {
                // a digest: Montgomery limbs of a field element
                let x = match r.below(4) {
                    // one with a limb that is no Goldilocks element
                    0 => loop {
                        let mut raw = <BnFr as PrimeField>::Repr::default();
                        raw.as_mut().iter_mut().for_each(|w| *w = r.next());
                        raw.as_mut()[r.below(3) as usize] = GLP + r.below(GLP.wrapping_neg());
                        raw.as_mut()[3] >>= 3;
                        if let Ok(x) = BnFr::from_raw_repr(raw) {
                            break x;
                        }
                    },
                    _ => BnFr::from_repr(<BnFr as PrimeField>::Repr::from(r.next())).unwrap(),
                };
                let d: ElementDigest<4, BnFr> = ElementDigest::from_scalar(&x);
                d.as_elements().to_vec()
            }
            _ if wide => vec![elem(r)],
            _ => elems(1 + r.below(10) as usize, r),
        })
        .collect()
}

fn conversation<T: Transcript + 'static, M: Model + 'static>(name: &'static str, wide: bool) -> Run {
    let mut r = pick_rng();
    let steps = 2 + pick(if wide { 8 } else { 30 });
    let mut ops = vec![];
    // some conversations mostly draw, so that a squeezed block runs out while nothing is absorbed
    let thirsty = one_in(3);
    for _ in 0..steps {
        if thirsty && !ops.is_empty() && pick(3) > 0 {
            ops.push(match pick(3) {
                0 => Op::Field,
                1 => Op::Ext,
                // up to 20 words of 253 (or 63) bits
                _ => {
                    let words = 1 + pick(20);
                    let bits = 1 + pick(24);
                    Op::Perm((words * if wide { 253 } else { 63 }).div_ceil(bits), bits)
                }
            });
            continue;
        }
        ops.push(match pick(7) {
            0..=2 => Op::Put(message(wide, &mut r)),
            3 => Op::Field,
            4 | 5 => Op::Ext,
            _ => Op::Perm(1 + pick(if wide { 12 } else { 40 }), 1 + pick(24)),
        });
    }
    if pick(3) > 0 {
        ops.push(Op::Ext);
    }
    // what the verifier receives
    let mut heard: Vec<Op> = vec![];
    let mut faults = 0;
    // set while the only difference is one of content: the messages line up, element by element
    let mut altered = false;
    let mut shifted = false;
    for op in &ops {
        let mut copy = op.clone();
        if let Op::Put(msg) = &mut copy {
            if simcore::choose(Kind::App, 2) > 0 {
                faults += 1;
                match pick(4) {
                    0 => {
                        shifted = true;
                        continue;
                    }
                    1 => {
                        shifted = true;
                        heard.push(copy.clone());
                    }
                    2 => {
                        let i = pick(msg.len());
                        if msg[i].len() == 1 || !wide {
                            let j = pick(msg[i].len());
                            msg[i][j] = other_elem(msg[i][j], &mut r);
                            altered = true;
                        }
                    }
                    _ => {
                        let before = msg.concat();
                        msg.reverse();
                        altered |= msg.concat() != before;
                    }
                }
            }
        }
        heard.push(copy);
    }
    count("link_faults", faults);
    let same = !altered && !shifted;
    let ends_with_challenge = matches!(ops.last(), Some(Op::Ext));
    let (a, b) = (Arc::new(ops), Arc::new(heard));
    let (a2, b2) = (a.clone(), b.clone());
    let p = fiber("prover", move || play::<T, M>(name, &a2));
    let v = fiber("verifier", move || play::<T, M>(name, &b2));
    let (pa, va) = (p.join()?, v.join()?);
    state_of(&(name, a.len(), same, pa.len()));
    if same && pa != va {
        return viol("transcript: same history, different challenges", name);
    }
    // (a lost or repeated message may consist of padding only, so nothing is said about those)
    if altered && !shifted && ends_with_challenge && pa.last() == va.last() {
        return viol(
            "transcript: a changed message left a later challenge as it was",
            format!("{name}: {}", short(&format!("{a:?}"), 400)),
        );
    }
    Ok(())
}

pub fn gl_conversation() -> Run {
    conversation::<TranscriptGL, GlModel>("GL", false)
}

pub fn run() -> Run {
    crate::refhash::parameters()?;
    for _ in 0..1 + pick(2) {
        match pick(6) {
            0..=3 => conversation::<TranscriptGL, GlModel>("GL", false)?,
            4 => conversation::<TranscriptBN128, BnModel>("BN128", true)?,
            _ => conversation::<TranscriptBLS128, BlsModel>("BLS12381", true)?,
        }
    }
    Ok(())
}
