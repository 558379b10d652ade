//! Merkle commitments: trees built by simulated workers against a sequential reference, and
//! openings sent over a lossy link.
use crate::util::*;
use ff::{Field as _, PrimeField};
use num_bigint::BigInt;
use simcore::{spawn_fiber, Kind, Rng, SimConfig};
use simharness::*;
pub type BlsFr = <MerkleTreeBLS12381 as MerkleTree>::BaseField;
pub use starky::field_bn128::Fr as BnFr;
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::traits::{MTNodeType, MerkleTree};
use starky::ElementDigest;
use std::sync::Arc;

pub trait Fam: 'static {
    type T: MerkleTree<MTNode = Self::N, BaseField = Self::B>
        + serde::Serialize
        + serde::de::DeserializeOwned
        + Send + Sync + 'static;
    type N: Copy + serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + Send + Sync + Default + 'static;
    type B: Clone + serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + Send + Sync + Default + 'static;
    const NAME: &'static str;
    const ARITY: usize;
    /// Digests as the elements they stand for.
    fn leaf(row: &[FGL]) -> Vec<Self::B>;
    fn node(kids: &[Vec<Self::B>]) -> Vec<Self::B>;
    fn none() -> Vec<Self::B>;
    fn value(n: &Self::N) -> Vec<Self::B>;
    fn nodes(t: &Self::T) -> &[Self::N];
    /// the siblings (whole group for arity 16) of child `i` of a node
    fn group(kids: &[Vec<Self::B>], i: usize) -> Vec<Self::B>;
    /// A row whose digest is not below the Goldilocks prime in some word, if there are such digests.
    fn odd_row(r: &mut Rng) -> Option<Vec<FGL>>;
    fn tweak(b: &Self::B, r: &mut Rng) -> Self::B;
    fn tweak_node(n: &Self::N, r: &mut Rng) -> Self::N;
}

pub struct Gl;
fn gl_perm(inp: &[FGL], init: &[FGL]) -> [FGL; 4] {
    let v = crate::refhash::gl(inp, init);
    [v[0], v[1], v[2], v[3]]
}
pub fn gl_sponge(v: &[FGL]) -> [FGL; 4] {
    let mut st = [FGL::ZERO; 4];
    if v.len() <= 4 {
        st[..v.len()].copy_from_slice(v);
        return st;
    }
    for c in v.chunks(8) {
        let mut b = [FGL::ZERO; 8];
        b[..c.len()].copy_from_slice(c);
        st = gl_perm(&b, &st);
    }
    st
}
impl Fam for Gl {
    type T = MerkleTreeGL;
    type N = ElementDigest<4, FGL>;
    type B = FGL;
    const NAME: &'static str = "GL";
    const ARITY: usize = 2;
    fn odd_row(_: &mut Rng) -> Option<Vec<FGL>> {
        None
    }
    fn value(n: &Self::N) -> Vec<FGL> {
        n.as_elements().to_vec()
    }
    fn none() -> Vec<FGL> {
        vec![FGL::ZERO; 4]
    }
    fn leaf(row: &[FGL]) -> Vec<FGL> {
        let out = if row.len() <= 4 {
            gl_sponge(row)
        } else {
            let bs = std::cmp::max(8, row.len().div_ceil(4));
            let mut parts = vec![];
            for c in row.chunks(bs) {
                parts.extend_from_slice(&gl_sponge(c));
            }
            gl_sponge(&parts)
        };
        out.to_vec()
    }
    fn node(kids: &[Vec<FGL>]) -> Vec<FGL> {
        gl_perm(&kids[..2].concat(), &[FGL::ZERO; 4]).to_vec()
    }
    fn nodes(t: &Self::T) -> &[Self::N] {
        &t.nodes
    }
    fn group(kids: &[Vec<FGL>], i: usize) -> Vec<FGL> {
        kids[i ^ 1].clone()
    }
    fn tweak(b: &FGL, r: &mut Rng) -> FGL {
        other_elem(*b, r)
    }
    fn tweak_node(n: &Self::N, r: &mut Rng) -> Self::N {
        let mut e = n.as_elements().to_vec();
        let i = r.below(4) as usize;
        e[i] = other_elem(e[i], r);
        ElementDigest::new(&e)
    }
}

/// The textbook permutation is slow: the reference uses it for the short inputs and for a part of
/// the others, chosen by their content, and the code's own for the rest.
fn sampled<T: PrimeField>(inp: &[T]) -> bool {
    let x = inp.iter().fold(0u64, |a, e| a.rotate_left(7) ^ e.into_repr().as_ref()[0]);
    inp.len() < 8 || x.wrapping_mul(0x9E3779B97F4A7C15) >> 61 == 0
}

fn int(words: &[u64]) -> BigInt {
    words.iter().rev().fold(BigInt::from(0), |a, w| (a << 64) + *w)
}
/// Three words x with x < 2^192 whose Montgomery form x * 2^256 mod q has a word that is not a
/// Goldilocks element: the closest point of a lattice, as such numbers are too rare to be met.
fn odd_words(q: &BigInt, ri: &BigInt, r: &mut Rng) -> Option<Vec<FGL>> {
    let one = BigInt::from(1);
    let word = 1 + r.below(2);
    // the Montgomery form is y + t, with t below 2^spread
    let spread = 64 * word + if word == 1 { 31 } else { 0 };
    let odd = if word == 1 { GLP } else { GLP + r.below(GLP.wrapping_neg()) };
    let mut w = [0, 0, r.next(), r.next() >> 3];
    w[word as usize] = odd;
    let y = int(&w);
    let x0 = &y * ri % q;
    let scale: BigInt = &one << (192 - spread);
    let (mut a, mut b) = ((scale.clone(), ri.clone()), (BigInt::from(0), q.clone()));
    let near = |n: BigInt, d: &BigInt| {
        let n: BigInt = n * 2 + d;
        let d: BigInt = d * 2;
        if n < BigInt::from(0) {
            -((d.clone() - BigInt::from(1) - n) / d)
        } else {
            n / d
        }
    };
    let len = |v: &(BigInt, BigInt)| &v.0 * &v.0 + &v.1 * &v.1;
    loop {
        if len(&a) > len(&b) {
            std::mem::swap(&mut a, &mut b);
        }
        let m = near(&a.0 * &b.0 + &a.1 * &b.1, &len(&a));
        if m == BigInt::from(0) {
            break;
        }
        b = (&b.0 - &m * &a.0, &b.1 - &m * &a.1);
    }
    let part = |bits: u64, r: &mut Rng| (BigInt::from((1u64 << 62) + (r.next() >> 1)) << (bits - 64)) as BigInt;
    let to = (part(192, r), part(192, r) - &x0);
    let det = &a.0 * &b.1 - &a.1 * &b.0;
    let (det, sign) = if det < BigInt::from(0) { (-det, -1) } else { (det, 1) };
    let c = near((&to.0 * &b.1 - &to.1 * &b.0) * sign, &det);
    let d = near((&a.0 * &to.1 - &a.1 * &to.0) * sign, &det);
    let t = (&c * &a.0 + &d * &b.0) / &scale;
    let x = &x0 + &c * &a.1 + &d * &b.1;
    let within = |x: &BigInt, bits: u64| *x >= BigInt::from(0) && *x < (BigInt::from(1) << bits);
    if !within(&t, spread) || !within(&x, 192) || y + t >= *q {
        return None;
    }
    let mut words = x.to_u64_digits().1;
    words.resize(3, 0);
    words.iter().all(|w| *w < GLP).then(|| words.iter().map(|w| FGL::from(*w)).collect())
}

macro_rules! wide_family {
    ($fam:ident, $tree:ty, $fr:ty, $name:expr, $perm:expr) => {
        pub struct $fam;
        impl $fam {
                fn perm(inp: &[$fr], init: &$fr) -> $fr {
                let f: fn(&[$fr], &$fr) -> $fr = $perm;
                f(inp, init)
            }
            pub fn big(parts: &[u64]) -> $fr {
                // value of sum(parts[i] * 2^(64 i)) in the field
                let mut acc = <$fr>::zero();
                let two64 = <$fr>::from_str("18446744073709551616").unwrap();
                for p in parts.iter().rev() {
                    acc.mul_assign(&two64);
                    acc.add_assign(
                        &<$fr>::from_repr(<$fr as PrimeField>::Repr::from(*p)).unwrap(),
                    );
                }
                acc
            }
        }
        impl Fam for $fam {
            type T = $tree;
            type N = ElementDigest<4, $fr>;
            type B = $fr;
            const NAME: &'static str = $name;
            const ARITY: usize = 16;
            fn value(n: &Self::N) -> Vec<$fr> {
                <$tree>::to_basefield(n)
            }
            fn none() -> Vec<$fr> {
                vec![<$fr>::zero()]
            }
            fn odd_row(r: &mut Rng) -> Option<Vec<FGL>> {
                let mut q = <$fr>::zero();
                q.sub_assign(&<$fr>::one());
                let q = int(q.into_repr().as_ref()) + 1;
                let ri = int(<$fr>::from_raw_repr(<$fr as PrimeField>::Repr::from(1)).unwrap().into_repr().as_ref());
                loop {
                    if let Some(x) = odd_words(&q, &ri, r) {
                        return Some(x);
                    }
                }
            }
            fn leaf(row: &[FGL]) -> Vec<$fr> {
                let ints: Vec<u64> = row.iter().map(|e| e.as_int()).collect();
                let f = if ints.len() <= 3 {
                    Self::big(&ints)
                } else {
                    let vals: Vec<$fr> = ints.chunks(3).map(Self::big).collect();
                    let mut st = <$fr>::zero();
                    for c in vals.chunks(16) {
                        st = Self::perm(c, &st);
                    }
                    st
                };
                vec![f]
            }
            fn node(kids: &[Vec<$fr>]) -> Vec<$fr> {
                vec![Self::perm(&kids.concat(), &<$fr>::zero())]
            }
            fn nodes(t: &Self::T) -> &[Self::N] {
                &t.nodes
            }
            fn group(kids: &[Vec<$fr>], _i: usize) -> Vec<$fr> {
                kids.concat()
            }
            fn tweak(b: &$fr, r: &mut Rng) -> $fr {
                let mut x = *b;
                x.add_assign(&Self::big(&[r.next() | 1, r.next() % 7, r.next() % 3]));
                x
            }
            fn tweak_node(n: &Self::N, r: &mut Rng) -> Self::N {
                ElementDigest::from_scalar(&Self::tweak(&Self::unpack(n), r))
            }
        }
        impl $fam {
            fn unpack(n: &ElementDigest<4, $fr>) -> $fr {
                // the digest holds the Montgomery limbs
                let raw = n.as_scalar::<$fr>();
                <$fr>::from_raw_repr(raw).unwrap_or_else(|_| <$fr>::zero())
            }
        }
    };
}
wide_family!(Bn, MerkleTreeBN128, BnFr, "BN128", |inp, init| {
    if sampled(inp) {
        return crate::refhash::bn(inp, init)[0];
    }
    starky::poseidon_bn128_opt::Poseidon::new().hash(inp, init).unwrap()
});
wide_family!(Bls, MerkleTreeBLS12381, BlsFr, "BLS12381", |inp, init| {
    if sampled(inp) {
        return crate::refhash::bls(inp, init)[1];
    }
    starky::poseidon_bls12381_opt::Poseidon::new().hash(inp, init).unwrap()
});

/// All levels, bottom first, each padded to a multiple of the arity; the last holds the root.
pub struct RefTree<F: Fam> {
    pub rows: Vec<Vec<FGL>>,
    pub levels: Vec<Vec<Vec<F::B>>>,
}
impl<F: Fam> RefTree<F> {
    pub fn new(data: &[FGL], width: usize, height: usize) -> Self {
        let rows: Vec<Vec<FGL>> = (0..height)
            .map(|i| if data.is_empty() { vec![] } else { data[i * width..(i + 1) * width].to_vec() })
            .collect();
        let mut cur: Vec<Vec<F::B>> = if data.is_empty() {
            vec![F::none(); height]
        } else {
            rows.iter().map(|r| F::leaf(r)).collect()
        };
        let mut levels = vec![];
        loop {
            let n = cur.len();
            if n == 1 {
                levels.push(cur);
                break;
            }
            let mut padded = cur.clone();
            padded.resize(n.div_ceil(F::ARITY) * F::ARITY, F::none());
            let next: Vec<Vec<F::B>> = padded.chunks(F::ARITY).map(F::node).collect();
            levels.push(padded);
            cur = next;
        }
        RefTree { rows, levels }
    }
    pub fn flat(&self) -> Vec<Vec<F::B>> {
        self.levels.concat()
    }
    pub fn path(&self, mut idx: usize) -> Vec<Vec<F::B>> {
        let mut out = vec![];
        for l in &self.levels {
            if l.len() == 1 {
                break;
            }
            let g = idx / F::ARITY * F::ARITY;
            out.push(F::group(&l[g..g + F::ARITY], idx - g));
            idx /= F::ARITY;
        }
        out
    }
    /// does the opening (vals, path) at idx lead to this tree's root?
    pub fn accepts(&self, idx: usize, vals: &[FGL], path: &[Vec<F::B>]) -> bool {
        idx < self.rows.len() && self.rows[idx] == vals && self.path(idx) == path
    }
}

fn values<F: Fam>(t: &F::T) -> Vec<Vec<F::B>> {
    F::nodes(t).iter().map(F::value).collect()
}
/// Sometimes among the rows: one whose digest is unusual.
fn odd_rows<F: Fam>(data: &mut [FGL], width: usize, r: &mut Rng) {
    if width != 3 || !one_in(3) {
        return;
    }
    for row in data.chunks_mut(3) {
        if r.below(8) == 0 {
            if let Some(x) = F::odd_row(r) {
                row.copy_from_slice(&x);
                count("rows_of_odd_digests", 1);
            }
        }
    }
}

#[allow(clippy::wildcard_in_or_patterns)]
fn shape<F: Fam>() -> (usize, usize) {
    // the classes differ in which parallel loop is split over workers
    match (pick(10), F::ARITY) {
        // rows spread over several chunks: wide rows
        (5..=7, 2) => (*pick_of(&[2048, 4096, 4104, 5000]), *pick_of(&[17, 32, 33, 48, 64])),
        // rows and inner levels spread over several chunks: tall tree
        (8, 2) => (*pick_of(&[1, 2, 3, 4]), *pick_of(&[8194, 8200, 12288, 16384, 16387])),
        (9, 2) => (*pick_of(&[512, 768]), *pick_of(&[70, 96, 128, 130])),
        // BN128/BLS12381: one element per row has no minimum chunk; wide rows have a small one
        (5..=8, _) => (1, *pick_of(&[9, 16, 17, 31, 64, 100, 256, 300])),
        (9, _) if one_in(8) => (*pick_of(&[70_000, 100_000]), *pick_of(&[3, 4, 5])),
        _ => (
            *pick_of(&[1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 31, 48, 49, 50, 100]),
            *pick_of(&[2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257]),
        ),
    }
}

fn build_one<F: Fam>(who: usize, jobs: usize) -> Result<(), Viol> {
    let (width, height) = shape::<F>();
    let mut rng = pick_rng();
    let mut data = elems(width * height, &mut rng);
    odd_rows::<F>(&mut data, width, &mut rng);
    let empty = one_in(40);
    let data = if empty { vec![] } else { data };
    let what = format!("{} {}x{}{} job {who}/{jobs}", F::NAME, width, height, if empty { " no data" } else { "" });
    log(format!("merkelize {what}"));
    let mut t = F::T::new();
    let r = guarded(|| t.merkelize(data.clone(), width, height));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return viol("merkle: build failed", format!("{what}: {e}")),
        Err(p) => return viol("merkle: build panicked", format!("{what}: {p}")),
    }
    let reference = RefTree::<F>::new(&data, width, height);
    let want = reference.flat();
    let got = values::<F>(&t);
    state_str(&what);
    count(&format!("trees_{}", F::NAME), 1);
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return viol(
            "merkle: tree differs from the sequential reference",
            format!("{what}: {} nodes, expected {}; first difference at node {i}", got.len(), want.len()),
        );
    }
    if F::value(&t.root()) != want[want.len() - 1] {
        return viol("merkle: root is not the last node", what);
    }
    if t.element_size() != data.len() {
        return viol("merkle: element count", what);
    }
    if empty {
        return Ok(());
    }
    // readers share the finished tree
    let t = Arc::new(t);
    let reference = Arc::new(reference);
    let readers = 1 + pick(3);
    let mut hs = vec![];
    for _ in 0..readers {
        let idx: Vec<usize> = (0..2 + pick(4))
            .map(|k| if k == 0 { pick(2) * (height - 1) } else { pick(height) })
            .collect();
        let (t, reference) = (t.clone(), reference.clone());
        hs.push(fiber("reader", move || -> Run {
            for i in idx {
                simcore::yield_point();
                let (v, mp) = match guarded(|| t.get_group_proof(i)) {
                    Ok(Ok(x)) => x,
                    Ok(Err(e)) => return viol("merkle: opening failed", format!("index {i}: {e}")),
                    Err(p) => return viol("merkle: opening panicked", format!("index {i}: {p}")),
                };
                if v != reference.rows[i] {
                    return viol("merkle: opened row is not the committed row", format!("index {i}"));
                }
                if mp != reference.path(i) {
                    return viol("merkle: path is not the reference path", format!("index {i}"));
                }
                let j = i % v.len();
                if t.get_element(i, j) != v[j] {
                    return viol("merkle: element is not the committed element", format!("{i},{j}"));
                }
                match guarded(|| F::T::new().verify_group_proof(&t.root(), &mp, i, &v)) {
                    Ok(Ok(true)) => {}
                    r => {
                        return viol(
                            "merkle: genuine opening rejected",
                            format!("{} index {i} of {}: {r:?}", F::NAME, reference.rows.len()),
                        )
                    }
                }
                count("openings", 1);
            }
            Ok(())
        }));
    }
    for h in hs {
        h.join()?;
    }
    if guarded(|| t.get_group_proof(height).is_ok()) == Ok(true) {
        return viol("merkle: opening outside the tree", what);
    }
    let mut ext = vec![Default::default(); data.len()];
    t.to_extend(&mut ext);
    if let Some(i) = (0..ext.len()).find(|&i| ext[i] != <F::T as MerkleTree>::ExtendField::from(data[i])) {
        return viol("merkle: extension differs from the committed elements", format!("{what}: element {i}"));
    }
    Ok(())
}

pub fn gl_tree(who: usize, jobs: usize) -> Run {
    build_one::<Gl>(who, jobs)
}
fn any_family(who: usize, jobs: usize) -> Run {
    match pick(6) {
        0..=2 => build_one::<Gl>(who, jobs),
        3 | 4 => build_one::<Bn>(who, jobs),
        _ => build_one::<Bls>(who, jobs),
    }
}

pub fn build_config(rng: &mut Rng, c: &mut SimConfig) {
    sched_config(rng, c);
}
/// P01
pub fn build_run() -> Run {
    crate::refhash::parameters()?;
    let jobs = *pick_of(&[1, 1, 1, 2, 3]);
    let mut hs = vec![];
    for j in 0..jobs {
        hs.push(fiber("builder", move || any_family(j, jobs)));
    }
    for h in hs {
        h.join()?;
    }
    Ok(())
}

// ------------------------------------------------------------------ openings over a lossy link
fn opening_run<F: Fam>() -> Run {
    let width = *pick_of(&[1, 2, 3, 4, 5, 6, 9, 12, 13, 50]);
    let height = *pick_of(&[2, 3, 4, 5, 15, 16, 17, 32, 33, 256, 257, 300]);
    let height = if F::ARITY == 2 { height } else { height.min(272) };
    let mut rng = pick_rng();
    let mut data = elems(width * height, &mut rng);
    if one_in(4) {
        // rows that differ from their neighbours in a single element
        let row = data[..width].to_vec();
        for i in 0..height {
            data[i * width..(i + 1) * width].copy_from_slice(&row);
            data[i * width + i % width] = FGL::from(i as u64 + 1);
        }
    }
    odd_rows::<F>(&mut data, width, &mut rng);
    let mut t = F::T::new();
    match guarded(|| t.merkelize(data.clone(), width, height)) {
        Ok(Ok(())) => {}
        r => return viol("opening: build failed", format!("{r:?}")),
    }
    let reference = RefTree::<F>::new(&data, width, height);
    let mut root = t.root();
    log(format!("{} tree {width}x{height}", F::NAME));
    if one_in(3) {
        // the prover restarts: what is left is the stored tree, and the verifier reads a stored root
        let stored = match guarded(|| serde_json::to_string(&t)) {
            Ok(Ok(x)) => x,
            r => return viol("opening: tree not stored", format!("{} tree {width}x{height}: {r:?}", F::NAME)),
        };
        t = match guarded(|| serde_json::from_str(&stored)) {
            Ok(Ok(x)) => x,
            r => return viol("opening: stored tree not read", format!("{} tree {width}x{height}: {:?}", F::NAME, r.err())),
        };
        count("stored_trees", 1);
        if values::<F>(&t) != reference.flat() || t.root() != root || t.element_size() != data.len() {
            return viol("opening: stored tree is another", format!("{} tree {width}x{height}", F::NAME));
        }
        let text = serde_json::to_string(&root).unwrap();
        root = match guarded(|| serde_json::from_str(&text)) {
            Ok(Ok(x)) if x == root => x,
            r => return viol("opening: stored root is another", format!("{text}: {r:?}")),
        };
    }

    // the prover answers queries; the link reorders, duplicates, misdelivers and damages answers
    let n = 1 + pick(6);
    let queries: Vec<usize> = (0..n).map(|_| pick(height)).collect();
    let mut wire = vec![];
    for &q in &queries {
        let (v, mp) = match guarded(|| t.get_group_proof(q)) {
            Ok(Ok(x)) => x,
            r => return viol("opening: proof failed", format!("index {q}: {:?}", r.err())),
        };
        wire.push((q, v, mp));
    }
    if one_in(3) {
        let text = match guarded(|| serde_json::to_string(&wire)) {
            Ok(Ok(x)) => x,
            r => return viol("opening: answers not written", format!("{r:?}")),
        };
        match guarded(|| serde_json::from_str::<Vec<(usize, Vec<FGL>, Vec<Vec<F::B>>)>>(&text)) {
            Ok(Ok(x)) if x == wire => wire = x,
            r => return viol("opening: answers change when written and read", format!("{} {:?}", F::NAME, r.err())),
        }
        count("written_answers", 1);
    }
    let deliveries = n + pick(6);
    for _ in 0..deliveries {
        let (q, v, mp) = wire[pick(wire.len())].clone();
        let (mut idx, mut vals, mut path, mut r) = (q, v, mp, root);
        let fault = pick(9);
        let fname = match fault {
            0 => "none",
            1 => {
                idx = queries[pick(n)];
                "answer to another query"
            }
            2 => {
                idx = pick(height);
                "index replaced"
            }
            3 => {
                let j = pick(vals.len());
                vals[j] = other_elem(vals[j], &mut rng);
                "value damaged"
            }
            4 if !path.is_empty() => {
                let l = pick(path.len());
                let k = pick(path[l].len());
                path[l][k] = F::tweak(&path[l][k], &mut rng);
                "path damaged"
            }
            5 => {
                let o = &wire[pick(n)];
                vals = o.1.clone();
                "values of another row"
            }
            6 => {
                let o = &wire[pick(n)];
                path = o.2.clone();
                "path of another row"
            }
            7 if vals.len() > 1 => {
                let (a, b) = (pick(vals.len()), pick(vals.len()));
                vals.swap(a, b);
                "values swapped"
            }
            8 if !path.is_empty() => {
                let l = pick(path.len());
                let (a, b) = (pick(path[l].len()), pick(path[l].len()));
                path[l].swap(a, b);
                "path nodes swapped"
            }
            _ => {
                r = F::tweak_node(&r, &mut rng);
                "root damaged"
            }
        };
        let want = r == root && reference.accepts(idx, &vals, &path);
        // a fresh verifier, as the real one
        let got = guarded(|| F::T::new().verify_group_proof(&r, &path, idx, &vals));
        log(format!("deliver q={q} as {idx}: {fname} -> {got:?}, expected {want}"));
        count(&format!("delivered: {fname}"), 1);
        state_str(&format!("{} {width} {height} {fname} {want}", F::NAME));
        match got {
            Ok(Ok(b)) if b == want => {}
            Ok(Err(_)) if !want => {}
            Ok(Ok(true)) => {
                return viol(
                    format!("opening: accepted with {fname}"),
                    format!("{} tree {width}x{height}: opening of {q} accepted at {idx} although it is not that row's ({fname})", F::NAME),
                )
            }
            x => {
                return viol(
                    "opening: genuine opening rejected",
                    format!("{} tree {width}x{height} index {idx} ({fname}): {x:?}", F::NAME),
                )
            }
        }
    }
    Ok(())
}

/// P02
pub fn opening_config(rng: &mut Rng, c: &mut SimConfig) {
    sched_config(rng, c);
}
pub fn opening() -> Run {
    crate::refhash::parameters()?;
    match pick(3) {
        0 => opening_run::<Gl>(),
        1 => opening_run::<Bn>(),
        _ => opening_run::<Bls>(),
    }
}

pub fn prewarm() {
    let _ = crate::refhash::parameters();
    for_family::<Gl>();
    for_family::<Bn>();
    for_family::<Bls>();
}
fn for_family<F: Fam>() {
    let mut t = F::T::new();
    let d = elems(13 * 20, &mut Rng::new(1));
    t.merkelize(d.clone(), 13, 20).unwrap();
    let r = RefTree::<F>::new(&d, 13, 20);
    assert!(F::nodes(&t).len() == r.flat().len());
}
#[allow(unused)]
fn unused(_: Kind) {
    let _ = spawn_fiber;
}
