//! Poseidon, written again from its definition, so that the references do not rest on the code's
//! own permutations: over Goldilocks on plain integers, over the wide fields in the textbook form
//! (add round constants, S-box, full matrix) where the code uses the optimised one.
use crate::fft::{addp, mulp};
use crate::merkle::{BlsFr, BnFr};
use crate::util::*;
use ff::{Field as _, PrimeField};
use simharness::{viol, Viol};
use starky::constant::*;

fn p7(x: u64) -> u64 {
    let x2 = mulp(x, x);
    let x4 = mulp(x2, x2);
    mulp(mulp(x4, x2), x)
}

struct GlTables {
    c: Vec<u64>,
    m: Vec<Vec<u64>>,
    p: Vec<Vec<u64>>,
    s: Vec<u64>,
}
fn gl_tables() -> &'static GlTables {
    static T: std::sync::OnceLock<GlTables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let k = &*POSEIDON_CONSTANTS_OPT;
        let row = |v: &Vec<FGL>| -> Vec<u64> { v.iter().map(|e| e.as_int()).collect() };
        GlTables {
            c: row(&k.c),
            m: k.m.iter().map(row).collect(),
            p: k.p.iter().map(row).collect(),
            s: row(&k.s),
        }
    })
}

/// The permutation on 12 elements: 8 absorbed ones, then the capacity of 4.
pub fn gl(inp: &[FGL], cap: &[FGL]) -> [FGL; 12] {
    let k = gl_tables();
    let mut st = [0u64; 12];
    for (i, e) in inp.iter().chain(cap).enumerate() {
        st[i] = addp(e.as_int(), k.c[i]);
    }
    let mix = |st: &mut [u64; 12], m: &[Vec<u64>]| {
        let old = *st;
        for i in 0..12 {
            st[i] = (0..12).fold(0, |a, j| addp(a, mulp(m[j][i], old[j])));
        }
    };
    for r in 0..4 {
        for i in 0..12 {
            st[i] = addp(p7(st[i]), k.c[(r + 1) * 12 + i]);
        }
        mix(&mut st, if r == 3 { &k.p } else { &k.m });
    }
    for r in 0..22 {
        st[0] = addp(p7(st[0]), k.c[60 + r]);
        let s = &k.s[23 * r..23 * r + 23];
        let s0 = (0..12).fold(0, |a, j| addp(a, mulp(s[j], st[j])));
        for i in 1..12 {
            st[i] = addp(st[i], mulp(s[11 + i], st[0]));
        }
        st[0] = s0;
    }
    for r in 0..4 {
        for i in 0..12 {
            st[i] = p7(st[i]);
            if r < 3 {
                st[i] = addp(st[i], k.c[82 + r * 12 + i]);
            }
        }
        mix(&mut st, &k.m);
    }
    st.map(FGL::from)
}

macro_rules! wide {
    ($name:ident, $fr:ty, $k:ident, $partial:expr) => {
        /// All lanes after the permutation of `cap` followed by `inp`.
        pub fn $name(inp: &[$fr], cap: &$fr) -> Vec<$fr> {
            let t = inp.len() + 1;
            let partial: [usize; 16] = $partial;
            let (c, m) = (&$k.c[t - 2], &$k.m[t - 2]);
            let mut st = vec![*cap];
            st.extend_from_slice(inp);
            for r in 0..8 + partial[t - 2] {
                for i in 0..t {
                    st[i].add_assign(&c[r * t + i]);
                    if i == 0 || r < 4 || r >= 4 + partial[t - 2] {
                        let x = st[i];
                        st[i].square();
                        st[i].square();
                        st[i].mul_assign(&x);
                    }
                }
                let old = st.clone();
                for i in 0..t {
                    st[i] = <$fr>::zero();
                    for j in 0..t {
                        let mut x = m[i][j];
                        x.mul_assign(&old[j]);
                        st[i].add_assign(&x);
                    }
                }
            }
            st
        }
    };
}
wide!(bn, BnFr, POSEIDON_BN128_CONSTANTS, [56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68]);

/// BLS12-381 has tables for the optimised form only (the crate's textbook instance is another one):
/// there the partial rounds' matrices are factored into one dense matrix, applied before them, and
/// one sparse matrix each.
pub fn bls(inp: &[BlsFr], cap: &BlsFr) -> Vec<BlsFr> {
    const PARTIAL: [usize; 16] =
        [55, 55, 56, 56, 56, 56, 57, 57, 57, 57, 57, 57, 57, 57, 59, 59];
    let t = inp.len() + 1;
    let k = &*POSEIDON_BLS12381_CONSTANTS_OPT;
    let (c, m, p, s) = (&k.c[t - 2], &k.m[t - 2], &k.p[t - 2], &k.s[t - 2]);
    let np = PARTIAL[t - 2];
    let mul = |a: &BlsFr, b: &BlsFr| {
        let mut x = *a;
        x.mul_assign(b);
        x
    };
    let p5 = |x: &BlsFr| {
        let x2 = mul(x, x);
        mul(&mul(&x2, &x2), x)
    };
    let mix = |st: &[BlsFr], m: &[Vec<BlsFr>]| -> Vec<BlsFr> {
        (0..t)
            .map(|i| {
                let mut a = BlsFr::zero();
                (0..t).for_each(|j| a.add_assign(&mul(&m[j][i], &st[j])));
                a
            })
            .collect()
    };
    let mut st = vec![*cap];
    st.extend_from_slice(inp);
    let mut used = 0;
    for x in st.iter_mut() {
        x.add_assign(&c[used]);
        used += 1;
    }
    for r in 0..8 + np {
        if r < 4 || r >= 4 + np {
            for x in st.iter_mut() {
                *x = p5(x);
                if r != 7 + np {
                    x.add_assign(&c[used]);
                    used += 1;
                }
            }
            st = mix(&st, if r == 3 { p } else { m });
        } else {
            let sp = &s[(2 * t - 1) * (r - 4)..(2 * t - 1) * (r - 3)];
            let mut x0 = p5(&st[0]);
            x0.add_assign(&c[used]);
            used += 1;
            st[0] = x0;
            let mut s0 = BlsFr::zero();
            (0..t).for_each(|j| s0.add_assign(&mul(&sp[j], &st[j])));
            (1..t).for_each(|j| {
                let x = mul(&sp[t + j - 1], &x0);
                st[j].add_assign(&x)
            });
            st[0] = s0;
        }
    }
    st
}

fn fold<T: PrimeField>(h: &mut u64, v: &[T]) {
    for x in v {
        for w in x.into_repr().as_ref() {
            *h = (*h ^ *w).wrapping_mul(0x100000001b3).rotate_left(29);
        }
    }
}
/// One number over the tables of all three families, as the references read them.
fn tables() -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let k = gl_tables();
    for w in k.c.iter().chain(k.m.iter().flatten()).chain(k.p.iter().flatten()).chain(&k.s) {
        h = (h ^ *w).wrapping_mul(0x100000001b3).rotate_left(29);
    }
    for t in 0..16 {
        let n = POSEIDON_BN128_CONSTANTS.m[t].len();
        let one: Vec<BnFr> = (1..n as u64).map(|i| BnFr::from_repr(i.into()).unwrap()).collect();
        fold(&mut h, &bn(&one, &one[0]));
        let one: Vec<BlsFr> = (1..n as u64).map(|i| BlsFr::from_repr(i.into()).unwrap()).collect();
        fold(&mut h, &bls(&one, &one[0]));
    }
    h
}
/// The parameters are the published ones (the references above read them from the code).
pub fn parameters() -> Result<(), Viol> {
    static H: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    let h = *H.get_or_init(tables);
    if h != 0xebbac5c067b12b40 {
        return viol("hash: the parameters are not the published ones", format!("{h:#x}"));
    }
    Ok(())
}
