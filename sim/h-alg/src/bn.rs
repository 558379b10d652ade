//! BN254 as the EVM has it: its two groups, and the precompiled contracts 6, 7 and 8. Pairings are
//! decided by discrete logarithms, which are known for every point the check makes.
use num_bigint::BigUint;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub fn n(s: &str) -> BigUint {
    s.parse().unwrap()
}
pub fn q() -> &'static BigUint {
    static Q: OnceLock<BigUint> = OnceLock::new();
    Q.get_or_init(|| n("21888242871839275222246405745257275088696311157297823662689037894645226208583"))
}
pub fn order() -> &'static BigUint {
    static R: OnceLock<BigUint> = OnceLock::new();
    R.get_or_init(|| n("21888242871839275222246405745257275088548364400416034343698204186575808495617"))
}
fn zero() -> BigUint {
    BigUint::default()
}
/// Its inverse modulo a prime.
pub fn inverse(x: &BigUint, m: &BigUint) -> BigUint {
    x.modpow(&(m - 2u8), m)
}

pub trait El: Clone + PartialEq + Ord {
    fn of(c: [&BigUint; 2]) -> Self;
    fn add(&self, o: &Self) -> Self;
    fn sub(&self, o: &Self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn inv(&self) -> Self;
    fn curve_b() -> Self;
    fn is_zero(&self) -> bool {
        *self == self.sub(self)
    }
    fn times(&self, k: u8) -> Self {
        let mut x = self.clone();
        for _ in 1..k {
            x = x.add(self);
        }
        x
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct F1(pub BigUint);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct F2(pub BigUint, pub BigUint);
impl El for F1 {
    fn of(c: [&BigUint; 2]) -> F1 {
        F1(c[0].clone())
    }
    fn add(&self, o: &F1) -> F1 {
        F1((&self.0 + &o.0) % q())
    }
    fn sub(&self, o: &F1) -> F1 {
        F1((&self.0 + q() - &o.0) % q())
    }
    fn mul(&self, o: &F1) -> F1 {
        F1(&self.0 * &o.0 % q())
    }
    fn inv(&self) -> F1 {
        F1(inverse(&self.0, q()))
    }
    fn curve_b() -> F1 {
        F1(BigUint::from(3u8))
    }
}
impl El for F2 {
    fn of(c: [&BigUint; 2]) -> F2 {
        F2(c[0].clone(), c[1].clone())
    }
    fn add(&self, o: &F2) -> F2 {
        F2((&self.0 + &o.0) % q(), (&self.1 + &o.1) % q())
    }
    fn sub(&self, o: &F2) -> F2 {
        F2((&self.0 + q() - &o.0) % q(), (&self.1 + q() - &o.1) % q())
    }
    fn mul(&self, o: &F2) -> F2 {
        let (ac, bd) = (&self.0 * &o.0, &self.1 * &o.1);
        let cross = (&self.0 + &self.1) * (&o.0 + &o.1) - &ac - &bd;
        F2((ac + q() * q() - bd) % q(), cross % q())
    }
    fn inv(&self) -> F2 {
        let d = inverse(&((&self.0 * &self.0 + &self.1 * &self.1) % q()), q());
        F2(&self.0 * &d % q(), (q() - &self.1) % q() * d % q())
    }
    /// 3 / (9 + u)
    fn curve_b() -> F2 {
        static B: OnceLock<F2> = OnceLock::new();
        B.get_or_init(|| F2(BigUint::from(3u8), zero()).mul(&F2(BigUint::from(9u8), BigUint::from(1u8)).inv())).clone()
    }
}

/// `None` is the identity.
pub type Point<E> = Option<(E, E)>;
type Jac<E> = Option<(E, E, E)>;
pub fn on_curve<E: El>(p: &Point<E>) -> bool {
    p.as_ref().is_none_or(|(x, y)| y.mul(y) == x.mul(x).mul(x).add(&E::curve_b()))
}
fn double<E: El>(p: &Jac<E>) -> Jac<E> {
    let (x, y, z) = p.as_ref()?;
    if y.is_zero() {
        return None;
    }
    let (a, b) = (x.mul(x), y.mul(y));
    let c = b.mul(&b);
    let xb = x.add(&b);
    let d = xb.mul(&xb).sub(&a).sub(&c).times(2);
    let e = a.times(3);
    let x3 = e.mul(&e).sub(&d.times(2));
    let y3 = e.mul(&d.sub(&x3)).sub(&c.times(8));
    Some((x3, y3, y.mul(z).times(2)))
}
fn plus<E: El>(p: &Jac<E>, r: &Point<E>) -> Jac<E> {
    let Some((x2, y2)) = r else { return p.clone() };
    let Some((x1, y1, z1)) = p else {
        let one = x2.sub(x2).add(&E::of([&BigUint::from(1u8), &zero()]));
        return Some((x2.clone(), y2.clone(), one));
    };
    let z2 = z1.mul(z1);
    let (u, s) = (x2.mul(&z2), y2.mul(&z2).mul(z1));
    let (h, w) = (u.sub(x1), s.sub(y1));
    if h.is_zero() {
        return if w.is_zero() { double(p) } else { None };
    }
    let h2 = h.mul(&h);
    let h3 = h2.mul(&h);
    let v = x1.mul(&h2);
    let x3 = w.mul(&w).sub(&h3).sub(&v.times(2));
    let y3 = w.mul(&v.sub(&x3)).sub(&y1.mul(&h3));
    Some((x3, y3, z1.mul(&h)))
}
fn affine<E: El>(p: Jac<E>) -> Point<E> {
    let (x, y, z) = p?;
    let i = z.inv();
    let i2 = i.mul(&i);
    Some((x.mul(&i2), y.mul(&i2).mul(&i)))
}
pub fn add<E: El>(a: &Point<E>, b: &Point<E>) -> Point<E> {
    affine(plus(&plus(&None, a), b))
}
pub fn neg<E: El>(p: &Point<E>) -> Point<E> {
    p.as_ref().map(|(x, y)| (x.clone(), y.sub(y).sub(y)))
}
pub fn mul<E: El>(p: &Point<E>, k: &BigUint) -> Point<E> {
    let mut acc = None;
    for i in (0..k.bits()).rev() {
        acc = double(&acc);
        if k >> (i as usize) & BigUint::from(1u8) == BigUint::from(1u8) {
            acc = plus(&acc, p);
        }
    }
    affine(acc)
}
pub type G1 = Point<F1>;
pub type G2 = Point<F2>;
fn gen1() -> G1 {
    Some((F1(BigUint::from(1u8)), F1(BigUint::from(2u8))))
}
fn gen2() -> G2 {
    Some((
        F2(
            n("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
            n("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
        ),
        F2(
            n("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
            n("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
        ),
    ))
}
fn powers<E: El>(g: Point<E>) -> Vec<Point<E>> {
    std::iter::successors(Some(g), |p| Some(add(p, p))).take(254).collect()
}
fn table1() -> &'static Vec<G1> {
    static T: OnceLock<Vec<G1>> = OnceLock::new();
    T.get_or_init(|| powers(gen1()))
}
fn table2() -> &'static Vec<G2> {
    static T: OnceLock<Vec<G2>> = OnceLock::new();
    T.get_or_init(|| powers(gen2()))
}
fn base<E: El>(t: &[Point<E>], k: &BigUint) -> Point<E> {
    let mut acc = None;
    for (i, p) in t.iter().enumerate() {
        if k >> i & BigUint::from(1u8) == BigUint::from(1u8) {
            acc = plus(&acc, p);
        }
    }
    affine(acc)
}
pub fn prewarm() {
    let k = order() - 1u8;
    assert!(base(table1(), &k) == neg(&gen1()) && base(table2(), &k) == neg(&gen2()));
    assert!(on_curve(&gen1()) && on_curve(&gen2()));
    assert!(mul(&gen1(), order()).is_none() && mul(&gen2(), order()).is_none());
    let k = BigUint::from(0xfeed_5eedu64);
    assert!(base(table1(), &k) == mul(&gen1(), &k) && base(table2(), &k) == mul(&gen2(), &k));
}

/// Every point by its logarithm.
#[derive(Default)]
pub struct Known {
    one: BTreeMap<(F1, F1), BigUint>,
    two: BTreeMap<(F2, F2), BigUint>,
    made1: BTreeMap<BigUint, G1>,
    pub calls: [u64; 3],
    pub unknown: u64,
    /// This call of these fails, as one out of gas does.
    pub fails: Option<(u64, u64)>,
}
impl Known {
    pub fn g1(&mut self, k: &BigUint) -> G1 {
        let k = k % order();
        if let Some(p) = self.made1.get(&k) {
            return p.clone();
        }
        let p = base(table1(), &k);
        if let Some(c) = &p {
            self.one.insert(c.clone(), k.clone());
            if let Some(c) = neg(&p) {
                self.one.insert(c, order() - &k);
            }
        }
        self.made1.insert(k, p.clone());
        p
    }
    pub fn g2(&mut self, k: &BigUint) -> G2 {
        let k = k % order();
        let p = base(table2(), &k);
        if let Some(c) = &p {
            self.two.insert(c.clone(), k.clone());
            self.two.insert(neg(&p).unwrap(), order() - k);
        }
        p
    }
    fn log1(&self, p: &G1) -> Option<BigUint> {
        p.as_ref().map_or(Some(zero()), |c| self.one.get(c).cloned())
    }
    fn read1(&self, b: &[u8]) -> Option<G1> {
        let w = |i: usize| BigUint::from_bytes_be(&b[32 * i..32 * i + 32]);
        let (x, y) = (w(0), w(1));
        if &x >= q() || &y >= q() {
            return None;
        }
        let p = (x != zero() || y != zero()).then_some((F1(x), F1(y)));
        on_curve(&p).then_some(p)
    }
    /// Imaginary parts first.
    fn read2(&self, b: &[u8]) -> Option<G2> {
        let w = |i: usize| BigUint::from_bytes_be(&b[32 * i..32 * i + 32]);
        let c = [w(1), w(0), w(3), w(2)];
        if c.iter().any(|c| c >= q()) {
            return None;
        }
        let none = c.iter().all(|c| *c == zero());
        let [a, b, c, d] = c;
        let p = (!none).then_some((F2(a, b), F2(c, d)));
        let inside = |p: &G2| p.as_ref().is_none_or(|c| self.two.contains_key(c)) || mul(p, order()).is_none();
        (on_curve(&p) && inside(&p)).then_some(p)
    }
    /// What a call to a contract at a low address returns; `None` if it fails.
    pub fn call(&mut self, at: &BigUint, input: &[u8]) -> Option<Vec<u8>> {
        let padded = |len: usize| {
            let mut v = input[..len.min(input.len())].to_vec();
            v.resize(len, 0);
            v
        };
        let out = |p: &G1| {
            let (x, y) = p.as_ref().map_or((zero(), zero()), |c| (c.0 .0.clone(), c.1 .0.clone()));
            [word(&x), word(&y)].concat()
        };
        let at: u64 = if at.bits() > 60 { 1 << 60 } else { at.to_u64_digits().first().copied().unwrap_or(0) };
        if (6..9).contains(&at) {
            self.calls[at as usize - 6] += 1;
        }
        if let Some((kind, left)) = &mut self.fails {
            if *kind == at {
                if *left == 0 {
                    self.fails = None;
                    return None;
                }
                *left -= 1;
            }
        }
        match at {
            6 => {
                let v = padded(128);
                let (a, b) = (self.read1(&v)?, self.read1(&v[64..])?);
                let s = match (self.log1(&a), self.log1(&b)) {
                    (Some(a), Some(b)) => self.g1(&(a + b)),
                    _ => add(&a, &b),
                };
                Some(out(&s))
            }
            7 => {
                let v = padded(96);
                let a = self.read1(&v)?;
                let k = BigUint::from_bytes_be(&v[64..]);
                let s = match self.log1(&a) {
                    Some(a) => self.g1(&(a * k)),
                    None => mul(&a, &k),
                };
                Some(out(&s))
            }
            8 => {
                if input.len() % 192 != 0 {
                    return None;
                }
                let mut sum = zero();
                let mut sure = true;
                for c in input.chunks(192) {
                    let (a, b) = (self.read1(c)?, self.read2(&c[64..])?);
                    let b = b.map_or(Some(zero()), |b| self.two.get(&b).cloned());
                    match (self.log1(&a), b) {
                        (Some(a), Some(b)) => sum += a * b,
                        // of two factors with the same unknown point only the identity's is trivial
                        _ => sure = false,
                    }
                }
                self.unknown += !sure as u64;
                Some(word(&BigUint::from((sure && sum % order() == zero()) as u8)).to_vec())
            }
            // an identity function, and functions of no use here
            4 => Some(input.to_vec()),
            2 | 3 | 5 => Some(vec![0x5a; 32]),
            9 | 10 => None,
            // nobody lives there
            _ => Some(vec![]),
        }
    }
}
pub fn word(x: &BigUint) -> [u8; 32] {
    let b = x.to_bytes_be();
    let mut w = [0; 32];
    w[32 - b.len()..].copy_from_slice(&b);
    w
}
