//! The fields circuits are written in: BN254's and BLS12-381's scalars, and Goldilocks in eight bytes.
use ff::{Field, PrimeField};
use num_bigint::BigUint;
use simcore::Rng;
use std::iter::{Product, Sum};
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(PrimeField)]
#[PrimeFieldModulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
#[PrimeFieldGenerator = "5"]
#[PrimeFieldReprEndianness = "little"]
pub struct Bn([u64; 4]);

const P: u64 = 0xFFFF_FFFF_0000_0001;
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct Gl(pub u64);
impl std::fmt::Debug for Gl {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "0x{:016x}", self.0)
    }
}
fn red(x: u128) -> Gl {
    Gl((x % P as u128) as u64)
}
impl Add for Gl {
    type Output = Gl;
    fn add(self, o: Gl) -> Gl {
        red(self.0 as u128 + o.0 as u128)
    }
}
impl Neg for Gl {
    type Output = Gl;
    fn neg(self) -> Gl {
        red((P - self.0) as u128)
    }
}
impl Sub for Gl {
    type Output = Gl;
    fn sub(self, o: Gl) -> Gl {
        self + -o
    }
}
impl Mul for Gl {
    type Output = Gl;
    fn mul(self, o: Gl) -> Gl {
        red(self.0 as u128 * o.0 as u128)
    }
}
macro_rules! by_ref {
    ($t:ident $f:ident $ta:ident $fa:ident) => {
        impl<'a> $t<&'a Gl> for Gl {
            type Output = Gl;
            fn $f(self, o: &'a Gl) -> Gl {
                $t::$f(self, *o)
            }
        }
        impl $ta for Gl {
            fn $fa(&mut self, o: Gl) {
                *self = $t::$f(*self, o)
            }
        }
        impl<'a> $ta<&'a Gl> for Gl {
            fn $fa(&mut self, o: &'a Gl) {
                *self = $t::$f(*self, *o)
            }
        }
    };
}
by_ref!(Add add AddAssign add_assign);
by_ref!(Sub sub SubAssign sub_assign);
by_ref!(Mul mul MulAssign mul_assign);
impl Sum for Gl {
    fn sum<I: Iterator<Item = Gl>>(i: I) -> Gl {
        i.fold(Gl(0), |a, b| a + b)
    }
}
impl<'a> Sum<&'a Gl> for Gl {
    fn sum<I: Iterator<Item = &'a Gl>>(i: I) -> Gl {
        i.fold(Gl(0), |a, b| a + *b)
    }
}
impl Product for Gl {
    fn product<I: Iterator<Item = Gl>>(i: I) -> Gl {
        i.fold(Gl(1), |a, b| a * b)
    }
}
impl<'a> Product<&'a Gl> for Gl {
    fn product<I: Iterator<Item = &'a Gl>>(i: I) -> Gl {
        i.fold(Gl(1), |a, b| a * *b)
    }
}
impl ConditionallySelectable for Gl {
    fn conditional_select(a: &Gl, b: &Gl, c: Choice) -> Gl {
        Gl(u64::conditional_select(&a.0, &b.0, c))
    }
}
impl ConstantTimeEq for Gl {
    fn ct_eq(&self, o: &Gl) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl From<u64> for Gl {
    fn from(x: u64) -> Gl {
        red(x as u128)
    }
}
impl Field for Gl {
    const ZERO: Gl = Gl(0);
    const ONE: Gl = Gl(1);
    fn random(mut r: impl rand_core::RngCore) -> Gl {
        Gl::from(r.next_u64())
    }
    fn square(&self) -> Gl {
        *self * *self
    }
    fn double(&self) -> Gl {
        *self + *self
    }
    fn invert(&self) -> CtOption<Gl> {
        CtOption::new(self.pow_vartime([P - 2]), !self.is_zero())
    }
    fn sqrt_ratio(_: &Gl, _: &Gl) -> (Choice, Gl) {
        unimplemented!()
    }
}
impl PrimeField for Gl {
    type Repr = [u8; 8];
    fn from_repr(r: [u8; 8]) -> CtOption<Gl> {
        let x = u64::from_le_bytes(r);
        CtOption::new(Gl(x), ((x < P) as u8).into())
    }
    fn to_repr(&self) -> [u8; 8] {
        self.0.to_le_bytes()
    }
    fn is_odd(&self) -> Choice {
        ((self.0 & 1) as u8).into()
    }
    const MODULUS: &'static str = "0xffffffff00000001";
    const NUM_BITS: u32 = 64;
    const CAPACITY: u32 = 63;
    const TWO_INV: Gl = Gl(0x7fffffff80000001);
    const MULTIPLICATIVE_GENERATOR: Gl = Gl(7);
    const S: u32 = 32;
    const ROOT_OF_UNITY: Gl = Gl(1753635133440165772);
    const ROOT_OF_UNITY_INV: Gl = Gl(0);
    const DELTA: Gl = Gl(0);
}

/// A field circuits come in, and how its elements look in files.
pub trait Fld: PrimeField {
    const NAME: &'static str;
    const BYTES: usize;
    const MOD: &'static str;
    fn modulus() -> BigUint {
        BigUint::parse_bytes(Self::MOD.as_bytes(), 16).unwrap()
    }
    fn prime_le() -> Vec<u8> {
        le(&Self::modulus(), Self::BYTES)
    }
    fn of(x: &BigUint) -> Self {
        let mut r = Self::Repr::default();
        r.as_mut().copy_from_slice(&le(&(x % Self::modulus()), Self::BYTES));
        Self::from_repr(r).unwrap()
    }
    fn big(&self) -> BigUint {
        BigUint::from_bytes_le(self.to_repr().as_ref())
    }
}
pub fn le(x: &BigUint, n: usize) -> Vec<u8> {
    let mut b = x.to_bytes_le();
    b.resize(n, 0);
    b
}
impl Fld for Bn {
    const NAME: &'static str = "BN128";
    const BYTES: usize = 32;
    const MOD: &'static str = "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001";
}
impl Fld for blstrs::Scalar {
    const NAME: &'static str = "BLS12381";
    const BYTES: usize = 32;
    const MOD: &'static str = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
}
impl Fld for Gl {
    const NAME: &'static str = "GL";
    const BYTES: usize = 8;
    const MOD: &'static str = "ffffffff00000001";
}
pub fn some<F: Fld>(r: &mut Rng) -> F {
    match r.below(8) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::ONE,
        3 => F::from(r.below(100)),
        4 => -F::from(r.below(1 << 33)),
        _ => {
            let b: Vec<u8> = (0..F::BYTES + 8).map(|_| r.next() as u8).collect();
            F::of(&BigUint::from_bytes_le(&b))
        }
    }
}
