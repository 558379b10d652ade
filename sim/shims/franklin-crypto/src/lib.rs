//! Stand-in for franklin-crypto and its bellman, whose sources are not available here: the traits and
//! types the repository's circuit readers name, without any proving system behind them.
pub extern crate ff;
pub mod bellman {
    pub use ff::{Field, PrimeField, PrimeFieldRepr, ScalarEngine};
    pub use pairing::Engine;
    pub mod pairing {
        pub use ff;
        pub trait Engine: ff::ScalarEngine {}
        pub mod bn256 {
            use ff::*;
            #[derive(PrimeField)]
            #[PrimeFieldModulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
            #[PrimeFieldGenerator = "7"]
            pub struct Fr(pub FrRepr);
        }
        pub mod bls12_381 {
            use ff::*;
            #[derive(PrimeField)]
            #[PrimeFieldModulus = "52435875175126190479447740508185965837690552500527637822603658699938581184513"]
            #[PrimeFieldGenerator = "7"]
            pub struct Fr(pub FrRepr);
        }
    }
    pub mod kate_commitment {
        use super::pairing::Engine;
        use std::io::{Error, ErrorKind, Read, Result};
        use std::marker::PhantomData;
        pub struct CrsForMonomialForm;
        pub struct CrsForLagrangeForm;
        pub struct Crs<E: Engine, F>(PhantomData<(E, F)>);
        impl<E: Engine, F> Crs<E, F> {
            pub fn read<R: Read>(_: R) -> Result<Self> {
                Err(Error::new(ErrorKind::Unsupported, "no curve here"))
            }
        }
    }
    #[derive(Debug)]
    pub enum SynthesisError {
        AssignmentMissing,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum Index {
        Input(usize),
        Aux(usize),
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct Variable(Index);
    impl Variable {
        pub fn new_unchecked(i: Index) -> Self {
            Variable(i)
        }
        pub fn get_unchecked(&self) -> Index {
            self.0
        }
    }
    pub struct LinearCombination<E: ScalarEngine>(pub Vec<(Variable, E::Fr)>);
    impl<E: ScalarEngine> LinearCombination<E> {
        pub fn zero() -> Self {
            LinearCombination(vec![])
        }
    }
    impl<E: ScalarEngine> std::ops::Add<(E::Fr, Variable)> for LinearCombination<E> {
        type Output = Self;
        fn add(mut self, (c, v): (E::Fr, Variable)) -> Self {
            self.0.push((v, c));
            self
        }
    }
    pub trait Circuit<E: Engine> {
        fn synthesize<CS: ConstraintSystem<E>>(self, cs: &mut CS) -> Result<(), SynthesisError>;
    }
    pub trait ConstraintSystem<E: Engine>: Sized {
        fn alloc<F, A, AR>(&mut self, annotation: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>;
        fn alloc_input<F, A, AR>(&mut self, annotation: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>;
        fn enforce<A, AR, LA, LB, LC>(&mut self, annotation: A, a: LA, b: LB, c: LC)
        where
            A: FnOnce() -> AR,
            AR: Into<String>,
            LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>;
    }
}
pub mod plonk {
    pub mod circuit {
        pub mod bigint {
            pub mod bigint {
                use ff::{PrimeField, PrimeFieldRepr};
                use num_bigint::BigUint;
                pub fn fe_to_biguint<F: PrimeField>(x: &F) -> BigUint {
                    let mut b = vec![];
                    x.into_repr().write_le(&mut b).unwrap();
                    BigUint::from_bytes_le(&b)
                }
                pub fn biguint_to_fe<F: PrimeField>(x: BigUint) -> F {
                    F::from_str(&x.to_str_radix(10)).expect("an element")
                }
            }
            pub mod field {
                use ff::{PrimeField, ScalarEngine};
                use num_bigint::BigUint;
                use std::marker::PhantomData;
                pub struct LimbParams {
                    pub limb_size_bits: usize,
                    pub limb_max_value: BigUint,
                }
                pub struct RangeCheck {
                    pub minimal_multiple: usize,
                }
                pub struct RnsParameters<E: ScalarEngine, F: PrimeField> {
                    pub num_limbs_for_in_field_representation: usize,
                    pub num_binary_limbs: usize,
                    pub binary_limbs_params: LimbParams,
                    pub range_check_info: RangeCheck,
                    pub binary_limbs_bit_widths: Vec<usize>,
                    pub binary_limbs_max_values: Vec<BigUint>,
                    pub double: bool,
                    pub of: PhantomData<(E, F)>,
                }
                impl<E: ScalarEngine, F: PrimeField> RnsParameters<E, F> {
                    pub fn can_allocate_from_double_limb_witness(&self) -> bool {
                        self.double
                    }
                }
            }
        }
    }
}
