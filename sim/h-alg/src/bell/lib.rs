use crate::fields::*;
use algebraic::bellman_ce::pairing::{bls12_381, bn256};
use algebraic::bellman_ce::{Circuit, ConstraintSystem, Engine, Index, LinearCombination, SynthesisError, Variable};
use algebraic::{Field as _, PrimeField, PrimeFieldRepr, ScalarEngine};
pub use algebraic::witness::load_input_for_witness;
pub use algebraic_gpu::circom_circuit::CircomCircuit;
use algebraic_gpu::circom_circuit as gpu;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

pub const PRINTS_ALL: bool = true;
pub const CRATE: &str = "bellman, ";

/// A field, and the one that the readers over bellman know it as.
pub trait Kind: Fld {
    type Fr: PrimeField + algebraic::SqrtField;
}
impl Kind for Bn {
    type Fr = bn256::Fr;
}
impl Kind for blstrs::Scalar {
    type Fr = bls12_381::Fr;
}
impl Kind for Gl {
    type Fr = ::fields::field_gl::Fr;
}

#[derive(Debug)]
pub struct Of<F>(PhantomData<F>);
impl<F> Clone for Of<F> {
    fn clone(&self) -> Self {
        Of(PhantomData)
    }
}
impl<F: Kind> ScalarEngine for Of<F> {
    type Fr = F::Fr;
}
impl<F: Kind> Engine for Of<F> {}

fn old<F: Kind>(x: &F) -> F::Fr {
    let mut repr = <F::Fr as PrimeField>::Repr::default();
    repr.read_le(x.to_repr().as_ref()).unwrap();
    F::Fr::from_repr(repr).unwrap()
}
fn new<F: Kind>(x: &F::Fr) -> F {
    let mut bytes = vec![];
    x.into_repr().write_le(&mut bytes).unwrap();
    let mut repr = F::Repr::default();
    repr.as_mut().copy_from_slice(&bytes);
    F::from_repr(repr).unwrap()
}
fn news<F: Kind>(x: &[F::Fr]) -> Vec<F> {
    x.iter().map(new).collect()
}
type Terms<T> = Vec<(usize, T)>;

pub fn load_r1cs<F: Kind>(path: &str) -> gpu::R1CS<F> {
    let x = algebraic::reader::load_r1cs::<Of<F>>(path);
    let terms = |t: &Terms<F::Fr>| t.iter().map(|(w, c)| (*w, new(c))).collect::<Terms<F>>();
    gpu::R1CS {
        num_inputs: x.num_inputs,
        num_aux: x.num_aux,
        num_variables: x.num_variables,
        num_outputs: x.num_outputs,
        constraints: x.constraints.iter().map(|c| (terms(&c.0), terms(&c.1), terms(&c.2))).collect(),
        custom_gates: x
            .custom_gates
            .iter()
            .map(|g| gpu::CustomGates { template_name: g.template_name.clone(), parameters: news(&g.parameters) })
            .collect(),
        custom_gates_uses: x
            .custom_gates_uses
            .iter()
            .map(|u| gpu::CustomGatesUses { id: u.id, signals: u.signals.clone() })
            .collect(),
    }
}
fn circuit<F: Kind>(c: &CircomCircuit<F>) -> algebraic::circom_circuit::CircomCircuit<Of<F>> {
    use algebraic::circom_circuit as bell;
    let terms = |t: &Terms<F>| t.iter().map(|(w, c)| (*w, old(c))).collect::<Terms<F::Fr>>();
    bell::CircomCircuit {
        r1cs: bell::R1CS {
            num_inputs: c.r1cs.num_inputs,
            num_aux: c.r1cs.num_aux,
            num_variables: c.r1cs.num_variables,
            num_outputs: c.r1cs.num_outputs,
            constraints: c.r1cs.constraints.iter().map(|c| (terms(&c.0), terms(&c.1), terms(&c.2))).collect(),
            custom_gates: vec![],
            custom_gates_uses: vec![],
        },
        witness: c.witness.as_ref().map(|w| w.iter().map(old).collect()),
        wire_mapping: c.wire_mapping.clone(),
        aux_offset: c.aux_offset,
    }
}
pub fn public_inputs<F: Kind>(c: &CircomCircuit<F>) -> Option<Vec<F>> {
    circuit(c).get_public_inputs().map(|x| news(&x))
}
pub fn public_inputs_json<F: Kind>(c: &CircomCircuit<F>) -> String {
    circuit(c).get_public_inputs_json()
}
pub fn synthesize<F: Kind>(c: CircomCircuit<F>, offset: usize) -> Result<Recorder<F>, String> {
    let mut cs = Recorder { inputs: vec![F::ONE], aux: vec![F::ZERO; offset], cons: vec![] };
    circuit(&c).synthesize(&mut cs).map_err(|e| format!("{e:?}"))?;
    Ok(cs)
}

pub struct WitnessCalculator(algebraic::witness::WitnessCalculator);
impl Deref for WitnessCalculator {
    type Target = algebraic::witness::WitnessCalculator;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl DerefMut for WitnessCalculator {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl WitnessCalculator {
    pub fn from_file(path: impl AsRef<std::path::Path>) -> anyhow::Result<Self> {
        algebraic::witness::WitnessCalculator::from_file(path).map(WitnessCalculator)
    }
    pub fn save_witness_to_bin_file<F: Kind>(&mut self, path: &str, w: &Vec<u32>) -> anyhow::Result<()> {
        self.0.save_witness_to_bin_file::<Of<F>>(path, w)
    }
}
pub fn load_witness_from_file<F: Kind>(path: &str) -> Vec<F> {
    news(&algebraic::reader::load_witness_from_file::<Of<F>>(path))
}
pub fn load_witness_from_array<F: Kind>(bytes: Vec<u8>) -> anyhow::Result<Vec<F>> {
    Ok(news(&algebraic::reader::load_witness_from_array::<Of<F>>(bytes)?))
}

/// Records what a circuit asks for.
pub struct Recorder<F: Kind> {
    pub inputs: Vec<F>,
    pub aux: Vec<F>,
    pub cons: Vec<[Vec<(bool, usize, F)>; 3]>,
}
impl<F: Kind> ConstraintSystem<Of<F>> for Recorder<F> {
    fn alloc<G, A, AR>(&mut self, _: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.aux.push(new(&f()?));
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<G, A, AR>(&mut self, _: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F::Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.inputs.push(new(&f()?));
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<Of<F>>) -> LinearCombination<Of<F>>,
        LB: FnOnce(LinearCombination<Of<F>>) -> LinearCombination<Of<F>>,
        LC: FnOnce(LinearCombination<Of<F>>) -> LinearCombination<Of<F>>,
    {
        let list = |l: LinearCombination<Of<F>>| {
            l.0.iter()
                .map(|(v, c)| match v.get_unchecked() {
                    Index::Input(i) => (true, i, new(c)),
                    Index::Aux(i) => (false, i, new(c)),
                })
                .collect()
        };
        let z = LinearCombination::zero;
        self.cons.push([list(a(z())), list(b(z())), list(c(z()))]);
    }
}
