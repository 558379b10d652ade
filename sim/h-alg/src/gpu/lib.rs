use crate::fields::*;
pub use algebraic_gpu::circom_circuit::CircomCircuit;
pub use algebraic_gpu::reader::*;
pub use algebraic_gpu::witness::{load_input_for_witness, WitnessCalculator};
use bellperson::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};

/// Whether elements of every field here print as the repository's do.
pub const PRINTS_ALL: bool = false;
/// A field that the readers read.
pub trait Kind: Fld {}
impl<F: Fld> Kind for F {}
pub const CRATE: &str = "";
pub fn public_inputs<F: Fld>(c: &CircomCircuit<F>) -> Option<Vec<F>> {
    c.get_public_inputs()
}
pub fn public_inputs_json<F: Fld>(c: &CircomCircuit<F>) -> String {
    c.get_public_inputs_json()
}
pub fn synthesize<F: Fld>(c: CircomCircuit<F>, offset: usize) -> Result<Recorder<F>, String> {
    let mut cs = Recorder { inputs: vec![F::ONE], aux: vec![F::ZERO; offset], cons: vec![] };
    c.synthesize(&mut cs).map_err(|e| format!("{e:?}"))?;
    Ok(cs)
}

/// Records what a circuit asks for.
pub struct Recorder<F: Fld> {
    pub inputs: Vec<F>,
    pub aux: Vec<F>,
    pub cons: Vec<[Vec<(bool, usize, F)>; 3]>,
}
impl<F: Fld> ConstraintSystem<F> for Recorder<F> {
    type Root = Self;
    fn alloc<G, A, AR>(&mut self, _: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.aux.push(f()?);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<G, A, AR>(&mut self, _: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.inputs.push(f()?);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let list = |l: LinearCombination<F>| {
            l.iter()
                .map(|(v, c)| match v.get_unchecked() {
                    Index::Input(i) => (true, i, *c),
                    Index::Aux(i) => (false, i, *c),
                })
                .collect()
        };
        let z = LinearCombination::zero;
        self.cons.push([list(a(z())), list(b(z())), list(c(z()))]);
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
