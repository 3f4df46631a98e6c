//! Stand-in for Expander's `circuit` crate: the exported data types, plus a direct reference
//! evaluator of the recursive circuit format.
use gkr_engine::FieldEngine;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub enum CoefType {
    #[default]
    Constant,
    Random,
    PublicInput(usize),
}
#[derive(Debug, Clone, PartialEq)]
pub struct Gate<C: FieldEngine, const INPUT_NUM: usize> {
    pub i_ids: [usize; INPUT_NUM],
    pub o_id: usize,
    pub coef_type: CoefType,
    pub coef: C::CircuitField,
    pub gate_type: usize,
}
pub type GateMul<C> = Gate<C, 2>;
pub type GateAdd<C> = Gate<C, 1>;
pub type GateUni<C> = Gate<C, 1>;
pub type GateConst<C> = Gate<C, 0>;
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Allocation {
    pub i_offset: usize,
    pub o_offset: usize,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Segment<C: FieldEngine> {
    pub i_var_num: usize,
    pub o_var_num: usize,
    pub child_segs: Vec<(usize, Vec<Allocation>)>,
    pub gate_muls: Vec<GateMul<C>>,
    pub gate_adds: Vec<GateAdd<C>>,
    pub gate_consts: Vec<GateConst<C>>,
    pub gate_uni: Vec<GateUni<C>>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct RecursiveCircuit<C: FieldEngine> {
    pub num_public_inputs: usize,
    pub num_outputs: usize,
    pub expected_num_output_zeros: usize,
    pub segments: Vec<Segment<C>>,
    pub layers: Vec<usize>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Circuit<C: FieldEngine> {
    pub recursive: RecursiveCircuit<C>,
}
impl<C: FieldEngine> RecursiveCircuit<C> {
    pub fn flatten(&self) -> Circuit<C> {
        Circuit { recursive: self.clone() }
    }
}
impl<C: FieldEngine> Circuit<C> {
    pub fn pre_process_gkr(&mut self) {}
}
