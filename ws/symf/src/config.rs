//! Configurations of the compiler whose circuit field is symbolic.
use crate::field::{Sym, SymV};
use arith::Field;
use expander_compiler::circuit::config::Config;
use gkr_engine::{FieldEngine, GKREngine};

macro_rules! prime {
    ($n:ident, $p:expr) => {
        mod $n {
            arith::prime_field!(E, u32, $p, 1, 32, "small prime");
            impl arith::NotU32 for E {}
        }
    };
}
prime!(f3, 3);
prime!(f5, 5);
prime!(f7, 7);
prime!(f13, 13);
prime!(f31, 31);
prime!(f257, 257);
pub use f13::E as F13;
pub use f257::E as F257;
pub use f31::E as F31;
pub use f3::E as F3;
pub use f5::E as F5;
pub use f7::E as F7;
pub use gf2::GF2 as F2;
pub use mersenne31::M31;
pub use arith::Fr;

/// K = 0: the defaults (random combination of constraints); K = 1: GF2-like settings.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct SymConfig<F: Field, const K: usize>(std::marker::PhantomData<F>);
impl<F: Field, const K: usize> FieldEngine for SymConfig<F, K> {
    type CircuitField = Sym<F>;
    type ChallengeField = Sym<F>;
    type SimdCircuitField = SymV<F>;
}
impl<F: Field, const K: usize> GKREngine for SymConfig<F, K> {
    type FieldConfig = Self;
}
impl<F: Field, const K: usize> Config for SymConfig<F, K> {
    const CONFIG_ID: usize = 100 + K;
    const COST_MUL: usize = if K == 1 { 200 } else { 10 };
    const ENABLE_RANDOM_COMBINATION: bool = K == 0;
}
