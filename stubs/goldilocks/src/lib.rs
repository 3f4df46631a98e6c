//! Stand-in for Expander's `goldilocks` crate.
arith::prime_field!(Goldilocks, u64, 0xffff_ffff_0000_0001, 8, 64, "Goldilocks");
impl arith::NotU32 for Goldilocks {}
pub type Goldilocksx8 = arith::Lanes<Goldilocks, 8>;
