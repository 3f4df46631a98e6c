//! Stand-in for Expander's `mersenne31` crate.
arith::prime_field!(M31, u32, (1 << 31) - 1, 4, 32, "Mersenne 31");
impl arith::NotU32 for M31 {}
pub type M31x16 = arith::Lanes<M31, 16>;
