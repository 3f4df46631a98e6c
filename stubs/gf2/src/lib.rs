//! Stand-in for Expander's `gf2` crate.
arith::prime_field!(GF2, u8, 2, 1, 1, "GF2");
impl arith::NotU32 for GF2 {}
pub type GF2x8 = arith::Lanes<GF2, 8>;
