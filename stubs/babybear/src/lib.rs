//! Stand-in for Expander's `babybear` crate.
arith::prime_field!(BabyBear, u32, 0x78000001, 4, 32, "Baby Bear");
impl arith::NotU32 for BabyBear {}
pub type BabyBearx16 = arith::Lanes<BabyBear, 16>;
