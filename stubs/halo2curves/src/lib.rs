//! Stand-in for halo2curves: only the BN254 scalar field (the same type as `arith::Fr`).
pub mod bn256 {
    pub use arith::Fr;
}
pub mod ff {
    pub use arith::Field;
}
