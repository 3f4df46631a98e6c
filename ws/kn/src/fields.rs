//! Two plain fields, with the canonical integer as the representation.
use arith::Field as AF;
use ethnum::U256;
use rand::RngCore;
use serdes::{ExpSerde, SerdeResult};

macro_rules! plain {
    ([$($g:tt)*] $t:ty) => {
        arith::impl_field_ops!([$($g)*] $t);
        impl<$($g)*> ExpSerde for $t {
            fn serialize_into<W: std::io::Write>(&self, _: W) -> SerdeResult<()> { unimplemented!() }
            fn deserialize_from<R: std::io::Read>(_: R) -> SerdeResult<Self> { unimplemented!() }
        }
        impl<$($g)*> expander_compiler::field::Field for $t {}
    };
}

/// the integers modulo the BN254 scalar modulus (no multiplication: not needed, and hard on a SAT solver)
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct KBn(pub U256);
pub const BN: U256 = U256::from_words(0x30644e72e131a029b85045b68181585d, 0x2833e84879b9709143e1f593f0000001);
pub fn cut(mut x: U256) -> U256 {
    // 2^256 < 6 BN
    if x >= BN { x -= BN }
    if x >= BN { x -= BN }
    if x >= BN { x -= BN }
    if x >= BN { x -= BN }
    if x >= BN { x -= BN }
    x
}
impl Default for KBn {
    fn default() -> Self {
        KBn(U256::ZERO)
    }
}
impl PartialOrd for KBn {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for KBn {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl std::ops::Add for KBn {
    type Output = KBn;
    fn add(self, o: KBn) -> KBn {
        KBn(cut(self.0 + o.0))
    }
}
impl std::ops::Neg for KBn {
    type Output = KBn;
    fn neg(self) -> KBn {
        KBn(cut(BN - self.0))
    }
}
impl std::ops::Sub for KBn {
    type Output = KBn;
    fn sub(self, o: KBn) -> KBn {
        self + -o
    }
}
impl std::ops::Mul for KBn {
    type Output = KBn;
    fn mul(self, _: KBn) -> KBn {
        unimplemented!()
    }
}
impl From<u32> for KBn {
    fn from(x: u32) -> KBn {
        KBn(U256::from(x))
    }
}
impl AF for KBn {
    const NAME: &'static str = "bn254, plain";
    const SIZE: usize = 32;
    const FIELD_SIZE: usize = 256;
    const ZERO: Self = KBn(U256::ZERO);
    const ONE: Self = KBn(U256::ONE);
    const INV_2: Self = KBn(U256::ZERO);
    const MODULUS: U256 = BN;
    fn random_unsafe(_: impl RngCore) -> Self {
        unimplemented!()
    }
    fn inv(&self) -> Option<Self> {
        unimplemented!()
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.0.as_u32()
    }
    fn to_u256(&self) -> U256 {
        self.0
    }
    fn from_u256(x: U256) -> Self {
        KBn(cut(x))
    }
}
plain!([] KBn);

/// the integers modulo a prime below 128
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct KP<const P: u8>(pub u8);
impl<const P: u8> std::ops::Add for KP<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        KP((self.0 + o.0) % P)
    }
}
impl<const P: u8> std::ops::Neg for KP<P> {
    type Output = Self;
    fn neg(self) -> Self {
        KP((P - self.0) % P)
    }
}
impl<const P: u8> std::ops::Sub for KP<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        self + -o
    }
}
impl<const P: u8> std::ops::Mul for KP<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        KP((self.0 as u16 * o.0 as u16 % P as u16) as u8)
    }
}
impl<const P: u8> From<u32> for KP<P> {
    fn from(x: u32) -> Self {
        KP((x % P as u32) as u8)
    }
}
impl<const P: u8> AF for KP<P> {
    const NAME: &'static str = "small prime field";
    const SIZE: usize = 1;
    const FIELD_SIZE: usize = 32;
    const ZERO: Self = KP(0);
    const ONE: Self = KP(1);
    const INV_2: Self = KP((P + 1) / 2 % P);
    const MODULUS: U256 = U256::new(P as u128);
    fn random_unsafe(_: impl RngCore) -> Self {
        unimplemented!()
    }
    fn inv(&self) -> Option<Self> {
        if self.0 == 0 {
            return None;
        }
        let mut r = *self;
        for _ in 0..P.saturating_sub(3) {
            r = r * *self;
        }
        Some(if P == 2 { KP(1) } else { r })
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.0 as u32
    }
    fn to_u256(&self) -> U256 {
        U256::from(self.0)
    }
    fn from_u256(x: U256) -> Self {
        KP((x % U256::from(P)).as_u8())
    }
}
plain!([const P: u8] KP<P>);
