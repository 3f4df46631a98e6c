//! Stand-in for Expander's `arith` crate: the field traits, a macro for small prime fields,
//! a generic SIMD vector, and the BN254 scalar field.
use std::fmt::Debug;
use std::hash::Hash;
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

pub use ethnum;
pub use ethnum::U256;
use rand::RngCore;
pub use rand;
pub use serdes;
use serdes::ExpSerde;

mod bn254;
pub use bn254::Fr;

pub trait Field:
    Copy
    + Clone
    + Debug
    + Default
    + PartialEq
    + Eq
    + PartialOrd
    + Ord
    + Hash
    + From<u32>
    + Neg<Output = Self>
    + Add<Self, Output = Self>
    + Sub<Self, Output = Self>
    + Mul<Self, Output = Self>
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + Sum
    + Product
    + for<'a> Sum<&'a Self>
    + for<'a> Product<&'a Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + for<'a> MulAssign<&'a Self>
    + ExpSerde
    + Send
    + Sync
    + 'static
{
    const NAME: &'static str;
    const SIZE: usize;
    const FIELD_SIZE: usize;
    const ZERO: Self;
    const ONE: Self;
    const INV_2: Self;
    const MODULUS: U256;

    fn zero() -> Self {
        Self::ZERO
    }
    fn one() -> Self {
        Self::ONE
    }
    fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    fn random_unsafe(rng: impl RngCore) -> Self;
    fn random_bool(mut rng: impl RngCore) -> Self {
        if rng.next_u32() & 1 == 1 {
            Self::ONE
        } else {
            Self::ZERO
        }
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn mul_by_2(&self) -> Self {
        *self + *self
    }
    fn mul_by_3(&self) -> Self {
        *self + *self + *self
    }
    fn mul_by_5(&self) -> Self {
        self.double().double() + *self
    }
    fn mul_by_6(&self) -> Self {
        self.mul_by_3().double()
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn exp(&self, exponent: u128) -> Self {
        let mut e = exponent;
        let mut res = Self::ONE;
        let mut t = *self;
        while e > 0 {
            if e & 1 == 1 {
                res *= t;
            }
            t = t * t;
            e >>= 1;
        }
        res
    }
    fn inv(&self) -> Option<Self>;
    fn as_u32_unchecked(&self) -> u32;
    fn to_u256(&self) -> U256 {
        unimplemented!("to_u256")
    }
    fn from_u256(_: U256) -> Self {
        unimplemented!("from_u256")
    }
    fn from_uniform_bytes(bytes: &[u8]) -> Self {
        let mut acc = Self::ZERO;
        let b = Self::from(256u32);
        for x in bytes.iter().rev() {
            acc = acc * b + Self::from(*x as u32);
        }
        acc
    }
    fn from_bool(b: bool) -> Self {
        if b {
            Self::ONE
        } else {
            Self::ZERO
        }
    }
    fn batch_inversion(v: &[Self]) -> Option<Vec<Self>> {
        v.iter().map(|x| x.inv()).collect()
    }
}

pub trait FieldForECC {}

pub trait SimdField: From<Self::Scalar> + Field {
    type Scalar: Field;
    const PACK_SIZE: usize;
    fn scale(&self, challenge: &Self::Scalar) -> Self;
    fn pack(base_vec: &[Self::Scalar]) -> Self;
    fn unpack(&self) -> Vec<Self::Scalar>;
    fn pack_full(x: &Self::Scalar) -> Self {
        Self::pack(&vec![*x; Self::PACK_SIZE])
    }
    fn horizontal_sum(&self) -> Self::Scalar {
        self.unpack().iter().sum()
    }
}

pub trait ExtensionField: Field {
    type BaseField: Field;
    const DEGREE: usize;
}

#[macro_export]
macro_rules! impl_field_ops {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> std::ops::Add<&$t> for $t { type Output = $t; fn add(self, o: &$t) -> $t { self + *o } }
        impl<$($g)*> std::ops::Sub<&$t> for $t { type Output = $t; fn sub(self, o: &$t) -> $t { self - *o } }
        impl<$($g)*> std::ops::Mul<&$t> for $t { type Output = $t; fn mul(self, o: &$t) -> $t { self * *o } }
        impl<$($g)*> std::ops::AddAssign for $t { fn add_assign(&mut self, o: $t) { *self = *self + o } }
        impl<$($g)*> std::ops::SubAssign for $t { fn sub_assign(&mut self, o: $t) { *self = *self - o } }
        impl<$($g)*> std::ops::MulAssign for $t { fn mul_assign(&mut self, o: $t) { *self = *self * o } }
        impl<$($g)*> std::ops::AddAssign<&$t> for $t { fn add_assign(&mut self, o: &$t) { *self = *self + *o } }
        impl<$($g)*> std::ops::SubAssign<&$t> for $t { fn sub_assign(&mut self, o: &$t) { *self = *self - *o } }
        impl<$($g)*> std::ops::MulAssign<&$t> for $t { fn mul_assign(&mut self, o: &$t) { *self = *self * *o } }
        impl<$($g)*> std::iter::Sum for $t { fn sum<I: Iterator<Item = $t>>(i: I) -> $t { i.fold(<$t as $crate::Field>::ZERO, |a, b| a + b) } }
        impl<$($g)*> std::iter::Product for $t { fn product<I: Iterator<Item = $t>>(i: I) -> $t { i.fold(<$t as $crate::Field>::ONE, |a, b| a * b) } }
        impl<'a, $($g)*> std::iter::Sum<&'a $t> for $t { fn sum<I: Iterator<Item = &'a $t>>(i: I) -> $t { i.fold(<$t as $crate::Field>::ZERO, |a, b| a + *b) } }
        impl<'a, $($g)*> std::iter::Product<&'a $t> for $t { fn product<I: Iterator<Item = &'a $t>>(i: I) -> $t { i.fold(<$t as $crate::Field>::ONE, |a, b| a * *b) } }
    };
}

/// A prime field with modulus below 2^64, elements kept reduced.
#[macro_export]
macro_rules! prime_field {
    ($name:ident, $repr:ty, $p:expr, $bytes:expr, $bits:expr, $label:expr) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $name {
            pub v: $repr,
        }
        impl $name {
            pub const P: u64 = $p;
            pub const fn new(v: u64) -> Self {
                Self { v: (v % Self::P) as $repr }
            }
            pub fn to_u64(&self) -> u64 {
                self.v as u64
            }
        }
        impl std::ops::Add for $name {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                Self { v: ((self.v as u128 + o.v as u128) % Self::P as u128) as $repr }
            }
        }
        impl std::ops::Sub for $name {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                Self { v: ((self.v as u128 + Self::P as u128 - o.v as u128) % Self::P as u128) as $repr }
            }
        }
        impl std::ops::Mul for $name {
            type Output = Self;
            fn mul(self, o: Self) -> Self {
                Self { v: ((self.v as u128 * o.v as u128) % Self::P as u128) as $repr }
            }
        }
        impl std::ops::Neg for $name {
            type Output = Self;
            fn neg(self) -> Self {
                Self { v: 0 } - self
            }
        }
        $crate::impl_field_ops!([] $name);
        impl From<u32> for $name {
            fn from(x: u32) -> Self {
                Self::new(x as u64)
            }
        }
        impl $crate::serdes::ExpSerde for $name {
            fn serialize_into<W: std::io::Write>(&self, mut writer: W) -> $crate::serdes::SerdeResult<()> {
                writer.write_all(&(self.v as u64).to_le_bytes()[..$bytes])?;
                Ok(())
            }
            fn deserialize_from<R: std::io::Read>(mut reader: R) -> $crate::serdes::SerdeResult<Self> {
                let mut b = [0u8; 8];
                reader.read_exact(&mut b[..$bytes])?;
                Ok(Self::new(u64::from_le_bytes(b)))
            }
        }
        impl $crate::Field for $name {
            const NAME: &'static str = $label;
            const SIZE: usize = $bytes;
            const FIELD_SIZE: usize = $bits;
            const ZERO: Self = Self { v: 0 };
            const ONE: Self = Self { v: 1 };
            const INV_2: Self = Self { v: ((Self::P as u128 + 1) / 2) as $repr };
            const MODULUS: $crate::U256 = $crate::U256::new(Self::P as u128);
            fn random_unsafe(mut rng: impl $crate::rand::RngCore) -> Self {
                Self::new(rng.next_u64())
            }
            fn inv(&self) -> Option<Self> {
                if self.v == 0 {
                    None
                } else {
                    Some($crate::Field::exp(self, Self::P as u128 - 2))
                }
            }
            fn as_u32_unchecked(&self) -> u32 {
                self.v as u32
            }
            fn to_u256(&self) -> $crate::U256 {
                $crate::U256::from(self.v as u64)
            }
            fn from_u256(x: $crate::U256) -> Self {
                Self::new((x % $crate::U256::from(Self::P)).as_u64())
            }
        }
    };
}

/// N lanes of a field.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Lanes<F, const N: usize> {
    pub v: [F; N],
}
impl<F: Field, const N: usize> Default for Lanes<F, N> {
    fn default() -> Self {
        Self { v: [F::ZERO; N] }
    }
}
macro_rules! lane_op {
    ($tr:ident, $f:ident) => {
        impl<F: Field, const N: usize> $tr for Lanes<F, N> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let mut v = self.v;
                for i in 0..N {
                    v[i] = self.v[i].$f(o.v[i]);
                }
                Self { v }
            }
        }
    };
}
lane_op!(Add, add);
lane_op!(Sub, sub);
lane_op!(Mul, mul);
impl<F: Field, const N: usize> Neg for Lanes<F, N> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::default() - self
    }
}
impl_field_ops!([F: Field, const N: usize] Lanes<F, N>);
impl<F: Field, const N: usize> From<u32> for Lanes<F, N> {
    fn from(x: u32) -> Self {
        Self { v: [F::from(x); N] }
    }
}
impl<F: Field, const N: usize> ExpSerde for Lanes<F, N> {
    fn serialize_into<W: std::io::Write>(&self, mut w: W) -> serdes::SerdeResult<()> {
        for x in self.v.iter() {
            x.serialize_into(&mut w)?;
        }
        Ok(())
    }
    fn deserialize_from<R: std::io::Read>(mut r: R) -> serdes::SerdeResult<Self> {
        let mut v = [F::ZERO; N];
        for x in v.iter_mut() {
            *x = F::deserialize_from(&mut r)?;
        }
        Ok(Self { v })
    }
}
impl<F: Field, const N: usize> Field for Lanes<F, N> {
    const NAME: &'static str = "Lanes";
    const SIZE: usize = F::SIZE * N;
    const FIELD_SIZE: usize = F::FIELD_SIZE;
    const ZERO: Self = Self { v: [F::ZERO; N] };
    const ONE: Self = Self { v: [F::ONE; N] };
    const INV_2: Self = Self { v: [F::INV_2; N] };
    const MODULUS: U256 = F::MODULUS;
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        let mut v = [F::ZERO; N];
        for x in v.iter_mut() {
            *x = F::random_unsafe(&mut rng);
        }
        Self { v }
    }
    fn inv(&self) -> Option<Self> {
        let mut v = [F::ZERO; N];
        for i in 0..N {
            v[i] = self.v[i].inv()?;
        }
        Some(Self { v })
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.v[0].as_u32_unchecked()
    }
}
impl<F: Field, const N: usize> Lanes<F, N> {
    pub const fn from_array(v: [F; N]) -> Self {
        Self { v }
    }
}
impl<F: Field, const N: usize> From<F> for Lanes<F, N>
where
    F: NotU32,
{
    fn from(x: F) -> Self {
        Self { v: [x; N] }
    }
}
/// Marker that lets `Lanes` have both `From<u32>` and `From<F>`.
pub trait NotU32 {}
impl<F: Field + NotU32, const N: usize> SimdField for Lanes<F, N> {
    type Scalar = F;
    const PACK_SIZE: usize = N;
    fn scale(&self, c: &F) -> Self {
        let mut v = self.v;
        for x in v.iter_mut() {
            *x = *x * *c;
        }
        Self { v }
    }
    fn pack(b: &[F]) -> Self {
        let v: [F; N] = b.try_into().expect("pack size mismatch");
        Self { v }
    }
    fn unpack(&self) -> Vec<F> {
        self.v.to_vec()
    }
}
