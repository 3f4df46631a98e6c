//! Stand-in for num-bigint: the few operations the SHA-256 gadget helpers use (values below 2^126).
use num_traits::ToPrimitive;
use std::ops::*;
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct BigInt(i128);
macro_rules! from { ($($t:ty),*) => {$(impl From<$t> for BigInt { fn from(x: $t) -> Self { BigInt(x as i128) } })*}; }
from!(i32, u32, i64, u64, usize, i128);
impl BigInt {
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<Self> {
        i128::from_str_radix(std::str::from_utf8(b).ok()?, radix).ok().map(BigInt)
    }
    pub fn bits(&self) -> u64 { (128 - self.0.unsigned_abs().leading_zeros()) as u64 }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> { self.0.try_into().ok() }
    fn to_u64(&self) -> Option<u64> { self.0.try_into().ok() }
}
macro_rules! op { ($tr:ident, $f:ident, $tra:ident, $fa:ident, $o:tt) => {
    impl $tr for BigInt { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { BigInt(self.0 $o o.0) } }
    impl<'a> $tr<&'a BigInt> for BigInt { type Output = BigInt; fn $f(self, o: &BigInt) -> BigInt { BigInt(self.0 $o o.0) } }
    impl<'a> $tr<BigInt> for &'a BigInt { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { BigInt(self.0 $o o.0) } }
    impl<'a, 'b> $tr<&'b BigInt> for &'a BigInt { type Output = BigInt; fn $f(self, o: &BigInt) -> BigInt { BigInt(self.0 $o o.0) } }
    impl $tr<i32> for BigInt { type Output = BigInt; fn $f(self, o: i32) -> BigInt { BigInt(self.0 $o o as i128) } }
    impl<'a> $tr<i32> for &'a BigInt { type Output = BigInt; fn $f(self, o: i32) -> BigInt { BigInt(self.0 $o o as i128) } }
    impl $tra for BigInt { fn $fa(&mut self, o: BigInt) { self.0 = self.0 $o o.0 } }
    impl<'a> $tra<&'a BigInt> for BigInt { fn $fa(&mut self, o: &BigInt) { self.0 = self.0 $o o.0 } }
    impl $tra<i32> for BigInt { fn $fa(&mut self, o: i32) { self.0 = self.0 $o o as i128 } }
}; }
op!(Add, add, AddAssign, add_assign, +);
op!(Sub, sub, SubAssign, sub_assign, -);
op!(Mul, mul, MulAssign, mul_assign, *);
op!(Div, div, DivAssign, div_assign, /);
op!(Rem, rem, RemAssign, rem_assign, %);
op!(BitAnd, bitand, BitAndAssign, bitand_assign, &);
macro_rules! sh { ($($t:ty),*) => {$(
    impl Shl<$t> for BigInt { type Output = BigInt; fn shl(self, n: $t) -> BigInt { BigInt(self.0 << n) } }
    impl Shr<$t> for BigInt { type Output = BigInt; fn shr(self, n: $t) -> BigInt { BigInt(self.0 >> n) } }
    impl<'a> Shr<$t> for &'a BigInt { type Output = BigInt; fn shr(self, n: $t) -> BigInt { BigInt(self.0 >> n) } }
    impl ShrAssign<$t> for BigInt { fn shr_assign(&mut self, n: $t) { self.0 >>= n } }
    impl ShlAssign<$t> for BigInt { fn shl_assign(&mut self, n: $t) { self.0 <<= n } }
)*}; }
sh!(usize, u32, i32, u64);
impl std::fmt::Display for BigInt { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
