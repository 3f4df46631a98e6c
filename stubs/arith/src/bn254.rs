use crate::{Field, SimdField, U256};
use rand::RngCore;
use serdes::{ExpSerde, SerdeResult};
use std::ops::{Add, Mul, Neg, Sub};

/// BN254 scalar field, Montgomery form over four 64-bit limbs.
#[derive(Clone, Copy, Default, PartialEq, Eq, Hash)]
pub struct Fr(pub [u64; 4]);

const P: [u64; 4] = [
    0x43e1f593f0000001,
    0x2833e84879b97091,
    0xb85045b68181585d,
    0x30644e72e131a029,
];
const INV: u64 = 0xc2e1f593efffffff;
const R: [u64; 4] = [
    0xac96341c4ffffffb,
    0x36fc76959f60cd29,
    0x666ea36f7879462e,
    0x0e0a77c19a07df2f,
];
const R2: [u64; 4] = [
    0x1bb8e645ae216da7,
    0x53fe3ab1e35c59e3,
    0x8c49833d53bb8085,
    0x0216d0b17f4e44a5,
];

const fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
const fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut br = 0u64;
    let mut i = 0;
    while i < 4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(br);
        r[i] = y;
        br = (b1 | b2) as u64;
        i += 1;
    }
    r
}
const fn add4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut c = 0u128;
    let mut i = 0;
    while i < 4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
        i += 1;
    }
    r
}
const fn mont(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    let mut i = 0;
    while i < 4 {
        let mut c = 0u128;
        let mut j = 0;
        while j < 4 {
            let s = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
            t[j] = s as u64;
            c = s >> 64;
            j += 1;
        }
        let s = t[4] as u128 + c;
        t[4] = s as u64;
        t[5] = (s >> 64) as u64;
        let m = t[0].wrapping_mul(INV);
        let s = t[0] as u128 + m as u128 * P[0] as u128;
        let mut c = s >> 64;
        let mut j = 1;
        while j < 4 {
            let s = t[j] as u128 + m as u128 * P[j] as u128 + c;
            t[j - 1] = s as u64;
            c = s >> 64;
            j += 1;
        }
        let s = t[4] as u128 + c;
        t[3] = s as u64;
        t[4] = t[5] + (s >> 64) as u64;
        i += 1;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, &P) {
        sub4(&r, &P)
    } else {
        r
    }
}
impl Fr {
    pub const fn zero() -> Self {
        Fr([0; 4])
    }
    pub const fn one() -> Self {
        Fr(R)
    }
    pub const fn from_raw(x: [u64; 4]) -> Self {
        Fr(mont(&x, &R2))
    }
    fn canon(&self) -> [u64; 4] {
        mont(&self.0, &[1, 0, 0, 0])
    }
    fn from_canon(x: [u64; 4]) -> Self {
        Fr(mont(&x, &R2))
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.to_u256().to_le_bytes()
    }
}
impl std::fmt::Debug for Fr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Fr({})", self.to_u256())
    }
}
impl PartialOrd for Fr {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fr {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.to_u256().cmp(&o.to_u256())
    }
}
impl Add for Fr {
    type Output = Fr;
    fn add(self, o: Fr) -> Fr {
        let r = add4(&self.0, &o.0);
        Fr(if geq(&r, &P) { sub4(&r, &P) } else { r })
    }
}
impl Sub for Fr {
    type Output = Fr;
    fn sub(self, o: Fr) -> Fr {
        Fr(if geq(&self.0, &o.0) {
            sub4(&self.0, &o.0)
        } else {
            sub4(&add4(&self.0, &P), &o.0)
        })
    }
}
impl Mul for Fr {
    type Output = Fr;
    fn mul(self, o: Fr) -> Fr {
        Fr(mont(&self.0, &o.0))
    }
}
impl Neg for Fr {
    type Output = Fr;
    fn neg(self) -> Fr {
        Fr::default() - self
    }
}
crate::impl_field_ops!([] Fr);
impl From<u32> for Fr {
    fn from(x: u32) -> Fr {
        Fr::from_canon([x as u64, 0, 0, 0])
    }
}
impl From<u64> for Fr {
    fn from(x: u64) -> Fr {
        Fr::from_canon([x, 0, 0, 0])
    }
}
impl ExpSerde for Fr {
    fn serialize_into<W: std::io::Write>(&self, mut w: W) -> SerdeResult<()> {
        w.write_all(&self.to_bytes())?;
        Ok(())
    }
    fn deserialize_from<R: std::io::Read>(mut r: R) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        Ok(Self::from_u256(U256::from_le_bytes(b)))
    }
}
impl Field for Fr {
    const NAME: &'static str = "BN254 Scalar Field";
    const SIZE: usize = 32;
    const FIELD_SIZE: usize = 256;
    const ZERO: Self = Fr([0; 4]);
    const ONE: Self = Fr(R);
    const INV_2: Self = Fr([
        0x783c14d81ffffffe,
        0xaf982f6f0c8d1edd,
        0x8f5f7492fcfd4f45,
        0x1f37631a3d9cbfac,
    ]);
    const MODULUS: U256 = U256::from_words(
        ((P[3] as u128) << 64) | P[2] as u128,
        ((P[1] as u128) << 64) | P[0] as u128,
    );
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        Self::from_u256(U256::from_le_bytes(b))
    }
    fn inv(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        let mut e = Self::MODULUS - 2;
        let mut res = Self::ONE;
        let mut t = *self;
        while e > 0 {
            if e & 1 == 1 {
                res = res * t;
            }
            t = t * t;
            e >>= 1;
        }
        Some(res)
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.canon()[0] as u32
    }
    fn to_u256(&self) -> U256 {
        let c = self.canon();
        U256::from_words(
            ((c[3] as u128) << 64) | c[2] as u128,
            ((c[1] as u128) << 64) | c[0] as u128,
        )
    }
    fn from_u256(x: U256) -> Self {
        let x = x % Self::MODULUS;
        let (hi, lo) = x.into_words();
        Fr::from_canon([lo as u64, (lo >> 64) as u64, hi as u64, (hi >> 64) as u64])
    }
}
impl SimdField for Fr {
    type Scalar = Fr;
    const PACK_SIZE: usize = 1;
    fn scale(&self, c: &Fr) -> Self {
        *self * *c
    }
    fn pack(b: &[Fr]) -> Self {
        assert_eq!(b.len(), 1);
        b[0]
    }
    fn unpack(&self) -> Vec<Fr> {
        vec![*self]
    }
}
#[test]
fn sanity() {
    let a = Fr::from(7u32);
    assert_eq!(a.inv().unwrap() * a, Fr::ONE);
    assert_eq!(Fr::INV_2 * Fr::from(2u32), Fr::ONE);
    assert_eq!(a.to_u256(), 7);
    assert_eq!((-a).to_u256(), Fr::MODULUS - 7);
}
