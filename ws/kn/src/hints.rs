//! C13: what a builtin hint computes.
use crate::Src;
use ethnum::U256;
use expander_compiler::field::Field;
use expander_compiler::hints::{impl_builtin_hint, validate_hint, BuiltinHintIds as B};

/// the ids are part of the serialized form
fn table(i: usize) -> B {
    match i {
        0 => B::Identity,
        1 => B::Div,
        2 => B::Eq,
        3 => B::NotEq,
        4 => B::BoolOr,
        5 => B::BoolAnd,
        6 => B::BitOr,
        7 => B::BitAnd,
        8 => B::BitXor,
        9 => B::Select,
        10 => B::Pow,
        11 => B::IntDiv,
        12 => B::Mod,
        13 => B::ShiftL,
        14 => B::ShiftR,
        15 => B::LesserEq,
        16 => B::GreaterEq,
        17 => B::Lesser,
        18 => B::Greater,
        _ => B::ToBinary,
    }
}
const FIRST: u64 = 0xccc000000000;
pub fn ids<S: Src>(s: &mut S) {
    let id = s.u64() as usize;
    let d = (id as u64).wrapping_sub(FIRST);
    match B::from_usize(id) {
        Some(b) => {
            assert!(d < 20, "an id that is no builtin hint's is taken for one");
            assert!(b as u64 == id as u64, "an id is taken for another hint's");
        }
        None => assert!(d >= 20, "a builtin hint's id is not recognised"),
    }
    if d < 20 {
        assert!(table(d as usize) as u64 == id as u64, "the ids have moved");
    }
    let (n, m) = (s.u32() as usize, s.u32() as usize);
    let want = match d {
        0 => n == m && n > 0,
        9 => n == 3 && m == 1,
        19 => n == 1 && m > 0,
        x if x < 20 => n == 2 && m == 1,
        _ => n > 0 && m > 0,
    };
    assert!(validate_hint(id, n, m).is_ok() == want, "validate_hint accepts the wrong numbers of inputs and outputs");
}

pub fn elem<F: Field, S: Src>(s: &mut S) -> (F, U256) {
    let x = if F::MODULUS <= U256::from(u32::MAX) { U256::from(s.u32()) } else { s.u256() };
    s.assume(x < F::MODULUS);
    (F::from_u256(x), x)
}
fn one<F: Field>(b: B, x: &[F]) -> F {
    let r = impl_builtin_hint(b, x, 1);
    assert!(r.len() == 1, "a hint returns another number of values");
    r[0]
}
fn bit<F: Field>(b: bool) -> F {
    if b {
        F::ONE
    } else {
        F::ZERO
    }
}
pub fn bits<F: Field, S: Src>(s: &mut S) {
    let ((x, xi), (y, yi)) = (elem::<F, S>(s), elem::<F, S>(s));
    let (xh, xl) = xi.into_words();
    let (yh, yl) = yi.into_words();
    let w = |a: u128, b: u128| F::from_u256(U256::from_words(a, b));
    match s.below(3) {
        0 => assert!(one(B::BitOr, &[x, y]) == w(xh | yh, xl | yl), "BitOr"),
        1 => assert!(one(B::BitAnd, &[x, y]) == w(xh & yh, xl & yl), "BitAnd"),
        _ => assert!(one(B::BitXor, &[x, y]) == w(xh ^ yh, xl ^ yl), "BitXor"),
    }
}
fn shl(x: U256, k: u32) -> U256 {
    let (h, l) = x.into_words();
    if k >= 256 {
        U256::ZERO
    } else if k >= 128 {
        U256::from_words(l << (k - 128), 0)
    } else if k == 0 {
        x
    } else {
        U256::from_words((h << k) | (l >> (128 - k)), l << k)
    }
}
fn shr(x: U256, k: u32) -> U256 {
    let (h, l) = x.into_words();
    if k >= 256 {
        U256::ZERO
    } else if k >= 128 {
        U256::from_words(0, h >> (k - 128))
    } else if k == 0 {
        x
    } else {
        U256::from_words(h >> k, (l >> k) | (h << (128 - k)))
    }
}
/// circom's shifts: amounts above half of the field shift the other way; a left shift keeps as many bits as
/// the modulus has
pub fn shifts<F: Bits, S: Src>(s: &mut S, left: bool, side: u8) {
    let ((x, xi), (y, yi)) = (elem::<F, S>(s), elem::<F, S>(s));
    // k <= p/2  <=>  2k <= p, for odd p and integer k: 2k < p
    let back = if yi.into_words().0 >> 127 != 0 { true } else { shl(yi, 1) > F::MODULUS };
    s.assume(side == 2 || back == (side == 1));
    let r = one(if left { B::ShiftL } else { B::ShiftR }, &[x, y]);
    let k = if back { F::MODULUS - yi } else { yi };
    let k = if k > U256::from(256u32) { 256 } else { k.as_u32() };
    let z = if left != back {
        let m = shl(U256::from(1u32), F::BITS);
        shl(xi, k) & (m - U256::from(1u32))
    } else {
        shr(xi, k)
    };
    assert!(r == F::from_u256(z), "shift");
}

/// bit length of the modulus
pub trait Bits: Field {
    const BITS: u32;
}
impl Bits for crate::fields::KBn {
    const BITS: u32 = 254;
}
impl Bits for mersenne31::M31 {
    const BITS: u32 = 31;
}
impl Bits for crate::fields::KP<31> {
    const BITS: u32 = 5;
}
impl Bits for crate::fields::KP<2> {
    const BITS: u32 = 2;
}
pub fn cmps<F: Field, S: Src>(s: &mut S) {
    let ((x, xi), (y, yi)) = (elem::<F, S>(s), elem::<F, S>(s));
    let z = U256::ZERO;
    let a = &[x, y];
    match s.below(9) {
        0 => assert!(one(B::Eq, a) == bit(xi == yi), "Eq"),
        1 => assert!(one(B::NotEq, a) == bit(xi != yi), "NotEq"),
        2 => assert!(one(B::Lesser, a) == bit(xi < yi), "Lesser"),
        3 => assert!(one(B::LesserEq, a) == bit(xi <= yi), "LesserEq"),
        4 => assert!(one(B::Greater, a) == bit(xi > yi), "Greater"),
        5 => assert!(one(B::GreaterEq, a) == bit(xi >= yi), "GreaterEq"),
        6 => assert!(one(B::BoolOr, a) == bit(xi != z || yi != z), "BoolOr"),
        7 => assert!(one(B::BoolAnd, a) == bit(xi != z && yi != z), "BoolAnd"),
        _ => {
            let (c, ci) = elem::<F, S>(s);
            assert!(one(B::Select, &[x, y, c]) == if xi != z { y } else { c }, "Select");
            let r = impl_builtin_hint(B::Identity, &[x, y, c], 3);
            assert!(r.len() == 3 && r[0] == x && r[1] == y && r[2] == c, "Identity");
            let _ = ci;
        }
    }
}
/// integer quotient and remainder, 0 where there is none
pub fn divs<F: Field, S: Src>(s: &mut S, bits: u32) {
    let ((x, xi), (y, yi)) = (elem::<F, S>(s), elem::<F, S>(s));
    let (xi, yi) = (xi.as_u32(), yi.as_u32());
    s.assume(xi >> bits == 0 && yi >> bits == 0);
    let q = one(B::IntDiv, &[x, y]).to_u256().as_u32();
    let r = one(B::Mod, &[x, y]).to_u256().as_u32();
    if yi == 0 {
        assert!(q == 0 && r == 0, "division by zero");
    } else {
        assert!(q == xi / yi, "IntDiv");
        assert!(r == xi % yi, "Mod");
    }
}
pub fn fielded<F: Field, S: Src>(s: &mut S) {
    let ((x, xi), (y, yi)) = (elem::<F, S>(s), elem::<F, S>(s));
    let q = one(B::Div, &[x, y]);
    if yi == U256::ZERO {
        assert!(q == F::ZERO, "Div by zero");
    } else {
        assert!(q * y == x, "Div");
    }
    let mut e = F::ONE;
    let n = yi.as_u32();
    for i in 0..31 {
        if i < n {
            e = e * x;
        }
    }
    assert!(one(B::Pow, &[x, y]) == e, "Pow");
    let _ = xi;
}
pub fn to_bin<F: Field, S: Src>(s: &mut S, n: usize) {
    let (x, xi) = elem::<F, S>(s);
    let fits = n >= 256 || shr(xi, n as u32) == U256::ZERO;
    match expander_compiler::hints::to_binary(x, n) {
        Ok(r) => {
            assert!(fits, "to_binary accepts a value that does not fit");
            assert!(r.len() == n, "to_binary returns another number of bits");
            let mut v = U256::ZERO;
            let mut i = n;
            while i > 0 {
                i -= 1;
                let b = r[i];
                assert!(b == F::ZERO || b == F::ONE, "to_binary returns something that is no bit");
                v = shl(v, 1);
                if b == F::ONE {
                    v |= U256::from(1u32);
                }
            }
            assert!(v == xi, "to_binary returns other bits");
        }
        Err(_) => assert!(!fits, "to_binary refuses a value that fits"),
    }
    if fits {
        let r = impl_builtin_hint(B::ToBinary, &[x], n);
        assert!(r.len() == n && (n == 0 || (r[0] == F::ONE) == (xi.as_u32() & 1 == 1)), "the ToBinary hint is not to_binary");
    }
}
