//! Harnesses for Kani. Each is a function of a source of values: Kani's are symbolic, those of a replay
//! are the bytes of a counterexample.
#![allow(clippy::all)]
pub mod fields;
pub mod hints;

pub trait Src {
    fn u8(&mut self) -> u8;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn u128(&mut self) -> u128;
    fn assume(&mut self, b: bool);
    fn bool(&mut self) -> bool {
        let x = self.u8();
        self.assume(x < 2);
        x == 1
    }
    /// a value below n
    fn below(&mut self, n: usize) -> usize {
        let x = self.u8();
        self.assume((x as usize) < n);
        x as usize
    }
    fn u256(&mut self) -> ethnum::U256 {
        let hi = self.u128();
        let lo = self.u128();
        ethnum::U256::from_words(hi, lo)
    }
}
#[cfg(kani)]
pub struct Any;
#[cfg(kani)]
impl Src for Any {
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn u128(&mut self) -> u128 {
        kani::any()
    }
    fn assume(&mut self, b: bool) {
        kani::assume(b)
    }
}
/// the bytes of a counterexample, one entry per value
pub struct Bytes(pub std::collections::VecDeque<Vec<u8>>);
impl Bytes {
    fn next(&mut self, n: usize) -> u128 {
        let v = self.0.pop_front().unwrap_or(vec![0; n]);
        v.iter().take(n).enumerate().fold(0, |a, (i, b)| a | (*b as u128) << (8 * i))
    }
}
impl Src for Bytes {
    fn u8(&mut self) -> u8 {
        self.next(1) as u8
    }
    fn u32(&mut self) -> u32 {
        self.next(4) as u32
    }
    fn u64(&mut self) -> u64 {
        self.next(8) as u64
    }
    fn u128(&mut self) -> u128 {
        self.next(16)
    }
    fn assume(&mut self, b: bool) {
        if !b {
            println!("the values are outside the harness's assumptions");
            std::process::exit(3);
        }
    }
}
/// harnesses! { name (unwind) = body; … } makes a Kani proof of each and a table for replays
macro_rules! harnesses {
    ($($name:ident ($u:literal) = $e:expr;)*) => {
        #[cfg(kani)]
        mod proofs {
            use super::*;
            $(#[kani::proof] #[kani::unwind($u)] fn $name() { let f: fn(&mut Any) = $e; f(&mut Any) })*
        }
        pub fn replay(name: &str, s: &mut Bytes) -> bool {
            match name {
                $(stringify!($name) => { let f: fn(&mut Bytes) = $e; f(s) })*
                _ => return false,
            }
            true
        }
        pub fn names() -> Vec<&'static str> { vec![$(stringify!($name)),*] }
    };
}
pub(crate) use harnesses;
use fields::*;
use hints as h;
use mersenne31::M31;
harnesses! {
    c13_ids (4) = h::ids;
    c13_bits_bn (4) = h::bits::<KBn, _>;
    c13_bits_m31 (4) = h::bits::<M31, _>;
    c13_shift_bn_l_fwd (4) = |s: &mut _| h::shifts::<KBn, _>(s, true, 0);
    c13_shift_bn_l_back (4) = |s: &mut _| h::shifts::<KBn, _>(s, true, 1);
    c13_shift_bn_r_fwd (4) = |s: &mut _| h::shifts::<KBn, _>(s, false, 0);
    c13_shift_bn_r_back (4) = |s: &mut _| h::shifts::<KBn, _>(s, false, 1);
    c13_shift_m31_l_fwd (4) = |s: &mut _| h::shifts::<M31, _>(s, true, 0);
    c13_shift_m31_l_back (4) = |s: &mut _| h::shifts::<M31, _>(s, true, 1);
    c13_shift_m31_r_fwd (4) = |s: &mut _| h::shifts::<M31, _>(s, false, 0);
    c13_shift_m31_r_back (4) = |s: &mut _| h::shifts::<M31, _>(s, false, 1);
    c13_shift_p31_l (4) = |s: &mut _| h::shifts::<KP<31>, _>(s, true, 2);
    c13_shift_p31_r (4) = |s: &mut _| h::shifts::<KP<31>, _>(s, false, 2);
    c13_shift_p2_l (4) = |s: &mut _| h::shifts::<KP<2>, _>(s, true, 2);
    c13_shift_p2_r (4) = |s: &mut _| h::shifts::<KP<2>, _>(s, false, 2);
    c13_cmp_bn (4) = h::cmps::<KBn, _>;
    c13_cmp_m31 (4) = h::cmps::<M31, _>;
    c13_div_m31 (4) = |s: &mut _| h::divs::<M31, _>(s, 14);
    c13_div_p31 (4) = |s: &mut _| h::divs::<KP<31>, _>(s, 5);
    c13_field_p31 (32) = h::fielded::<KP<31>, _>;
    c13_field_p2 (32) = h::fielded::<KP<2>, _>;
    c13_bin_bn_64 (66) = |s: &mut _| h::to_bin::<KBn, _>(s, 64);
    c13_bin_bn_8 (10) = |s: &mut _| h::to_bin::<KBn, _>(s, 8);
    c13_bin_m31_31 (34) = |s: &mut _| h::to_bin::<M31, _>(s, 31);
    c13_bin_m31_33 (36) = |s: &mut _| h::to_bin::<M31, _>(s, 33);
    c13_bin_m31_3 (6) = |s: &mut _| h::to_bin::<M31, _>(s, 3);
    c13_bin_p31_4 (6) = |s: &mut _| h::to_bin::<KP<31>, _>(s, 4);
}
