//! `Sym<F>`: an element of F that may be symbolic. Implements the same traits as a real field, so
//! the code under test is instantiated with it unchanged.
use crate::arena::*;
use crate::ctx;
use arith::{Field, U256};
use serdes::{ExpSerde, SerdeResult};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Clone, Copy)]
pub enum Sym<F: Field> {
    C(F),
    T(u32),
}
use Sym::*;

impl<F: Field> Sym<F> {
    pub fn var(name: &str) -> Self {
        ctx::new_var::<F>(name, false)
    }
    pub fn bit(name: &str) -> Self {
        ctx::new_var::<F>(name, true)
    }
    pub fn konst(&self) -> Option<F> {
        match self {
            C(x) => Some(*x),
            T(_) => None,
        }
    }
    pub(crate) fn poly(&self) -> Vec<(u32, F)> {
        match self {
            C(x) => {
                if x.is_zero() {
                    vec![]
                } else {
                    vec![(0, *x)]
                }
            }
            T(i) => arena::<F>().borrow().terms[*i as usize].to_vec(),
        }
    }
    pub(crate) fn from_poly(p: Vec<(u32, F)>) -> Self {
        if p.is_empty() {
            return C(F::ZERO);
        }
        if p.len() == 1 && p[0].0 == 0 {
            return C(p[0].1);
        }
        T(arena::<F>().borrow_mut().intern(p))
    }
    pub(crate) fn from_atom(a: u32) -> Self {
        let ar = arena::<F>();
        let mut ar = ar.borrow_mut();
        let m = ar.mono(vec![(a, 1)]);
        T(ar.intern(vec![(m, F::ONE)]))
    }
    pub(crate) fn tid(&self) -> u32 {
        match self {
            T(i) => *i,
            C(_) => {
                let p = self.poly();
                arena::<F>().borrow_mut().intern(p)
            }
        }
    }
    /// The concrete value: forks over the possible ones (small fields only).
    pub fn concretize(&self) -> F {
        match self {
            C(x) => *x,
            T(_) => ctx::concretize(*self),
        }
    }
    pub fn show(&self) -> String {
        match self {
            C(x) => format!("{}", x.to_u256()),
            T(i) => {
                let ar = arena::<F>();
                let ar = ar.borrow();
                let mut s = vec![];
                for (m, c) in ar.terms[*i as usize].iter().take(8) {
                    let ms: Vec<String> = ar.monos[*m as usize]
                        .iter()
                        .map(|(a, e)| {
                            let n = match &ar.atoms[*a as usize] {
                                Atom::Var { name, .. } => name.clone(),
                                Atom::Rand(i) => format!("rnd{i}"),
                                Atom::Inv(t) => format!("inv(t{t})"),
                                Atom::Mul(x, y) => format!("(t{x}*t{y})"),
                            };
                            if *e == 1 {
                                n
                            } else {
                                format!("{n}^{e}")
                            }
                        })
                        .collect();
                    s.push(format!("{}*{}", c.to_u256(), if ms.is_empty() { "1".into() } else { ms.join("*") }));
                }
                if ar.terms[*i as usize].len() > 8 {
                    s.push("...".into());
                }
                s.join(" + ")
            }
        }
    }
}
impl<F: Field> std::fmt::Debug for Sym<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.show())
    }
}
impl<F: Field> Default for Sym<F> {
    fn default() -> Self {
        C(F::ZERO)
    }
}
fn add_poly<F: Field>(a: &[(u32, F)], b: &[(u32, F)]) -> Vec<(u32, F)> {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            let c = a[i].1 + b[j].1;
            if !c.is_zero() {
                r.push((a[i].0, c));
            }
            i += 1;
            j += 1;
        }
    }
    r
}
impl<F: Field> Add for Sym<F> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        match (self, o) {
            (C(a), C(b)) => C(a + b),
            (C(a), b) if a.is_zero() => b,
            (a, C(b)) if b.is_zero() => a,
            _ => {
                let (a, b) = (self.poly(), o.poly());
                ctx::tick(a.len() + b.len());
                Sym::from_poly(add_poly(&a, &b))
            }
        }
    }
}
impl<F: Field> Neg for Sym<F> {
    type Output = Self;
    fn neg(self) -> Self {
        match self {
            C(a) => C(-a),
            _ => Sym::from_poly(self.poly().into_iter().map(|(m, c)| (m, -c)).collect()),
        }
    }
}
impl<F: Field> Sub for Sym<F> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        match (self, o) {
            (C(a), C(b)) => C(a - b),
            _ => self + (-o),
        }
    }
}
impl<F: Field> Mul for Sym<F> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        match (self, o) {
            (C(a), C(b)) => C(a * b),
            (C(a), b) | (b, C(a)) => {
                if a.is_zero() {
                    C(F::ZERO)
                } else if a == F::ONE {
                    b
                } else {
                    Sym::from_poly(b.poly().into_iter().map(|(m, c)| (m, c * a)).collect())
                }
            }
            (T(x), T(y)) => {
                let ar = arena::<F>();
                let (px, py, rnd) = {
                    let ar = ar.borrow();
                    (
                        ar.terms[x as usize].clone(),
                        ar.terms[y as usize].clone(),
                        ar.term_has_rand(x) || ar.term_has_rand(y),
                    )
                };
                let n = px.len() * py.len();
                if n > ctx::cap() && !rnd {
                    let a = ar.borrow_mut().atom(Atom::Mul(x.min(y), x.max(y)));
                    return Sym::from_atom(a);
                }
                if n > HARD_CAP {
                    ctx::unsupported("product too large");
                }
                ctx::tick(n);
                let mut acc: BTreeMap<u32, F> = BTreeMap::new();
                {
                    let mut ar = ar.borrow_mut();
                    for (m1, c1) in px.iter() {
                        for (m2, c2) in py.iter() {
                            let m = ar.mono_mul(*m1, *m2);
                            *acc.entry(m).or_insert(F::ZERO) += *c1 * *c2;
                        }
                    }
                }
                if ar.borrow().overdeg {
                    ctx::unsupported("degree too large");
                }
                Sym::from_poly(acc.into_iter().filter(|(_, c)| !c.is_zero()).collect())
            }
        }
    }
}
arith::impl_field_ops!([F: Field] Sym<F>);
impl<F: Field> PartialEq for Sym<F> {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (C(a), C(b)) => a == b,
            (T(a), T(b)) if a == b => true,
            _ => ctx::decide_zero(*self - *o),
        }
    }
}
impl<F: Field> Eq for Sym<F> {}
impl<F: Field> PartialOrd for Sym<F> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<F: Field> Ord for Sym<F> {
    fn cmp(&self, o: &Self) -> Ordering {
        if let (T(a), T(b)) = (self, o) {
            if a == b {
                return Ordering::Equal;
            }
        }
        self.concretize().cmp(&o.concretize())
    }
}
impl<F: Field> Hash for Sym<F> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.concretize().hash(h)
    }
}
impl<F: Field> From<u32> for Sym<F> {
    fn from(x: u32) -> Self {
        C(F::from(x))
    }
}
/// Serialized form: one tag byte, then the value (constants) or the term's name (symbolic).
impl<F: Field> ExpSerde for Sym<F> {
    fn serialize_into<W: std::io::Write>(&self, mut w: W) -> SerdeResult<()> {
        match self {
            C(x) => {
                0u8.serialize_into(&mut w)?;
                x.to_u256().serialize_into(&mut w)
            }
            T(i) => {
                1u8.serialize_into(&mut w)?;
                U256::from(*i).serialize_into(&mut w)
            }
        }
    }
    fn deserialize_from<R: std::io::Read>(mut r: R) -> SerdeResult<Self> {
        let t = u8::deserialize_from(&mut r)?;
        let v = U256::deserialize_from(&mut r)?;
        match t {
            0 => Ok(C(F::from_u256(v))),
            1 if v < arena::<F>().borrow().terms.len() as u128 => Ok(T(v.as_u32())),
            _ => Err(serdes::SerdeError::DeserializeError),
        }
    }
}
impl<F: Field> Field for Sym<F> {
    const NAME: &'static str = F::NAME;
    const SIZE: usize = 33;
    const FIELD_SIZE: usize = F::FIELD_SIZE;
    const ZERO: Self = C(F::ZERO);
    const ONE: Self = C(F::ONE);
    const INV_2: Self = C(F::INV_2);
    const MODULUS: U256 = F::MODULUS;
    fn is_zero(&self) -> bool {
        match self {
            C(x) => x.is_zero(),
            _ => ctx::decide_zero(*self),
        }
    }
    fn random_unsafe(_: impl rand::RngCore) -> Self {
        ctx::new_rand()
    }
    fn random_bool(_: impl rand::RngCore) -> Self {
        ctx::unsupported("random_bool")
    }
    fn inv(&self) -> Option<Self> {
        match self {
            C(x) => x.inv().map(C),
            T(i) => {
                if ctx::decide_zero(*self) {
                    None
                } else {
                    Some(ctx::inverse::<F>(*i))
                }
            }
        }
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.concretize().as_u32_unchecked()
    }
    fn to_u256(&self) -> U256 {
        self.concretize().to_u256()
    }
    fn from_u256(x: U256) -> Self {
        C(F::from_u256(x))
    }
}
impl<F: Field> expander_compiler::field::Field for Sym<F> {}
impl<F: Field> expander_compiler::field::FieldRaw for Sym<F> {}

/// Two symbolic lanes.
pub const LANES: usize = 2;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SymV<F: Field> {
    pub v: [Sym<F>; LANES],
}
impl<F: Field> Default for SymV<F> {
    fn default() -> Self {
        SymV { v: [Sym::default(); LANES] }
    }
}
macro_rules! vop {
    ($tr:ident, $f:ident) => {
        impl<F: Field> $tr for SymV<F> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let mut v = self.v;
                for i in 0..LANES {
                    v[i] = self.v[i].$f(o.v[i]);
                }
                SymV { v }
            }
        }
    };
}
vop!(Add, add);
vop!(Sub, sub);
vop!(Mul, mul);
impl<F: Field> Neg for SymV<F> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::default() - self
    }
}
arith::impl_field_ops!([F: Field] SymV<F>);
impl<F: Field> From<u32> for SymV<F> {
    fn from(x: u32) -> Self {
        SymV { v: [Sym::from(x); LANES] }
    }
}
impl<F: Field> From<Sym<F>> for SymV<F> {
    fn from(x: Sym<F>) -> Self {
        SymV { v: [x; LANES] }
    }
}
impl<F: Field> ExpSerde for SymV<F> {
    fn serialize_into<W: std::io::Write>(&self, mut w: W) -> SerdeResult<()> {
        for x in self.v.iter() {
            x.serialize_into(&mut w)?;
        }
        Ok(())
    }
    fn deserialize_from<R: std::io::Read>(mut r: R) -> SerdeResult<Self> {
        let mut v = [Sym::default(); LANES];
        for x in v.iter_mut() {
            *x = Sym::deserialize_from(&mut r)?;
        }
        Ok(SymV { v })
    }
}
impl<F: Field> Field for SymV<F> {
    const NAME: &'static str = "SymV";
    const SIZE: usize = 33 * LANES;
    const FIELD_SIZE: usize = F::FIELD_SIZE;
    const ZERO: Self = SymV { v: [C(F::ZERO); LANES] };
    const ONE: Self = SymV { v: [C(F::ONE); LANES] };
    const INV_2: Self = SymV { v: [C(F::INV_2); LANES] };
    const MODULUS: U256 = F::MODULUS;
    fn random_unsafe(mut rng: impl rand::RngCore) -> Self {
        let mut v = [Sym::default(); LANES];
        for x in v.iter_mut() {
            *x = Sym::random_unsafe(&mut rng);
        }
        SymV { v }
    }
    fn inv(&self) -> Option<Self> {
        let mut v = self.v;
        for i in 0..LANES {
            v[i] = self.v[i].inv()?;
        }
        Some(SymV { v })
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.v[0].as_u32_unchecked()
    }
}
impl<F: Field> arith::SimdField for SymV<F> {
    type Scalar = Sym<F>;
    const PACK_SIZE: usize = LANES;
    fn scale(&self, c: &Sym<F>) -> Self {
        let mut v = self.v;
        for x in v.iter_mut() {
            *x = *x * *c;
        }
        SymV { v }
    }
    fn pack(b: &[Sym<F>]) -> Self {
        SymV { v: b.try_into().expect("pack size mismatch") }
    }
    fn unpack(&self) -> Vec<Sym<F>> {
        self.v.to_vec()
    }
}
impl<F: Field> expander_compiler::field::FieldRaw for SymV<F> {}
