//! Term arena: field elements as multivariate polynomials over atoms, hash-consed, per thread.
use arith::Field;
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub const CAP: usize = 600;
pub const HARD_CAP: usize = 200_000;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Atom {
    /// an unknown; `bit` restricts it to {0,1}
    Var { name: String, bit: bool },
    /// a verifier-chosen random value
    Rand(usize),
    /// the inverse of a term known to be non-zero on this path
    Inv(u32),
    /// a product kept unexpanded
    Mul(u32, u32),
}
pub type Mono = Rc<[(u32, u64)]>;
pub type Poly<F> = Rc<[(u32, F)]>; // (monomial id, coefficient), sorted by monomial id

pub struct Arena<F: Field> {
    pub atoms: Vec<Atom>,
    pub atom_ix: HashMap<Atom, u32>,
    pub atom_rand: Vec<bool>,
    pub overdeg: bool,
    pub monos: Vec<Mono>,
    pub mono_ix: HashMap<Mono, u32>,
    pub mono_rand: Vec<bool>,
    pub terms: Vec<Poly<F>>,
    pub term_ix: HashMap<Poly<F>, u32>,
    pub small_p: Option<u64>,
    pub mulcache: HashMap<(u32, u32), u32>,
}

pub fn small_modulus<F: Field>() -> Option<u64> {
    if F::MODULUS < 100_000u128 {
        Some(F::MODULUS.as_u64())
    } else {
        None
    }
}

impl<F: Field> Arena<F> {
    pub fn new() -> Self {
        let e: Mono = Rc::from(Vec::new());
        let mut mono_ix = HashMap::new();
        mono_ix.insert(e.clone(), 0);
        Arena {
            atoms: vec![],
            atom_ix: HashMap::new(),
            atom_rand: vec![],
            overdeg: false,
            monos: vec![e],
            mono_ix,
            mono_rand: vec![false],
            terms: vec![],
            term_ix: HashMap::new(),
            small_p: small_modulus::<F>(),
            mulcache: HashMap::new(),
        }
    }
    pub fn atom(&mut self, a: Atom) -> u32 {
        if let Some(i) = self.atom_ix.get(&a) {
            return *i;
        }
        let i = self.atoms.len() as u32;
        let r = match &a {
            Atom::Rand(_) => true,
            Atom::Var { .. } => false,
            Atom::Inv(t) => self.term_has_rand(*t),
            Atom::Mul(x, y) => self.term_has_rand(*x) || self.term_has_rand(*y),
        };
        self.atom_rand.push(r);
        self.atoms.push(a.clone());
        self.atom_ix.insert(a, i);
        i
    }
    pub fn term_has_rand(&self, t: u32) -> bool {
        self.terms[t as usize].iter().any(|(m, _)| self.mono_rand[*m as usize])
    }
    pub fn mono(&mut self, m: Vec<(u32, u64)>) -> u32 {
        let m: Mono = Rc::from(m);
        if let Some(i) = self.mono_ix.get(&m) {
            return *i;
        }
        let i = self.monos.len() as u32;
        self.mono_rand.push(m.iter().any(|(a, _)| self.atom_rand[*a as usize]));
        self.monos.push(m.clone());
        self.mono_ix.insert(m, i);
        i
    }
    fn is_bit(&self, a: u32) -> bool {
        matches!(self.atoms[a as usize], Atom::Var { bit: true, .. })
    }
    pub fn mono_mul(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let k = (a.min(b), a.max(b));
        if let Some(r) = self.mulcache.get(&k) {
            return *r;
        }
        let (x, y) = (self.monos[a as usize].clone(), self.monos[b as usize].clone());
        let mut r: Vec<(u32, u64)> = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i].0 < y[j].0) {
                r.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j].0 < x[i].0 {
                r.push(y[j]);
                j += 1;
            } else {
                let mut e = x[i].1 + y[j].1;
                if e > 1 << 40 {
                    self.overdeg = true;
                }
                if self.is_bit(x[i].0) {
                    e = 1;
                } else if let (Some(p), false) = (self.small_p, self.atom_rand[x[i].0 as usize]) {
                    // x^p = x on all of F_p
                    if e >= p {
                        e = (e - 1) % (p - 1) + 1;
                    }
                }
                r.push((x[i].0, e));
                i += 1;
                j += 1;
            }
        }
        let m = self.mono(r);
        self.mulcache.insert(k, m);
        m
    }
    pub fn intern(&mut self, p: Vec<(u32, F)>) -> u32 {
        let p: Poly<F> = Rc::from(p);
        if let Some(i) = self.term_ix.get(&p) {
            return *i;
        }
        let i = self.terms.len() as u32;
        self.terms.push(p.clone());
        self.term_ix.insert(p, i);
        i
    }
}

thread_local! {
    static ARENAS: RefCell<HashMap<TypeId, Rc<dyn Any>>> = RefCell::new(HashMap::new());
}
pub fn arena<F: Field>() -> Rc<RefCell<Arena<F>>> {
    ARENAS.with(|a| {
        a.borrow_mut()
            .entry(TypeId::of::<F>())
            .or_insert_with(|| Rc::new(RefCell::new(Arena::<F>::new())))
            .clone()
            .downcast::<RefCell<Arena<F>>>()
            .unwrap()
    })
}
pub fn reset_arena<F: Field>() {
    ARENAS.with(|a| {
        a.borrow_mut().remove(&TypeId::of::<F>());
    })
}
