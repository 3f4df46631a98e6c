//! Circuits written against the API, executed on sums of products: every value is a linear combination of products of inputs
//! and of shared subexpressions. Two subexpressions are the same one when z3 finds no values on which they differ.
use crate::xag::NotEncodable;
use arith::Field;
use expander_compiler::frontend::builder::{get_variable_id, ToVariableOrValue, VariableOrValue};
use expander_compiler::frontend::extra::UnconstrainedAPI;
use expander_compiler::frontend::*;
use std::collections::{BTreeMap, HashMap};
use std::panic::panic_any;
use symf::solver::{Sat, Solver};

/// points at which everything is also evaluated, to find candidates and counterexamples
pub const POINTS: usize = 3;
pub type Vals<F> = [F; POINTS];

fn no<T>(w: &str) -> T {
    panic_any(NotEncodable(w.to_string()))
}
/// a linear combination of monomials
#[derive(Clone, Debug, PartialEq)]
pub struct Pol<F: Field> {
    pub c: F,
    pub t: BTreeMap<u32, F>,
}
impl<F: Field> Pol<F> {
    pub fn k(c: F) -> Self {
        Pol { c, t: BTreeMap::new() }
    }
    pub fn scale(&self, k: F) -> Self {
        if k.is_zero() {
            return Pol::k(F::ZERO);
        }
        Pol { c: self.c * k, t: self.t.iter().map(|(m, x)| (*m, *x * k)).collect() }
    }
    pub fn add(&self, o: &Self, k: F) -> Self {
        let mut r = self.clone();
        r.c += o.c * k;
        for (m, x) in &o.t {
            let y = r.t.entry(*m).or_insert(F::ZERO);
            *y += *x * k;
            if y.is_zero() {
                r.t.remove(m);
            }
        }
        r
    }
}
pub struct Eng<F: Field> {
    /// factors: an input, or a sum
    pub names: Vec<String>,
    fvals: Vec<Vals<F>>,
    forms: HashMap<Vec<String>, Vec<(u32, Pol<F>)>>,
    monos: Vec<Vec<(u32, u32)>>,
    mono_of: HashMap<Vec<(u32, u32)>, u32>,
    mvals: Vec<Vals<F>>,
    pub z: Solver,
    pub open: u64,
    pub merged: u64,
    seed: u64,
}
impl<F: Field> Eng<F> {
    pub fn new() -> Self {
        let z = Solver::new(10_000);
        let mut e = Eng { names: vec![], fvals: vec![], forms: HashMap::new(), monos: vec![], mono_of: HashMap::new(), mvals: vec![], z, open: 0, merged: 0, seed: 0x9E3779B97F4A7C15 };
        e.z.cmd("(reset)(set-option :timeout 10000)(set-logic ALL)");
        e
    }
    pub fn rnd(&mut self) -> F {
        let mut x = [0u8; 64];
        for b in x.iter_mut() {
            self.seed ^= self.seed << 13;
            self.seed ^= self.seed >> 7;
            self.seed ^= self.seed << 17;
            *b = (self.seed >> 20) as u8;
        }
        F::from_uniform_bytes(&x)
    }
    pub fn input(&mut self, name: &str) -> Pol<F> {
        let v: Vals<F> = std::array::from_fn(|_| self.rnd());
        let f = self.factor(name, v);
        let m = self.mono(vec![(f, 1)]);
        Pol { c: F::ZERO, t: [(m, F::ONE)].into() }
    }
    fn factor(&mut self, name: &str, v: Vals<F>) -> u32 {
        self.names.push(name.to_string());
        self.fvals.push(v);
        self.names.len() as u32 - 1
    }
    fn mono(&mut self, mut m: Vec<(u32, u32)>) -> u32 {
        m.sort();
        if let Some(x) = self.mono_of.get(&m) {
            return *x;
        }
        let v: Vals<F> = std::array::from_fn(|i| {
            let mut r = F::ONE;
            for (f, e) in &m {
                for _ in 0..*e {
                    r *= self.fvals[*f as usize][i];
                }
            }
            r
        });
        let id = self.monos.len() as u32;
        self.z.cmd(&format!("(declare-const m{id} Int)"));
        self.monos.push(m.clone());
        self.mono_of.insert(m, id);
        self.mvals.push(v);
        id
    }
    pub fn at(&self, p: &Pol<F>) -> Vals<F> {
        std::array::from_fn(|i| {
            let mut r = p.c;
            for (m, x) in &p.t {
                r += self.mvals[*m as usize][i] * *x;
            }
            r
        })
    }
    fn smt(p: &Pol<F>) -> String {
        let mut s = format!("(mod (+ 0 {}", p.c.to_u256());
        for (m, x) in &p.t {
            s += &format!(" (* {} m{m})", x.to_u256());
        }
        s + &format!(") {})", F::MODULUS)
    }
    /// whatever the values of the monomials, the two are the same
    pub fn same(&mut self, a: &Pol<F>, b: &Pol<F>) -> Sat {
        self.z.cmd(&format!("(push)(assert (not (= {} {})))", Self::smt(a), Self::smt(b)));
        let r = self.z.check();
        self.z.cmd("(pop)");
        match r {
            Sat::Unsat => Sat::Unsat,
            r => {
                self.open += (r == Sat::Unknown) as u64;
                r
            }
        }
    }
    /// as coefficient and monomial
    fn single(&mut self, p: &Pol<F>) -> (F, Vec<(u32, u32)>) {
        if p.c.is_zero() && p.t.len() == 1 {
            let (m, x) = p.t.iter().next().unwrap();
            return (*x, self.monos[*m as usize].clone());
        }
        let lead = *p.t.iter().next().unwrap().1;
        let q = p.scale(lead.inv().unwrap());
        let v = self.at(&q);
        let key: Vec<String> = v.iter().map(|x| x.to_u256().to_string()).collect();
        for (f, o) in self.forms.get(&key).cloned().unwrap_or_default() {
            if self.same(&q, &o) == Sat::Unsat {
                self.merged += 1;
                return (lead, vec![(f, 1)]);
            }
        }
        let n = self.names.len();
        let f = self.factor(&format!("sum{n}"), v);
        self.forms.entry(key).or_default().push((f, q));
        (lead, vec![(f, 1)])
    }
    pub fn mul(&mut self, a: &Pol<F>, b: &Pol<F>) -> Pol<F> {
        for (x, y) in [(a, b), (b, a)] {
            if x.t.is_empty() {
                return y.scale(x.c);
            }
        }
        let (ca, ma) = self.single(a);
        let (cb, mb) = self.single(b);
        let mut m: BTreeMap<u32, u32> = ma.into_iter().collect();
        for (f, e) in mb {
            *m.entry(f).or_insert(0) += e;
        }
        let m = self.mono(m.into_iter().collect());
        Pol { c: F::ZERO, t: [(m, ca * cb)].into() }
    }
}
type Fd<C> = CircuitField<C>;
/// what is written against the API, executed on them
pub struct FB<C: Config> {
    pub e: Eng<Fd<C>>,
    v: Vec<Pol<Fd<C>>>,
    /// values that hints return, by input of the hint: what the prover likes, until it is constrained
    pub hints: Vec<Pol<Fd<C>>>,
    known: HashMap<u32, Pol<Fd<C>>>,
    /// what has to be zero, other than definitions of hints
    pub must: Vec<Pol<Fd<C>>>,
    ids: HashMap<[u8; 32], usize>,
    outs: HashMap<usize, Vec<usize>>,
}
impl<C: Config> FB<C> {
    pub fn new() -> Self {
        FB { e: Eng::new(), v: vec![Pol::k(Fd::<C>::ZERO)], hints: vec![], known: HashMap::new(), must: vec![], ids: HashMap::new(), outs: HashMap::new() }
    }
    pub fn put(&mut self, p: Pol<Fd<C>>) -> Variable {
        self.v.push(p);
        Variable::from(self.v.len() - 1)
    }
    pub fn of(&self, x: impl ToVariableOrValue<Fd<C>>) -> Pol<Fd<C>> {
        match x.convert_to_variable_or_value() {
            VariableOrValue::Variable(v) => {
                let i = get_variable_id(v);
                if i == 0 || i >= self.v.len() {
                    panic!("a variable that does not exist is used");
                }
                self.subst(&self.v[i])
            }
            VariableOrValue::Value(v) => Pol::k(v),
        }
    }
    fn subst(&self, p: &Pol<Fd<C>>) -> Pol<Fd<C>> {
        let mut r = p.clone();
        while let Some(m) = r.t.keys().find(|m| self.known.contains_key(m)).copied() {
            let x = r.t.remove(&m).unwrap();
            r = r.add(&self.known[&m], x);
        }
        r
    }
    fn zero(&mut self, p: Pol<Fd<C>>) {
        if p.t.is_empty() {
            if !p.c.is_zero() {
                panic!("a constant that is not zero is asserted to be");
            }
            return;
        }
        // a hint that occurs alone: the assertion says what it is
        for h in self.hints.iter() {
            let m = *h.t.keys().next().unwrap();
            if let Some(x) = p.t.get(&m) {
                let mut rest = p.clone();
                rest.t.remove(&m);
                let rest = rest.scale(-x.inv().unwrap());
                self.known.insert(m, rest);
                return;
            }
        }
        self.must.push(p);
    }
}
impl<C: Config> BasicAPI<C> for FB<C> {
    fn add(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, y) = (self.of(x), self.of(y));
        let r = x.add(&y, Fd::<C>::ONE);
        self.put(r)
    }
    fn sub(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, y) = (self.of(x), self.of(y));
        let r = x.add(&y, -Fd::<C>::ONE);
        self.put(r)
    }
    fn mul(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, y) = (self.of(x), self.of(y));
        let r = self.e.mul(&x, &y);
        self.put(r)
    }
    fn xor(&mut self, _: impl ToVariableOrValue<CircuitField<C>>, _: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        no("xor")
    }
    fn or(&mut self, _: impl ToVariableOrValue<CircuitField<C>>, _: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        no("or")
    }
    fn and(&mut self, _: impl ToVariableOrValue<CircuitField<C>>, _: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        no("and")
    }
    fn gt(&mut self, _: impl ToVariableOrValue<CircuitField<C>>, _: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        no("gt")
    }
    fn geq(&mut self, _: impl ToVariableOrValue<CircuitField<C>>, _: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        no("geq")
    }
    fn div(&mut self, _: impl ToVariableOrValue<CircuitField<C>>, _: impl ToVariableOrValue<CircuitField<C>>, _: bool) -> Variable {
        no("div")
    }
    fn neg(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let r = self.of(x).scale(-Fd::<C>::ONE);
        self.put(r)
    }
    fn is_zero(&mut self, _: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        no("is_zero")
    }
    fn to_binary(&mut self, _: impl ToVariableOrValue<CircuitField<C>>, _: usize) -> Vec<Variable> {
        no("to_binary")
    }
    fn assert_is_zero(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) {
        let x = self.of(x);
        self.zero(x)
    }
    fn assert_is_non_zero(&mut self, _: impl ToVariableOrValue<CircuitField<C>>) {
        no("assert_is_non_zero")
    }
    fn assert_is_bool(&mut self, _: impl ToVariableOrValue<CircuitField<C>>) {
        no("assert_is_bool")
    }
    fn get_random_value(&mut self) -> Variable {
        no("random value")
    }
    fn new_hint(&mut self, _: &str, _: &[Variable], n: usize) -> Vec<Variable> {
        (0..n)
            .map(|_| {
                let h = self.e.input(&format!("hint{}", self.hints.len()));
                self.hints.push(h.clone());
                self.put(h)
            })
            .collect()
    }
    fn constant(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let x = self.of(x);
        self.put(x)
    }
    fn constant_value(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Option<CircuitField<C>> {
        let x = self.of(x);
        x.t.is_empty().then_some(x.c)
    }
}
macro_rules! unc {
    ($($f:ident)*) => {
        $(fn $f(&mut self, _: impl ToVariableOrValue<CircuitField<C>>, _: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
            no(stringify!($f))
        })*
    };
}
impl<C: Config> UnconstrainedAPI<C> for FB<C> {
    fn unconstrained_identity(&mut self, _: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        no("unconstrained_identity")
    }
    unc!(unconstrained_add unconstrained_mul unconstrained_div unconstrained_pow unconstrained_int_div unconstrained_mod unconstrained_shift_l unconstrained_shift_r
        unconstrained_lesser_eq unconstrained_greater_eq unconstrained_lesser unconstrained_greater unconstrained_eq unconstrained_not_eq unconstrained_bool_or
        unconstrained_bool_and unconstrained_bit_or unconstrained_bit_and unconstrained_bit_xor);
}
impl<C: Config> RootAPI<C> for FB<C> {
    fn memorized_simple_call<F: Fn(&mut Self, &Vec<Variable>) -> Vec<Variable> + 'static>(&mut self, f: F, inputs: &[Variable]) -> Vec<Variable> {
        f(self, &inputs.to_vec())
    }
    fn hash_to_sub_circuit_id(&mut self, hash: &[u8; 32]) -> usize {
        let n = self.ids.len() + 1;
        *self.ids.entry(*hash).or_insert(n)
    }
    fn call_sub_circuit<F: FnOnce(&mut Self, &Vec<Variable>) -> Vec<Variable>>(&mut self, _: usize, inputs: &[Variable], f: F) -> Vec<Variable> {
        f(self, &inputs.to_vec())
    }
    fn register_sub_circuit_output_structure(&mut self, id: usize, s: Vec<usize>) {
        self.outs.insert(id, s);
    }
    fn get_sub_circuit_output_structure(&self, id: usize) -> Vec<usize> {
        self.outs[&id].clone()
    }
    fn set_outputs(&mut self, _: Vec<Variable>) {}
}
