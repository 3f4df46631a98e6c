//! Circuits over BN254 written against the API, executed on integers: every value is a linear form over bounded integer
//! variables (inputs, products, quotients, flags, …), each with the facts that define it. Hints are honest.
//! z3 decides what the forms cannot be (that they stay below the modulus, and the properties), in linear integer arithmetic.
use crate::xag::NotEncodable;
use arith::{Field, Fr};
use ethnum::{I256, U256};
use expander_compiler::frontend::builder::{get_variable_id, ToVariableOrValue, VariableOrValue};
use expander_compiler::frontend::extra::UnconstrainedAPI;
use expander_compiler::frontend::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::panic_any;
use symf::solver::{Sat, Solver};

fn no<T>(w: &str) -> T {
    panic_any(NotEncodable(w.to_string()))
}
fn modulus() -> I256 {
    Fr::MODULUS.as_i256()
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lin {
    pub c: I256,
    pub t: BTreeMap<u32, I256>,
}
impl Lin {
    pub fn k(c: I256) -> Self {
        Lin { c, t: BTreeMap::new() }
    }
    pub fn atom(a: u32) -> Self {
        Lin { c: I256::ZERO, t: [(a, I256::ONE)].into() }
    }
    pub fn konst(&self) -> Option<I256> {
        self.t.is_empty().then_some(self.c)
    }
    fn plus(&self, o: &Self, k: I256) -> Self {
        let mut r = self.clone();
        r.c = r.c.checked_add(mul(o.c, k)).unwrap_or_else(|| no("a coefficient of 256 bits"));
        for (m, x) in &o.t {
            let y = r.t.entry(*m).or_insert(I256::ZERO);
            *y = y.checked_add(mul(*x, k)).unwrap_or_else(|| no("a coefficient of 256 bits"));
            if *y == 0 {
                r.t.remove(m);
            }
        }
        r
    }
    fn scale(&self, k: I256) -> Self {
        Lin::k(I256::ZERO).plus(self, k)
    }
    pub fn smt(&self) -> String {
        if self.t.is_empty() {
            return num(self.c);
        }
        let mut s = format!("(+ {}", num(self.c));
        for (m, x) in &self.t {
            s += &if *x == 1 { format!(" a{m}") } else { format!(" (* {} a{m})", num(*x)) };
        }
        s + ")"
    }
}
fn mul(a: I256, b: I256) -> I256 {
    a.checked_mul(b).unwrap_or_else(|| no("a coefficient of 256 bits"))
}
pub fn num(x: I256) -> String {
    if x < 0 {
        format!("(- {})", -x)
    } else {
        x.to_string()
    }
}
struct Atom {
    lo: I256,
    hi: I256,
    facts: Vec<String>,
    deps: Vec<u32>,
}
pub struct IB {
    atoms: Vec<Atom>,
    pub z: Solver,
    v: Vec<Lin>,
    pub must: Vec<(String, BTreeSet<u32>)>,
    /// what is equated, in order
    pub equal: Vec<(Lin, Lin)>,
    memo: HashMap<(u8, Lin, Lin), Lin>,
    prod: HashMap<(u32, u32), u32>,
    ids: HashMap<[u8; 32], usize>,
    outs: HashMap<usize, Vec<usize>>,
    pub names: Vec<(u32, String)>,
    pub unknown: u64,
}
const LOCAL_MS: u64 = 5_000;
impl IB {
    pub fn new() -> Self {
        let mut z = Solver::new(LOCAL_MS);
        z.cmd(&format!("(reset)(set-option :timeout {LOCAL_MS})(set-option :produce-models true)(set-logic ALL)"));
        IB { atoms: vec![], z, v: vec![Lin::k(I256::ZERO)], must: vec![], equal: vec![], memo: HashMap::new(), prod: HashMap::new(), ids: HashMap::new(), outs: HashMap::new(), names: vec![], unknown: 0 }
    }
    fn fresh(&mut self, lo: I256, hi: I256, deps: Vec<u32>) -> u32 {
        let id = self.atoms.len() as u32;
        self.z.cmd(&format!("(declare-const a{id} Int)"));
        self.atoms.push(Atom { lo, hi, facts: vec![], deps });
        id
    }
    fn fact(&mut self, a: u32, f: String) {
        self.atoms[a as usize].facts.push(f);
    }
    pub fn input(&mut self, name: &str, hi: I256) -> Variable {
        let a = self.fresh(I256::ZERO, hi, vec![]);
        self.names.push((a, name.into()));
        self.put(Lin::atom(a))
    }
    pub fn put(&mut self, l: Lin) -> Variable {
        self.v.push(l);
        Variable::from(self.v.len() - 1)
    }
    pub fn of(&self, x: impl ToVariableOrValue<Fr>) -> Lin {
        match x.convert_to_variable_or_value() {
            VariableOrValue::Variable(v) => {
                let i = get_variable_id(v);
                if i == 0 || i >= self.v.len() {
                    panic!("a variable that does not exist is used");
                }
                self.v[i].clone()
            }
            VariableOrValue::Value(v) => Lin::k(v.to_u256().as_i256()),
        }
    }
    pub fn range(&self, l: &Lin) -> (I256, I256) {
        let (mut lo, mut hi) = (l.c, l.c);
        for (a, k) in &l.t {
            let at = &self.atoms[*a as usize];
            let (x, y) = (mul(at.lo, *k), mul(at.hi, *k));
            let over = || no("a range of 256 bits");
            lo = lo.checked_add(x.min(y)).unwrap_or_else(over);
            hi = hi.checked_add(x.max(y)).unwrap_or_else(over);
        }
        (lo, hi)
    }
    /// the atoms and what defines them, to the given depth
    pub fn cone(&self, from: impl IntoIterator<Item = u32>, depth: usize) -> BTreeSet<u32> {
        let mut s: BTreeSet<u32> = from.into_iter().collect();
        let mut last: Vec<u32> = s.iter().copied().collect();
        for _ in 0..depth {
            let mut next = vec![];
            for a in last {
                for d in &self.atoms[a as usize].deps {
                    if s.insert(*d) {
                        next.push(*d);
                    }
                }
            }
            if next.is_empty() {
                break;
            }
            last = next;
        }
        s
    }
    /// assumes everything known of these atoms (facts only of those whose dependencies are in)
    pub fn assume(&mut self, cone: &BTreeSet<u32>) {
        let mut q = String::new();
        for a in cone {
            let at = &self.atoms[*a as usize];
            q += &format!("(assert (<= {} a{a} {}))", num(at.lo), num(at.hi));
            if at.deps.iter().all(|d| cone.contains(d)) {
                for f in &at.facts {
                    q += &format!("(assert {f})");
                }
            }
        }
        self.z.cmd(&q);
    }
    fn never(&mut self, l: &Lin, cond: &str) -> bool {
        let c = self.cone(l.t.keys().copied(), 2);
        self.z.cmd("(push)");
        self.assume(&c);
        self.z.cmd(&format!("(assert ({cond}))"));
        let r = self.z.check();
        self.z.cmd("(pop)");
        if self.z.dead {
            no::<()>("the solver gave up");
        }
        r == Sat::Unsat
    }
    /// the element's representative in 0..p
    fn norm(&mut self, l: Lin) -> Lin {
        let p = modulus();
        if let Some(c) = l.konst() {
            return Lin::k(c.rem_euclid(p));
        }
        let (lo, hi) = self.range(&l);
        let below = lo < 0 && !self.never(&l, &format!("< {} 0", l.smt()));
        let above = hi >= p && !self.never(&l, &format!("> {} {}", l.smt(), num(p - I256::ONE)));
        let deps: Vec<u32> = l.t.keys().copied().collect();
        if !below && !above {
            if lo >= 0 && hi < p && l.t.len() < 3 {
                return l;
            }
            // the least bound 2^k - 1 it stays within
            let (mut a, mut b) = (0u32, 254u32);
            while a < b {
                let m = (a + b) / 2;
                let t = (I256::ONE << m) - I256::ONE;
                if hi <= t || self.never(&l, &format!("> {} {}", l.smt(), num(t))) {
                    b = m
                } else {
                    a = m + 1
                }
            }
            let top = if b == 254 { p - I256::ONE } else { (I256::ONE << b) - I256::ONE };
            let v = self.fresh(lo.max(I256::ZERO), hi.min(top), deps);
            self.fact(v, format!("(= a{v} {})", l.smt()));
            return Lin::atom(v);
        }
        // it wraps around
        let w = self.fresh(-(hi.div_euclid(p)), -(lo.div_euclid(p)), vec![]);
        let v = self.fresh(I256::ZERO, p - I256::ONE, deps.into_iter().chain([w]).collect());
        self.fact(v, format!("(= a{v} (+ {} (* {} a{w})))", l.smt(), num(p)));
        Lin::atom(v)
    }
    fn product(&mut self, a: u32, b: u32) -> u32 {
        let k = (a.min(b), a.max(b));
        if let Some(m) = self.prod.get(&k) {
            return *m;
        }
        let (x, y) = (&self.atoms[a as usize], &self.atoms[b as usize]);
        if x.lo < 0 || y.lo < 0 {
            return no("a product of negative numbers");
        }
        let (lo, hi) = (mul(x.lo, y.lo), mul(x.hi, y.hi));
        let m = self.fresh(lo, hi, vec![a, b]);
        for (s, t) in [(a, b), (b, a)] {
            if self.atoms[s as usize].hi == 1 {
                self.fact(m, format!("(= a{m} (ite (= a{s} 1) a{t} 0))"));
            }
        }
        self.prod.insert(k, m);
        m
    }
    fn times(&mut self, x: &Lin, y: &Lin) -> Lin {
        for (x, y) in [(x, y), (y, x)] {
            if let Some(k) = x.konst() {
                let p = modulus();
                // the smaller representative, as for -1
                let k = if k > p / I256::new(2) { k - p } else { k };
                let r = y.scale(k);
                return self.norm(r);
            }
        }
        if x.t.len() * y.t.len() > 64 {
            return no("a product of long sums");
        }
        let mut r = Lin::k(mul(x.c, y.c));
        r = r.plus(&Lin { c: I256::ZERO, t: y.t.clone() }, x.c);
        r = r.plus(&Lin { c: I256::ZERO, t: x.t.clone() }, y.c);
        for (a, j) in &x.t {
            for (b, k) in &y.t {
                let m = self.product(*a, *b);
                r = r.plus(&Lin::atom(m), mul(*j, *k));
            }
        }
        self.norm(r)
    }
    /// a flag that is 1 exactly if the condition holds
    fn flag(&mut self, tag: u8, x: Lin, y: Lin, cond: String) -> Lin {
        let k = (tag, x.clone(), y.clone());
        if let Some(l) = self.memo.get(&k) {
            return l.clone();
        }
        let c = self.fresh(I256::ZERO, I256::ONE, x.t.keys().chain(y.t.keys()).copied().collect());
        self.fact(c, format!("(= (= a{c} 1) {cond})"));
        let l = Lin::atom(c);
        self.memo.insert(k, l.clone());
        l
    }
    fn geq_(&mut self, x: Lin, y: Lin) -> Lin {
        let ((a, b), (c, d)) = (self.range(&x), self.range(&y));
        if a >= d {
            return Lin::k(I256::ONE);
        }
        if b < c {
            return Lin::k(I256::ZERO);
        }
        let s = format!("(>= {} {})", x.smt(), y.smt());
        self.flag(0, x, y, s)
    }
    fn not(&mut self, x: Lin) -> Lin {
        Lin::k(I256::ONE).plus(&x, -I256::ONE)
    }
    fn eq_(&mut self, x: Lin, y: Lin) -> Lin {
        let d = x.plus(&y, -I256::ONE);
        let (lo, hi) = self.range(&d);
        if lo > 0 || hi < 0 {
            return Lin::k(I256::ZERO);
        }
        if (lo, hi) == (I256::ZERO, I256::ZERO) {
            return Lin::k(I256::ONE);
        }
        let s = format!("(= {} {})", x.smt(), y.smt());
        self.flag(1, x, y, s)
    }
    fn is_flag(&mut self, l: &Lin) -> bool {
        let (lo, hi) = self.range(l);
        lo >= 0 && hi <= 1
    }
    /// and, or, xor of flags
    fn logic(&mut self, what: &str, x: Lin, y: Lin, constrained: bool) -> Lin {
        let mut wide = false;
        for l in [&x, &y] {
            if !self.is_flag(l) {
                if !constrained {
                    return no("bit operations on numbers");
                }
                let s: BTreeSet<u32> = l.t.keys().copied().collect();
                self.must.push((format!("(or (= {0} 0) (= {0} 1))", l.smt()), s));
                wide = true;
            }
        }
        if wide {
            // what the API makes of it
            let p = self.times(&x, &y);
            let k = I256::new(match what { "and" => return p, "or" => -1, _ => -2 });
            let r = x.plus(&y, I256::ONE).plus(&p, k);
            return self.norm(r);
        }
        for (a, b) in [(&x, &y), (&y, &x)] {
            if let Some(k) = a.konst() {
                return match (what, k == 1) {
                    ("and", true) | ("or", false) | ("xor", false) => b.clone(),
                    ("and", false) => Lin::k(I256::ZERO),
                    ("or", true) => Lin::k(I256::ONE),
                    _ => {
                        let b = b.clone();
                        self.not(b)
                    }
                };
            }
        }
        let (x, y) = if x <= y { (x, y) } else { (y, x) };
        let s = format!("({what} (= {} 1) (= {} 1))", x.smt(), y.smt());
        self.flag(match what { "and" => 2, "or" => 3, _ => 4 }, x, y, s)
    }
    /// quotient and remainder
    fn div_mod(&mut self, x: Lin, y: Lin) -> (Lin, Lin) {
        let Some(d) = y.konst() else { return no("division by a value that is not constant") };
        if d == 0 {
            return no("division by zero");
        }
        if let Some(n) = x.konst() {
            return (Lin::k(n / d), Lin::k(n % d));
        }
        let (lo, hi) = self.range(&x);
        if hi < d {
            return (Lin::k(I256::ZERO), x);
        }
        let k = (5, x.clone(), y.clone());
        if let Some(q) = self.memo.get(&k) {
            let q = q.clone();
            let r = self.memo[&(6, x, y)].clone();
            return (q, r);
        }
        let deps: Vec<u32> = x.t.keys().copied().collect();
        let r = self.fresh(I256::ZERO, d - I256::ONE, deps.clone());
        let q = self.fresh(lo / d, hi / d, deps.into_iter().chain([r]).collect());
        self.fact(q, format!("(= {} (+ (* {} a{q}) a{r}))", x.smt(), num(d)));
        self.atoms[r as usize].deps.push(q);
        let (q, r) = (Lin::atom(q), Lin::atom(r));
        self.memo.insert(k, q.clone());
        self.memo.insert((6, x, y), r.clone());
        (q, r)
    }
    pub fn all(&self) -> BTreeSet<u32> {
        (0..self.atoms.len() as u32).collect()
    }
    pub fn mentioned(&self, s: &str) -> BTreeSet<u32> {
        s.split(|c: char| !c.is_ascii_alphanumeric()).filter_map(|w| w.strip_prefix('a')?.parse().ok()).collect()
    }
    pub fn timeout(&mut self, ms: u64) {
        self.z.timeout_ms = ms;
        self.z.cmd(&format!("(set-option :timeout {ms})"));
    }
    /// the product as an integer
    pub fn raw_times(&mut self, x: &Lin, y: &Lin) -> Lin {
        for (x, y) in [(x, y), (y, x)] {
            if let Some(k) = x.konst() {
                return y.scale(k);
            }
        }
        match (x.t.iter().next(), y.t.iter().next()) {
            (Some((a, _)), Some((b, _))) if *x == Lin::atom(*a) && *y == Lin::atom(*b) => Lin::atom(self.product(*a, *b)),
            _ => no("a product of sums"),
        }
    }
    pub fn need(&mut self, cond: String, of: &[&Lin]) {
        self.must.push((cond, of.iter().flat_map(|l| l.t.keys().copied()).collect()));
    }
    pub fn neg_(&mut self, x: Lin) -> Lin {
        let r = x.scale(-I256::ONE);
        self.norm(r)
    }
}
type X = Fr;
macro_rules! two {
    ($($f:ident($s:ident, $x:ident, $y:ident) $e:expr;)*) => {
        $(fn $f(&mut self, x: impl ToVariableOrValue<X>, y: impl ToVariableOrValue<X>) -> Variable {
            #[allow(unused_variables)]
            let ($s, $x, $y) = { let (x, y) = (self.of(x), self.of(y)); (&mut *self, x, y) };
            let r: Lin = $e;
            self.put(r)
        })*
    };
}
impl BasicAPI<BN254Config> for IB {
    two! {
        add(s, x, y) { let r = x.plus(&y, I256::ONE); s.norm(r) };
        sub(s, x, y) { let r = x.plus(&y, -I256::ONE); s.norm(r) };
        mul(s, x, y) s.times(&x, &y);
        xor(s, x, y) s.logic("xor", x, y, true);
        or(s, x, y) s.logic("or", x, y, true);
        and(s, x, y) s.logic("and", x, y, true);
        gt(s, x, y) { let r = s.geq_(y, x); s.not(r) };
        geq(s, x, y) s.geq_(x, y);
    }
    fn div(&mut self, _: impl ToVariableOrValue<X>, _: impl ToVariableOrValue<X>, _: bool) -> Variable {
        no("div")
    }
    fn neg(&mut self, x: impl ToVariableOrValue<X>) -> Variable {
        let x = self.of(x);
        let r = self.neg_(x);
        self.put(r)
    }
    fn is_zero(&mut self, x: impl ToVariableOrValue<X>) -> Variable {
        let x = self.of(x);
        let r = self.eq_(x, Lin::k(I256::ZERO));
        self.put(r)
    }
    fn to_binary(&mut self, _: impl ToVariableOrValue<X>, _: usize) -> Vec<Variable> {
        no("to_binary")
    }
    fn assert_is_zero(&mut self, x: impl ToVariableOrValue<X>) {
        let x = self.of(x);
        self.need(format!("(= {} 0)", x.smt()), &[&x])
    }
    fn assert_is_non_zero(&mut self, x: impl ToVariableOrValue<X>) {
        let x = self.of(x);
        self.need(format!("(not (= {} 0))", x.smt()), &[&x])
    }
    fn assert_is_bool(&mut self, x: impl ToVariableOrValue<X>) {
        let x = self.of(x);
        if !self.is_flag(&x) {
            self.need(format!("(or (= {0} 0) (= {0} 1))", x.smt()), &[&x])
        }
    }
    fn assert_is_equal(&mut self, x: impl ToVariableOrValue<X>, y: impl ToVariableOrValue<X>) {
        let (x, y) = (self.of(x), self.of(y));
        self.need(format!("(= {} {})", x.smt(), y.smt()), &[&x, &y]);
        self.equal.push((x, y));
    }
    fn get_random_value(&mut self) -> Variable {
        no("random value")
    }
    fn new_hint(&mut self, _: &str, _: &[Variable], _: usize) -> Vec<Variable> {
        no("hint")
    }
    fn constant(&mut self, x: impl ToVariableOrValue<X>) -> Variable {
        let x = self.of(x);
        self.put(x)
    }
    fn constant_value(&mut self, x: impl ToVariableOrValue<X>) -> Option<X> {
        let x = self.of(x);
        x.konst().map(|c| Fr::from_u256(c.as_u256()))
    }
}
impl UnconstrainedAPI<BN254Config> for IB {
    fn unconstrained_identity(&mut self, x: impl ToVariableOrValue<X>) -> Variable {
        let x = self.of(x);
        self.put(x)
    }
    two! {
        unconstrained_add(s, x, y) { let r = x.plus(&y, I256::ONE); s.norm(r) };
        unconstrained_mul(s, x, y) s.times(&x, &y);
        unconstrained_div(s, x, y) no("unconstrained_div");
        unconstrained_pow(s, x, y) no("unconstrained_pow");
        unconstrained_int_div(s, x, y) s.div_mod(x, y).0;
        unconstrained_mod(s, x, y) s.div_mod(x, y).1;
        unconstrained_shift_l(s, x, y) no("shift");
        unconstrained_shift_r(s, x, y) match y.konst() {
            Some(k) if k < 250 => { let d = Lin::k(I256::ONE << k.as_u32()); s.div_mod(x, d).0 }
            _ => no("shift"),
        };
        unconstrained_lesser_eq(s, x, y) s.geq_(y, x);
        unconstrained_greater_eq(s, x, y) s.geq_(x, y);
        unconstrained_lesser(s, x, y) { let r = s.geq_(x, y); s.not(r) };
        unconstrained_greater(s, x, y) { let r = s.geq_(y, x); s.not(r) };
        unconstrained_eq(s, x, y) s.eq_(x, y);
        unconstrained_not_eq(s, x, y) { let r = s.eq_(x, y); s.not(r) };
        unconstrained_bool_or(s, x, y) s.logic("or", x, y, false);
        unconstrained_bool_and(s, x, y) s.logic("and", x, y, false);
        unconstrained_bit_or(s, x, y) s.logic("or", x, y, false);
        unconstrained_bit_and(s, x, y) s.logic("and", x, y, false);
        unconstrained_bit_xor(s, x, y) s.logic("xor", x, y, false);
    }
}
impl RootAPI<BN254Config> for IB {
    fn memorized_simple_call<F: Fn(&mut Self, &Vec<Variable>) -> Vec<Variable> + 'static>(&mut self, f: F, inputs: &[Variable]) -> Vec<Variable> {
        f(self, &inputs.to_vec())
    }
    fn hash_to_sub_circuit_id(&mut self, hash: &[u8; 32]) -> usize {
        let n = self.ids.len() + 1;
        *self.ids.entry(*hash).or_insert(n)
    }
    fn call_sub_circuit<F: FnOnce(&mut Self, &Vec<Variable>) -> Vec<Variable>>(&mut self, _: usize, inputs: &[Variable], f: F) -> Vec<Variable> {
        f(self, &inputs.to_vec())
    }
    fn register_sub_circuit_output_structure(&mut self, id: usize, s: Vec<usize>) {
        self.outs.insert(id, s);
    }
    fn get_sub_circuit_output_structure(&self, id: usize) -> Vec<usize> {
        self.outs[&id].clone()
    }
    fn set_outputs(&mut self, _: Vec<Variable>) {}
}
/// natural numbers, for what the limbs stand for
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Nat(pub Vec<u32>);
impl Nat {
    pub fn trim(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn decimal(&self) -> String {
        let mut n: Vec<u32> = self.clone().trim().0;
        let mut d = vec![];
        while !n.is_empty() {
            let mut r = 0u64;
            for x in n.iter_mut().rev() {
                let y = (r << 32) | *x as u64;
                *x = (y / 10) as u32;
                r = y % 10;
            }
            d.push((b'0' + r as u8) as char);
            n = Nat(n).trim().0;
        }
        if d.is_empty() {
            d.push('0');
        }
        d.iter().rev().collect()
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let mut r = vec![];
        let mut c = 0u64;
        for i in 0..self.0.len().max(o.0.len()) + 1 {
            c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            r.push(c as u32);
            c >>= 32;
        }
        Nat(r).trim()
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut r = vec![0u32; self.0.len() + o.0.len() + 1];
        for (i, a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, b) in o.0.iter().enumerate() {
                c += *a as u64 * *b as u64 + r[i + j] as u64;
                r[i + j] = c as u32;
                c >>= 32;
            }
            r[i + o.0.len()] = c as u32;
        }
        Nat(r).trim()
    }
    pub fn less(&self, o: &Nat) -> bool {
        (self.0.len(), self.0.iter().rev().collect::<Vec<_>>()) < (o.0.len(), o.0.iter().rev().collect::<Vec<_>>())
    }
    /// limbs of 120 bits, lowest first (they may be larger)
    pub fn of(l: &[U256]) -> Nat {
        let mut r = Nat::default();
        for (i, x) in l.iter().enumerate() {
            // 120 i = 32 w + s
            let (w, s) = (120 * i / 32, 120 * i % 32);
            let mut y = vec![0u32; w];
            let b = x.to_le_bytes();
            let n = Nat(b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()).mul(&Nat(vec![1 << s]));
            y.extend(n.0);
            r = r.add(&Nat(y).trim());
        }
        r
    }
}
