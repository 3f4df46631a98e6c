//! Circuits written against the API, executed on symbolic bits: every value is a sum of weighted bits (over GF(2): a bit),
//! every bit a node of an and/xor graph. Nodes that agree on random patterns are merged when z3 shows that they are equal.
use expander_compiler::frontend::builder::{get_variable_id, ToVariableOrValue, VariableOrValue};
use expander_compiler::frontend::extra::UnconstrainedAPI;
use expander_compiler::frontend::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::time::{Duration, Instant};
use symf::solver::{Sat, Solver};

/// node * 2 + negated; node 0 is false
pub type Lit = u32;
pub const FALSE: Lit = 0;
pub const TRUE: Lit = 1;
const W: usize = 32;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum N {
    K,
    In(u32),
    And(Lit, Lit),
    Xor(Lit, Lit),
}
pub struct Xag {
    n: Vec<N>,
    h: HashMap<N, Lit>,
    sim: Vec<[u64; W]>,
    class: HashMap<[u64; W], Vec<u32>>,
    cache: HashMap<Vec<u32>, bool>,
    solver: Option<Solver>,
    rng: u64,
    pub queries: u64,
    pub ms: f64,
    pub merged: u64,
    pub unknown: u64,
    pub names: Vec<String>,
    ins: Vec<u32>,
    /// how many of the first inputs are worth fixing when a counterexample is searched
    pub fix: usize,
    end: Instant,
}
pub enum Verdict {
    Holds,
    /// values of the inputs
    Fails(BTreeMap<String, bool>),
    Unknown,
}
impl Xag {
    pub fn new(seconds: u64) -> Self {
        let mut x = Xag {
            n: vec![N::K],
            h: HashMap::new(),
            sim: vec![[0; W]],
            class: HashMap::new(),
            cache: HashMap::new(),
            solver: None,
            rng: 0x1234_5678_9abc_def1,
            queries: 0,
            ms: 0.0,
            merged: 0,
            unknown: 0,
            names: vec![],
            ins: vec![],
            fix: 0,
            end: Instant::now() + Duration::from_secs(seconds),
        };
        x.class.insert([0; W], vec![0]);
        x
    }
    pub fn size(&self) -> usize {
        self.n.len()
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    pub fn input(&mut self, name: &str) -> Lit {
        let id = self.n.len() as u32;
        self.n.push(N::In(self.names.len() as u32));
        self.names.push(name.to_string());
        self.ins.push(id);
        let mut s = [0; W];
        for w in s.iter_mut() {
            *w = self.rnd();
        }
        self.sim.push(s);
        id * 2
    }
    fn sl(&self, l: Lit) -> [u64; W] {
        let mut s = self.sim[(l / 2) as usize];
        if l & 1 == 1 {
            s.iter_mut().for_each(|x| *x = !*x);
        }
        s
    }
    pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if a == FALSE || a == b ^ 1 {
            return FALSE;
        }
        if a == TRUE || a == b {
            return b;
        }
        self.node(N::And(a, b))
    }
    pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let neg = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if a == b {
            return neg;
        }
        if a == FALSE {
            return b ^ neg;
        }
        self.node(N::Xor(a, b)) ^ neg
    }
    pub fn or(&mut self, a: Lit, b: Lit) -> Lit {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    pub fn eq(&mut self, a: Lit, b: Lit) -> Lit {
        self.xor(a, b) ^ 1
    }
    pub fn mux(&mut self, c: Lit, t: Lit, e: Lit) -> Lit {
        let d = self.xor(t, e);
        let x = self.and(c, d);
        self.xor(x, e)
    }
    fn node(&mut self, n: N) -> Lit {
        if let Some(l) = self.h.get(&n) {
            return *l;
        }
        let id = self.n.len() as u32;
        let mut s = [0; W];
        match n {
            N::And(a, b) => {
                let (a, b) = (self.sl(a), self.sl(b));
                (0..W).for_each(|i| s[i] = a[i] & b[i])
            }
            N::Xor(a, b) => {
                let (a, b) = (self.sl(a), self.sl(b));
                (0..W).for_each(|i| s[i] = a[i] ^ b[i])
            }
            _ => {}
        }
        self.n.push(n);
        self.sim.push(s);
        let flip = (s[0] & 1) as u32;
        let mut k = s;
        if flip == 1 {
            k.iter_mut().for_each(|x| *x = !*x);
        }
        let cands: Vec<u32> = self.class.get(&k).map(|v| v.iter().take(3).cloned().collect()).unwrap_or_default();
        for c in cands {
            let cf = (self.sim[c as usize][0] & 1) as u32;
            let other = c * 2 + (cf ^ flip);
            if self.local(id * 2, other) {
                self.n.pop();
                self.sim.pop();
                self.h.insert(n, other);
                self.merged += 1;
                return other;
            }
        }
        self.class.entry(k).or_default().push(id);
        self.h.insert(n, id * 2);
        id * 2
    }
    /// nodes of the cone in topological order, leaves
    fn cone(&self, roots: &[u32], limit: usize) -> (Vec<u32>, Vec<u32>, bool) {
        let mut front: BTreeSet<u32> = roots.iter().cloned().filter(|r| *r != 0).collect();
        let mut ins = vec![];
        let mut gates = vec![];
        while let Some(x) = front.pop_last() {
            match self.n[x as usize] {
                N::K => {}
                N::In(_) => ins.push(x),
                N::And(a, b) | N::Xor(a, b) => {
                    if gates.len() >= limit {
                        front.insert(x);
                        break;
                    }
                    gates.push(x);
                    for y in [a / 2, b / 2] {
                        if y != 0 {
                            front.insert(y);
                        }
                    }
                }
            }
        }
        let exact = front.iter().all(|x| matches!(self.n[*x as usize], N::In(_)));
        ins.extend(front);
        gates.reverse();
        (gates, ins, exact)
    }
    /// the gates within some distance of the roots
    fn near(&self, roots: &[u32], depth: usize) -> (Vec<u32>, Vec<u32>, bool) {
        let mut gates = BTreeSet::new();
        let mut now: BTreeSet<u32> = roots.iter().cloned().collect();
        let mut seen = now.clone();
        for _ in 0..depth {
            let mut next = BTreeSet::new();
            for x in now {
                if let N::And(a, b) | N::Xor(a, b) = self.n[x as usize] {
                    gates.insert(x);
                    for y in [a / 2, b / 2] {
                        if seen.insert(y) {
                            next.insert(y);
                        }
                    }
                }
            }
            now = next;
        }
        let leaves: Vec<u32> = seen.iter().filter(|x| **x != 0 && !gates.contains(x)).cloned().collect();
        let exact = leaves.iter().all(|x| matches!(self.n[*x as usize], N::In(_)));
        (gates.into_iter().collect(), leaves, exact)
    }
    fn local(&mut self, a: Lit, b: Lit) -> bool {
        for limit in [2, 4, 6, 24, 120, 500] {
            // what is rarely true looks like false
            if b / 2 == 0 && limit > 24 {
                return false;
            }
            let roots = [a / 2, b / 2];
            let (gates, leaves, exact) = if limit < 8 { self.near(&roots, limit) } else { self.cone(&roots, limit) };
            // canonical form: leaves numbered as a depth first walk meets them
            let inside: BTreeSet<u32> = gates.iter().cloned().collect();
            let mut num: HashMap<u32, u32> = HashMap::new();
            let mut key = vec![];
            for r in [a, b] {
                let mut st = vec![(r / 2, false)];
                while let Some((x, done)) = st.pop() {
                    if num.contains_key(&x) {
                        continue;
                    }
                    if x == 0 {
                        num.insert(0, 0);
                        continue;
                    }
                    if !inside.contains(&x) {
                        num.insert(x, num.len() as u32 + 1);
                        key.push(u32::MAX);
                        continue;
                    }
                    let (N::And(p, q) | N::Xor(p, q)) = self.n[x as usize] else { continue };
                    if done {
                        let t = matches!(self.n[x as usize], N::Xor(..)) as u32;
                        key.extend([t, num[&(p / 2)] * 2 + (p & 1), num[&(q / 2)] * 2 + (q & 1)]);
                        num.insert(x, num.len() as u32 + 1);
                    } else {
                        st.push((x, true));
                        st.push((q / 2, false));
                        st.push((p / 2, false));
                    }
                }
                key.extend([u32::MAX - 1, num[&(r / 2)] * 2 + (r & 1)]);
            }
            let hit = self.cache.get(&key).cloned();
            let ok = match hit {
                Some(x) => x,
                None => {
                    if Instant::now() > self.end {
                        self.unknown += 1;
                        return false;
                    }
                    let r = match self.ask(&gates, &leaves, &format!("(xor {} {})", sm(a), sm(b)), 2000) {
                        Sat::Unsat => true,
                        Sat::Sat => {
                            self.solver.as_mut().unwrap().cmd("(pop)");
                            false
                        }
                        Sat::Unknown => {
                            self.unknown += 1;
                            false
                        }
                    };
                    self.cache.insert(key, r);
                    r
                }
            };
            if ok {
                return true;
            }
            if exact {
                return false;
            }
        }
        false
    }
    fn ask(&mut self, gates: &[u32], leaves: &[u32], q: &str, ms: u64) -> Sat {
        if self.solver.as_ref().map(|s| s.dead).unwrap_or(true) {
            self.solver = Some(Solver::new(ms));
        }
        let mut t = String::from("(push)");
        for l in leaves {
            t += &format!("(declare-fun n{l} () Bool)");
        }
        for g in gates {
            let (op, a, b) = match self.n[*g as usize] {
                N::And(a, b) => ("and", a, b),
                N::Xor(a, b) => ("xor", a, b),
                _ => continue,
            };
            t += &format!("(define-fun n{g} () Bool ({op} {} {}))\n", sm(a), sm(b));
        }
        t += &format!("(assert {q})");
        let s = self.solver.as_mut().unwrap();
        s.timeout_ms = ms;
        s.cmd(&format!("(set-option :timeout {ms})"));
        s.cmd(&t);
        let (q0, m0) = (s.queries, s.ms);
        let r = s.check();
        self.queries += s.queries - q0;
        self.ms += s.ms - m0;
        if r != Sat::Sat && !s.dead {
            s.cmd("(pop)");
        }
        r
    }
    /// does `l` hold for all inputs
    pub fn holds(&mut self, l: Lit, ms: u64) -> Verdict {
        self.holds_if(&[], l, ms)
    }
    pub fn holds_if(&mut self, pre: &[Lit], l: Lit, ms: u64) -> Verdict {
        if l == TRUE || pre.contains(&FALSE) || pre.contains(&l) {
            return Verdict::Holds;
        }
        let roots: Vec<u32> = pre.iter().chain([&l]).map(|x| x / 2).collect();
        let (gates, leaves, _) = self.cone(&roots, usize::MAX);
        let all: Vec<String> = pre.iter().map(|x| sm(*x)).chain([sm(l ^ 1)]).collect();
        let q = format!("(and {} true)", all.join(" "));
        let mut r = Sat::Unknown;
        // a pattern on which it fails makes the question easy
        let mut bad = self.sl(l ^ 1);
        for p in pre {
            let s = self.sl(*p);
            (0..W).for_each(|i| bad[i] &= s[i]);
        }
        if let Some(i) = (0..W * 64).find(|i| bad[i / 64] >> (i % 64) & 1 == 1) {
            let fix: Vec<String> = self.ins.iter().map(|x| sm(x * 2 + 1 - (self.sim[*x as usize][i / 64] >> (i % 64) & 1) as u32)).collect();
            let all_ins = self.ins.clone();
            r = self.ask(&gates, &all_ins, &format!("(and {q} {})", fix.join(" ")), 60_000);
        }
        // what holds whatever the nodes some way down are, holds
        for limit in [100, 1000, 4000] {
            if r == Sat::Unknown && limit < gates.len() {
                let (gates, leaves, _) = self.cone(&roots, limit);
                match self.ask(&gates, &leaves, &q, ms / 4) {
                    Sat::Unsat => return Verdict::Holds,
                    Sat::Sat => self.solver.as_mut().unwrap().cmd("(pop)"),
                    Sat::Unknown => {}
                }
            }
        }
        if r != Sat::Sat && self.fix > 0 {
            let vals: Vec<String> = self.ins[..self.fix].iter().map(|x| sm(x * 2 + 1 - (self.sim[*x as usize][0] & 1) as u32)).collect();
            let all_ins = self.ins.clone();
            r = self.ask(&gates, &all_ins, &format!("(and {q} {})", vals.join(" ")), ms);
        }
        if r != Sat::Sat {
            r = self.ask(&gates, &leaves, &q, ms);
        }
        match r {
            Sat::Unsat => Verdict::Holds,
            Sat::Unknown => {
                self.unknown += 1;
                Verdict::Unknown
            }
            Sat::Sat => {
                let names: Vec<String> = leaves.iter().filter(|x| **x != 0).map(|x| format!("n{x}")).collect();
                let s = self.solver.as_mut().unwrap();
                let v: HashMap<String, String> = s.values(&names).into_iter().collect();
                s.cmd("(pop)");
                let mut m = BTreeMap::new();
                for (i, id) in self.ins.iter().enumerate() {
                    m.insert(self.names[i].clone(), v.get(&format!("n{id}")).map(|x| x == "true").unwrap_or(false));
                }
                Verdict::Fails(m)
            }
        }
    }
    pub fn all(&mut self, ls: &[Lit]) -> Lit {
        ls.iter().fold(TRUE, |a, l| self.and(a, *l))
    }
    pub fn any(&mut self, ls: &[Lit]) -> Lit {
        ls.iter().fold(FALSE, |a, l| self.or(a, *l))
    }
    /// value of a node under an assignment of the inputs
    pub fn eval(&self, m: &BTreeMap<String, bool>) -> Vec<bool> {
        let mut v = vec![false; self.n.len()];
        for i in 1..self.n.len() {
            let g = |l: Lit, v: &[bool]| v[(l / 2) as usize] ^ (l & 1 == 1);
            v[i] = match self.n[i] {
                N::K => false,
                N::In(k) => m[&self.names[k as usize]],
                N::And(a, b) => g(a, &v) & g(b, &v),
                N::Xor(a, b) => g(a, &v) ^ g(b, &v),
            };
        }
        v
    }
    /// sum and carry
    fn full(&mut self, a: Lit, b: Lit, c: Lit) -> (Lit, Lit) {
        let t = self.xor(a, b);
        let s = self.xor(t, c);
        let p = self.and(a, b);
        let q = self.and(t, c);
        let r = self.xor(p, q);
        (s, r)
    }
    /// the bits of an integer modulo 2^m
    pub fn bits(&mut self, l: &Lin, m: usize) -> Vec<Lit> {
        let mut col: Vec<Vec<Lit>> = vec![vec![]; m + 1];
        let mut k = l.c;
        for (x, c) in &l.t {
            let (x, c) = if *c < 0 {
                k += *c;
                (x * 2 + 1, -*c)
            } else {
                (x * 2, *c)
            };
            for i in 0..m {
                if c >> i & 1 == 1 {
                    col[i].push(x);
                }
            }
        }
        for i in 0..m {
            if k >> i & 1 == 1 {
                col[i].push(TRUE);
            }
        }
        let mut out = vec![];
        for i in 0..m {
            let mut v = std::mem::take(&mut col[i]);
            v.sort();
            let mut q: std::collections::VecDeque<Lit> = v.into();
            while q.len() > 1 {
                let (a, b) = (q.pop_front().unwrap(), q.pop_front().unwrap());
                let c = q.pop_front().unwrap_or(FALSE);
                let (s, r) = self.full(a, b, c);
                if s != FALSE || q.is_empty() {
                    q.push_back(s);
                }
                if r != FALSE {
                    col[i + 1].push(r);
                }
            }
            out.push(q.pop_front().unwrap_or(FALSE));
        }
        out
    }
}
fn sm(l: Lit) -> String {
    match l {
        0 => "false".into(),
        1 => "true".into(),
        _ if l & 1 == 1 => format!("(not n{})", l / 2),
        _ => format!("n{}", l / 2),
    }
}

/// constant + sum of weighted bits
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Lin {
    pub c: i128,
    pub t: BTreeMap<u32, i128>,
}
impl Lin {
    pub fn k(c: i128) -> Self {
        Lin { c, t: BTreeMap::new() }
    }
    pub fn lit(l: Lit) -> Self {
        Lin::k(0).plus(l, 1)
    }
    pub fn plus(mut self, l: Lit, w: i128) -> Self {
        let w = if l & 1 == 1 {
            self.c += w;
            -w
        } else {
            w
        };
        if l / 2 != 0 {
            let e = self.t.entry(l / 2).or_insert(0);
            *e += w;
            if *e == 0 {
                self.t.remove(&(l / 2));
            }
        }
        self
    }
    /// bits, lowest first
    pub fn word(b: &[Lit]) -> Self {
        b.iter().enumerate().fold(Lin::k(0), |s, (i, l)| s.plus(*l, 1 << i))
    }
    pub fn add(mut self, o: &Lin, w: i128) -> Self {
        self.c += o.c * w;
        for (x, k) in &o.t {
            self = self.plus(x * 2, k * w);
        }
        self
    }
    pub fn range(&self) -> (i128, i128) {
        let mut r = (self.c, self.c);
        for w in self.t.values() {
            if *w < 0 {
                r.0 += w
            } else {
                r.1 += w
            }
        }
        r
    }
    pub fn as_lit(&self) -> Option<Lit> {
        match (self.c, self.t.len()) {
            (0, 0) => Some(FALSE),
            (1, 0) => Some(TRUE),
            (0, 1) => self.t.iter().next().filter(|x| *x.1 == 1).map(|x| x.0 * 2),
            (1, 1) => self.t.iter().next().filter(|x| *x.1 == -1).map(|x| x.0 * 2 + 1),
            _ => None,
        }
    }
}
pub struct NotEncodable(pub String);
fn no(s: &str) -> ! {
    std::panic::panic_any(NotEncodable(s.to_string()))
}

/// the API on symbolic bits
pub struct XB<C: Config> {
    pub g: Xag,
    pub v: Vec<Lin>,
    /// all must hold
    pub must: Vec<Lit>,
    /// results of bit decompositions, by a bit they contain
    rec: HashMap<u32, Vec<(Lin, Lin)>>,
    p: Option<i128>,
    ids: HashMap<[u8; 32], usize>,
    outs: HashMap<usize, Vec<usize>>,
    /// number of terms of user hints so far
    pub hints: usize,
    _c: std::marker::PhantomData<C>,
}
impl<C: Config> XB<C> {
    pub fn new(seconds: u64) -> Self {
        let s = <CircuitField<C> as arith::Field>::MODULUS;
        let p = if s == ethnum::U256::from(2u32) { None } else { Some(s.as_i128()) };
        XB { g: Xag::new(seconds), v: vec![Lin::default()], must: vec![], rec: HashMap::new(), p, ids: HashMap::new(), outs: HashMap::new(), hints: 0, _c: Default::default() }
    }
    pub fn put(&mut self, l: Lin) -> Variable {
        let l = match self.p {
            None => l,
            Some(p) => {
                let n = |x: i128| {
                    let x = x.rem_euclid(p);
                    if x > p / 2 {
                        x - p
                    } else {
                        x
                    }
                };
                Lin { c: n(l.c), t: l.t.into_iter().map(|(x, w)| (x, n(w))).filter(|x| x.1 != 0).collect() }
            }
        };
        self.v.push(l);
        Variable::from(self.v.len() - 1)
    }
    pub fn bit(&mut self, l: Lit) -> Variable {
        self.put(Lin::lit(l))
    }
    pub fn lin(&self, v: Variable) -> Lin {
        self.v[get_variable_id(v)].clone()
    }
    pub fn of(&self, x: impl ToVariableOrValue<CircuitField<C>>) -> Lin {
        match x.convert_to_variable_or_value() {
            VariableOrValue::Variable(v) => {
                let i = get_variable_id(v);
                if i == 0 || i >= self.v.len() {
                    panic!("a variable that does not exist is used");
                }
                self.v[i].clone()
            }
            VariableOrValue::Value(v) => {
                let x = v.to_u256().as_i128();
                Lin::k(match self.p {
                    Some(p) if x > p / 2 => x - p,
                    _ => x,
                })
            }
        }
    }
    fn is_bit(&mut self, l: &Lin) -> Lit {
        match l.as_lit() {
            Some(l) => l,
            None => {
                let l = self.tidy(l.clone());
                l.as_lit().unwrap_or_else(|| no("an operation on bits is given something else"))
            }
        }
    }
    /// the same field element as an integer that is never negative, if possible
    fn tidy(&mut self, l: Lin) -> Lin {
        let mut l = l;
        for _ in 0..16 {
            let mut best: Option<Lin> = None;
            for (x, w) in &l.t {
                for (from, word) in self.rec.get(x).map(|v| &v[..]).unwrap_or(&[]) {
                    // from - word = 0
                    let c = word.t[x];
                    if w % c != 0 || from.t.len() + 1 > l.t.len() + word.t.len() {
                        continue;
                    }
                    // only what leaves fewer terms; most of `from` has to cancel
                    let k = w / c;
                    if from.t.iter().filter(|(y, f)| l.t.get(y).map(|z| *z == -k * **f).unwrap_or(false)).count() * 2 < from.t.len() {
                        continue;
                    }
                    let n = l.clone().add(from, k).add(word, -k);
                    if n.t.len() < best.as_ref().unwrap_or(&l).t.len() {
                        best = Some(n);
                    }
                }
            }
            match best {
                Some(b) => l = b,
                None => return l,
            }
        }
        l
    }
    /// all the bits of the canonical integer
    pub fn int_bits(&mut self, l: &Lin) -> Vec<Lit> {
        let Some(p) = self.p else {
            return vec![l.as_lit().unwrap()];
        };
        let l = self.tidy(l.clone());
        let (lo, hi) = l.range();
        if lo >= 0 && hi < p {
            let n = (128 - hi.leading_zeros()) as usize;
            return self.g.bits(&l, n);
        }
        if lo >= -p && hi < p {
            // negative: add p
            let n = (128 - p.leading_zeros()) as usize + 1;
            let b = self.g.bits(&l, n);
            let sign = b[n - 1];
            return self.g.bits(&Lin::word(&b[..n - 1]).add(&Lin::lit(sign), p - 0), n - 1);
        }
        no("a sum may exceed the field")
    }
    fn zero(&mut self, l: &Lin) -> Lit {
        if self.p.is_none() {
            return l.as_lit().unwrap() ^ 1;
        }
        let l = self.tidy(l.clone());
        let (lo, hi) = l.range();
        let p = self.p.unwrap();
        if lo > 0 && hi < p || hi < 0 && lo > -p {
            return FALSE;
        }
        if lo <= -p || hi >= p {
            no("a sum compared with zero may exceed the field")
        }
        let n = (128 - hi.max(-lo).leading_zeros()) as usize + 1;
        let b = self.g.bits(&l, n);
        self.g.any(&b) ^ 1
    }
    fn need(&mut self, l: Lit) {
        if l != TRUE {
            self.must.push(l);
        }
    }
}
impl<C: Config> BasicAPI<C> for XB<C> {
    fn add(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, y) = (self.of(x), self.of(y));
        if self.p.is_none() {
            let l = self.g.xor(x.as_lit().unwrap(), y.as_lit().unwrap());
            return self.bit(l);
        }
        self.put(x.add(&y, 1))
    }
    fn sub(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        if self.p.is_none() {
            return self.add(x, y);
        }
        let (x, y) = (self.of(x), self.of(y));
        self.put(x.add(&y, -1))
    }
    fn mul(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, y) = (self.of(x), self.of(y));
        for (a, b) in [(&x, &y), (&y, &x)] {
            if a.t.is_empty() {
                return self.put(Lin::k(0).add(b, a.c));
            }
        }
        match (x.as_lit(), y.as_lit()) {
            (Some(a), Some(b)) => {
                let l = self.g.and(a, b);
                self.bit(l)
            }
            (Some(a), None) | (None, Some(a)) => {
                let o = if x.as_lit().is_some() { y } else { x };
                let mut r = Lin::k(0).plus(a, o.c);
                for (n, w) in &o.t {
                    let l = self.g.and(a, n * 2);
                    r = r.plus(l, *w);
                }
                self.put(r)
            }
            _ => no("product of two sums"),
        }
    }
    fn xor(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, y) = (self.of(x), self.of(y));
        let (a, b) = (self.is_bit(&x), self.is_bit(&y));
        let l = self.g.xor(a, b);
        self.bit(l)
    }
    fn or(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, y) = (self.of(x), self.of(y));
        let (a, b) = (self.is_bit(&x), self.is_bit(&y));
        let l = self.g.or(a, b);
        self.bit(l)
    }
    fn and(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, y: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let (x, y) = (self.of(x), self.of(y));
        let (a, b) = (self.is_bit(&x), self.is_bit(&y));
        let l = self.g.and(a, b);
        self.bit(l)
    }
    fn div(&mut self, _: impl ToVariableOrValue<CircuitField<C>>, _: impl ToVariableOrValue<CircuitField<C>>, _: bool) -> Variable {
        no("division")
    }
    fn neg(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        self.sub(0, x)
    }
    fn is_zero(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let x = self.of(x);
        let l = self.zero(&x);
        self.bit(l)
    }
    fn to_binary(&mut self, x: impl ToVariableOrValue<CircuitField<C>>, n: usize) -> Vec<Variable> {
        let x = self.of(x);
        let mut b = self.int_bits(&x);
        while b.len() > n {
            let l = b.pop().unwrap();
            self.need(l ^ 1);
        }
        b.resize(n, FALSE);
        let word = Lin::word(&b);
        for l in &b {
            if word.t.contains_key(&(l / 2)) && word != x {
                self.rec.entry(l / 2).or_default().push((x.clone(), word.clone()));
            }
        }
        b.iter().map(|l| self.bit(*l)).collect()
    }
    fn gt(&mut self, _: impl ToVariableOrValue<CircuitField<C>>, _: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        no("comparison")
    }
    fn geq(&mut self, _: impl ToVariableOrValue<CircuitField<C>>, _: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        no("comparison")
    }
    fn assert_is_zero(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) {
        let x = self.of(x);
        let l = self.zero(&x);
        self.need(l);
    }
    fn assert_is_non_zero(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) {
        let x = self.of(x);
        let l = self.zero(&x);
        self.need(l ^ 1);
    }
    fn assert_is_bool(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) {
        let x = self.of(x);
        if x.as_lit().is_none() {
            let a = self.zero(&x);
            let b = self.zero(&x.add(&Lin::k(1), -1));
            let l = self.g.or(a, b);
            self.need(l);
        }
    }
    fn get_random_value(&mut self) -> Variable {
        no("random value")
    }
    fn new_hint(&mut self, _: &str, _: &[Variable], _: usize) -> Vec<Variable> {
        no("hint")
    }
    fn constant(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        let x = self.of(x);
        self.put(x)
    }
    fn constant_value(&mut self, x: impl ToVariableOrValue<CircuitField<C>>) -> Option<CircuitField<C>> {
        let x = self.of(x);
        x.t.is_empty().then(|| {
            let p = self.p.unwrap_or(2);
            CircuitField::<C>::from_u256(ethnum::U256::from(x.c.rem_euclid(p) as u128))
        })
    }
}
macro_rules! unc {
    ($($f:ident)*) => {
        $(fn $f(&mut self, _: impl ToVariableOrValue<CircuitField<C>>, _: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
            no(stringify!($f))
        })*
    };
}
impl<C: Config> UnconstrainedAPI<C> for XB<C> {
    fn unconstrained_identity(&mut self, _: impl ToVariableOrValue<CircuitField<C>>) -> Variable {
        no("unconstrained_identity")
    }
    unc!(unconstrained_add unconstrained_mul unconstrained_div unconstrained_pow unconstrained_int_div unconstrained_mod unconstrained_shift_l unconstrained_shift_r
        unconstrained_lesser_eq unconstrained_greater_eq unconstrained_lesser unconstrained_greater unconstrained_eq unconstrained_not_eq unconstrained_bool_or
        unconstrained_bool_and unconstrained_bit_or unconstrained_bit_and unconstrained_bit_xor);
}
impl<C: Config> RootAPI<C> for XB<C> {
    fn memorized_simple_call<F: Fn(&mut Self, &Vec<Variable>) -> Vec<Variable> + 'static>(&mut self, f: F, inputs: &[Variable]) -> Vec<Variable> {
        f(self, &inputs.to_vec())
    }
    fn hash_to_sub_circuit_id(&mut self, hash: &[u8; 32]) -> usize {
        let n = self.ids.len() + 1;
        *self.ids.entry(*hash).or_insert(n)
    }
    fn call_sub_circuit<F: FnOnce(&mut Self, &Vec<Variable>) -> Vec<Variable>>(&mut self, _: usize, inputs: &[Variable], f: F) -> Vec<Variable> {
        f(self, &inputs.to_vec())
    }
    fn register_sub_circuit_output_structure(&mut self, id: usize, s: Vec<usize>) {
        self.outs.insert(id, s);
    }
    fn get_sub_circuit_output_structure(&self, id: usize) -> Vec<usize> {
        self.outs[&id].clone()
    }
    fn set_outputs(&mut self, _: Vec<Variable>) {}
}
