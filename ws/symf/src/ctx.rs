//! The path explorer: runs a closure once per feasible path, deciding every branch on a symbolic
//! value with the solver.
use crate::arena::*;
use crate::field::Sym;
use crate::solver::{Sat, Solver};
use arith::{Field, U256};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::time::{Duration, Instant};

pub type Model = BTreeMap<String, U256>;

#[derive(Clone)]
pub struct Opts {
    pub max_paths: usize,
    pub max_time: Duration,
    pub timeout_ms: u64,
    pub cap: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { max_paths: 4000, max_time: Duration::from_secs(60), timeout_ms: 10_000, cap: CAP }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub explorations: u64,
    pub paths: u64,
    pub decisions: u64,
    pub forced: u64,
    pub queries: u64,
    pub solver_ms: f64,
    pub unresolved: u64,
    pub unsupported: u64,
    pub unsupported_why: BTreeMap<String, u64>,
    pub truncated: u64,
    pub unreplayed: u64,
    pub unreplayed_why: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.explorations += o.explorations;
        self.paths += o.paths;
        self.decisions += o.decisions;
        self.forced += o.forced;
        self.queries += o.queries;
        self.solver_ms += o.solver_ms;
        self.unresolved += o.unresolved;
        self.unsupported += o.unsupported;
        self.truncated += o.truncated;
        self.unreplayed += o.unreplayed;
        for (a, b) in [
            (&mut self.unsupported_why, &o.unsupported_why),
            (&mut self.unreplayed_why, &o.unreplayed_why),
            (&mut self.notes, &o.notes),
        ] {
            for (k, v) in b {
                *a.entry(k.clone()).or_insert(0) += v;
            }
        }
    }
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub model: Model,
    pub trials: usize,
    pub failed: usize,
}

enum Mode {
    Off,
    Symbolic,
    Concrete,
}
struct Ctx {
    mode: Mode,
    model: Model,
    prefix: Vec<(u64, bool)>,
    taken: Vec<(u64, bool)>,
    lits: Vec<(u32, bool)>,
    emitted: usize,
    known: HashMap<u32, bool>,
    defined: HashSet<String>,
    work: Vec<(Vec<(u64, bool)>, Model)>,
    nrand: usize,
    shared: Option<[u64; 4]>,
    work_done: usize,
    rng: u64,
    stats: Stats,
    solver: Option<Solver>,
    opts: Opts,
    why: Option<String>,
    zero_branch: Vec<String>,
}
thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx {
        mode: Mode::Off, model: Model::new(), prefix: vec![], taken: vec![], lits: vec![], emitted: 0,
        known: HashMap::new(), defined: HashSet::new(), work: vec![], nrand: 0, shared: None, work_done: 0, rng: 1, stats: Stats::default(),
        solver: None, opts: Opts::default(), why: None, zero_branch: vec![],
    });
}
fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}
struct Abandon;
pub fn unsupported(why: &str) -> ! {
    with(|c| c.why = Some(why.to_string()));
    std::panic::panic_any(Abandon)
}
/// Re-raises the explorer's own control-flow panics; for harnesses that catch panics of the code.
pub fn rethrow(e: Box<dyn std::any::Any + Send>) -> String {
    if e.is::<Abandon>() {
        std::panic::resume_unwind(e);
    }
    let s = panic_text(&e);
    if s.starts_with("MACHINERY") {
        std::panic::resume_unwind(e);
    }
    s
}
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}
/// polynomial arithmetic one exploration may cost
const WORK: usize = 12_000_000;
pub fn tick(n: usize) {
    let over = with(|c| {
        c.work_done += n;
        c.work_done > WORK
    });
    if over {
        unsupported("polynomials too large");
    }
}
pub fn cap() -> usize {
    with(|c| c.opts.cap)
}
pub fn note(s: &str) {
    with(|c| {
        if matches!(c.mode, Mode::Symbolic) {
            *c.stats.notes.entry(s.to_string()).or_insert(0) += 1
        }
    })
}
pub fn is_concrete() -> bool {
    with(|c| matches!(c.mode, Mode::Concrete))
}
pub fn new_var<F: Field>(name: &str, bit: bool) -> Sym<F> {
    let conc = with(|c| match c.mode {
        Mode::Off => panic!("MACHINERY: symbolic variable outside an exploration"),
        Mode::Symbolic => None,
        Mode::Concrete => Some(c.model.get(name).copied().unwrap_or(U256::ZERO)),
    });
    match conc {
        Some(v) => Sym::C(F::from_u256(v)),
        None => {
            let ar = arena::<F>();
            let a = ar.borrow_mut().atom(Atom::Var { name: name.to_string(), bit });
            Sym::from_atom(a)
        }
    }
}
fn next_rng(c: &mut Ctx) -> u64 {
    c.rng ^= c.rng << 13;
    c.rng ^= c.rng >> 7;
    c.rng ^= c.rng << 17;
    c.rng.wrapping_mul(0x2545F4914F6CDD1D)
}
pub fn rng64() -> u64 {
    with(next_rng)
}
pub fn new_rand<F: Field>() -> Sym<F> {
    let t = with(|c| {
        c.nrand += 1;
        let r = [next_rng(c), next_rng(c), next_rng(c), next_rng(c)];
        (matches!(c.mode, Mode::Symbolic), c.nrand, r)
    });
    rand_of(t)
}
/// the same random value every time within a run
pub fn shared_rand<F: Field>() -> Sym<F> {
    let t = with(|c| {
        if c.shared.is_none() {
            c.shared = Some([next_rng(c), next_rng(c), next_rng(c), next_rng(c)]);
        }
        (matches!(c.mode, Mode::Symbolic), 0, c.shared.unwrap())
    });
    rand_of(t)
}
fn rand_of<F: Field>((sym, n, r): (bool, usize, [u64; 4])) -> Sym<F> {
    if sym {
        let ar = arena::<F>();
        let a = ar.borrow_mut().atom(Atom::Rand(n));
        Sym::from_atom(a)
    } else {
        let hi = ((r[0] as u128) << 64) | r[1] as u128;
        let lo = ((r[2] as u128) << 64) | r[3] as u128;
        Sym::C(F::from_u256(U256::from_words(hi, lo) % F::MODULUS))
    }
}
pub fn inverse<F: Field>(t: u32) -> Sym<F> {
    let ar = arena::<F>();
    if ar.borrow().term_has_rand(t) {
        unsupported("inverse of a random value");
    }
    let a = ar.borrow_mut().atom(Atom::Inv(t));
    Sym::from_atom(a)
}

fn struct_hash<F: Field>(t: u32) -> u64 {
    let ar = arena::<F>();
    let ar = ar.borrow();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for (m, c) in ar.terms[t as usize].iter() {
        ar.monos[*m as usize].hash(&mut h);
        c.to_u256().hash(&mut h);
    }
    h.finish()
}

/// value of a term under a model
pub fn eval<F: Field>(t: u32, model: &Model, memo: &mut HashMap<u32, F>) -> F {
    if let Some(v) = memo.get(&t) {
        return *v;
    }
    let ar = arena::<F>();
    let p = ar.borrow().terms[t as usize].clone();
    let mut s = F::ZERO;
    for (m, c) in p.iter() {
        let mono = ar.borrow().monos[*m as usize].clone();
        let mut v = *c;
        for (a, e) in mono.iter() {
            let atom = ar.borrow().atoms[*a as usize].clone();
            let x = match atom {
                Atom::Var { name, .. } => model.get(&name).map(|x| F::from_u256(*x)).unwrap_or(F::ZERO),
                Atom::Rand(_) => panic!("MACHINERY: random atom in a path condition"),
                Atom::Inv(u) => eval::<F>(u, model, memo).inv().unwrap_or(F::ZERO),
                Atom::Mul(x, y) => eval::<F>(x, model, memo) * eval::<F>(y, model, memo),
            };
            v *= if *e == 1 { x } else { x.exp(*e as u128) };
        }
        s += v;
    }
    memo.insert(t, s);
    s
}

fn bits_for(n: u128) -> usize {
    (128 - n.leading_zeros()) as usize
}
struct Enc<'a, F: Field> {
    p: u128,
    big: bool,
    ctx: &'a mut Ctx,
    _f: std::marker::PhantomData<F>,
}
impl<F: Field> Enc<'_, F> {
    fn w(&self) -> usize {
        bits_for(self.p - 1)
    }
    fn def(&mut self, name: &str, w: usize, body: &str) {
        if self.ctx.defined.insert(name.to_string()) {
            let s = if w == 0 {
                format!("(define-fun {name} () Bool {body})")
            } else {
                format!("(define-fun {name} () (_ BitVec {w}) {body})")
            };
            self.ctx.solver.as_mut().unwrap().cmd(&s);
        }
    }
    /// SMT constant for an atom, width w(); bit atoms are Bool named b<i>
    fn atom(&mut self, a: u32) -> String {
        let n = format!("a{a}");
        if self.ctx.defined.contains(&n) {
            return n;
        }
        let at = arena::<F>().borrow().atoms[a as usize].clone();
        let w = self.w();
        match at {
            Atom::Var { bit, .. } => {
                if bit {
                    let b = format!("b{a}");
                    self.ctx.solver.as_mut().unwrap().cmd(&format!("(declare-const {b} Bool)"));
                    self.ctx.defined.insert(b.clone());
                    self.def(&n, w, &format!("(ite {b} (_ bv1 {w}) (_ bv0 {w}))"));
                } else {
                    self.ctx.defined.insert(n.clone());
                    let p = self.p;
                    let s = self.ctx.solver.as_mut().unwrap();
                    s.cmd(&format!("(declare-const {n} (_ BitVec {w}))"));
                    if !p.is_power_of_two() {
                        s.cmd(&format!("(assert (bvult {n} (_ bv{p} {w})))"));
                    }
                }
            }
            Atom::Inv(t) => {
                let x = self.term(t);
                let p = self.p;
                self.ctx.defined.insert(n.clone());
                let s = self.ctx.solver.as_mut().unwrap();
                s.cmd(&format!("(declare-const {n} (_ BitVec {w}))"));
                s.cmd(&format!("(assert (bvult {n} (_ bv{p} {w})))"));
                let pr = self.mulmod(&x, &n);
                let s = self.ctx.solver.as_mut().unwrap();
                s.cmd(&format!("(assert (=> (not (= {x} (_ bv0 {w}))) (= {pr} (_ bv1 {w}))))"));
            }
            Atom::Mul(x, y) => {
                let x = self.term(x);
                let y = self.term(y);
                let b = self.mulmod(&x, &y);
                self.def(&n, w, &b);
            }
            Atom::Rand(_) => panic!("MACHINERY: random atom in a path condition"),
        }
        n
    }
    fn mulmod(&self, x: &str, y: &str) -> String {
        let w = self.w();
        if self.p == 2 {
            return format!("(bvand {x} {y})");
        }
        format!(
            "((_ extract {} 0) (bvurem (bvmul ((_ zero_extend {w}) {x}) ((_ zero_extend {w}) {y})) (_ bv{} {})))",
            w - 1,
            self.p,
            2 * w
        )
    }
    fn mono(&mut self, m: u32) -> String {
        let n = format!("m{m}");
        if self.ctx.defined.contains(&n) {
            return n;
        }
        let mono = arena::<F>().borrow().monos[m as usize].clone();
        let mut cur: Option<String> = None;
        let mut k = 0;
        for (a, e) in mono.iter() {
            let an = self.atom(*a);
            for _ in 0..*e {
                cur = Some(match cur {
                    None => an.clone(),
                    Some(c) => {
                        let b = self.mulmod(&c, &an);
                        let nm = format!("m{m}_{k}");
                        k += 1;
                        let w = self.w();
                        self.def(&nm, w, &b);
                        nm
                    }
                });
            }
        }
        let w = self.w();
        let b = cur.unwrap_or(format!("(_ bv1 {w})"));
        self.def(&n, w, &b);
        n
    }
    fn term(&mut self, t: u32) -> String {
        let n = format!("t{t}");
        if self.ctx.defined.contains(&n) {
            return n;
        }
        let poly = arena::<F>().borrow().terms[t as usize].clone();
        let w = self.w();
        if self.p == 2 {
            let ms: Vec<String> = poly.iter().map(|(m, _)| self.mono(*m)).collect();
            let mut acc: Option<String> = None;
            for m in ms {
                acc = Some(match acc {
                    None => m,
                    Some(a) => format!("(bvxor {a} {m})"),
                });
            }
            let b = acc.unwrap_or("(_ bv0 1)".into());
            self.def(&n, w, &b);
            return n;
        }
        let big = (poly.len() as u128 + 1) * (self.p - 1) * (self.p - 1);
        let sw = bits_for(big.max(self.p)) + 1;
        let mut acc = format!("(_ bv0 {sw})");
        for (m, c) in poly.iter() {
            let c = c.to_u256().as_u128();
            let v = if *m == 0 {
                format!("(_ bv{c} {sw})")
            } else {
                let mn = self.mono(*m);
                let z = format!("((_ zero_extend {}) {mn})", sw - w);
                if c == 1 {
                    z
                } else {
                    format!("(bvmul (_ bv{c} {sw}) {z})")
                }
            };
            acc = format!("(bvadd {acc} {v})");
        }
        let b = format!("((_ extract {} 0) (bvurem {acc} (_ bv{} {sw})))", w - 1, self.p);
        self.def(&n, w, &b);
        n
    }
    /// Boolean for "term t is zero"
    fn zero(&mut self, t: u32) -> String {
        if self.big {
            if let Some(s) = self.zero_bits(t) {
                return s;
            }
        }
        let w = self.w();
        let n = self.term(t);
        format!("(= {n} (_ bv0 {w}))")
    }
    /// all atoms are bits: a pseudo-Boolean sum over the integers
    fn zero_bits(&mut self, t: u32) -> Option<String> {
        let n = format!("z{t}");
        if self.ctx.defined.contains(&n) {
            return Some(n);
        }
        let poly = arena::<F>().borrow().terms[t as usize].clone();
        let (mut lo, mut hi) = (0i128, 0i128);
        let mut items = vec![];
        for (m, c) in poly.iter() {
            let mono = arena::<F>().borrow().monos[*m as usize].clone();
            for (a, _) in mono.iter() {
                if !matches!(arena::<F>().borrow().atoms[*a as usize], Atom::Var { bit: true, .. }) {
                    return None;
                }
            }
            let mut c = c.to_u256().as_u128() as i128;
            if c > self.p as i128 / 2 {
                c -= self.p as i128;
            }
            if mono.is_empty() {
                lo += c;
                hi += c;
            } else if c < 0 {
                lo += c;
            } else {
                hi += c;
            }
            items.push((mono, c));
        }
        let w = bits_for(lo.unsigned_abs().max(hi.unsigned_abs()).max(self.p)) + 2;
        let enc = |c: i128| -> String {
            let u = if c < 0 { (1u128 << w).wrapping_sub(c.unsigned_abs()) } else { c as u128 };
            format!("(_ bv{u} {w})")
        };
        let mut acc = enc(0);
        for (mono, c) in items {
            let bs: Vec<String> = mono
                .iter()
                .map(|(a, _)| {
                    self.atom(*a);
                    format!("b{a}")
                })
                .collect();
            let v = match bs.len() {
                0 => enc(c),
                1 => format!("(ite {} {} {})", bs[0], enc(c), enc(0)),
                _ => format!("(ite (and {}) {} {})", bs.join(" "), enc(c), enc(0)),
            };
            acc = format!("(bvadd {acc} {v})");
        }
        let s = format!("zs{t}");
        self.def(&s, w, &acc);
        let p = self.p as i128;
        let (k0, k1) = (lo.div_euclid(p), hi.div_euclid(p));
        let mut alts = vec![];
        for k in k0..=k1 {
            if k * p >= lo && k * p <= hi {
                alts.push(format!("(= {s} {})", enc(k * p)));
            }
        }
        if alts.len() > 64 {
            return None;
        }
        let b = match alts.len() {
            0 => "false".into(),
            1 => alts[0].clone(),
            _ => format!("(or {})", alts.join(" ")),
        };
        self.def(&n, 0, &b);
        Some(n)
    }
}

fn parse_bv(s: &str) -> U256 {
    if let Some(b) = s.strip_prefix("#b") {
        U256::from_str_radix(b, 2).unwrap()
    } else if let Some(h) = s.strip_prefix("#x") {
        U256::from_str_radix(h, 16).unwrap()
    } else if s == "true" {
        U256::ONE
    } else {
        U256::ZERO
    }
}
fn holds<F: Field>(c: &Ctx, m: &Model, extra: (u32, bool)) -> bool {
    let mut memo = HashMap::new();
    c.lits.iter().chain([&extra]).all(|(t, z)| eval::<F>(*t, m, &mut memo).is_zero() == *z)
}
/// Large fields: look for a model of the path and one more literal by solving for a variable that
/// occurs linearly, or by a random value.
fn guess<F: Field>(c: &mut Ctx, t: u32, z: bool) -> Option<Model> {
    let ar = arena::<F>();
    let poly = ar.borrow().terms[t as usize].clone();
    let mut vars: Vec<(u32, String, bool, F)> = vec![];
    let mut count: HashMap<u32, usize> = HashMap::new();
    for (m, _) in poly.iter() {
        for (a, _) in ar.borrow().monos[*m as usize].iter() {
            *count.entry(*a).or_insert(0) += 1;
        }
    }
    for (m, co) in poly.iter() {
        let mono = ar.borrow().monos[*m as usize].clone();
        if mono.len() == 1 && mono[0].1 == 1 && count[&mono[0].0] == 1 {
            if let Atom::Var { name, bit } = &ar.borrow().atoms[mono[0].0 as usize] {
                vars.push((mono[0].0, name.clone(), *bit, *co));
            }
        }
    }
    for round in 0..3 {
        for (_, name, bit, co) in vars.iter().rev() {
            let mut m = c.model.clone();
            if round > 0 {
                for (_, n2, b2, _) in vars.iter() {
                    let r = next_rng(c) >> 34;
                    m.insert(n2.clone(), U256::from(if *b2 { r & 1 } else { r }));
                }
            }
            m.insert(name.clone(), U256::ZERO);
            let rest = eval::<F>(t, &m, &mut HashMap::new());
            let mut v = -rest * co.inv()?;
            if !z {
                v = match *bit {
                    true if v.is_zero() => F::ONE,
                    true => F::ZERO,
                    false => v + F::from(1 + (next_rng(c) & 1) as u32),
                };
            }
            if *bit && v != F::ZERO && v != F::ONE {
                continue;
            }
            m.insert(name.clone(), v.to_u256());
            if holds::<F>(c, &m, (t, z)) {
                return Some(m);
            }
        }
    }
    if z {
        // the other variables fixed, a root of the polynomial that is left in one variable
        let names: Vec<(u32, String)> = count
            .keys()
            .filter_map(|a| match &ar.borrow().atoms[*a as usize] {
                Atom::Var { name, bit: false } => Some((*a, name.clone())),
                _ => None,
            })
            .collect();
        let mut names = names;
        names.sort();
        for round in 0..3 {
            for (a, name) in names.iter().take(6) {
                let mut m = c.model.clone();
                if round > 0 {
                    for (_, n2) in &names {
                        m.insert(n2.clone(), U256::from(next_rng(c) >> 34));
                    }
                }
                let mut uni: Vec<F> = vec![];
                let mut ok = true;
                for (mo, co) in poly.iter() {
                    let mono = ar.borrow().monos[*mo as usize].clone();
                    let mut v = *co;
                    let mut d = 0usize;
                    for (b, e) in mono.iter() {
                        if b == a {
                            d = *e as usize;
                            continue;
                        }
                        match ar.borrow().atoms[*b as usize].clone() {
                            Atom::Var { name, .. } => {
                                let x = m.get(&name).map(|x| F::from_u256(*x)).unwrap_or(F::ZERO);
                                v *= x.exp(*e as u128);
                            }
                            _ => ok = false,
                        }
                    }
                    if d > 12 || !ok {
                        ok = false;
                        break;
                    }
                    if uni.len() <= d {
                        uni.resize(d + 1, F::ZERO);
                    }
                    uni[d] += v;
                }
                if !ok {
                    break;
                }
                for r in crate::roots::roots(&uni, || next_rng(c)) {
                    let mut m = m.clone();
                    m.insert(name.clone(), r.to_u256());
                    if holds::<F>(c, &m, (t, z)) {
                        return Some(m);
                    }
                }
            }
        }
    }
    if !z {
        // random values for every variable
        for _ in 0..8 {
            let mut m = c.model.clone();
            let atoms = ar.borrow().atoms.clone();
            for a in atoms {
                if let Atom::Var { name, bit } = a {
                    let r = next_rng(c) >> 34;
                    m.insert(name, U256::from(if bit { r & 1 } else { r }));
                }
            }
            if holds::<F>(c, &m, (t, z)) {
                return Some(m);
            }
        }
    }
    None
}
fn query<F: Field>(c: &mut Ctx, t: u32, z: bool) -> (Sat, Model) {
    let big = arena::<F>().borrow().small_p.is_none();
    if big {
        if let Some(m) = guess::<F>(c, t, z) {
            return (Sat::Sat, m);
        }
        if F::MODULUS > u64::MAX as u128 || !only_bits::<F>(c, t) {
            let r = rootless::<F>(t, z) || refute::<F>(c, t, z);
            return (if r { Sat::Unsat } else { Sat::Unknown }, Model::new());
        }
    }
    if c.solver.as_ref().map(|s| s.dead).unwrap_or(false) {
        let old = c.solver.take().unwrap();
        c.stats.queries += old.queries;
        c.stats.solver_ms += old.ms;
        c.defined.clear();
        c.emitted = 0;
    }
    if c.solver.is_none() {
        c.solver = Some(Solver::new(c.opts.timeout_ms));
        c.solver.as_mut().unwrap().cmd("(push)");
    }
    let lits = c.lits.clone();
    let from = c.emitted;
    c.emitted = lits.len();
    let goal;
    {
        let mut e = Enc::<F> { p: F::MODULUS.as_u128(), big, ctx: c, _f: std::marker::PhantomData };
        for (t, z) in &lits[from..] {
            let s = e.zero(*t);
            let s = if *z { format!("(assert {s})") } else { format!("(assert (not {s}))") };
            e.ctx.solver.as_mut().unwrap().cmd(&s);
        }
        let s = e.zero(t);
        goal = if z { format!("(assert {s})") } else { format!("(assert (not {s}))") };
    }
    let names: Vec<(String, String)> = {
        let ar = arena::<F>();
        let ar = ar.borrow();
        ar.atoms
            .iter()
            .enumerate()
            .filter_map(|(i, a)| match a {
                Atom::Var { name, bit } if c.defined.contains(&format!("a{i}")) => {
                    Some((if *bit { format!("b{i}") } else { format!("a{i}") }, name.clone()))
                }
                _ => None,
            })
            .collect()
    };
    let s = c.solver.as_mut().unwrap();
    s.cmd("(push)");
    s.cmd(&goal);
    let r = s.check();
    let mut model = Model::new();
    if r == Sat::Sat {
        let q: Vec<String> = names.iter().map(|x| x.0.clone()).collect();
        let vals: HashMap<String, String> = s.values(&q).into_iter().collect();
        for (n, name) in names {
            model.insert(name, parse_bv(&vals[&n]));
        }
    }
    if !c.solver.as_ref().unwrap().dead {
        c.solver.as_mut().unwrap().cmd("(pop)");
    }
    if r == Sat::Sat && !holds::<F>(c, &model, (t, z)) {
        panic!("MACHINERY: the solver's model does not satisfy the path condition");
    }
    (r, model)
}

fn atoms_of<F: Field>(ar: &Arena<F>, t: u32, seen: &mut HashSet<u32>, order: &mut Vec<u32>) {
    for (m, _) in ar.terms[t as usize].iter() {
        for (a, _) in ar.monos[*m as usize].iter() {
            if seen.insert(*a) {
                match &ar.atoms[*a as usize] {
                    Atom::Inv(u) => atoms_of(ar, *u, seen, order),
                    Atom::Mul(x, y) => {
                        atoms_of(ar, *x, seen, order);
                        atoms_of(ar, *y, seen, order);
                    }
                    _ => {}
                }
                order.push(*a);
            }
        }
    }
}
fn only_bits<F: Field>(c: &Ctx, t: u32) -> bool {
    let ar = arena::<F>();
    let ar = ar.borrow();
    let (mut seen, mut order) = (HashSet::new(), vec![]);
    for (l, _) in &c.lits {
        atoms_of(&ar, *l, &mut seen, &mut order);
    }
    atoms_of(&ar, t, &mut seen, &mut order);
    order.iter().all(|a| matches!(ar.atoms[*a as usize], Atom::Var { bit: true, .. }))
}
/// a polynomial in one unknown that has no root in the field
fn rootless<F: Field>(t: u32, z: bool) -> bool {
    let ar = arena::<F>();
    let ar = ar.borrow();
    let mut uni: Vec<F> = vec![];
    let mut var = None;
    for (m, co) in ar.terms[t as usize].iter() {
        let mono = &ar.monos[*m as usize];
        let d = match mono.len() {
            0 => 0,
            1 if var.is_none() || var == Some(mono[0].0) => {
                var = Some(mono[0].0);
                mono[0].1 as usize
            }
            _ => return false,
        };
        if d > 40 {
            return false;
        }
        if uni.len() <= d {
            uni.resize(d + 1, F::ZERO);
        }
        uni[d] += *co;
    }
    z && crate::roots::no_root(&uni)
}
/// Large fields: is "the path's literals and t (non)zero" contradictory? Searches a Nullstellensatz
/// certificate: the goal (or a product of values known to be non-zero) as a combination of the
/// known-zero polynomials with monomial multipliers, by linear algebra over the field.
fn refute<F: Field>(c: &mut Ctx, t: u32, z: bool) -> bool {
    type P<F> = BTreeMap<u32, F>;
    c.stats.queries += 1;
    let start = Instant::now();
    let arc = arena::<F>();
    let mut ar = arc.borrow_mut();
    let ar = &mut *ar;
    let (mut seen, mut order) = (HashSet::new(), vec![]);
    for (l, _) in c.lits.iter().chain([&(t, z)]) {
        atoms_of(ar, *l, &mut seen, &mut order);
    }
    let poly = |ar: &Arena<F>, t: u32| -> P<F> { ar.terms[t as usize].iter().copied().collect() };
    fn mulp<F: Field>(ar: &mut Arena<F>, a: &P<F>, b: &P<F>) -> P<F> {
        let mut r = P::new();
        for (m, x) in a {
            for (n, y) in b {
                let k = ar.mono_mul(*m, *n);
                *r.entry(k).or_insert(F::ZERO) += *x * *y;
            }
        }
        r.retain(|_, v| !v.is_zero());
        r
    }
    fn sub<F: Field>(a: &mut P<F>, b: &P<F>, k: F) {
        for (m, x) in b {
            *a.entry(*m).or_insert(F::ZERO) -= *x * k;
        }
        a.retain(|_, v| !v.is_zero());
    }
    let one: P<F> = [(0, F::ONE)].into_iter().collect();
    // what would take too long is left undecided
    let size = |ar: &Arena<F>, t: u32| ar.terms[t as usize].len();
    let mut work = size(ar, t) * 8;
    for a in &order {
        work += match ar.atoms[*a as usize] {
            Atom::Inv(u) => size(ar, u),
            Atom::Mul(u, v) => size(ar, u) * size(ar, v),
            _ => 0,
        };
    }
    work += c.lits.iter().map(|(l, _)| size(ar, *l)).sum::<usize>();
    if work > 100_000 {
        return false;
    }
    let mut gens: Vec<P<F>> = vec![];
    let mut mults: Vec<P<F>> = vec![one.clone()];
    for a in &order {
        let m = ar.mono(vec![(*a, 1)]);
        let x: P<F> = [(m, F::ONE)].into_iter().collect();
        match ar.atoms[*a as usize].clone() {
            // an inverse is only ever built on a path where its argument is not zero
            Atom::Inv(u) => {
                let u = poly(ar, u);
                let mut g = mulp(ar, &u, &x);
                sub(&mut g, &one, F::ONE);
                gens.push(g);
            }
            Atom::Mul(u, v) => {
                let (u, v) = (poly(ar, u), poly(ar, v));
                let mut g = mulp(ar, &u, &v);
                sub(&mut g, &x, F::ONE);
                gens.push(g);
            }
            _ => {}
        }
        if mults.len() < 24 {
            mults.push(x);
        }
    }
    let mut nonzero: Vec<P<F>> = vec![];
    for (l, lz) in &c.lits {
        let q = poly(ar, *l);
        if *lz {
            gens.push(q)
        } else {
            nonzero.push(q)
        }
    }
    let goal = poly(ar, t);
    let mut targets = vec![];
    if z {
        gens.push(goal);
        targets.push(one.clone());
        targets.extend(nonzero.iter().cloned());
        if nonzero.len() <= 6 && nonzero.iter().all(|n| n.len() < 400) {
            for i in 0..nonzero.len() {
                for j in 0..i {
                    targets.push(mulp(ar, &nonzero[i], &nonzero[j]));
                }
            }
        }
    } else {
        targets.push(goal.clone());
        for n in nonzero.iter().take(6).filter(|n| n.len() * goal.len() < 100_000) {
            targets.push(mulp(ar, n, &goal));
        }
    }
    if gens.len() > 60 {
        return false;
    }
    let mut rows: BTreeMap<u32, P<F>> = BTreeMap::new();
    let reduce = |rows: &BTreeMap<u32, P<F>>, q: &mut P<F>| {
        let mut hi = u32::MAX;
        while let Some((m, v)) = q.range(..hi).next_back().map(|(m, v)| (*m, *v)) {
            if let Some(r) = rows.get(&m) {
                let k = v;
                for (n, x) in r {
                    *q.entry(*n).or_insert(F::ZERO) -= *x * k;
                }
                q.retain(|_, v| !v.is_zero());
            }
            hi = m;
            if hi == 0 {
                break;
            }
        }
    };
    for pass in 0..2 {
        for g in &gens {
            if g.len() > 200 || start.elapsed() > Duration::from_millis(c.opts.timeout_ms) {
                break;
            }
            for (i, m) in mults.iter().enumerate() {
                if (i > 0) != (pass > 0) || rows.len() > 1500 || start.elapsed() > Duration::from_millis(c.opts.timeout_ms) {
                    continue;
                }
                let mut q = mulp(ar, g, m);
                reduce(&rows, &mut q);
                if let Some((m, v)) = q.iter().next_back().map(|(m, v)| (*m, *v)) {
                    let i = v.inv().unwrap();
                    for v in q.values_mut() {
                        *v *= i;
                    }
                    rows.insert(m, q);
                }
            }
        }
        for q in &targets {
            let mut q = q.clone();
            reduce(&rows, &mut q);
            if q.is_empty() && !ar.overdeg {
                c.stats.solver_ms += start.elapsed().as_secs_f64() * 1000.0;
                return true;
            }
        }
    }
    c.stats.solver_ms += start.elapsed().as_secs_f64() * 1000.0;
    false
}

/// Multiplies by what the term divides by (never zero on this path).
fn clear_denominators<F: Field>(t: u32) -> Option<Sym<F>> {
    let arc = arena::<F>();
    let mut ar = arc.borrow_mut();
    let ar = &mut *ar;
    let poly = ar.terms[t as usize].clone();
    let (mut inv, mut k) = (None, 0);
    for (m, _) in poly.iter() {
        for (a, e) in ar.monos[*m as usize].iter() {
            if let Atom::Inv(u) = ar.atoms[*a as usize] {
                if inv.is_none() || inv == Some((*a, u)) {
                    inv = Some((*a, u));
                    k = k.max(*e);
                }
            }
        }
    }
    let (a, u) = inv?;
    let den = ar.terms[u as usize].clone();
    if k > 4 || poly.len() * den.len().pow(k as u32) > 400 {
        return None;
    }
    let mut r: BTreeMap<u32, F> = BTreeMap::new();
    for (m, c) in poly.iter() {
        let mono = ar.monos[*m as usize].clone();
        let e = mono.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0);
        let rest = ar.mono(mono.iter().filter(|x| x.0 != a).copied().collect());
        let mut cur: BTreeMap<u32, F> = [(rest, *c)].into_iter().collect();
        for _ in e..k {
            let mut nx = BTreeMap::new();
            for (m, x) in &cur {
                for (n, y) in den.iter() {
                    let q = ar.mono_mul(*m, *n);
                    *nx.entry(q).or_insert(F::ZERO) += *x * *y;
                }
            }
            cur = nx;
        }
        for (m, x) in cur {
            *r.entry(m).or_insert(F::ZERO) += x;
        }
    }
    r.retain(|_, v| !v.is_zero());
    Some(sym_of(ar, r.into_iter().collect()))
}
fn sym_of<F: Field>(ar: &mut Arena<F>, p: Vec<(u32, F)>) -> Sym<F> {
    match p.len() {
        0 => Sym::C(F::ZERO),
        1 if p[0].0 == 0 => Sym::C(p[0].1),
        _ => Sym::T(ar.intern(p)),
    }
}
/// the atoms that divide the whole term, and what remains; none if the term is one such atom
fn common_factor<F: Field>(t: u32) -> (Vec<Sym<F>>, Sym<F>) {
    let arc = arena::<F>();
    let mut ar = arc.borrow_mut();
    let ar = &mut *ar;
    let poly = ar.terms[t as usize].clone();
    let first = ar.monos[poly[0].0 as usize].clone();
    let common: Vec<u32> = first
        .iter()
        .map(|x| x.0)
        .filter(|a| poly.iter().all(|(m, _)| ar.monos[*m as usize].iter().any(|x| x.0 == *a)))
        .collect();
    if common.is_empty() || (poly.len() == 1 && first.len() == 1 && first[0].1 == 1) {
        return (vec![], Sym::T(t));
    }
    let mut r = vec![];
    for (m, c) in poly.iter() {
        let k: Vec<(u32, u64)> = ar.monos[*m as usize]
            .iter()
            .filter_map(|(a, e)| match common.contains(a) {
                false => Some((*a, *e)),
                true => {
                    let lo = poly
                        .iter()
                        .map(|(m, _)| ar.monos[*m as usize].iter().find(|x| x.0 == *a).unwrap().1)
                        .min()
                        .unwrap();
                    (*e > lo).then_some((*a, *e - lo))
                }
            })
            .collect();
        r.push((ar.mono(k), *c));
    }
    r.sort_by_key(|x| x.0);
    let mut fs = vec![];
    for a in common {
        if !matches!(ar.atoms[a as usize], Atom::Inv(_)) {
            let m = ar.mono(vec![(a, 1)]);
            fs.push(Sym::T(ar.intern(vec![(m, F::ONE)])));
        }
    }
    (fs, sym_of(ar, r))
}
/// Is the term zero? Forks when both answers are possible on this path.
pub fn decide_zero<F: Field>(x: Sym<F>) -> bool {
    let t = match x {
        Sym::C(v) => return v.is_zero(),
        Sym::T(_) => {
            // scale to a canonical multiple
            let p = x.poly();
            let lead = p[0].1;
            if lead == F::ONE {
                x.tid()
            } else {
                let l = lead.inv().unwrap();
                Sym::from_poly(p.into_iter().map(|(m, c)| (m, c * l)).collect()).tid()
            }
        }
    };
    if with(|c| !matches!(c.mode, Mode::Symbolic)) {
        panic!("MACHINERY: symbolic value outside a symbolic run");
    }
    let ar = arena::<F>();
    if ar.borrow().term_has_rand(t) {
        // a polynomial in the random values vanishes identically iff every coefficient does
        let poly = ar.borrow().terms[t as usize].clone();
        let mut groups: BTreeMap<Vec<(u32, u64)>, Vec<(u32, F)>> = BTreeMap::new();
        for (m, c) in poly.iter() {
            let mono = ar.borrow().monos[*m as usize].clone();
            let mut a = ar.borrow_mut();
            let (r, n): (Vec<_>, Vec<_>) = mono.iter().partition(|(x, _)| a.atom_rand[*x as usize]);
            let k = a.mono(n);
            groups.entry(r).or_default().push((k, *c));
        }
        for (_, mut g) in groups {
            g.sort_by_key(|x| x.0);
            if !decide_zero(Sym::from_poly(g)) {
                return false;
            }
        }
        return true;
    }
    if let Some(b) = with(|c| c.known.get(&t).copied()) {
        return b;
    }
    if ar.borrow().small_p.is_none() {
        if let Some(y) = clear_denominators::<F>(t) {
            let b = decide_zero(y);
            with(|c| c.known.insert(t, b));
            return b;
        }
        let (fs, rest) = common_factor::<F>(t);
        if !fs.is_empty() {
            let b = fs.into_iter().any(decide_zero) || decide_zero(rest);
            with(|c| c.known.insert(t, b));
            return b;
        }
    }
    let h = struct_hash::<F>(t);
    let i = with(|c| c.taken.len());
    let pre = with(|c| c.prefix.get(i).copied());
    let b = match pre {
        Some((ph, b)) => {
            if ph != h {
                unsupported("run is not repeatable");
            }
            b
        }
        None => with(|c| {
            let mut memo = HashMap::new();
            let cur = eval::<F>(t, &c.model, &mut memo).is_zero();
            c.stats.decisions += 1;
            let (r, m) = query::<F>(c, t, !cur);
            match r {
                Sat::Sat => {
                    let mut p = c.taken.clone();
                    p.push((h, !cur));
                    c.work.push((p, m));
                }
                Sat::Unsat => c.stats.forced += 1,
                Sat::Unknown => {
                    if std::env::var("SHOW_UNKNOWN").is_ok() {
                        let ar = arena::<F>();
                        let ar = ar.borrow();
                        for (l, z) in c.lits.iter().chain([&(t, !cur)]) {
                            let s: Vec<String> = ar.terms[*l as usize]
                                .iter()
                                .map(|(m, co)| format!("{}*{:?}", co.to_u256(), ar.monos[*m as usize].iter().map(|(a, e)| format!("{:?}^{e}", ar.atoms[*a as usize])).collect::<Vec<_>>()))
                                .collect();
                            eprintln!("  {} {}", s.join(" + "), if *z { "= 0" } else { "/= 0" });
                        }
                        eprintln!("unknown");
                    }
                    c.stats.unresolved += 1
                }
            }
            cur
        }),
    };
    with(|c| {
        c.taken.push((h, b));
        c.lits.push((t, b));
        c.known.insert(t, b);
    });
    b
}
pub fn concretize<F: Field>(x: Sym<F>) -> F {
    let p = match arena::<F>().borrow().small_p {
        Some(p) => p,
        None => unsupported("concrete value of a symbolic element of a large field"),
    };
    for v in 0..p - 1 {
        let c = F::from(v as u32);
        if decide_zero(x - Sym::C(c)) {
            return c;
        }
    }
    F::from((p - 1) as u32)
}
/// Drops paths on which the condition fails (the caller decides it first).
pub struct Assumed;
pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(Assumed)
    }
}

fn run_one(f: &dyn Fn() -> Result<(), String>) -> Option<Result<(), String>> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            if e.is::<Abandon>() || e.is::<Assumed>() {
                return None;
            }
            let s = panic_text(&e);
            if s.starts_with("MACHINERY") {
                std::panic::resume_unwind(e);
            }
            Some(Err(format!("panic: {s}")))
        }
    }
}
pub const TRIALS: usize = 24;
fn concrete<F: Field>(model: &Model, f: &dyn Fn() -> Result<(), String>, trial: u64) -> Option<Result<(), String>> {
    reset_arena::<F>();
    with(|c| {
        c.mode = Mode::Concrete;
        c.model = model.clone();
        c.nrand = 0;
        c.shared = None;
        c.rng = 0x9E3779B97F4A7C15 ^ (trial + 1).wrapping_mul(0xD1342543DE82EF95);
        c.why = None;
    });
    for _ in 0..4 {
        rng64();
    }
    let r = run_one(f);
    with(|c| c.mode = Mode::Off);
    r
}
/// Explores every path of `f` over its symbolic inputs. `Err` or a panic on a feasible path is
/// replayed with the model's concrete values (and several draws of the random values); a message
/// starting with '~' needs one failing draw, any other message needs every draw to fail.
pub fn explore<F: Field>(opts: &Opts, f: &dyn Fn() -> Result<(), String>) -> (Stats, Option<Violation>) {
    let start = Instant::now();
    with(|c| {
        c.stats = Stats { explorations: 1, ..Default::default() };
        c.work_done = 0;
        if let Some(s) = c.solver.as_mut() {
            s.queries = 0;
            s.ms = 0.0;
        }
        c.opts = opts.clone();
        c.work = vec![(vec![], Model::new())];
    });
    let mut vio = None;
    let mut seen_msgs: HashMap<String, usize> = HashMap::new();
    loop {
        let Some((prefix, model)) = with(|c| c.work.pop()) else { break };
        if with(|c| c.stats.paths as usize) >= opts.max_paths || start.elapsed() > opts.max_time {
            with(|c| c.stats.truncated += 1);
            break;
        }
        reset_arena::<F>();
        with(|c| {
            c.mode = Mode::Symbolic;
            c.model = model;
            c.prefix = prefix;
            c.taken.clear();
            c.lits.clear();
            c.emitted = 0;
            c.known.clear();
            c.defined.clear();
            c.nrand = 0;
        c.shared = None;
            c.why = None;
            c.zero_branch.clear();
            if let Some(s) = c.solver.as_mut() {
                if !s.dead {
                    s.cmd("(pop)(push)");
                }
            }
        });
        let r = run_one(f);
        with(|c| {
            c.mode = Mode::Off;
            if let Some(w) = c.why.take() {
                c.stats.unsupported += 1;
                *c.stats.unsupported_why.entry(w).or_insert(0) += 1;
            } else if r.is_some() {
                c.stats.paths += 1;
            }
        });
        if let Some(Err(msg)) = r {
            let k = seen_msgs.entry(msg.clone()).or_insert(0);
            *k += 1;
            if *k > 4 {
                continue;
            }
            let model = with(|c| c.model.clone());
            let mut failed = 0;
            let mut txt = msg.clone();
            for t in 0..TRIALS {
                if let Some(Err(m)) = concrete::<F>(&model, f, t as u64) {
                    failed += 1;
                    txt = m;
                }
            }
            if failed == TRIALS || (failed > 0 && txt.starts_with('~')) {
                vio = Some(Violation { msg: txt.trim_start_matches('~').to_string(), model, trials: TRIALS, failed });
                break;
            }
            with(|c| {
                c.stats.unreplayed += 1;
                *c.stats.unreplayed_why.entry(msg).or_insert(0) += 1;
            });
        }
    }
    let st = with(|c| {
        c.work.clear();
        if let Some(s) = &c.solver {
            c.stats.queries += s.queries;
            c.stats.solver_ms += s.ms;
        }
        c.stats.clone()
    });
    (st, vio)
}
