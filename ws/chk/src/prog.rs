//! Small source programs, and what they mean: an evaluator written from the documented meaning of
//! each operation, independent of the compiler.
use arith::Field;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir::expr::{LinComb, LinCombTerm};
use expander_compiler::circuit::ir::source as src;
use expander_compiler::circuit::layered::Coef;
use expander_compiler::field::FieldArith;
use expander_compiler::hints::registry::HintCaller;
use expander_compiler::utils::error::Error;
use gkr_engine::{FieldEngine, GKREngine};
use std::cell::RefCell;
use std::fmt::Write;
use symf::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Lin(Vec<(usize, u32)>, u32),
    Mul(Vec<usize>),
    Div(usize, usize, bool),
    Bool(usize, usize, u8),
    IsZero(usize),
    Const(u32),
    Pub(usize),
    Call(usize, Vec<usize>),
    Hint(usize, Vec<usize>, usize),
    UBin(usize, usize, u8),
    USel(usize, usize, usize),
    ToBin(usize, usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Zero,
    NonZero,
    Bool,
}
#[derive(Clone, Debug, Default)]
pub struct Circ {
    pub id: usize,
    pub n_in: usize,
    pub ops: Vec<Op>,
    pub cons: Vec<(Kind, usize)>,
    pub outs: Vec<usize>,
}
/// circs[0] is the root (id 0); a circuit calls only later ones
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub pubs: usize,
    pub zeros: usize,
    pub circs: Vec<Circ>,
}
impl Prog {
    pub fn n_out(&self, op: &Op) -> usize {
        match op {
            Op::Call(c, _) => self.circs[*c].outs.len(),
            Op::Hint(_, _, n) => *n,
            Op::ToBin(_, n) => *n,
            _ => 1,
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        let _ = write!(s, "pubs={} zeros={}", self.pubs, self.zeros);
        for c in &self.circs {
            let _ = write!(s, " | circuit {} in={} ", c.id, c.n_in);
            let mut v = c.n_in;
            for o in &c.ops {
                let n = self.n_out(o);
                let _ = write!(s, "v{}..={}={:?}; ", v + 1, v + n, o);
                v += n;
            }
            let _ = write!(s, "assert {:?} out {:?}", c.cons, c.outs);
        }
        s
    }
}

pub type CF<C> = <<C as GKREngine>::FieldConfig as FieldEngine>::CircuitField;
pub fn to_ir<C: Config>(p: &Prog) -> src::RootCircuit<C> {
    use src::*;
    let f = |x: u32| <CF<C> as From<u32>>::from(x);
    let mut r = RootCircuit::<C> { num_public_inputs: p.pubs, expected_num_output_zeroes: p.zeros, ..Default::default() };
    for c in &p.circs {
        let ins = c
            .ops
            .iter()
            .map(|o| match o {
                Op::Lin(t, k) => Instruction::LinComb(LinComb {
                    terms: t.iter().map(|(v, c)| LinCombTerm { var: *v, coef: f(*c) }).collect(),
                    constant: f(*k),
                }),
                Op::Mul(v) => Instruction::Mul(v.clone()),
                Op::Div(x, y, checked) => Instruction::Div { x: *x, y: *y, checked: *checked },
                Op::Bool(x, y, k) => Instruction::BoolBinOp {
                    x: *x,
                    y: *y,
                    op: match k {
                        0 => BoolBinOpType::Xor,
                        1 => BoolBinOpType::Or,
                        _ => BoolBinOpType::And,
                    },
                },
                Op::IsZero(x) => Instruction::IsZero(*x),
                Op::Const(c) => Instruction::ConstantLike(Coef::Constant(f(*c))),
                Op::Pub(i) => Instruction::ConstantLike(Coef::PublicInput(*i)),
                Op::Call(i, v) => Instruction::SubCircuitCall {
                    sub_circuit_id: p.circs[*i].id,
                    inputs: v.clone(),
                    num_outputs: p.circs[*i].outs.len(),
                },
                Op::Hint(h, v, n) => Instruction::Hint { hint_id: *h, inputs: v.clone(), num_outputs: *n },
                Op::UBin(x, y, k) => Instruction::UnconstrainedBinOp { x: *x, y: *y, op: ubin::<C>(*k) },
                Op::USel(c, a, b) => Instruction::UnconstrainedSelect { cond: *c, if_true: *a, if_false: *b },
                Op::ToBin(x, n) => Instruction::ToBinary { x: *x, num_bits: *n },
            })
            .collect();
        r.circuits.insert(
            c.id,
            Circuit {
                instructions: ins,
                constraints: c
                    .cons
                    .iter()
                    .map(|(k, v)| Constraint {
                        typ: match k {
                            Kind::Zero => ConstraintType::Zero,
                            Kind::NonZero => ConstraintType::NonZero,
                            Kind::Bool => ConstraintType::Bool,
                        },
                        var: *v,
                    })
                    .collect(),
                outputs: c.outs.clone(),
                num_inputs: c.n_in,
            },
        );
    }
    r
}
pub fn ubin<C: Config>(k: u8) -> src::UnconstrainedBinOpType {
    use src::UnconstrainedBinOpType::*;
    match k {
        0 => Div,
        1 => Pow,
        2 => IntDiv,
        3 => Mod,
        4 => ShiftL,
        5 => ShiftR,
        6 => LesserEq,
        7 => GreaterEq,
        8 => Lesser,
        9 => Greater,
        10 => Eq,
        11 => NotEq,
        12 => BoolOr,
        13 => BoolAnd,
        14 => BitOr,
        15 => BitAnd,
        _ => BitXor,
    }
}

// ---------------------------------------------------------------------------- meaning
#[derive(Debug, Clone)]
pub enum Sem<F: Field> {
    Accept(Vec<Sym<F>>),
    Reject,
    /// the documentation leaves this input open (unconstrained division by zero, 0/0 unchecked)
    Open,
}
/// User hints: arbitrary functions. The same arguments give the same, otherwise free, outputs.
pub struct Hints<F: Field>(std::marker::PhantomData<F>);
thread_local! { static MEMO: RefCell<Option<Box<dyn std::any::Any>>> = RefCell::new(None); }
type MemoT<F> = Vec<(usize, Vec<Sym<F>>, Vec<Sym<F>>)>;
impl<F: Field> Hints<F> {
    pub fn reset() -> Self {
        MEMO.with(|m| *m.borrow_mut() = Some(Box::new(MemoT::<F>::new())));
        Hints(std::marker::PhantomData)
    }
}
impl<F: Field> HintCaller<Sym<F>> for Hints<F> {
    fn call(&self, id: usize, args: &[Sym<F>], n: usize) -> Result<Vec<Sym<F>>, Error> {
        Ok(hint::<F>(id, args, n))
    }
}
pub fn hint<F: Field>(id: usize, args: &[Sym<F>], n: usize) -> Vec<Sym<F>> {
    let table: MemoT<F> = MEMO.with(|m| m.borrow().as_ref().unwrap().downcast_ref::<MemoT<F>>().unwrap().clone());
    for (i, a, o) in &table {
        if *i == id && a.len() == args.len() && o.len() == n && a.iter().zip(args).all(|(x, y)| x == y) {
            return o.clone();
        }
    }
    let o: Vec<Sym<F>> = (0..n).map(|j| Sym::var(&format!("hint{}_{j}", table.len()))).collect();
    MEMO.with(|m| {
        m.borrow_mut().as_mut().unwrap().downcast_mut::<MemoT<F>>().unwrap().push((id, args.to_vec(), o.clone()))
    });
    o
}
fn ival<F: Field>(x: Sym<F>) -> u64 {
    x.concretize().to_u256().as_u64()
}
pub fn bits_of(p: u64) -> usize {
    (64 - (p - 1).leading_zeros()) as usize
}
/// `adversarial`: also open where the prover may choose (0/0)
pub fn meaning<F: Field>(p: &Prog, inputs: &[Sym<F>], pubs: &[Sym<F>], adversarial: bool) -> Sem<F> {
    match sub(p, 0, inputs, pubs, adversarial) {
        Sem::Accept(o) => {
            for x in &o[..p.zeros] {
                if !x.is_zero() {
                    return Sem::Reject;
                }
            }
            Sem::Accept(o[p.zeros..].to_vec())
        }
        x => x,
    }
}
fn sub<F: Field>(p: &Prog, c: usize, inputs: &[Sym<F>], pubs: &[Sym<F>], adv: bool) -> Sem<F> {
    let c = &p.circs[c];
    let one = Sym::C(F::ONE);
    let zero = Sym::C(F::ZERO);
    let k = |x: u32| Sym::C(F::from(x));
    let b = |x: bool| if x { one } else { zero };
    let mut v: Vec<Sym<F>> = vec![zero];
    v.extend_from_slice(inputs);
    let mut rejected = false;
    for o in &c.ops {
        match o {
            Op::Lin(t, c) => {
                let mut s = k(*c);
                for (x, co) in t {
                    s += v[*x] * k(*co);
                }
                v.push(s);
            }
            Op::Mul(xs) => {
                let mut s = one;
                for x in xs {
                    s *= v[*x];
                }
                v.push(s);
            }
            Op::Div(x, y, checked) => {
                let (x, y) = (v[*x], v[*y]);
                if y.is_zero() {
                    if *checked || !x.is_zero() {
                        return Sem::Reject;
                    }
                    if adv {
                        return Sem::Open;
                    }
                    ZERO_BY_ZERO.with(|z| z.set(true));
                    v.push(zero);
                } else {
                    v.push(x * y.inv().unwrap());
                }
            }
            Op::Bool(x, y, op) => {
                let (x, y) = (v[*x], v[*y]);
                for z in [x, y] {
                    if !z.is_zero() && z != one {
                        return Sem::Reject;
                    }
                }
                // both are 0 or 1 from here on
                let (x, y) = (b(!x.is_zero()), b(!y.is_zero()));
                v.push(match op {
                    0 => b(x != y),
                    1 => b(x == one || y == one),
                    _ => b(x == one && y == one),
                });
            }
            Op::IsZero(x) => {
                let t = b(v[*x].is_zero());
                v.push(t)
            }
            Op::Const(c) => v.push(k(*c)),
            Op::Pub(i) => v.push(pubs[*i]),
            Op::Call(i, xs) => {
                let a: Vec<_> = xs.iter().map(|x| v[*x]).collect();
                match sub(p, *i, &a, pubs, adv) {
                    Sem::Accept(o) => v.extend(o),
                    // a failed constraint inside does not stop evaluation, but a reject is a reject
                    x => return x,
                }
            }
            Op::Hint(h, xs, n) => {
                let a: Vec<_> = xs.iter().map(|x| v[*x]).collect();
                v.extend(hint(*h, &a, *n));
            }
            Op::UBin(x, y, op) => {
                let (x, y) = (v[*x], v[*y]);
                let m = F::MODULUS.as_u64();
                let r = match op {
                    0 => {
                        if y.is_zero() {
                            return Sem::Open;
                        }
                        x * y.inv().unwrap()
                    }
                    1 => {
                        let e = ival(y);
                        let mut r = one;
                        for _ in 0..e {
                            r *= x;
                        }
                        r
                    }
                    10 => b(x == y),
                    11 => b(x != y),
                    12 => b(!x.is_zero() || !y.is_zero()),
                    13 => b(!x.is_zero() && !y.is_zero()),
                    _ => {
                        let (x, y) = (ival(x), ival(y));
                        let nb = 64 - m.leading_zeros();
                        let mask = (1u64 << nb) - 1;
                        let shl = |x: u64, s: u64| if s > 63 { 0 } else { (x << s) & mask };
                        let shr = |x: u64, s: u64| if s > 63 { 0 } else { x >> s };
                        let r = match op {
                            2 | 3 if y == 0 => return Sem::Open,
                            2 => x / y,
                            3 => x % y,
                            // circom: a shift by more than half the field is a shift the other way
                            4 => if y <= m / 2 { shl(x, y) } else { shr(x, m - y) },
                            5 => if y <= m / 2 { shr(x, y) } else { shl(x, m - y) },
                            6 => (x <= y) as u64,
                            7 => (x >= y) as u64,
                            8 => (x < y) as u64,
                            9 => (x > y) as u64,
                            14 => x | y,
                            15 => x & y,
                            _ => x ^ y,
                        };
                        Sym::C(F::from_u256(ethnum::U256::from(r)))
                    }
                };
                v.push(r);
            }
            Op::USel(c, x, y) => {
                let r = if v[*c].is_zero() { v[*y] } else { v[*x] };
                v.push(r);
            }
            Op::ToBin(x, n) => {
                let x = ival(v[*x]);
                if x >> n != 0 {
                    return Sem::Reject;
                }
                for i in 0..*n {
                    v.push(b((x >> i) & 1 == 1));
                }
            }
        }
    }
    for (t, x) in &c.cons {
        let x = v[*x];
        let ok = match t {
            Kind::Zero => x.is_zero(),
            Kind::NonZero => !x.is_zero(),
            Kind::Bool => x.is_zero() || x == one,
        };
        rejected |= !ok;
        if rejected {
            return Sem::Reject;
        }
    }
    Sem::Accept(c.outs.iter().map(|o| v[*o]).collect())
}

thread_local! {
    /// an unchecked division 0/0 was met
    pub static ZERO_BY_ZERO: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

// ---------------------------------------------------------------------------- generation
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pc: usize) -> bool {
        self.below(100) < pc
    }
}
#[derive(Clone, Debug)]
pub struct Prof {
    pub p: u64,
    pub circs: usize,
    pub max_in: usize,
    pub max_ops: usize,
    pub hints: bool,
    /// comparisons, bit operations …: they fork over every value
    pub ints: bool,
    pub div: bool,
    pub pubs: usize,
    pub max_cons: usize,
    pub nonzero: bool,
    pub shape: Shape,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    Small,
    /// many inputs, long sums and products of them: what long expressions are split for
    Wide,
    /// many circuits calling one another
    Nest,
    /// one circuit of many gates called over and over
    Repeat,
    /// long straight-line circuits
    Long,
}
impl Prof {
    pub fn shaped(self, shape: Shape) -> Prof {
        match shape {
            Shape::Small => Prof { shape, ..self },
            Shape::Wide => Prof { shape, circs: 2, max_in: 13, max_ops: 12, max_cons: 2, ..self },
            Shape::Nest => Prof { shape, circs: 8, max_in: 2, max_ops: 5, max_cons: 1, ..self },
            Shape::Repeat => Prof { shape, circs: 3, max_in: 6, max_ops: 14, max_cons: 2, ..self },
            Shape::Long => Prof { shape, circs: 2, max_in: 3, max_ops: 24, max_cons: 4, ..self },
        }
    }
}
pub fn gen(pr: &Prof, seed: u64) -> Prog {
    let mut r = Rng::new(seed);
    let n = r.range(1, pr.circs);
    let mut p = Prog { pubs: r.range(0, pr.pubs), zeros: 0, circs: vec![Circ::default(); n] };
    let mut ids = vec![0usize];
    for i in 1..n {
        ids.push(if r.chance(20) { r.next() as usize } else { i * 7 + r.below(5) });
    }
    for i in (0..n).rev() {
        let c = gen_circ(pr, &mut r, &p, i, n, ids[i]);
        p.circs[i] = c;
    }
    if !has_cons(&p, 0) && p.circs[0].outs.is_empty() {
        let c = &mut p.circs[0];
        c.outs.push(1);
    }
    if r.chance(15) && !p.circs[0].outs.is_empty() {
        p.zeros = r.range(0, p.circs[0].outs.len().min(2));
    }
    p
}
fn has_cons(p: &Prog, c: usize) -> bool {
    !p.circs[c].cons.is_empty()
        || p.circs[c].ops.iter().any(|o| matches!(o, Op::Call(i, _) if has_cons(p, *i)))
}
fn gen_circ(pr: &Prof, r: &mut Rng, p: &Prog, me: usize, n: usize, id: usize) -> Circ {
    let mut c = Circ { id, n_in: r.range(1, pr.max_in), ..Default::default() };
    let mut nv = c.n_in;
    let nops = r.range(1, pr.max_ops);
    let mut boolish: Vec<usize> = vec![];
    // a style per circuit, so that chains, sums of products, wide fan-outs all occur often
    let style = if pr.shape == Shape::Wide { 1 + 5 * r.below(2) } else { r.below(6) };
    let shape = pr.shape;
    if shape == Shape::Wide {
        c.n_in = r.range(6, pr.max_in);
        nv = c.n_in;
    }
    for k in 0..nops {
        let pick = |r: &mut Rng| -> usize {
            match style {
                0 if r.chance(70) => nv,
                1 if r.chance(50) => r.range(1, c.n_in),
                6 if r.chance(85) => r.range(1, c.n_in),
                _ => r.range(1, nv),
            }
        };
        let co = |r: &mut Rng| -> u32 {
            match r.below(6) {
                0 => 0,
                1 | 2 => 1,
                3 => (pr.p - 1).min(u32::MAX as u64) as u32,
                _ => (r.next() % pr.p.min(1 << 31)) as u32,
            }
        };
        let bo = |r: &mut Rng, b: &[usize]| -> usize {
            if !b.is_empty() && r.chance(60) {
                b[r.below(b.len())]
            } else {
                r.range(1, nv)
            }
        };
        let mut kind = r.below(20);
        if k == 0 && me + 1 < n && r.chance(60) {
            kind = 15;
        }
        match shape {
            Shape::Wide if r.chance(70) => kind = r.below(8),
            Shape::Nest if r.chance(50) => kind = 15,
            Shape::Repeat if me + 1 < n && r.chance(50) => kind = 15,
            Shape::Repeat if me + 1 == n && r.chance(60) => kind = r.below(8),
            _ => {}
        }
        let op = match kind {
            0..=3 => {
                let t = if shape == Shape::Wide { r.range(0, 30) } else { r.range(0, 4) };
                Op::Lin((0..t).map(|_| (pick(r), co(r))).collect(), if r.chance(60) { 0 } else { co(r) })
            }
            4..=7 => {
                let t = r.range(2, 3 + (style == 2) as usize);
                Op::Mul((0..t).map(|_| pick(r)).collect())
            }
            8 if pr.div => Op::Div(pick(r), pick(r), r.chance(50)),
            9 => Op::Bool(bo(r, &boolish), bo(r, &boolish), r.below(3) as u8),
            10 => Op::IsZero(pick(r)),
            11 => {
                if r.chance(50) || p.pubs == 0 {
                    Op::Const(co(r))
                } else {
                    Op::Pub(r.below(p.pubs))
                }
            }
            12 if pr.ints => Op::ToBin(pick(r), r.range(1, bits_of(pr.p) + 1)),
            13 if pr.hints => {
                let ni = r.range(1, 2);
                Op::Hint(5000 + r.below(3), (0..ni).map(|_| pick(r)).collect(), r.range(1, 2))
            }
            14 if pr.hints => {
                if pr.ints {
                    let k = r.below(17) as u8;
                    Op::UBin(pick(r), pick(r), k)
                } else {
                    Op::UBin(pick(r), pick(r), [0u8, 10, 11, 12, 13][r.below(5)])
                }
            }
            16 if pr.hints && r.chance(40) => Op::USel(pick(r), pick(r), pick(r)),
            15..=18 if me + 1 < n => {
                let t = if shape == Shape::Repeat { n - 1 } else { r.range(me + 1, n - 1) };
                let ni = p.circs[t].n_in;
                Op::Call(t, (0..ni).map(|_| pick(r)).collect())
            }
            _ => Op::Mul(vec![pick(r), pick(r)]),
        };
        let o = p.n_out(&op);
        if matches!(op, Op::Bool(..) | Op::IsZero(_) | Op::ToBin(..)) {
            boolish.extend(nv + 1..=nv + o);
        }
        if let Op::Call(t, _) = &op {
            // a call's outputs that are themselves inputs, duplicates and so on come out of gen_circ
            let _ = t;
        }
        nv += o;
        c.ops.push(op);
    }
    let nc = if r.chance(40) { 0 } else { r.range(0, pr.max_cons) };
    for _ in 0..nc {
        let k = match r.below(5) {
            0 if pr.nonzero => Kind::NonZero,
            1 | 2 => Kind::Bool,
            _ => Kind::Zero,
        };
        c.cons.push((k, r.range(1, nv)));
    }
    let most = match shape {
        Shape::Small | Shape::Nest => 3,
        Shape::Wide | Shape::Long => 6,
        Shape::Repeat => 16,
    };
    let no = r.range(if nc == 0 { 1 } else { 0 }, most);
    for _ in 0..no {
        // mostly recent values; inputs and repeated outputs too
        c.outs.push(if r.chance(60) { r.range((nv + 1).saturating_sub(most).max(1), nv) } else { r.range(1, nv) });
    }
    if me > 0 && c.outs.is_empty() && c.cons.is_empty() {
        c.outs.push(nv);
    }
    c
}
