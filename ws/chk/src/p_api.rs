//! Programs written against the frontend API: what RootBuilder makes of them, what compiles, and what DebugBuilder computes.
use crate::p_compile::{finish, guarded, inputs_named, options, same_outputs};
use crate::p_passes::{ir, one_op};
use crate::prog::{bits_of, Hints, Op, Rng};
use crate::rep::*;
use arith::Field;
use ethnum::U256;
use expander_compiler::circuit::ir::source as src;
use expander_compiler::circuit::layered::{CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::extra::*;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::*;
use expander_compiler::hints::registry::hint_key_to_id;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use symf::*;

type S<F> = Sym<F>;

/// an operand: a variable, a reference to one, or a constant as u32, U256 or field element
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum A {
    V(usize),
    R(usize),
    K(u32),
    U(u32),
    F(u32),
}
#[derive(Clone, Debug)]
pub enum O {
    /// add sub mul xor or and
    Bin(u8, A, A),
    Div(A, A, bool),
    Neg(A),
    Inv(A),
    IsZero(A),
    ToBin(A, usize),
    FromBin(Vec<usize>),
    /// zero, non-zero, bool
    Assert(u8, A),
    Eq(A, A),
    Ne(A, A),
    Const(A),
    Hint(usize, Vec<usize>, usize),
    Gt(A, A),
    Geq(A, A),
    Unc(u8, A, A),
    UncId(A),
    UncAdd(A, A),
    UncMul(A, A),
    /// call_sub_circuit, memorized_simple_call
    Call(u8, usize, Vec<usize>),
    /// a #[memorized] function, with its arguments
    Memo(u8, Vec<usize>, u32),
    /// constant_value of a variable, used to choose between two constants: None in a compiled circuit for non-constants
    Rand,
}
#[derive(Clone, Debug, Default)]
pub struct Fun {
    pub n_in: usize,
    pub ops: Vec<O>,
    pub outs: Vec<usize>,
}
#[derive(Clone, Debug, Default)]
pub struct Api {
    pub pubs: usize,
    pub funs: Vec<Fun>,
}
impl Api {
    pub fn n_out(&self, o: &O) -> usize {
        match o {
            O::Assert(..) | O::Eq(..) | O::Ne(..) => 0,
            O::ToBin(_, n) | O::Hint(_, _, n) => *n,
            O::Call(_, i, _) => self.funs[*i].outs.len(),
            O::Memo(k, a, _) => memo_outs(*k, a.len()),
            _ => 1,
        }
    }
    pub fn show(&self) -> String {
        let mut s = format!("pubs={}", self.pubs);
        for (i, f) in self.funs.iter().enumerate() {
            s += &format!(" | fn {i}({} args) ", f.n_in);
            let mut v = f.n_in + if i == 0 { self.pubs } else { 0 };
            for o in &f.ops {
                let n = self.n_out(o);
                s += &format!("v{}..={}={:?}; ", v + 1, v + n, o);
                v += n;
            }
            s += &format!("out {:?}", f.outs);
        }
        s
    }
}
thread_local! { pub static CUR: RefCell<Rc<Api>> = RefCell::new(Rc::new(Api::default())); }

// ------------------------------------------------------------------ memorized functions
#[memorized]
fn m_mul_add<C: Config, B: RootAPI<C>>(api: &mut B, a: Vec<Variable>, k: u32) -> Vec<Variable> {
    let mut r = vec![];
    for i in 0..a.len() {
        let t = api.mul(a[i], a[(i + 1) % a.len()]);
        r.push(api.add(t, k));
    }
    r
}
#[memorized]
fn m_add_mul<C: Config, B: RootAPI<C>>(api: &mut B, a: Vec<Variable>, k: u32) -> Vec<Variable> {
    let mut r = vec![];
    for i in 0..a.len() {
        let t = api.add(a[i], a[(i + 1) % a.len()]);
        r.push(api.mul(t, k));
    }
    r
}
#[memorized]
fn m_nested<C: Config, B: RootAPI<C>>(api: &mut B, a: &Vec<Vec<Variable>>, x: Variable, n: usize) -> Vec<Vec<Variable>> {
    // the shape of the result depends on the shape of the arguments
    let mut r = vec![];
    for (i, row) in a.iter().enumerate() {
        let mut q = vec![];
        for (j, y) in row.iter().enumerate() {
            let t = api.mul(x, (i * 3 + j + n) as u32);
            q.push(api.add(t, y));
        }
        r.push(q);
    }
    r
}
#[memorized]
fn m_assert<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: &Variable) {
    api.assert_is_equal(a, b);
}
#[memorized]
fn m_two<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, x: u32, y: i64, z: Vec<u64>) -> Variable {
    let t = api.mul(a, x);
    let t = api.sub(t, -y as u32);
    let z = (z.len() as u64 + z.iter().enumerate().map(|(i, z)| (i as u64 + 1) * z).sum::<u64>()) as u32;
    api.add(t, z)
}
/// the primitive arguments of m_two
fn two_args(k: u32) -> (u32, i64, Vec<u64>) {
    match k {
        0 => (1, -11, vec![]),
        1 => (11, -1, vec![]),
        2 => (1, -1, vec![1, 0]),
        3 => (1, -1, vec![10]),
        _ => (1, -1, vec![0, 1]),
    }
}
// for memorized_simple_call, which tells them apart by the function and the number of inputs
fn simple_mul<C: Config, B: RootAPI<C>>(api: &mut B, a: &Vec<Variable>) -> Vec<Variable> {
    a.iter().map(|x| api.mul(x, a[a.len() - 1])).collect()
}
fn simple_add<C: Config, B: RootAPI<C>>(api: &mut B, a: &Vec<Variable>) -> Vec<Variable> {
    a.iter().map(|x| api.add(x, a[a.len() - 1])).collect()
}
fn memo_outs(k: u8, n: usize) -> usize {
    match k {
        0 | 1 | 6 | 7 => n,
        2 | 3 => n - 1,
        5 => 1,
        _ => 0,
    }
}
/// arguments 1.. as rows: 2: one row, 3: rows of 1, 2, … (the rest)
fn rows<T: Clone>(k: u8, a: &[T]) -> Vec<Vec<T>> {
    if k == 2 {
        return vec![a.to_vec()];
    }
    let mut r = vec![];
    let (mut i, mut n) = (0, 1);
    while i < a.len() {
        let e = (i + n).min(a.len());
        r.push(a[i..e].to_vec());
        i = e;
        n += 1;
    }
    r
}
fn memo_mean<F: Field>(k: u8, a: &[S<F>], c: u32) -> Option<Vec<S<F>>> {
    let f = |x: u32| Sym::C(F::from(x));
    Some(match k {
        0 => (0..a.len()).map(|i| a[i] * a[(i + 1) % a.len()] + f(c)).collect(),
        6 => (0..a.len()).map(|i| a[i] * a[a.len() - 1]).collect(),
        7 => (0..a.len()).map(|i| a[i] + a[a.len() - 1]).collect(),
        1 => (0..a.len()).map(|i| (a[i] + a[(i + 1) % a.len()]) * f(c)).collect(),
        2 | 3 => {
            let mut r = vec![];
            for (i, row) in rows(k, &a[1..]).iter().enumerate() {
                for (j, y) in row.iter().enumerate() {
                    r.push(a[0] * f((i * 3 + j) as u32 + c) + *y);
                }
            }
            r
        }
        5 => {
            let (x, y, z) = two_args(c);
            let z = z.len() as u32 + z.iter().enumerate().map(|(i, z)| (i as u32 + 1) * *z as u32).sum::<u32>();
            vec![a[0] * f(x) - f(-y as u32) + f(z)]
        }
        _ => {
            if a[0] != a[1] {
                return None;
            }
            vec![]
        }
    })
}

// ------------------------------------------------------------------ running a program against an API
fn memo_fn<C: Config, B: RootAPI<C>, const I: usize>(api: &mut B, a: &Vec<Variable>) -> Vec<Variable> {
    run::<C, B>(api, I, a)
}
macro_rules! op1 {
    ($api:ident, $f:ident, $x:expr, $v:expr $(, $e:expr)*) => {
        match $x {
            A::V(i) => $api.$f($v[i] $(, $e)*),
            A::R(i) => $api.$f(&$v[i] $(, $e)*),
            A::K(k) => $api.$f(k $(, $e)*),
            A::U(k) => $api.$f(CircuitField::<C>::from_u256(U256::from(k)) $(, $e)*),
            A::F(k) => $api.$f(CircuitField::<C>::from(k) $(, $e)*),
        }
    };
}
macro_rules! op2 {
    ($api:ident, $f:ident, $x:expr, $y:expr, $v:expr $(, $e:expr)*) => {
        match $x {
            A::V(i) => op2!(@ $api, $f, $v[i], $y, $v $(, $e)*),
            A::R(i) => op2!(@ $api, $f, &$v[i], $y, $v $(, $e)*),
            A::K(k) => op2!(@ $api, $f, k, $y, $v $(, $e)*),
            A::U(k) | A::F(k) => op2!(@ $api, $f, CircuitField::<C>::from(k), $y, $v $(, $e)*),
        }
    };
    (@ $api:ident, $f:ident, $a:expr, $y:expr, $v:expr $(, $e:expr)*) => {
        match $y {
            A::V(j) => $api.$f($a, $v[j] $(, $e)*),
            A::R(j) => $api.$f($a, &$v[j] $(, $e)*),
            A::K(k) => $api.$f($a, k $(, $e)*),
            A::U(k) | A::F(k) => $api.$f($a, CircuitField::<C>::from(k) $(, $e)*),
        }
    };
}
pub fn run<C: Config, B: RootAPI<C>>(api: &mut B, me: usize, args: &[Variable]) -> Vec<Variable> {
    let p = CUR.with(|c| c.borrow().clone());
    let f = &p.funs[me];
    let mut v: Vec<Variable> = vec![Variable::default()];
    v.extend_from_slice(args);
    let at = |x: &[usize], v: &[Variable]| -> Vec<Variable> { x.iter().map(|i| v[*i]).collect() };
    for o in &f.ops {
        match o {
            O::Bin(k, x, y) => {
                let r = match k {
                    0 => op2!(api, add, *x, *y, v),
                    1 => op2!(api, sub, *x, *y, v),
                    2 => op2!(api, mul, *x, *y, v),
                    3 => op2!(api, xor, *x, *y, v),
                    4 => op2!(api, or, *x, *y, v),
                    _ => op2!(api, and, *x, *y, v),
                };
                v.push(r);
            }
            O::Div(x, y, c) => {
                let r = op2!(api, div, *x, *y, v, *c);
                v.push(r)
            }
            O::Neg(x) => {
                let r = op1!(api, neg, *x, v);
                v.push(r)
            }
            O::Inv(x) => {
                let r = op1!(api, inverse, *x, v);
                v.push(r)
            }
            O::IsZero(x) => {
                let r = op1!(api, is_zero, *x, v);
                v.push(r)
            }
            O::ToBin(x, n) => {
                let r = op1!(api, to_binary, *x, v, *n);
                v.extend(r)
            }
            O::FromBin(x) => {
                let r = api.from_binary(&at(x, &v));
                v.push(r)
            }
            O::Assert(k, x) => match k {
                0 => op1!(api, assert_is_zero, *x, v),
                1 => op1!(api, assert_is_non_zero, *x, v),
                _ => op1!(api, assert_is_bool, *x, v),
            },
            O::Eq(x, y) => op2!(api, assert_is_equal, *x, *y, v),
            O::Ne(x, y) => op2!(api, assert_is_different, *x, *y, v),
            O::Const(x) => {
                let r = op1!(api, constant, *x, v);
                v.push(r)
            }
            O::Hint(h, x, n) => {
                let r = api.new_hint(&format!("h{h}"), &at(x, &v), *n);
                v.extend(r)
            }
            O::Gt(x, y) => {
                let r = op2!(api, gt, *x, *y, v);
                v.push(r)
            }
            O::Geq(x, y) => {
                let r = op2!(api, geq, *x, *y, v);
                v.push(r)
            }
            O::Unc(k, x, y) => {
                macro_rules! u { ($($n:literal $f:ident),*) => { match k { $($n => op2!(api, $f, *x, *y, v),)* _ => op2!(api, unconstrained_bit_xor, *x, *y, v) } } }
                let r = u!(0 unconstrained_div, 1 unconstrained_pow, 2 unconstrained_int_div, 3 unconstrained_mod, 4 unconstrained_shift_l,
                    5 unconstrained_shift_r, 6 unconstrained_lesser_eq, 7 unconstrained_greater_eq, 8 unconstrained_lesser,
                    9 unconstrained_greater, 10 unconstrained_eq, 11 unconstrained_not_eq, 12 unconstrained_bool_or,
                    13 unconstrained_bool_and, 14 unconstrained_bit_or, 15 unconstrained_bit_and);
                v.push(r)
            }
            O::UncId(x) => {
                let r = op1!(api, unconstrained_identity, *x, v);
                v.push(r)
            }
            O::UncAdd(x, y) => {
                let r = op2!(api, unconstrained_add, *x, *y, v);
                v.push(r)
            }
            O::UncMul(x, y) => {
                let r = op2!(api, unconstrained_mul, *x, *y, v);
                v.push(r)
            }
            O::Call(k, i, x) => {
                let a = at(x, &v);
                let i = *i;
                let r = match (k, i) {
                    (0, _) => api.call_sub_circuit(1000 + i * 77, &a, |api, a| run::<C, B>(api, i, a)),
                    (_, 1) => api.memorized_simple_call(memo_fn::<C, B, 1>, &a),
                    (_, 2) => api.memorized_simple_call(memo_fn::<C, B, 2>, &a),
                    (_, 3) => api.memorized_simple_call(memo_fn::<C, B, 3>, &a),
                    (_, 4) => api.memorized_simple_call(memo_fn::<C, B, 4>, &a),
                    _ => api.memorized_simple_call(memo_fn::<C, B, 5>, &a),
                };
                v.extend(r)
            }
            O::Memo(k, x, c) => {
                let a = at(x, &v);
                let r = match k {
                    6 => api.memorized_simple_call(simple_mul::<C, B>, &a),
                    7 => api.memorized_simple_call(simple_add::<C, B>, &a),
                    0 => memorized_m_mul_add(api, a, *c),
                    1 => memorized_m_add_mul(api, a, *c),
                    2 | 3 => {
                        let rs = rows(*k, &a[1..]);
                        let r = memorized_m_nested(api, &rs, a[0], *c as usize);
                        if r.iter().map(|x| x.len()).ne(rs.iter().map(|x| x.len())) {
                            panic!("MEMORIZED result of another shape");
                        }
                        r.concat()
                    }
                    5 => {
                        let (x, y, z) = two_args(*c);
                        vec![memorized_m_two(api, a[0], x, y, z)]
                    }
                    _ => {
                        memorized_m_assert(api, a[0], &a[1]);
                        vec![]
                    }
                };
                v.extend(r)
            }
            O::Rand => {
                let r = api.get_random_value();
                v.push(r)
            }
        }
    }
    at(&f.outs, &v)
}
/// None: rejected
pub fn mean<F: Field>(p: &Api, me: usize, args: &[S<F>]) -> Option<Vec<S<F>>> {
    let f = &p.funs[me];
    let (zero, one) = (Sym::C(F::ZERO), Sym::C(F::ONE));
    let b = |x: bool| if x { one } else { zero };
    let mut v: Vec<S<F>> = vec![zero];
    v.extend_from_slice(args);
    let at = |x: &[usize], v: &[S<F>]| -> Vec<S<F>> { x.iter().map(|i| v[*i]).collect() };
    let g = |x: &A, v: &[S<F>]| match x {
        A::V(i) | A::R(i) => v[*i],
        A::K(k) | A::U(k) | A::F(k) => Sym::C(F::from(*k)),
    };
    let two = |op: Op, n: usize, a: &[S<F>]| one_op(op, n, a);
    for o in &f.ops {
        match o {
            O::Bin(k, x, y) => {
                let (x, y) = (g(x, &v), g(y, &v));
                v.push(match k {
                    0 => x + y,
                    1 => x - y,
                    2 => x * y,
                    _ => two(Op::Bool(1, 2, k - 3), 1, &[x, y])?[0],
                });
            }
            O::Div(x, y, c) => {
                let a = [g(x, &v), g(y, &v)];
                v.push(two(Op::Div(1, 2, *c), 1, &a)?[0])
            }
            O::Neg(x) => v.push(zero - g(x, &v)),
            O::Inv(x) => {
                let x = g(x, &v);
                if x.is_zero() {
                    return None;
                }
                v.push(x.inv().unwrap())
            }
            O::IsZero(x) => {
                let r = b(g(x, &v).is_zero());
                v.push(r)
            }
            O::ToBin(x, n) => {
                let a = [g(x, &v)];
                v.extend(two(Op::ToBin(1, *n), *n, &a)?)
            }
            O::FromBin(x) => {
                let mut s = zero;
                for y in at(x, &v).iter().rev() {
                    s = s + s + *y;
                }
                v.push(s)
            }
            O::Assert(k, x) => {
                let x = g(x, &v);
                let ok = match k {
                    0 => x.is_zero(),
                    1 => !x.is_zero(),
                    _ => x.is_zero() || x == one,
                };
                if !ok {
                    return None;
                }
            }
            O::Eq(x, y) => {
                if g(x, &v) != g(y, &v) {
                    return None;
                }
            }
            O::Ne(x, y) => {
                if g(x, &v) == g(y, &v) {
                    return None;
                }
            }
            O::Const(x) => {
                let x = g(x, &v);
                v.push(x)
            }
            O::Hint(h, x, n) => v.extend(crate::prog::hint::<F>(hint_key_to_id(&format!("h{h}")), &at(x, &v), *n)),
            O::Gt(x, y) | O::Geq(x, y) => {
                let (x, y) = (g(x, &v).concretize().to_u256(), g(y, &v).concretize().to_u256());
                v.push(b(if matches!(o, O::Gt(..)) { x > y } else { x >= y }))
            }
            O::Unc(k, x, y) => {
                let a = [g(x, &v), g(y, &v)];
                v.push(two(Op::UBin(1, 2, *k), 1, &a)?[0])
            }
            O::UncId(x) => {
                let x = g(x, &v);
                v.push(x)
            }
            O::UncAdd(x, y) => {
                let x = g(x, &v) + g(y, &v);
                v.push(x)
            }
            O::UncMul(x, y) => {
                let x = g(x, &v) * g(y, &v);
                v.push(x)
            }
            O::Call(_, i, x) => v.extend(mean(p, *i, &at(x, &v))?),
            O::Memo(k, x, c) => v.extend(memo_mean(*k, &at(x, &v), *c)?),
            O::Rand => v.push(ctx::new_rand()),
        }
    }
    Some(at(&f.outs, &v))
}

// ------------------------------------------------------------------ the circuit
#[derive(Clone)]
struct Cir<T> {
    x: Vec<T>,
    pb: Vec<T>,
}
impl<T: Clone> DumpLoadTwoVariables<T> for Cir<T> {
    fn dump_into(&self, v: &mut Vec<T>, p: &mut Vec<T>) {
        v.extend_from_slice(&self.x);
        p.extend_from_slice(&self.pb);
    }
    fn load_from(&mut self, v: &mut &[T], p: &mut &[T]) {
        let n = self.x.len();
        self.x = v[..n].to_vec();
        *v = &v[n..];
        let n = self.pb.len();
        self.pb = p[..n].to_vec();
        *p = &p[n..];
    }
    fn num_vars(&self) -> (usize, usize) {
        (self.x.len(), self.pb.len())
    }
}
impl<C: Config> Define<C> for Cir<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let a: Vec<Variable> = self.x.iter().chain(&self.pb).cloned().collect();
        let o = run::<C, B>(api, 0, &a);
        api.set_outputs(o);
    }
}

// ------------------------------------------------------------------ generation
#[derive(Clone, Copy)]
pub struct P {
    pub p: u64,
    pub ints: bool,
    pub gt: bool,
    pub hints: bool,
    /// how often a call is one of a memorized function, in percent
    pub memo: usize,
    /// how often an operand is a constant, in percent
    pub konst: usize,
    pub ops: usize,
    pub funs: usize,
}
fn gen(pr: &P, seed: u64) -> Api {
    let mut r = Rng::new(seed ^ 0x5151_0000);
    let n = r.range(1, pr.funs);
    let mut p = Api { pubs: r.range(0, 2), funs: vec![Fun::default(); n] };
    for i in (0..n).rev() {
        let n_in = r.range(1, 3);
        p.funs[i] = gen_fun(pr, &mut r, &p, i, n, n_in);
    }
    p
}
pub fn gen_fun(pr: &P, r: &mut Rng, p: &Api, me: usize, n: usize, n_in: usize) -> Fun {
    let mut nv = n_in + if me == 0 { p.pubs } else { 0 };
    let mut ops = vec![];
    let mut boolish: Vec<usize> = vec![];
    for _ in 0..r.range(1, pr.ops) {
        let var = |r: &mut Rng| if r.chance(40) { nv } else { r.range(1, nv) };
        let konst = |r: &mut Rng| -> u32 {
            match r.below(5) {
                0 => 0,
                1 | 2 => 1,
                3 => (pr.p - 1).min(u32::MAX as u64) as u32,
                _ => (r.next() % pr.p.min(1 << 31)) as u32,
            }
        };
        let opd = |r: &mut Rng| -> A {
            if r.chance(pr.konst) {
                let k = konst(r);
                match r.below(3) {
                    0 => A::K(k),
                    1 => A::U(k),
                    _ => A::F(k),
                }
            } else if r.chance(25) {
                A::R(var(r))
            } else {
                A::V(var(r))
            }
        };
        let bo = |r: &mut Rng| -> A {
            if !boolish.is_empty() && r.chance(70) {
                A::V(boolish[r.below(boolish.len())])
            } else {
                opd(r)
            }
        };
        let vars = |r: &mut Rng, k: usize| -> Vec<usize> { (0..k).map(|_| var(r)).collect() };
        let o = match if r.chance(pr.memo) { 26 } else { r.below(30) } {
            0..=5 => O::Bin(r.below(3) as u8, opd(r), opd(r)),
            6 | 7 => O::Bin(3 + r.below(3) as u8, bo(r), bo(r)),
            8 => O::Div(opd(r), opd(r), r.chance(50)),
            9 => O::Neg(opd(r)),
            10 => O::Inv(opd(r)),
            11 => O::IsZero(opd(r)),
            12 if pr.ints => O::ToBin(opd(r), r.range(1, bits_of(pr.p) + 1)),
            13 => {
                let k = r.range(0, 4);
                O::FromBin(vars(r, k))
            }
            14 => O::Assert(r.below(3) as u8, if r.chance(30) { bo(r) } else { opd(r) }),
            15 => O::Eq(opd(r), opd(r)),
            16 => O::Ne(opd(r), opd(r)),
            17 => O::Const(opd(r)),
            18 if pr.hints => {
                let k = r.range(1, 2);
                O::Hint(r.below(3), vars(r, k), r.range(1, 2))
            }
            19 if pr.gt && r.chance(40) => {
                if r.chance(50) {
                    O::Gt(opd(r), opd(r))
                } else {
                    O::Geq(opd(r), opd(r))
                }
            }
            20 if pr.hints => O::Unc(if pr.ints { r.below(17) as u8 } else { [0u8, 10, 11, 12, 13][r.below(5)] }, opd(r), opd(r)),
            21 if pr.hints => match r.below(3) {
                0 => O::UncId(opd(r)),
                1 => O::UncAdd(opd(r), opd(r)),
                _ => O::UncMul(opd(r), opd(r)),
            },
            22..=25 if me + 1 < n => {
                let t = r.range(me + 1, n - 1);
                let k = p.funs[t].n_in;
                O::Call(r.below(2) as u8, t, vars(r, k))
            }
            26..=28 => {
                let m = r.below(8) as u8;
                let k = match m {
                    0 | 1 if r.chance(70) => 2,
                    5 => 1,
                    0 | 1 | 6 | 7 => r.range(1, 3),
                    2 | 3 => r.range(2, 5),
                    _ => 2,
                };
                O::Memo(m, vars(r, k), r.below(if m == 5 { 5 } else { 3 }) as u32)
            }
            _ => O::Bin(2, opd(r), opd(r)),
        };
        let k = p.n_out(&o);
        if matches!(o, O::Bin(3..=5, ..) | O::IsZero(_) | O::ToBin(..) | O::Gt(..) | O::Geq(..)) {
            boolish.extend(nv + 1..=nv + k);
        }
        nv += k;
        ops.push(o);
    }
    let outs = (0..r.range(1, 3)).map(|_| if r.chance(60) { r.range(nv.saturating_sub(2).max(1), nv) } else { r.range(1, nv) }).collect();
    Fun { n_in, ops, outs }
}

// ------------------------------------------------------------------ checks
fn opts() -> Opts {
    Opts { max_paths: 1000, max_time: std::time::Duration::from_secs(10), timeout_ms: 4000, ..Default::default() }
}
fn args<F: Field>(p: &Api) -> (Vec<S<F>>, Vec<S<F>>) {
    inputs_named(p.funs[0].n_in, p.pubs)
}
fn all<F: Field>(x: &[S<F>], pb: &[S<F>]) -> Vec<S<F>> {
    x.iter().chain(pb).cloned().collect()
}
fn unfit(m: &str) -> bool {
    m.contains("MEMORIZED")
}
fn c11_case<F: Field, const K: usize, I: InputType + 'static>(pr: &P, seed: u64, adversarial: bool) -> Out {
    let p = Rc::new(gen(pr, seed));
    CUR.with(|c| *c.borrow_mut() = p.clone());
    let (o, os) = options(seed % 144);
    let mut out = Out { desc: format!("{} field {} with {os}", p.show(), F::NAME), ..Default::default() };
    let cir = Cir { x: vec![Variable::default(); p.funs[0].n_in], pb: vec![Variable::default(); p.pubs] };
    // what the builder makes of it
    let built = catch_unwind(AssertUnwindSafe(|| {
        let (mut b, x, pb) = builder::RootBuilder::<SymConfig<F, K>>::new(p.funs[0].n_in, p.pubs);
        let mut c = cir.clone();
        c.load_from(&mut x.as_slice(), &mut pb.as_slice());
        c.define(&mut b);
        b.build()
    }));
    let rc: src::RootCircuit<SymConfig<F, K>> = match built {
        Ok(rc) => rc,
        Err(e) => {
            let m = symf::ctx::rethrow(e);
            if unfit(&m) {
                out.fail("a memorized function returns a result of another shape than its body");
                return out;
            }
            // constants that can never satisfy the program are refused while it is built
            out.refused += 1;
            out.note("refused while building");
            out.add(explore::<F>(&opts(), &|| {
                let (x, pb) = args::<F>(&p);
                let _h = Hints::<F>::reset();
                match mean(&p, 0, &all(&x, &pb)) {
                    Some(_) => Err(format!("building the circuit panics ({m}) though this input satisfies it")),
                    None => Ok(()),
                }
            }));
            return out;
        }
    };
    if let Err(e) = rc.validate() {
        out.fail(format!("the builder makes an invalid circuit: {e:?}"));
        return out;
    }
    if !adversarial {
        if out.add(explore::<F>(&opts(), &|| {
            let (x, pb) = args::<F>(&p);
            let _h = Hints::<F>::reset();
            let want = mean(&p, 0, &all(&x, &pb));
            match (want, ir(&rc, &x, &pb)) {
                (Some(a), Some(b)) => {
                    note("built: accepted");
                    same_outputs(&a, &b, "the built circuit")
                }
                (None, None) => Ok(()),
                (Some(_), None) => Err("~the built circuit rejects an input that satisfies the program".into()),
                (None, Some(_)) => Err("~the built circuit accepts an input that does not satisfy the program".into()),
            }
        })) {
            return out;
        }
    }
    let r = match catch_unwind(AssertUnwindSafe(|| -> Result<_, Error> {
        let opt = o.clone();
        let (hn, lc) = expander_compiler::compile::compile_with_options::<SymConfig<F, K>, I>(&rc, opt)?;
        Ok((hn, lc))
    })) {
        Ok(Ok(r)) => r,
        Ok(Err(Error::UserError(_))) => {
            out.refused += 1;
            return out;
        }
        Ok(Err(e)) => {
            out.fail(format!("compiling ends in an internal error: {e}"));
            return out;
        }
        Err(e) => {
            out.fail(format!("compiling panics: {}", symf::ctx::rethrow(e)));
            return out;
        }
    };
    out.programs += 1;
    let (hn, lc) = r;
    let n = hn.circuits[&0].num_inputs;
    let outs = hn.circuits[&0].outputs.clone();
    if adversarial {
        out.add(explore::<F>(&opts(), &|| {
            let (x, pb) = args::<F>(&p);
            let w: Vec<S<F>> = outs.iter().enumerate().map(|(i, id)| if *id <= n { x[*id - 1] } else { Sym::var(&format!("prover{i}")) }).collect();
            if outs.iter().any(|id| *id > n) {
                note("prover-chosen values");
            }
            let (got, ok) = lc.eval_with_public_inputs(w, &pb);
            if !ok {
                note("rejected");
                return Ok(());
            }
            crate::prog::ZERO_BY_ZERO.with(|z| z.set(false));
            let want = mean(&p, 0, &all(&x, &pb));
            if crate::prog::ZERO_BY_ZERO.with(|z| z.get()) {
                // 0/0 unchecked: any value
                note("open");
                return Ok(());
            }
            match want {
                None => Err("some prover-chosen values make the layered circuit accept an input that does not satisfy the program".into()),
                Some(o) => {
                    note("accepted");
                    same_outputs(&o, &got, "accepted prover-chosen values").map_err(|e| e.trim_start_matches('~').to_string())
                }
            }
        }));
        return out;
    }
    // the same through the frontend's own entry points
    let ws = WitnessSolver { circuit: hn };
    out.add(explore::<F>(&opts(), &|| {
        let (x, pb) = args::<F>(&p);
        let h = Hints::<F>::reset();
        let want = mean(&p, 0, &all(&x, &pb));
        let w = guarded(|| ws.solve_witness_with_hints(&Cir { x: x.clone(), pb: pb.clone() }, &h)).and_then(|x| x.ok());
        let got = w.map(|w| {
            let (s, q) = w.iter_scalar().next().unwrap();
            lc.eval_with_public_inputs(s, &q)
        });
        match (want, got) {
            (Some(a), Some((b, true))) => {
                note("accepted");
                same_outputs(&a, &b, "accepted input")
            }
            (Some(_), _) => Err("~the compiled circuit rejects an input that satisfies the program".into()),
            (None, Some((_, true))) => Err("the compiled circuit accepts an input that does not satisfy the program".into()),
            (None, _) => {
                note("rejected");
                Ok(())
            }
        }
    }));
    out
}
fn c12_case<F: Field, const K: usize>(pr: &P, seed: u64) -> Out {
    let p = Rc::new(gen(pr, seed));
    CUR.with(|c| *c.borrow_mut() = p.clone());
    let mut out = Out { desc: format!("{} field {}", p.show(), F::NAME), ..Default::default() };
    out.programs += 1;
    out.add(explore::<F>(&opts(), &|| {
        let (x, pb) = args::<F>(&p);
        let h = Hints::<F>::reset();
        let want = mean(&p, 0, &all(&x, &pb));
        let cir = Cir { x: vec![Variable::default(); x.len()], pb: vec![Variable::default(); pb.len()] };
        let got = match catch_unwind(AssertUnwindSafe(|| {
            debug_eval::<SymConfig<F, K>, _, _, _>(&cir, &Cir { x: x.clone(), pb: pb.clone() }, h)
        })) {
            Ok(o) => Some(o),
            Err(e) => {
                let m = symf::ctx::rethrow(e);
                if unfit(&m) {
                    return Err(m);
                }
                None
            }
        };
        match (want, got) {
            (Some(a), Some(b)) => {
                note("accepted");
                same_outputs(&a, &b, "debug_eval")
            }
            (Some(_), None) => Err("~debug_eval panics on an input that satisfies the program".into()),
            (None, Some(_)) => Err("~debug_eval runs through on an input that does not satisfy the program".into()),
            (None, None) => {
                note("rejected");
                Ok(())
            }
        }
    }));
    out
}
// ------------------------------------------------------------------ declared circuits
macro_rules! weigh {
    ($api:ident, $s:ident, $n:ident, $x:expr) => {{
        $n += 1;
        let t = $api.mul($x, $n);
        $s = $api.add($s, t);
    }};
}
/// D: a declared circuit; its output weighs every field by its place
macro_rules! declared {
    ($m:ident, $new:expr, $n:expr, |$c:ident, $f:ident| $each:block, { $($body:tt)* }) => {
        mod $m {
            use super::*;
            declare_circuit!(D { $($body)* });
            impl<C: Config> Define<C> for D<Variable> {
                fn define<B: RootAPI<C>>(&self, api: &mut B) {
                    let mut s = api.constant(0);
                    let mut n = 0u32;
                    let mut $f = |x: &Variable| weigh!(api, s, n, x);
                    let $c = self;
                    $each
                    api.set_outputs(vec![s]);
                }
            }
            pub fn make<T: Default + Clone + Copy>(fill: &mut dyn FnMut() -> T) -> D<T> {
                let new: fn(&mut dyn FnMut() -> T) -> D<T> = $new;
                new(fill)
            }
            pub fn weights<F: Field>($c: &D<S<F>>) -> S<F> {
                let mut s = Sym::C(F::ZERO);
                let mut n = 0u32;
                let mut $f = |x: &S<F>| {
                    n += 1;
                    s += *x * Sym::C(F::from(n));
                };
                $each
                s
            }
            pub fn check<F: Field, const K: usize>() -> Out {
                let mut out = Out { desc: stringify!($($body)*).to_string(), ..Default::default() };
                let c = make::<Variable>(&mut Variable::default);
                let (mut a, mut b) = (vec![], vec![]);
                c.dump_into(&mut a, &mut b);
                let want: (usize, usize) = $n;
                if (a.len(), b.len()) != want || DumpLoadTwoVariables::<Variable>::num_vars(&c) != want {
                    out.fail(format!("declared with {want:?} variables: num_vars {:?}, dumps {:?}", DumpLoadTwoVariables::<Variable>::num_vars(&c), (a.len(), b.len())));
                    return out;
                }
                let (r, x) = match guarded(|| (compile::<SymConfig<F, K>, _>(&c, Default::default()), compile_cross_layer::<SymConfig<F, K>, _>(&c, Default::default()))) {
                    Some((Ok(r), Ok(x))) => (r, x),
                    _ => {
                        out.fail("a declared circuit does not compile");
                        return out;
                    }
                };
                out.programs += 2;
                out.add(explore::<F>(&opts(), &|| {
                    let mut i = 0;
                    let a = make::<S<F>>(&mut || {
                        i += 1;
                        Sym::var(&format!("x{i}"))
                    });
                    let want = vec![weights(&a)];
                    for cross in [false, true] {
                        let w = if cross { x.witness_solver.solve_witness(&a) } else { r.witness_solver.solve_witness(&a) };
                        let w = w.map_err(|e| format!("~no witness for a declared circuit: {e:?}"))?;
                        let (v, q) = w.iter_scalar().next().unwrap();
                        let (got, ok) = if cross { x.layered_circuit.eval_with_public_inputs(v, &q) } else { r.layered_circuit.eval_with_public_inputs(v, &q) };
                        if !ok {
                            return Err("~a declared circuit without constraints rejects".into());
                        }
                        same_outputs(&want, &got, "declared circuit")?;
                    }
                    let d = debug_eval::<SymConfig<F, K>, _, _, _>(&c, &a, EmptyHintCaller);
                    note("declared");
                    same_outputs(&want, &d, "debug_eval of a declared circuit")
                }));
                out
            }
        }
    };
}
fn fill<T>(n: usize, f: &mut dyn FnMut() -> T) -> Vec<T> {
    (0..n).map(|_| f()).collect()
}
declared!(d1, |f| D { a: f(), b: [f(), f(), f()], c: f() }, (4, 1), |c, f| {
    f(&c.a);
    c.b.iter().for_each(&mut f);
    f(&c.c);
}, { a: Variable, b: [Variable; 3], c: PublicVariable });
declared!(d2, |f| D { p: [[f(), f()], [f(), f()], [f(), f()]], q: [[f(); 1]; 2], v: fill(3, f), w: vec![fill(2, f), vec![], fill(1, f)] }, (3 + 3 + 2, 6), |c, f| {
    c.w.concat().iter().for_each(&mut f);
    c.p.concat().iter().for_each(&mut f);
    c.v.iter().for_each(&mut f);
    c.q.concat().iter().for_each(&mut f);
}, { p: [[PublicVariable; 2]; 3], q: [[Variable; 1]; 2], v: [Variable], w: [[Variable]] });
declared!(d3, |f| D { n: 5, a: vec![[f(), f()], [f(), f()]], b: fill(2, f), e: [], k: [[f(), f()], [f(), f()]] }, (4 + 4, 2), |c, f| {
    c.b.iter().for_each(&mut f);
    c.a.concat().iter().for_each(&mut f);
    c.k.concat().iter().rev().for_each(&mut f);
}, { n: usize, a: [[Variable; 2]], b: [PublicVariable], e: [Variable; 0], k: [[Variable; 2]; 2] });

// ------------------------------------------------------------------ comparisons over large fields
/// Inputs over a large field, whose values are a few powers of two added to an end of the field.
fn pow2s<F: Field>(name: &str, at: &[usize], base: S<F>) -> S<F> {
    let mut x = base;
    for i in at {
        let b: S<F> = Sym::bit(&format!("{name}_{i}"));
        if !b.is_zero() {
            x += Sym::C(F::from_u256(U256::ONE << (*i as u32)));
        }
    }
    x
}
fn c11_cmp<F: Field, const K: usize>(at: &'static [usize], base: [i32; 2], debug: bool) -> Out {
    let nb = (256 - F::MODULUS.leading_zeros()) as usize;
    let p = Rc::new(Api { pubs: 0, funs: vec![Fun { n_in: 2, ops: vec![O::Gt(A::V(1), A::V(2)), O::Geq(A::V(1), A::V(2)), O::ToBin(A::V(1), nb)], outs: (3..5 + nb).collect() }] });
    CUR.with(|c| *c.borrow_mut() = p.clone());
    let mut out = Out { desc: format!("{} field {}; inputs: {base:?} plus powers of two {at:?}", p.show(), F::NAME), ..Default::default() };
    let cir = Cir { x: vec![Variable::default(); 2], pb: vec![] };
    let r = match guarded(|| compile::<SymConfig<F, K>, _>(&cir, Default::default())) {
        Some(Ok(r)) => r,
        _ => {
            out.fail("a comparison does not compile");
            return out;
        }
    };
    out.programs += 1;
    out.add(explore::<F>(&Opts { max_paths: 3000, ..opts() }, &|| {
        let b = |i: usize| if base[i] < 0 { -Sym::C(F::from(-base[i] as u32)) } else { Sym::C(F::from(base[i] as u32)) };
        let x: Vec<S<F>> = vec![pow2s("x", at, b(0)), pow2s("y", at, b(1))];
        let (a, c) = (x[0].konst().unwrap().to_u256(), x[1].konst().unwrap().to_u256());
        let mut want = vec![a > c, a >= c];
        want.extend((0..nb).map(|i| (a >> (i as u32)) & 1 == 1));
        let want: Vec<S<F>> = want.iter().map(|x| Sym::C(F::from(*x as u32))).collect();
        note("compared");
        let asg = Cir { x, pb: vec![] };
        if debug {
            let d = debug_eval::<SymConfig<F, K>, _, _, _>(&cir, &asg, EmptyHintCaller);
            return same_outputs(&want, &d, "debug_eval of a comparison");
        }
        let w = r.witness_solver.solve_witness(&asg).map_err(|e| format!("~no witness for a comparison: {e:?}"))?;
        let (v, q) = w.iter_scalar().next().unwrap();
        let (got, ok) = r.layered_circuit.eval_with_public_inputs(v, &q);
        if !ok {
            return Err("~a comparison rejects".into());
        }
        same_outputs(&want, &got, "comparison")
    }));
    out
}
const M31_AT: &[usize] = &[0, 1, 14, 29, 30];
const FR_AT: &[usize] = &[0, 128, 252];
fn cmps(v: &mut Vec<(u64, Case)>, debug: bool) {
    for b in [[0, 0], [-1, -1], [0, -2], [-3, 0]] {
        v.push((0, case(format!("compare-m31-{b:?}"), move || c11_cmp::<M31, 0>(M31_AT, b, debug))));
        v.push((0, case(format!("compare-bn254-{b:?}"), move || c11_cmp::<Fr, 0>(FR_AT, b, debug))));
    }
}
fn decls(v: &mut Vec<(u64, Case)>) {
    v.push((0, case("declared-1", || d1::check::<F5, 0>())));
    v.push((0, case("declared-1-m31", || d1::check::<M31, 0>())));
    v.push((0, case("declared-2", || d2::check::<M31, 0>())));
    v.push((0, case("declared-3", || d3::check::<M31, 0>())));
    v.push((0, case("declared-3-gf2", || d3::check::<F2, 1>())));
}
pub fn prof(p: u64) -> P {
    P { p, ints: p <= 7, gt: p > 2 && p <= 7, hints: p <= 7, konst: 25, memo: 0, ops: 7, funs: 4 }
}
fn fam(v: &mut Vec<(u64, Case)>, tag: &str, n: u64, seed: u64, pr: P, f: fn(&P, u64) -> Out) {
    for i in 0..n {
        let s = seed * 1_000_003 + i;
        v.push((i * 1000 / n, case(format!("{tag}-{s}"), move || f(&pr, s))));
    }
}
type N = NormalInputType;
type X = CrossLayerInputType;
fn c11(e: Env) -> Vec<Case> {
    let n = e.pick(600, 8000);
    let s = e.seed + 11;
    let mut v = vec![];
    cmps(&mut v, false);
    decls(&mut v);
    fam(&mut v, "f3", n, s, prof(3), |p, s| c11_case::<F3, 0, N>(p, s, false));
    fam(&mut v, "f5", n / 2, s, prof(5), |p, s| c11_case::<F5, 0, N>(p, s, false));
    fam(&mut v, "f5x", n / 2, s + 1, prof(5), |p, s| c11_case::<F5, 0, X>(p, s, false));
    fam(&mut v, "gf2", n / 2, s, prof(2), |p, s| c11_case::<F2, 1, N>(p, s, false));
    fam(&mut v, "m31", n / 2, s, prof((1 << 31) - 1), |p, s| c11_case::<M31, 0, N>(p, s, false));
    fam(&mut v, "long", n / 3, s, P { ops: 25, gt: false, ..prof(3) }, |p, s| c11_case::<F3, 0, N>(p, s, false));
    let memo = |p: u64| P { memo: 60, konst: 10, ..prof(p) };
    fam(&mut v, "memo-m31", n / 2, s, memo((1 << 31) - 1), |p, s| c11_case::<M31, 0, N>(p, s, false));
    fam(&mut v, "memo-f5", n / 2, s, memo(5), |p, s| c11_case::<F5, 0, N>(p, s, false));
    let a = |p: u64| P { hints: false, ..prof(p) };
    fam(&mut v, "f3-prover", n, s, a(3), |p, s| c11_case::<F3, 0, N>(p, s, true));
    fam(&mut v, "f5-prover", n / 2, s, a(5), |p, s| c11_case::<F5, 0, N>(p, s, true));
    fam(&mut v, "gf2-prover", n / 2, s, a(2), |p, s| c11_case::<F2, 1, N>(p, s, true));
    finish(v)
}
fn c12(e: Env) -> Vec<Case> {
    let n = e.pick(1500, 20000);
    let s = e.seed + 12;
    let mut v = vec![];
    cmps(&mut v, true);
    fam(&mut v, "f3", n, s, prof(3), c12_case::<F3, 0>);
    fam(&mut v, "f5", n / 2, s, prof(5), c12_case::<F5, 0>);
    fam(&mut v, "f7", n / 2, s, prof(7), c12_case::<F7, 0>);
    fam(&mut v, "gf2", n / 2, s, prof(2), c12_case::<F2, 1>);
    fam(&mut v, "m31", n / 2, s, prof((1 << 31) - 1), c12_case::<M31, 0>);
    fam(&mut v, "memo-f5", n / 3, s, P { memo: 60, ..prof(5) }, c12_case::<F5, 0>);
    fam(&mut v, "long", n / 3, s, P { ops: 25, ..prof(3) }, c12_case::<F3, 0>);
    finish(v)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", reach: &["accepted", "rejected", "declared", "compared", "built: accepted", "refused while building", "prover-chosen values"], cases: c11 },
        Prop { id: "C12", reach: &["accepted", "rejected", "compared"], cases: c12 },
    ]
}
