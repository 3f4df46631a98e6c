//! Each pass over the intermediate representations on its own, on programs of that representation that the passes
//! before it need not be able to produce.
use crate::p_compile::{finish, guarded};
use crate::p_layered::{custom, famc, reference, LProf, SC};
use crate::prog::*;
use crate::rep::*;
use arith::Field;
use expander_compiler::builder;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::input_mapping::{InputMapping, EMPTY};
use expander_compiler::circuit::ir::common::{self, Constraint as _, ConstraintType as _, Instruction as _, IrConfig};
use expander_compiler::circuit::ir::expr::{Expression, LinComb, LinCombTerm, Term, VarSpec};
use expander_compiler::circuit::ir::{dest, hint_less as hl, hint_normalized as hnm, source as src};
use expander_compiler::circuit::layered::{Coef, CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::hints::{self, BuiltinHintIds};
use expander_compiler::layering;
use symf::*;

type S<F> = Sym<F>;
type C0<F> = SymConfig<F, 0>;
fn opts() -> Opts {
    Opts { max_paths: 400, max_time: std::time::Duration::from_secs(8), timeout_ms: 4000, ..Default::default() }
}
/// GF2-like: no random combination
type C1<F> = SymConfig<F, 1>;

// ------------------------------------------------------------------ meaning of each representation
/// what an instruction other than a call computes; None: it rejects
pub trait Means<F: Field>: IrConfig {
    fn means(i: &Self::Instruction, v: &[S<F>], pb: &[S<F>]) -> Option<Vec<S<F>>>;
    fn holds(c: &Self::Constraint, v: &[S<F>]) -> bool;
}
fn coef<F: Field, C: Config>(c: &Coef<C>, pb: &[S<F>]) -> S<F>
where
    C: Config<FieldConfig = C> + gkr_engine::FieldEngine<CircuitField = S<F>>,
{
    match c {
        Coef::Constant(c) => *c,
        Coef::Random => ctx::new_rand(),
        Coef::PublicInput(i) => pb[*i],
    }
}
thread_local! {
    /// one random value for the whole run (the program's own random gates), or a fresh one each (those a pass adds)
    static SHARED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn rnd<F: Field>() -> S<F> {
    if SHARED.with(|s| s.get()) {
        ctx::shared_rand()
    } else {
        ctx::new_rand()
    }
}
fn lin<F: Field, const K: usize>(l: &LinComb<SymConfig<F, K>>, v: &[S<F>]) -> S<F> {
    l.terms.iter().fold(l.constant, |s, t| s + v[t.var] * t.coef)
}
fn mul<F: Field>(x: &[usize], v: &[S<F>]) -> S<F> {
    x.iter().fold(Sym::C(F::ONE), |s, i| s * v[*i])
}
fn pick<F: Field>(x: &[usize], v: &[S<F>]) -> Vec<S<F>> {
    x.iter().map(|i| v[*i]).collect()
}
fn any_hint<F: Field>(id: usize, a: &[S<F>], n: usize) -> Option<Vec<S<F>>> {
    match BuiltinHintIds::from_usize(id) {
        // the builtin hint panics when the value does not fit
        Some(BuiltinHintIds::ToBinary) => one_op(Op::ToBin(1, n), n, a),
        // C13 decides what these compute
        Some(b) => Some(hints::impl_builtin_hint(b, &a.to_vec(), n)),
        None => Some(hint::<F>(id, a, n)),
    }
}
/// the meaning of prog.rs, of a program with this one operation
pub fn one_op<F: Field>(op: Op, outs: usize, v: &[S<F>]) -> Option<Vec<S<F>>> {
    let p = Prog { pubs: 0, zeros: 0, circs: vec![Circ { id: 0, n_in: v.len(), ops: vec![op], cons: vec![], outs: (v.len() + 1..=v.len() + outs).collect() }] };
    match meaning(&p, v, &[], false) {
        Sem::Accept(o) => Some(o),
        Sem::Reject => None,
        Sem::Open => {
            assume(false);
            unreachable!()
        }
    }
}
impl<F: Field, const K: usize> Means<F> for hl::Irc<SymConfig<F, K>> {
    fn means(i: &Self::Instruction, v: &[S<F>], pb: &[S<F>]) -> Option<Vec<S<F>>> {
        use hl::Instruction as I;
        Some(vec![match i {
            I::LinComb(l) => lin(l, v),
            I::Mul(x) => mul(x, v),
            I::ConstantLike(c) => coef(c, pb),
            I::CustomGate { gate_type, inputs } => custom(*gate_type, &pick(inputs, v)),
            I::SubCircuitCall { .. } => unreachable!(),
        }])
    }
    fn holds(c: &usize, v: &[S<F>]) -> bool {
        v[*c].is_zero()
    }
}
impl<F: Field, const K: usize> Means<F> for hnm::Irc<SymConfig<F, K>> {
    fn means(i: &Self::Instruction, v: &[S<F>], pb: &[S<F>]) -> Option<Vec<S<F>>> {
        use hnm::Instruction as I;
        Some(match i {
            I::LinComb(l) => vec![lin(l, v)],
            I::Mul(x) => vec![mul(x, v)],
            I::ConstantLike(c) => vec![coef(c, pb)],
            I::CustomGate { gate_type, inputs } => vec![custom(*gate_type, &pick(inputs, v))],
            I::Hint { hint_id, inputs, num_outputs } => any_hint(*hint_id, &pick(inputs, v), *num_outputs)?,
            I::SubCircuitCall { .. } => unreachable!(),
        })
    }
    fn holds(c: &usize, v: &[S<F>]) -> bool {
        v[*c].is_zero()
    }
}
fn dest_means<F: Field, const K: usize>(i: &dest::Instruction<SymConfig<F, K>>, v: &[S<F>], pb: &[S<F>]) -> Option<Vec<S<F>>> {
    use dest::Instruction as I;
    Some(vec![match i {
        I::InternalVariable { expr } => expr.iter().fold(Sym::C(F::ZERO), |s, t| {
            s + match &t.vars {
                VarSpec::Const => t.coef,
                VarSpec::Linear(a) => v[*a] * t.coef,
                VarSpec::Quad(a, b) => v[*a] * v[*b] * t.coef,
                VarSpec::Custom { gate_type, inputs } => custom(*gate_type, &pick(inputs, v)) * t.coef,
                VarSpec::RandomLinear(a) => v[*a] * rnd(),
            }
        }),
        I::ConstantLike { value } => coef(value, pb),
        I::SubCircuitCall { .. } => unreachable!(),
    }])
}
impl<F: Field, const K: usize> Means<F> for dest::Irc<SymConfig<F, K>> {
    fn means(i: &Self::Instruction, v: &[S<F>], pb: &[S<F>]) -> Option<Vec<S<F>>> {
        dest_means(i, v, pb)
    }
    fn holds(c: &usize, v: &[S<F>]) -> bool {
        v[*c].is_zero()
    }
}
impl<F: Field, const K: usize> Means<F> for dest::IrcRelaxed<SymConfig<F, K>> {
    fn means(i: &Self::Instruction, v: &[S<F>], pb: &[S<F>]) -> Option<Vec<S<F>>> {
        dest_means(i, v, pb)
    }
    fn holds(c: &usize, v: &[S<F>]) -> bool {
        v[*c].is_zero()
    }
}
fn src_op<F: Field, const K: usize>(i: &src::Instruction<SymConfig<F, K>>) -> Op {
    use src::BoolBinOpType as B;
    use src::Instruction as I;
    match i {
        I::Div { x, y, checked } => Op::Div(*x, *y, *checked),
        I::BoolBinOp { x, y, op } => Op::Bool(*x, *y, match op {
            B::Xor => 0,
            B::Or => 1,
            B::And => 2,
        }),
        I::IsZero(x) => Op::IsZero(*x),
        I::Hint { hint_id, inputs, num_outputs } => Op::Hint(*hint_id, inputs.clone(), *num_outputs),
        I::UnconstrainedBinOp { x, y, op } => Op::UBin(*x, *y, op.clone() as u8 - 1),
        I::UnconstrainedSelect { cond, if_true, if_false } => Op::USel(*cond, *if_true, *if_false),
        I::ToBinary { x, num_bits } => Op::ToBin(*x, *num_bits),
        _ => unreachable!(),
    }
}
impl<F: Field, const K: usize> Means<F> for src::Irc<SymConfig<F, K>> {
    fn means(i: &Self::Instruction, v: &[S<F>], pb: &[S<F>]) -> Option<Vec<S<F>>> {
        use src::Instruction as I;
        Some(match i {
            I::LinComb(l) => vec![lin(l, v)],
            I::Mul(x) => vec![mul(x, v)],
            I::ConstantLike(c) => vec![coef(c, pb)],
            I::CustomGate { gate_type, inputs } => vec![custom(*gate_type, &pick(inputs, v))],
            I::Hint { hint_id, inputs, num_outputs } => any_hint(*hint_id, &pick(inputs, v), *num_outputs)?,
            _ => one_op(src_op(i), i.num_outputs(), &v[1..])?,
        })
    }
    fn holds(c: &Self::Constraint, v: &[S<F>]) -> bool {
        let x = v[c.var];
        match c.typ {
            src::ConstraintType::Zero => x.is_zero(),
            src::ConstraintType::NonZero => !x.is_zero(),
            src::ConstraintType::Bool => x.is_zero() || x == Sym::C(F::ONE),
        }
    }
}
/// None: rejected
pub fn ir<F: Field, I: Means<F>>(rc: &common::RootCircuit<I>, x: &[S<F>], pb: &[S<F>]) -> Option<Vec<S<F>>> {
    fn sub<F: Field, I: Means<F>>(rc: &common::RootCircuit<I>, id: usize, x: &[S<F>], pb: &[S<F>]) -> Option<Vec<S<F>>> {
        let c = &rc.circuits[&id];
        let mut v = vec![Sym::C(F::ZERO)];
        v.extend_from_slice(x);
        for i in &c.instructions {
            match i.as_sub_circuit_call() {
                Some((id, a, _)) => v.extend(sub(rc, id, &pick(a, &v), pb)?),
                None => v.extend(I::means(i, &v, pb)?),
            }
        }
        if c.constraints.iter().all(|c| I::holds(c, &v)) {
            Some(pick(&c.outputs, &v))
        } else {
            None
        }
    }
    let o = sub(rc, 0, x, pb)?;
    let z = rc.expected_num_output_zeroes;
    if o[..z].iter().all(|x| x.is_zero()) {
        Some(o[z..].to_vec())
    } else {
        None
    }
}

// ------------------------------------------------------------------ generation
#[derive(Clone, Copy)]
pub struct IProf {
    pub circs: usize,
    pub max_in: usize,
    pub ops: usize,
    pub terms: usize,
    pub cons: usize,
    pub outs: usize,
    pub calls: usize,
    pub customs: bool,
    pub hints: bool,
    /// every circuit is used, distinct call arguments and outputs
    pub strict: bool,
    pub zeros: bool,
    pub random: bool,
}
pub const SMALL: IProf = IProf { circs: 4, max_in: 3, ops: 6, terms: 4, cons: 3, outs: 3, calls: 30, customs: false, hints: false, strict: false, zeros: true, random: false };
pub const WIDE: IProf = IProf { circs: 2, max_in: 12, ops: 14, terms: 40, cons: 2, outs: 6, calls: 20, ..SMALL };
pub const DEEP: IProf = IProf { circs: 5, max_in: 3, ops: 12, terms: 2, cons: 1, outs: 3, calls: 35, ..SMALL };
pub fn k<F: Field>(r: &mut Rng) -> S<F> {
    Sym::C(match r.below(5) {
        0 => F::ZERO,
        1 | 2 => F::ONE,
        3 => -F::ONE,
        _ => F::from((r.next() >> 34) as u32),
    })
}
pub fn gen_ir<F: Field, I: IrConfig>(
    r: &mut Rng,
    p: &IProf,
    mk: &dyn Fn(&mut Rng, usize, usize) -> I::Instruction,
    con: &dyn Fn(&mut Rng, usize) -> I::Constraint,
) -> common::RootCircuit<I> {
    let n = r.range(1, p.circs);
    let mut rc = common::RootCircuit::<I> { num_public_inputs: r.range(0, 2), expected_num_output_zeroes: 0, ..Default::default() };
    let mut ids = vec![0usize];
    for i in 1..n {
        ids.push(if r.chance(20) { r.next() as usize >> 2 } else { i * 7 + r.below(5) });
    }
    let mut cons = vec![false; n];
    let mut style;
    for i in (0..n).rev() {
        style = r.below(4);
        let n_in = r.range(1, p.max_in);
        let mut ins = vec![];
        let mut nv = n_in;
        let ops = r.range(1, p.ops);
        for j in 0..ops {
            if i + 1 < n && (r.chance(p.calls) || (j == 0 && r.chance(60))) {
                let t = r.range(i + 1, n - 1);
                let (ni, no) = {
                    let c: &common::Circuit<I> = &rc.circuits[&ids[t]];
                    (c.num_inputs, c.outputs.len())
                };
                if !p.strict || ni <= nv {
                    let mut a: Vec<usize> = vec![];
                    while a.len() < ni {
                        let x = if style == 0 && r.chance(50) { nv } else { r.range(1, nv) };
                        if !p.strict || !a.contains(&x) {
                            a.push(x)
                        } else if p.strict {
                            // any that is left
                            let x = (1..=nv).find(|y| !a.contains(y)).unwrap();
                            a.push(x)
                        }
                    }
                    cons[i] |= cons[t];
                    ins.push(I::Instruction::sub_circuit_call(ids[t], a, no));
                    nv += no;
                    continue;
                }
            }
            let top = if (style == 1 && r.chance(40)) || (p.terms > 20 && r.chance(90)) { n_in } else { nv };
            let x = mk(r, top, rc.num_public_inputs);
            nv += x.num_outputs();
            ins.push(x);
        }
        let nc = if r.chance(40) { 0 } else { r.range(0, p.cons) };
        let cs: Vec<_> = (0..nc).map(|_| con(r, nv)).collect();
        cons[i] |= nc > 0;
        let mut outs: Vec<usize> = vec![];
        let want = r.range(if cons[i] { 0 } else { 1 }, p.outs);
        for _ in 0..want {
            let o = if r.chance(60) { r.range((nv + 1).saturating_sub(3).max(1), nv) } else { r.range(1, nv) };
            if !p.strict || !outs.contains(&o) {
                outs.push(o);
            }
        }
        rc.circuits.insert(ids[i], common::Circuit { instructions: ins, constraints: cs, outputs: outs, num_inputs: n_in });
    }
    if p.zeros && r.chance(20) {
        rc.expected_num_output_zeroes = r.range(0, rc.circuits[&0].outputs.len().min(2));
    }
    rc
}
fn g_lin<F: Field, const K: usize>(r: &mut Rng, p: &IProf, nv: usize) -> LinComb<SymConfig<F, K>> {
    LinComb {
        terms: (0..r.range(0, p.terms)).map(|_| LinCombTerm { var: r.range(1, nv), coef: k(r) }).collect(),
        constant: if r.chance(60) { Sym::C(F::ZERO) } else { k(r) },
    }
}
fn g_coef<F: Field, const K: usize>(r: &mut Rng, pubs: usize) -> Coef<SymConfig<F, K>> {
    if pubs > 0 && r.chance(60) {
        Coef::PublicInput(r.below(pubs))
    } else {
        Coef::Constant(k(r))
    }
}
fn g_custom(r: &mut Rng, nv: usize) -> (usize, Vec<usize>) {
    let (t, n) = match r.below(3) {
        0 => (BuiltinHintIds::Select, 3),
        1 => (BuiltinHintIds::Eq, 2),
        _ => (BuiltinHintIds::Identity, 1),
    };
    (t as u64 as usize, (0..n).map(|_| r.range(1, nv)).collect())
}
pub fn gen_hl<F: Field, const K: usize>(p: &IProf, seed: u64) -> hl::RootCircuit<SymConfig<F, K>> {
    use hl::Instruction as I;
    let mut r = Rng::new(seed ^ 0x41);
    gen_ir::<F, hl::Irc<SymConfig<F, K>>>(
        &mut r,
        p,
        &|r, nv, pubs| match r.below(10) {
            0..=3 => I::LinComb(g_lin(r, p, nv)),
            4..=7 => I::Mul((0..r.range(2, 4)).map(|_| r.range(1, nv)).collect()),
            8 if p.customs => {
                let (gate_type, inputs) = g_custom(r, nv);
                I::CustomGate { gate_type, inputs }
            }
            9 => I::ConstantLike(g_coef(r, pubs)),
            _ => I::Mul(vec![r.range(1, nv), r.range(1, nv)]),
        },
        &|r, nv| r.range(1, nv),
    )
}
pub fn gen_hn<F: Field, const K: usize>(p: &IProf, seed: u64) -> hnm::RootCircuit<SymConfig<F, K>> {
    use hnm::Instruction as I;
    let mut r = Rng::new(seed ^ 0x42);
    gen_ir::<F, hnm::Irc<SymConfig<F, K>>>(
        &mut r,
        p,
        &|r, nv, pubs| match r.below(12) {
            0..=2 => I::LinComb(g_lin(r, p, nv)),
            3..=5 => I::Mul((0..r.range(2, 4)).map(|_| r.range(1, nv)).collect()),
            6 if p.customs => {
                let (gate_type, inputs) = g_custom(r, nv);
                I::CustomGate { gate_type, inputs }
            }
            7 | 8 => I::ConstantLike(g_coef(r, pubs)),
            9..=11 if p.hints => {
                let v = |r: &mut Rng, n: usize| -> Vec<usize> { (0..n).map(|_| r.range(1, nv)).collect() };
                match r.below(4) {
                    0 => I::Hint { hint_id: BuiltinHintIds::Eq as u64 as usize, inputs: v(r, 2), num_outputs: 1 },
                    1 => {
                        let n = r.range(1, 3);
                        I::Hint { hint_id: BuiltinHintIds::Identity as u64 as usize, inputs: v(r, n), num_outputs: n }
                    }
                    _ => {
                        let n = r.range(1, 2);
                        I::Hint { hint_id: 5000 + r.below(3), inputs: v(r, n), num_outputs: r.range(1, 3) }
                    }
                }
            }
            _ => I::Mul(vec![r.range(1, nv), r.range(1, nv)]),
        },
        &|r, nv| r.range(1, nv),
    )
}
pub fn gen_dest<F: Field, const K: usize, I>(p: &IProf, seed: u64) -> common::RootCircuit<I>
where
    I: IrConfig<Config = SymConfig<F, K>, Instruction = dest::Instruction<SymConfig<F, K>>, Constraint = usize>,
{
    use dest::Instruction as D;
    let mut r = Rng::new(seed ^ 0x43);
    gen_ir::<F, I>(
        &mut r,
        p,
        &|r, nv, pubs| {
            if r.chance(12) {
                return D::ConstantLike { value: g_coef(r, pubs) };
            }
            let n = r.range(1, p.terms);
            let mut t: Vec<Term<SymConfig<F, K>>> = (0..n)
                .map(|_| {
                    let c = k(r);
                    match r.below(if p.customs { 9 } else { 8 }) {
                        0 => Term::new_const(c),
                        1..=3 => Term::new_linear(c, r.range(1, nv)),
                        8 => {
                            let (gate_type, inputs) = g_custom(r, nv);
                            Term { coef: c, vars: VarSpec::Custom { gate_type, inputs } }
                        }
                        _ => Term::new_quad(c, r.range(1, nv), r.range(1, nv)),
                    }
                })
                .collect();
            if p.random && r.chance(10) {
                t = (0..r.range(1, 3)).map(|_| Term::new_random_linear(r.range(1, nv))).collect();
                t.sort();
                t.dedup();
                return D::InternalVariable { expr: Expression::from_terms_sorted(t) };
            }
            D::InternalVariable { expr: Expression::from_terms(t) }
        },
        &|r, nv| r.range(1, nv),
    )
}
fn vars<F: Field>(n: usize, s: &str) -> Vec<S<F>> {
    (0..n).map(|i| Sym::var(&format!("{s}{i}"))).collect()
}
/// `b` computes what `a` computes, its inputs being what `im` makes of a's
fn same<F: Field, A: Means<F>, B: Means<F>>(out: &mut Out, name: &str, a: &common::RootCircuit<A>, b: &common::RootCircuit<B>, im: &InputMapping) -> bool {
    if let Err(e) = b.validate() {
        out.fail(format!("{name} makes an invalid program of a valid one: {e:?}"));
        return true;
    }
    if im.cur_size() != a.input_size() || im.next_size() != b.input_size() || !im.validate() {
        out.fail(format!("{name}: the input mapping does not fit the two programs"));
        return true;
    }
    if a.num_public_inputs != b.num_public_inputs {
        out.fail(format!("{name} changes the number of public inputs"));
        return true;
    }
    out.programs += 1;
    out.note(name);
    out.add(explore::<F>(&opts(), &|| {
        let _h = Hints::<F>::reset();
        let x = vars(a.input_size(), "x");
        let pb = vars(a.num_public_inputs, "pub");
        let want = ir(a, &x, &pb);
        let mut y = vec![None; im.next_size()];
        for (i, m) in im.mapping().iter().enumerate() {
            if *m != EMPTY {
                y[*m] = Some(x[i]);
            }
        }
        let y: Vec<S<F>> = y.into_iter().map(|x| x.unwrap()).collect();
        let got = ir(b, &y, &pb);
        match (want, got) {
            (None, None) => {
                note("rejected");
                Ok(())
            }
            (Some(w), Some(g)) => {
                note("accepted");
                crate::p_compile::same_outputs(&w, &g, name)
            }
            (Some(_), None) => Err(format!("~{name}: an accepted input is rejected afterwards")),
            (None, Some(_)) => Err(format!("{name}: a rejected input is accepted afterwards")),
        }
    }))
}
macro_rules! tri {
    ($out:expr, $name:expr, $e:expr) => {
        match guarded(|| $e) {
            Some(x) => x,
            None => {
                $out.fail(format!("{} panics on a valid program", $name));
                return $out;
            }
        }
    };
}
fn common_passes<F: Field, I: Means<F>>(out: &mut Out, what: &str, rc: &common::RootCircuit<I>) -> bool {
    if let Err(e) = rc.validate() {
        out.fail(format!("a valid {what} program is refused: {e:?}"));
        return true;
    }
    let id = InputMapping::new_identity(rc.input_size());
    let n1 = format!("{what} remove_unreachable");
    let Some((r, im)) = guarded(|| rc.remove_unreachable()) else {
        out.fail(format!("{n1} panics on a valid program"));
        return true;
    };
    if same(out, &n1, rc, &r, &im) {
        return true;
    }
    for (force, then) in [(false, false), (true, false), (false, true)] {
        let n = format!("{what} reassign_duplicate_sub_circuit_outputs({force}){}", if then { " after remove_unreachable" } else { "" });
        let Some((d, dim)) = guarded(|| {
            let (mut d, dim) = if then { (r.clone(), im.clone()) } else { (rc.clone(), id.clone()) };
            d.reassign_duplicate_sub_circuit_outputs(force);
            if then {
                let (d2, im2) = d.remove_unreachable();
                (d2, dim.compose(&im2))
            } else {
                (d, dim)
            }
        }) else {
            out.fail(format!("{n} panics on a valid program"));
            return true;
        };
        if same(out, &n, rc, &d, &dim) {
            return true;
        }
        if force && d.circuits.values().any(|c| (0..c.outputs.len()).any(|i| c.outputs[..i].contains(&c.outputs[i]))) {
            out.fail(format!("{n} leaves repeated outputs"));
            return true;
        }
    }
    false
}
fn ip(p: &LProf) -> IProf {
    // the profile travels in `pool`
    let b = match p.pool {
        1 => WIDE,
        2 => DEEP,
        _ => SMALL,
    };
    IProf { customs: p.customs, random: p.random, ..b }
}
fn c05_src<F: Field>(p: &LProf, seed: u64) -> Out {
    let pr = gen(&Prof { p: p.p, circs: 4, max_in: 3, max_ops: 6, hints: true, ints: p.p <= 5, div: true, pubs: 2, max_cons: 3, nonzero: true, shape: Shape::Small }, seed);
    let mut out = Out { desc: pr.show(), ..Default::default() };
    let rc = to_ir::<C0<F>>(&pr);
    if common_passes(&mut out, "source", &rc) {
        return out;
    }
    // what a chain took in is left for remove_unreachable to delete
    let (d, dim) = tri!(out, "detect_chains", {
        let mut d = rc.clone();
        d.detect_chains();
        d.remove_unreachable()
    });
    if same(&mut out, "detect_chains", &rc, &d, &dim) {
        return out;
    }
    let (rc, id) = if seed % 2 == 0 { (rc, InputMapping::new_identity(pr.circs[0].n_in)) } else { (d.clone(), InputMapping::new_identity(d.input_size())) };
    let d = rc.clone();
    // hints are part of what comes out: only what the source leaves determined is compared
    let h = match tri!(out, "hint_normalize", builder::hint_normalize::process(&d)) {
        Ok(h) => h,
        Err(_) => {
            // C04's concern
            out.refused += 1;
            return out;
        }
    };
    same(&mut out, "hint_normalize", &d, &h, &id);
    out
}
fn c05_hn<F: Field>(p: &LProf, seed: u64) -> Out {
    let rc = gen_hn::<F, 0>(&IProf { hints: true, ..ip(p) }, seed);
    let mut out = Out { desc: format!("{rc:?}"), ..Default::default() };
    if common_passes(&mut out, "witness program", &rc) {
        return out;
    }
    let (less, exported) = tri!(out, "remove_and_export_hints", rc.remove_and_export_hints());
    for e in [less.validate(), exported.validate().or(Ok(()))] {
        if let Err(e) = e {
            out.fail(format!("remove_and_export_hints makes an invalid program of a valid one: {e:?}"));
            return out;
        }
    }
    out.note("remove_and_export_hints");
    out.programs += 1;
    // the exported program's outputs, fed to the hint-less one, reproduce the run
    let r = explore::<F>(&opts(), &|| {
        let _h = Hints::<F>::reset();
        let x = vars(rc.input_size(), "x");
        let pb = vars(rc.num_public_inputs, "pub");
        let want = ir(&rc, &x, &pb);
        // evaluating for a witness does not stop at constraints
        let mut e = exported.clone();
        for c in e.circuits.values_mut() {
            c.constraints.clear();
        }
        let w = ir(&e, &x, &pb).ok_or("remove_and_export_hints: the witness program rejects")?;
        if w.len() != less.input_size() {
            return Err("remove_and_export_hints: the witness does not fit the circuit".into());
        }
        for i in 0..rc.input_size() {
            if w[i] != x[i] {
                return Err("~remove_and_export_hints: the witness does not start with the inputs".into());
            }
        }
        let got = ir(&less, &w, &pb);
        match (want, got) {
            (None, None) => {
                note("rejected");
                Ok(())
            }
            (Some(w), Some(g)) => {
                note("accepted");
                crate::p_compile::same_outputs(&w, &g, "remove_and_export_hints")
            }
            _ => Err("~remove_and_export_hints changes what is accepted".into()),
        }
    });
    if out.add(r) {
        return out;
    }
    // inputs the optimiser dropped are put back
    let mut r = Rng::new(seed);
    let n = exported.input_size() + r.below(3);
    let mut places: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        places.swap(i, r.below(i + 1));
    }
    places.truncate(exported.input_size());
    let mut map = vec![EMPTY; n];
    for (i, x) in places.iter().enumerate() {
        map[*x] = i;
    }
    let im = InputMapping::new(exported.input_size(), map);
    let back = tri!(out, "add_back_removed_inputs", {
        let mut e = exported.clone();
        e.add_back_removed_inputs(&im);
        e
    });
    same(&mut out, "add_back_removed_inputs", &back, &exported, &im);
    out
}
fn c05_hl<F: Field>(p: &LProf, seed: u64) -> Out {
    let rc = gen_hl::<F, 0>(&ip(p), seed);
    let mut out = Out { desc: format!("{rc:?}"), ..Default::default() };
    if common_passes(&mut out, "hint-less", &rc) {
        return out;
    }
    let id = InputMapping::new_identity(rc.input_size());
    match tri!(out, "final_build_opt", builder::final_build_opt::process(&rc)) {
        // C04's concern
        Err(_) => out.refused += 1,
        // nothing is left to check or to output: the compiler refuses that
        Ok(d) if d.circuits[&0].outputs.is_empty() && d.circuits[&0].constraints.is_empty() && matches!(d.validate(), Err(expander_compiler::utils::error::Error::UserError(_))) => out.refused += 1,
        Ok(d) => {
            if same(&mut out, "final_build_opt", &rc, &d, &id) {
                return out;
            }
        }
    }
    out
}
fn c05_dest<F: Field, const K: usize>(p: &LProf, seed: u64) -> Out {
    let mut rc: dest::RootCircuitRelaxed<SymConfig<F, K>> = gen_dest(&ip(p), seed);
    let own = rc.circuits.values().any(|c| {
        c.instructions.iter().any(|i| matches!(i, dest::Instruction::InternalVariable { expr } if expr.iter().any(|t| matches!(t.vars, VarSpec::RandomLinear(_)))))
    });
    if own {
        // then no pass has to add random gates of its own
        rc.circuits.values_mut().for_each(|c| c.constraints.clear());
        let c = rc.circuits.get_mut(&0).unwrap();
        if c.outputs.is_empty() {
            c.outputs.push(1);
        }
    }
    SHARED.with(|s| s.set(own));
    if K == 0 {
        // a constraint repeated p times adds up to nothing; the fields in use have p > 2^30
        for c in rc.circuits.values_mut() {
            c.constraints.sort();
            c.constraints.dedup();
        }
    }
    let mut out = Out { desc: format!("{rc:?}"), ..Default::default() };
    if common_passes(&mut out, "dest", &rc) {
        return out;
    }
    let id = InputMapping::new_identity(rc.input_size());
    let e = tri!(out, "export_constraints", rc.export_constraints());
    if e.circuits.values().any(|c| !c.constraints.is_empty()) {
        out.fail("export_constraints leaves constraints behind");
        return out;
    }
    if same(&mut out, "export_constraints", &rc, &e, &id) {
        return out;
    }
    let d = tri!(out, "solve_duplicates", {
        let mut d = rc.clone();
        d.reassign_duplicate_sub_circuit_outputs(true);
        d.solve_duplicates()
    });
    if same(&mut out, "solve_duplicates", &rc, &d, &id) {
        return out;
    }
    for limit in [2, 3 + (seed % 4) as usize] {
        let m = tri!(out, "solve_mul_fanout_limit", rc.solve_mul_fanout_limit(limit));
        for c in m.circuits.values() {
            let mut uses = vec![0usize; c.get_num_variables() + 1];
            for i in &c.instructions {
                if let dest::Instruction::InternalVariable { expr } = i {
                    for t in expr.iter() {
                        if let VarSpec::Quad(a, b) = t.vars {
                            uses[a] += 1;
                            uses[b] += 1;
                        }
                    }
                }
            }
            if uses.iter().any(|x| *x > limit) {
                out.fail(format!("solve_mul_fanout_limit({limit}) leaves a variable that is multiplied more often"));
                return out;
            }
        }
        if same(&mut out, "solve_mul_fanout_limit", &rc, &m, &id) {
            return out;
        }
    }
    let (from, name) = if K == 1 { (e, "split_to_single_layer (exported)") } else { (rc.clone(), "split_to_single_layer") };
    let s = tri!(out, name, layering::ir_split::split_to_single_layer(&from));
    same(&mut out, name, &from, &s, &id);
    out
}
fn c05_map<F: Field>(_: &LProf, seed: u64) -> Out {
    let mut r = Rng::new(seed);
    let gen_map = |r: &mut Rng, n: usize| -> InputMapping {
        let m = r.range(0, n);
        let mut places: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            places.swap(i, r.below(i + 1));
        }
        let mut map = vec![EMPTY; n];
        for (i, x) in places[..m].iter().enumerate() {
            map[*x] = i;
        }
        InputMapping::new(m, map)
    };
    let n = r.range(1, 7);
    let a = gen_map(&mut r, n);
    let b = gen_map(&mut r, a.next_size().max(0));
    let mut out = Out { desc: format!("{a:?} {b:?}"), programs: 1, ..Default::default() };
    out.add(explore::<F>(&opts(), &|| {
        let x = vars::<F>(n, "x");
        if !a.validate() || !b.validate() || !InputMapping::new_identity(n).validate() {
            return Err("a valid input mapping is refused".into());
        }
        let place = |m: &InputMapping, x: &[S<F>]| {
            let mut y = vec![None; m.next_size()];
            for (i, t) in m.mapping().iter().enumerate() {
                if *t != EMPTY {
                    y[*t] = Some(x[i]);
                }
            }
            y.into_iter().map(|x| x.unwrap()).collect::<Vec<S<F>>>()
        };
        let y = a.map_inputs(&x);
        let z = b.map_inputs(&y);
        crate::p_compile::same_outputs(&place(&a, &x), &y, "map_inputs")?;
        crate::p_compile::same_outputs(&place(&b, &y), &z, "map_inputs")?;
        let c = a.compose(&b);
        let mut d = a.clone();
        d.compose_in_place(&b);
        if c != d || c.cur_size() != n || c.next_size() != b.next_size() || !c.validate() {
            return Err("composing input mappings goes wrong".into());
        }
        for i in 0..n {
            if a.map(i) != a.mapping()[i] {
                return Err("map gives another position".into());
            }
        }
        crate::p_compile::same_outputs(&z, &c.map_inputs(&x), "compose")?;
        crate::p_compile::same_outputs(&x, &InputMapping::new_identity(n).map_inputs(&x), "identity")?;
        note("mappings");
        Ok(())
    }));
    // not mappings: a place used twice, a place out of range, a place left empty
    let mut bad = vec![];
    let m: Vec<usize> = (0..n).collect();
    let mut t = m.clone();
    t[0] = n;
    bad.push(InputMapping::new(n, t));
    bad.push(InputMapping::new(n + 1, m.clone()));
    if n > 1 {
        let mut t = m.clone();
        t[1] = 0;
        bad.push(InputMapping::new(n, t.clone()));
        t[1] = EMPTY;
        bad.push(InputMapping::new(n, t));
    }
    if bad.iter().any(|b| b.validate()) {
        out.fail("an invalid input mapping is accepted");
    }
    out
}

// ------------------------------------------------------------------ layering
fn c06_case<F: Field, const K: usize, I: InputType + 'static>(p: &LProf, seed: u64) -> Out
where
    SymConfig<F, K>: Config,
{
    let mut r = Rng::new(seed);
    let mut rc: dest::RootCircuit<SymConfig<F, K>> = gen_dest(&IProf { strict: true, random: false, ..ip(p) }, seed);
    let mut out = Out { desc: String::new(), ..Default::default() };
    if K == 1 {
        // constraints have become outputs by then
        let relaxed = dest::RootCircuitRelaxed::<SymConfig<F, K>> {
            num_public_inputs: rc.num_public_inputs,
            expected_num_output_zeroes: rc.expected_num_output_zeroes,
            circuits: rc
                .circuits
                .iter()
                .map(|(k, c)| {
                    (*k, common::Circuit { instructions: c.instructions.clone(), constraints: c.constraints.clone(), outputs: c.outputs.clone(), num_inputs: c.num_inputs })
                })
                .collect(),
        };
        let Some(x) = guarded(|| {
            let mut e = relaxed.export_constraints();
            e.reassign_duplicate_sub_circuit_outputs(true);
            e.solve_duplicates()
        }) else {
            // C05's concern
            out.refused += 1;
            return out;
        };
        rc = x;
    }
    let reorder = r.chance(70);
    out.desc = format!("reorder={reorder} {rc:?}");
    if let Err(e) = rc.validate() {
        out.fail(format!("a valid dest program is refused: {e:?}"));
        return out;
    }
    let (lc, im) = tri!(out, "layering::compile", layering::compile::<SymConfig<F, K>, I>(&rc, layering::CompileOptions { allow_input_reorder: reorder }));
    if let Err(e) = lc.validate() {
        out.fail(format!("layering makes an invalid circuit of a valid program: {e:?}"));
        return out;
    }
    if im.cur_size() != rc.input_size() || im.next_size() != lc.input_size() {
        out.fail("layering: the input mapping does not fit".to_string());
        return out;
    }
    let mut seen = std::collections::HashSet::new();
    if im.mapping().iter().any(|x| *x == EMPTY || *x >= im.next_size() || !seen.insert(*x)) {
        out.fail("layering: an input is lost or shares its place".to_string());
        return out;
    }
    if !reorder && im.mapping().iter().enumerate().any(|(i, x)| i != *x) {
        out.fail("layering reorders inputs though told not to".to_string());
        return out;
    }
    out.note(if reorder { "reordered" } else { "in order" });
    out.programs += 1;
    out.add(explore::<F>(&opts(), &|| {
        let _h = Hints::<F>::reset();
        let x = vars(rc.input_size(), "x");
        let pb = vars(rc.num_public_inputs, "pub");
        let want = ir(&rc, &x, &pb);
        // places no input goes to can hold anything
        let mut y = vars(im.next_size(), "unused");
        for (i, m) in im.mapping().iter().enumerate() {
            y[*m] = x[i];
        }
        let (o, ok) = layered_ref(&lc, &y, &pb);
        match (want, ok) {
            (None, false) => {
                note("rejected");
                Ok(())
            }
            (Some(w), true) => {
                note("accepted");
                crate::p_compile::same_outputs(&w, &o, "layering")
            }
            (Some(_), false) => Err("~layering: an accepted input is rejected afterwards".into()),
            (None, true) => Err("layering: a rejected input is accepted afterwards".into()),
        }
    }));
    out
}
fn layered_ref<F: Field, const K: usize, I: InputType>(
    c: &expander_compiler::circuit::layered::Circuit<SymConfig<F, K>, I>,
    x: &[S<F>],
    pb: &[S<F>],
) -> (Vec<S<F>>, bool) {
    reference::<F, SymConfig<F, K>, I>(c, x, pb)
}

// ------------------------------------------------------------------ families
fn prof(p: u64, shape: usize, customs: bool) -> LProf {
    LProf { p, max_log: 2, layers: 3, pool: shape, gates: 6, customs, common: false, relays_only: false, random: false, nest: false }
}
fn c05(e: Env) -> Vec<Case> {
    let n = e.pick(150, 4000);
    let mut v = vec![];
    type N = NormalInputType;
    for sh in [0, 1, 2] {
        let t = ["small", "wide", "deep"][sh];
        famc::<F3, N>(&mut v, &format!("hn-{t}"), prof(3, sh, sh == 0), n, e.seed, c05_hn::<F3>);
        famc::<F3, N>(&mut v, &format!("hl-{t}"), prof(3, sh, sh == 0), n, e.seed, c05_hl::<F3>);
        famc::<F2, N>(&mut v, &format!("hl2-{t}"), prof(2, sh, sh == 0), n, e.seed, c05_hl::<F2>);
        famc::<F3, N>(&mut v, &format!("dest-{t}"), LProf { random: true, ..prof(3, sh, sh == 0) }, n, e.seed, c05_dest::<F3, 0>);
        famc::<F2, N>(&mut v, &format!("dest2-{t}"), prof(2, sh, sh == 0), n, e.seed, c05_dest::<F2, 1>);
        famc::<M31, N>(&mut v, &format!("dest31-{t}"), prof(1 << 31, sh, false), n, e.seed, c05_dest::<M31, 0>);
        famc::<M31, N>(&mut v, &format!("hl31-{t}"), prof(1 << 31, sh, false), n, e.seed, c05_hl::<M31>);
    }
    famc::<F3, N>(&mut v, "src-f3", prof(3, 0, true), 2 * n, e.seed, c05_src::<F3>);
    famc::<F5, N>(&mut v, "src-f5", prof(5, 0, true), n, e.seed, c05_src::<F5>);
    famc::<F2, N>(&mut v, "src-gf2", prof(2, 0, true), n, e.seed, c05_src::<F2>);
    famc::<F3, N>(&mut v, "map", prof(3, 0, true), n, e.seed, c05_map::<F3>);
    finish(v)
}
fn c06(e: Env) -> Vec<Case> {
    let n = e.pick(200, 5000);
    let mut v = vec![];
    type N = NormalInputType;
    type X = CrossLayerInputType;
    for sh in [0, 1, 2] {
        let t = ["small", "wide", "deep"][sh];
        famc::<F3, N>(&mut v, &format!("f3-{t}"), prof(3, sh, sh == 0), n, e.seed, c06_case::<F3, 0, N>);
        famc::<F3, X>(&mut v, &format!("f3x-{t}"), prof(3, sh, sh == 0), n, e.seed, c06_case::<F3, 0, X>);
        famc::<F2, N>(&mut v, &format!("gf2-{t}"), prof(2, sh, sh == 0), n, e.seed, c06_case::<F2, 1, N>);
        famc::<F2, X>(&mut v, &format!("gf2x-{t}"), prof(2, sh, sh == 0), n, e.seed, c06_case::<F2, 1, X>);
        famc::<M31, N>(&mut v, &format!("m31-{t}"), prof(1 << 31, sh, false), n, e.seed, c06_case::<M31, 0, N>);
        famc::<M31, X>(&mut v, &format!("m31x-{t}"), prof(1 << 31, sh, false), n, e.seed, c06_case::<M31, 0, X>);
    }
    finish(v)
}
pub fn props() -> Vec<Prop> {
    let _: Option<(SC<F3>, C1<F2>)> = None;
    vec![
        Prop {
            id: "C05",
            reach: &[
                "accepted",
                "rejected",
                "source remove_unreachable",
                "detect_chains",
                "hint_normalize",
                "witness program remove_unreachable",
                "remove_and_export_hints",
                "add_back_removed_inputs",
                "hint-less remove_unreachable",
                "final_build_opt",
                "dest remove_unreachable",
                "export_constraints",
                "solve_duplicates",
                "solve_mul_fanout_limit",
                "split_to_single_layer",
                "split_to_single_layer (exported)",
                "mappings",
            ],
            cases: c05,
        },
        Prop { id: "C06", reach: &["accepted", "rejected", "reordered", "in order"], cases: c06 },
    ]
}
