//! Serialized forms, export to Expander, the witness solver.
use crate::p_compile::{compile_prog, finish, guarded, options, same_outputs};
use crate::p_layered::{custom, famc, gen_layered, reference, show, split, LProf, SC};
use crate::prog::*;
use crate::rep::*;
use arith::Field;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::input_mapping::{InputMapping, EMPTY};
use expander_compiler::circuit::ir::expr::{LinComb, LinCombTerm};
use expander_compiler::circuit::ir::hint_normalized::{self as hnm, witness_solver::WitnessSolver};
use expander_compiler::circuit::ir::source as src;
use expander_compiler::circuit::layered::*;
use serdes::ExpSerde;
use std::collections::HashMap;
use symf::*;

type R = Result<(), String>;
fn opts() -> Opts {
    Opts { max_paths: 400, max_time: std::time::Duration::from_secs(8), timeout_ms: 4000, ..Default::default() }
}

// ------------------------------------------------------------------ the formats, as the Go side writes and reads them
/// the format leaves the order of circuits open; the one written is taken over
fn order<T>(m: &HashMap<usize, T>) -> Vec<(&usize, &T)> {
    let mut v: Vec<_> = m.iter().collect();
    let mut b = vec![];
    m.iter().map(|(k, _)| (*k, ())).collect::<HashMap<usize, ()>>().serialize_into(&mut b).unwrap();
    let pos = |k: &usize| b[8..].chunks(8).position(|c| c == k.to_le_bytes()).unwrap_or(0);
    v.sort_by_key(|x| pos(x.0));
    v
}
#[derive(Default)]
struct W(Vec<u8>);
impl W {
    fn b(&mut self, x: u8) {
        self.0.push(x)
    }
    fn u(&mut self, x: usize) {
        self.0.extend((x as u64).to_le_bytes())
    }
    fn us(&mut self, x: &[usize]) {
        self.u(x.len());
        for y in x {
            self.u(*y)
        }
    }
    fn f<T: ExpSerde>(&mut self, x: &T) {
        x.serialize_into(&mut self.0).unwrap()
    }
}
fn w_coef<C: Config>(w: &mut W, c: &Coef<C>) {
    match c {
        Coef::Constant(c) => {
            w.b(1);
            w.f(c)
        }
        Coef::Random => w.b(2),
        Coef::PublicInput(i) => {
            w.b(3);
            w.u(*i)
        }
    }
}
fn w_lin<C: Config>(w: &mut W, l: &LinComb<C>) {
    w.u(l.terms.len());
    for t in &l.terms {
        w.u(t.var)
    }
    for t in &l.terms {
        w.f(&t.coef)
    }
    w.f(&l.constant)
}
fn w_src_ins<C: Config>(w: &mut W, i: &src::Instruction<C>) {
    use src::BoolBinOpType as B;
    use src::Instruction as I;
    use src::UnconstrainedBinOpType as U;
    match i {
        I::LinComb(l) => {
            w.b(1);
            w_lin(w, l)
        }
        I::Mul(v) => {
            w.b(2);
            w.us(v)
        }
        I::Div { x, y, checked } => {
            w.b(3);
            w.u(*x);
            w.u(*y);
            w.b(*checked as u8)
        }
        I::BoolBinOp { x, y, op } => {
            w.b(4);
            w.u(*x);
            w.u(*y);
            w.b(match op {
                B::Xor => 1,
                B::Or => 2,
                B::And => 3,
            })
        }
        I::IsZero(x) => {
            w.b(5);
            w.u(*x)
        }
        I::Commit(v) => {
            w.b(6);
            w.us(v)
        }
        I::Hint { hint_id, inputs, num_outputs } => {
            w.b(7);
            w.u(*hint_id);
            w.us(inputs);
            w.u(*num_outputs)
        }
        I::ConstantLike(c) => {
            w.b(8);
            w_coef(w, c)
        }
        I::SubCircuitCall { sub_circuit_id, inputs, num_outputs } => {
            w.b(9);
            w.u(*sub_circuit_id);
            w.us(inputs);
            w.u(*num_outputs)
        }
        I::UnconstrainedBinOp { x, y, op } => {
            w.b(10);
            w.u(*x);
            w.u(*y);
            w.b(match op {
                U::Div => 1,
                U::Pow => 2,
                U::IntDiv => 3,
                U::Mod => 4,
                U::ShiftL => 5,
                U::ShiftR => 6,
                U::LesserEq => 7,
                U::GreaterEq => 8,
                U::Lesser => 9,
                U::Greater => 10,
                U::Eq => 11,
                U::NotEq => 12,
                U::BoolOr => 13,
                U::BoolAnd => 14,
                U::BitOr => 15,
                U::BitAnd => 16,
                U::BitXor => 17,
            })
        }
        I::UnconstrainedSelect { cond, if_true, if_false } => {
            w.b(11);
            w.u(*cond);
            w.u(*if_true);
            w.u(*if_false)
        }
        I::CustomGate { gate_type, inputs } => {
            w.b(12);
            w.u(*gate_type);
            w.us(inputs)
        }
        I::ToBinary { x, num_bits } => {
            w.b(13);
            w.u(*x);
            w.u(*num_bits)
        }
    }
}
fn w_hn_ins<C: Config>(w: &mut W, i: &hnm::Instruction<C>) {
    use hnm::Instruction as I;
    match i {
        I::LinComb(l) => {
            w.b(1);
            w_lin(w, l)
        }
        I::Mul(v) => {
            w.b(2);
            w.us(v)
        }
        I::Hint { hint_id, inputs, num_outputs } => {
            w.b(3);
            w.u(*hint_id);
            w.us(inputs);
            w.u(*num_outputs)
        }
        I::ConstantLike(c) => {
            w.b(4);
            w_coef(w, c)
        }
        I::SubCircuitCall { sub_circuit_id, inputs, num_outputs } => {
            w.b(5);
            w.u(*sub_circuit_id);
            w.us(inputs);
            w.u(*num_outputs)
        }
        I::CustomGate { gate_type, inputs } => {
            w.b(6);
            w.u(*gate_type);
            w.us(inputs)
        }
    }
}
fn w_src<C: Config>(c: &src::RootCircuit<C>) -> Vec<u8> {
    let mut w = W::default();
    w.u(C::CONFIG_ID);
    w.u(c.num_public_inputs);
    w.u(c.expected_num_output_zeroes);
    w.u(c.circuits.len());
    for (id, c) in order(&c.circuits) {
        w.u(*id);
        w.u(c.instructions.len());
        for i in &c.instructions {
            w_src_ins(&mut w, i)
        }
        w.u(c.constraints.len());
        for k in &c.constraints {
            w.b(match k.typ {
                src::ConstraintType::Zero => 1,
                src::ConstraintType::NonZero => 2,
                src::ConstraintType::Bool => 3,
            });
            w.u(k.var)
        }
        w.us(&c.outputs);
        w.u(c.num_inputs)
    }
    w.0
}
fn w_hn<C: Config>(c: &hnm::RootCircuit<C>) -> Vec<u8> {
    let mut w = W::default();
    w.u(C::CONFIG_ID);
    w.u(c.num_public_inputs);
    w.u(c.expected_num_output_zeroes);
    w.u(c.circuits.len());
    for (id, c) in order(&c.circuits) {
        w.u(*id);
        w.u(c.instructions.len());
        for i in &c.instructions {
            w_hn_ins(&mut w, i)
        }
        w.us(&c.constraints);
        w.us(&c.outputs);
        w.u(c.num_inputs)
    }
    w.0
}
fn w_lay<F: Field, C: Config, I: InputType>(c: &Circuit<C, I>) -> Vec<u8> {
    let mut w = W::default();
    let sizes = |w: &mut W, n: &I::InputUsize| {
        if I::CROSS_LAYER_RELAY {
            w.us(&n.to_vec())
        } else {
            w.u(n.get(0))
        }
    };
    fn inp<N: Input>(w: &mut W, cross: bool, i: &N) {
        if cross {
            w.u(i.layer())
        }
        w.u(i.offset())
    }
    let x = I::CROSS_LAYER_RELAY;
    w.u(3914834606642317635);
    w.f(&F::MODULUS);
    w.u(c.num_public_inputs);
    w.u(c.num_actual_outputs);
    w.u(c.expected_num_output_zeroes);
    w.u(c.segments.len());
    for s in &c.segments {
        sizes(&mut w, &s.num_inputs);
        w.u(s.num_outputs);
        w.u(s.child_segs.len());
        for (id, al) in &s.child_segs {
            w.u(*id);
            w.u(al.len());
            for a in al {
                sizes(&mut w, &a.input_offset);
                w.u(a.output_offset)
            }
        }
        macro_rules! gates {
            ($g:expr) => {
                w.u($g.len());
                for g in &$g {
                    for i in &g.inputs {
                        inp(&mut w, x, i)
                    }
                    w.u(g.output);
                    w_coef(&mut w, &g.coef)
                }
            };
        }
        gates!(s.gate_muls);
        gates!(s.gate_adds);
        gates!(s.gate_consts);
        w.u(s.gate_customs.len());
        for g in &s.gate_customs {
            w.u(g.gate_type);
            w.u(g.inputs.len());
            for i in &g.inputs {
                inp(&mut w, x, i)
            }
            w.u(g.output);
            w_coef(&mut w, &g.coef)
        }
    }
    w.us(&c.layer_ids);
    w.0
}

// ------------------------------------------------------------------ round trips
/// writing gives the format's bytes; reading gives the value back, takes exactly its own bytes, and fails on every
/// strict prefix
fn roundtrip<T: ExpSerde + PartialEq>(x: &T, want: Option<Vec<u8>>, what: &str) -> Result<T, String> {
    let mut b = vec![];
    x.serialize_into(&mut b).map_err(|e| format!("{what}: writing fails: {e:?}"))?;
    if let Some(w) = want {
        if w != b {
            let at = w.iter().zip(&b).position(|(p, q)| p != q).unwrap_or(w.len().min(b.len()));
            return Err(format!("{what}: the written bytes are not the format's, from byte {at} of {} on", b.len()));
        }
    }
    let n = b.len();
    let mut two = b.clone();
    two.extend(&b);
    let mut r: &[u8] = &two;
    for k in 0..2 {
        let y = T::deserialize_from(&mut r).map_err(|e| format!("{what}: reading copy {k} back fails: {e:?}"))?;
        if r.len() != (1 - k) * n {
            return Err(format!("{what}: reading takes {} of {n} bytes", two.len() - k * n - r.len()));
        }
        if y != *x {
            return Err(format!("~{what}: reading back gives something else"));
        }
    }
    let step = (n / 40).max(1);
    for cut in (0..n).step_by(step).chain(n.saturating_sub(9)..n) {
        if guarded(|| T::deserialize_from(&b[..cut]).is_err()) != Some(true) {
            return Err(format!("{what}: {cut} of {n} bytes are taken for a whole"));
        }
    }
    T::deserialize_from(&b[..]).map_err(|e| format!("{what}: {e:?}"))
}
fn refused<T: ExpSerde>(b: &[u8], what: &str) -> R {
    match guarded(|| T::deserialize_from(b).is_err()) {
        Some(true) => Ok(()),
        Some(false) => Err(format!("{what} is accepted")),
        None => Err(format!("{what} makes reading panic")),
    }
}
/// makes some constants symbolic
struct Fresh(Rng, usize);
impl Fresh {
    fn c<F: Field>(&mut self, x: Sym<F>) -> Sym<F> {
        if self.0.chance(40) && self.1 < 8 {
            self.1 += 1;
            Sym::var(&format!("coef{}", self.1))
        } else {
            x
        }
    }
    fn coef<F: Field>(&mut self, x: &Coef<SC<F>>) -> Coef<SC<F>> {
        match x {
            Coef::Constant(c) => Coef::Constant(self.c(*c)),
            _ => *x,
        }
    }
    fn lin<F: Field>(&mut self, l: &LinComb<SC<F>>) -> LinComb<SC<F>> {
        LinComb {
            terms: l.terms.iter().map(|t| LinCombTerm { var: t.var, coef: self.c(t.coef) }).collect(),
            constant: self.c(l.constant),
        }
    }
}
fn sym_coefs<F: Field, I: InputType>(c: &Circuit<SC<F>, I>, seed: u64) -> Circuit<SC<F>, I> {
    let mut f = Fresh(Rng::new(seed), 0);
    let mut c = c.clone();
    for s in &mut c.segments {
        for g in &mut s.gate_muls {
            g.coef = f.coef(&g.coef)
        }
        for g in &mut s.gate_adds {
            g.coef = f.coef(&g.coef)
        }
        for g in &mut s.gate_consts {
            g.coef = f.coef(&g.coef)
        }
        for g in &mut s.gate_customs {
            g.coef = f.coef(&g.coef)
        }
    }
    c
}
fn c09_layered<F: Field, I: InputType>(pr: &LProf, seed: u64) -> Out {
    let c0 = gen_layered::<F, SC<F>, I>(pr, seed);
    let mut out = Out { desc: show(&c0), programs: 1, ..Default::default() };
    let r = explore::<F>(&opts(), &|| {
        let c = sym_coefs(&c0, seed);
        let d = roundtrip(&c, Some(w_lay::<F, _, _>(&c)), "layered circuit")?;
        let x: Vec<Sym<F>> = (0..c.input_size()).map(|i| Sym::var(&format!("x{i}"))).collect();
        let pb: Vec<Sym<F>> = (0..c.num_public_inputs).map(|i| Sym::var(&format!("pub{i}"))).collect();
        let (a, b) = (reference(&c, &x, &pb), reference(&d, &x, &pb));
        if a.1 != b.1 {
            return Err("~the circuit read back gives another verdict".into());
        }
        same_outputs(&a.0, &b.0, "the circuit read back")?;
        let mut bad = w_lay::<F, _, _>(&c);
        bad[2] ^= 1;
        refused::<Circuit<SC<F>, I>>(&bad, "a layered circuit with another magic number")?;
        bad[2] ^= 1;
        bad[8 + seed as usize % 32] ^= 1 << (seed % 8);
        refused::<Circuit<SC<F>, I>>(&bad, "a layered circuit over another field")?;
        note("layered");
        Ok(())
    });
    out.add(r);
    out
}
/// source programs with every kind of instruction; they need not be valid
fn any_src<F: Field>(r: &mut Rng) -> src::RootCircuit<SC<F>> {
    use src::*;
    let k = |r: &mut Rng| Sym::<F>::C(F::from((r.next() >> 33) as u32));
    let id = |r: &mut Rng| match r.below(6) {
        0 => r.next() as usize >> 1,
        _ => r.below(300),
    };
    let vs = |r: &mut Rng, a: usize, b: usize| (0..r.range(a, b)).map(|_| r.below(300)).collect::<Vec<_>>();
    let mut rc = RootCircuit::<SC<F>> { num_public_inputs: r.below(400), expected_num_output_zeroes: r.below(3), ..Default::default() };
    for c in 0..r.range(1, 3) {
        let mut ins = vec![];
        for _ in 0..r.range(0, 8) {
            ins.push(match r.below(13) {
                0 => Instruction::LinComb(LinComb {
                    terms: (0..r.below(4)).map(|_| LinCombTerm { var: id(r), coef: k(r) }).collect(),
                    constant: k(r),
                }),
                1 => Instruction::Mul(vs(r, 0, 4)),
                2 => Instruction::Div { x: id(r), y: id(r), checked: r.chance(50) },
                3 => Instruction::BoolBinOp {
                    x: id(r),
                    y: id(r),
                    op: [BoolBinOpType::Xor, BoolBinOpType::Or, BoolBinOpType::And][r.below(3)].clone(),
                },
                4 => Instruction::IsZero(id(r)),
                5 => Instruction::Commit(vs(r, 0, 3)),
                6 => Instruction::Hint { hint_id: id(r), inputs: vs(r, 0, 4), num_outputs: r.below(300) },
                7 => Instruction::ConstantLike(match r.below(3) {
                    0 => Coef::Constant(k(r)),
                    1 => Coef::Random,
                    _ => Coef::PublicInput(id(r)),
                }),
                8 => Instruction::SubCircuitCall { sub_circuit_id: id(r), inputs: vs(r, 0, 4), num_outputs: r.below(300) },
                9 => {
                    let kk = r.below(17) as u8;
                    Instruction::UnconstrainedBinOp { x: id(r), y: id(r), op: ubin::<SC<F>>(kk) }
                }
                10 => Instruction::UnconstrainedSelect { cond: id(r), if_true: id(r), if_false: id(r) },
                11 => Instruction::CustomGate { gate_type: id(r), inputs: vs(r, 0, 3) },
                _ => Instruction::ToBinary { x: id(r), num_bits: r.below(300) },
            });
        }
        let cons = (0..r.below(4))
            .map(|_| Constraint {
                typ: [ConstraintType::Zero, ConstraintType::NonZero, ConstraintType::Bool][r.below(3)].clone(),
                var: id(r),
            })
            .collect();
        rc.circuits.insert(
            if c == 0 { 0 } else { id(r) },
            Circuit { instructions: ins, constraints: cons, outputs: vs(r, 0, 4), num_inputs: r.below(300) },
        );
    }
    rc
}
fn c09_ir<F: Field>(_: &LProf, seed: u64) -> Out {
    let rc0 = any_src::<F>(&mut Rng::new(seed));
    let mut out = Out { desc: format!("{rc0:?}"), programs: 1, ..Default::default() };
    let prog = gen(&Prof { p: 3, circs: 3, max_in: 3, max_ops: 5, hints: true, ints: true, div: true, pubs: 2, max_cons: 2, nonzero: true, shape: Shape::Small }, seed);
    let hn0 = match compile_prog::<F, 0, NormalInputType>(&prog, &options(seed % 12).0) {
        Ok(Some(c)) => Some(c.hn),
        _ => None,
    };
    let r = explore::<F>(&opts(), &|| {
        let mut f = Fresh(Rng::new(seed), 0);
        let mut rc = src::RootCircuit::<SC<F>> { circuits: HashMap::new(), ..rc0.clone() };
        let mut keys: Vec<_> = rc0.circuits.keys().copied().collect();
        keys.sort();
        for k in keys {
            let mut c = rc0.circuits[&k].clone();
            for i in &mut c.instructions {
                match i {
                    src::Instruction::LinComb(l) => *l = f.lin(l),
                    src::Instruction::ConstantLike(c) => *c = f.coef(c),
                    _ => {}
                }
            }
            rc.circuits.insert(k, c);
        }
        roundtrip(&rc, Some(w_src(&rc)), "source program")?;
        for c in rc.circuits.values() {
            for i in &c.instructions {
                let mut w = W::default();
                w_src_ins(&mut w, i);
                roundtrip(i, Some(w.0.clone()), "source instruction")?;
                // other tags, and other operations under the same tag
                for bad in [0u8, 14, 200] {
                    let mut b = w.0.clone();
                    b[0] = bad;
                    b.extend([0; 64]);
                    refused::<src::Instruction<SC<F>>>(&b, "an unknown source instruction")?;
                }
                if matches!(i, src::Instruction::BoolBinOp { .. } | src::Instruction::UnconstrainedBinOp { .. }) {
                    for bad in [0u8, if w.0[0] == 4 { 4 } else { 18 }, 255] {
                        let mut b = w.0.clone();
                        *b.last_mut().unwrap() = bad;
                        refused::<src::Instruction<SC<F>>>(&b, "an unknown binary operation")?;
                    }
                }
                if let src::Instruction::LinComb(l) = i {
                    let mut w = W::default();
                    w_lin(&mut w, l);
                    roundtrip(l, Some(w.0), "linear combination")?;
                }
                if let src::Instruction::ConstantLike(c) = i {
                    let mut w = W::default();
                    w_coef(&mut w, c);
                    roundtrip(c, Some(w.0), "coefficient")?;
                }
            }
            for k in &c.constraints {
                let mut b = vec![];
                k.serialize_into(&mut b).unwrap();
                roundtrip(k, None, "constraint")?;
                for bad in [0u8, 4] {
                    b[0] = bad;
                    refused::<src::Constraint>(&b, "an unknown constraint")?;
                }
            }
        }
        let mut b = w_src(&rc);
        b[0] ^= 1;
        refused::<src::RootCircuit<SC<F>>>(&b, "a source program for another configuration")?;
        for bad in [0u8, 4, 255] {
            refused::<Coef<SC<F>>>(&[bad, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], "an unknown coefficient")?;
        }
        if let Some(hn) = &hn0 {
            roundtrip(hn, Some(w_hn(hn)), "witness program")?;
            let ws = WitnessSolver { circuit: hn.clone() };
            let mut b = vec![];
            ws.serialize_into(&mut b).map_err(|e| format!("{e:?}"))?;
            if b != w_hn(hn) {
                return Err("the witness solver's bytes are not its circuit's".into());
            }
            let back = WitnessSolver::<SC<F>>::deserialize_from(&b[..]).map_err(|e| format!("{e:?}"))?;
            if back.circuit != *hn {
                return Err("the witness solver read back has another circuit".into());
            }
            for c in hn.circuits.values() {
                for i in &c.instructions {
                    let mut w = W::default();
                    w_hn_ins(&mut w, i);
                    for bad in [0u8, 7, 255] {
                        let mut b = w.0.clone();
                        b[0] = bad;
                        b.extend([0; 64]);
                        refused::<hnm::Instruction<SC<F>>>(&b, "an unknown witness program instruction")?;
                    }
                }
            }
            note("witness program");
        }
        // hint_normalized instructions the compiler did not happen to emit
        for i in [
            hnm::Instruction::<SC<F>>::CustomGate { gate_type: 1 + seed as usize % 1000, inputs: vec![1, 2, 3] },
            hnm::Instruction::Hint { hint_id: seed as usize, inputs: vec![7, 8], num_outputs: 5 },
            hnm::Instruction::ConstantLike(Coef::PublicInput(seed as usize % 70000)),
            hnm::Instruction::ConstantLike(Coef::Random),
            hnm::Instruction::LinComb(LinComb { terms: vec![LinCombTerm { var: 3, coef: f.c(Sym::C(F::ONE)) }], constant: Sym::var("lc") }),
            hnm::Instruction::Mul(vec![2, 1, 1]),
            hnm::Instruction::SubCircuitCall { sub_circuit_id: seed as usize, inputs: vec![], num_outputs: 300 },
        ] {
            let mut w = W::default();
            w_hn_ins(&mut w, &i);
            roundtrip(&i, Some(w.0), "witness program instruction")?;
        }
        note("source");
        Ok(())
    });
    if out.add(r) {
        return out;
    }
    // input mappings
    let mut r = Rng::new(seed ^ 77);
    let n = r.below(6);
    let m = r.below(6);
    let map: Vec<usize> = (0..n).map(|_| if m == 0 || r.chance(30) { EMPTY } else { r.below(m) }).collect();
    let im = InputMapping::new(m, map);
    match roundtrip(&im, None, "input mapping") {
        Err(e) => out.fail(e),
        Ok(_) => out.note("mapping"),
    }
    out
}

// ------------------------------------------------------------------ export to Expander
fn ecoef<F: Field>(t: &expander_circuit::CoefType, c: Sym<F>, pb: &[Sym<F>]) -> Sym<F> {
    use expander_circuit::CoefType::*;
    match t {
        Constant => c,
        Random => ctx::new_rand(),
        PublicInput(i) => pb[*i],
    }
}
/// what Expander's recursive circuit format means
fn run_expander<F: Field>(c: &expander_circuit::RecursiveCircuit<SC<F>>, x: &[Sym<F>], pb: &[Sym<F>]) -> Result<Vec<Sym<F>>, String> {
    fn seg<F: Field>(
        c: &expander_circuit::RecursiveCircuit<SC<F>>,
        id: usize,
        i: &[Sym<F>],
        o: &mut [Sym<F>],
        pb: &[Sym<F>],
    ) -> R {
        let s = c.segments.get(id).ok_or("a segment that does not exist")?;
        let (ni, no) = (1 << s.i_var_num, 1 << s.o_var_num);
        if ni > i.len() || no > o.len() {
            return Err("a segment larger than the room it is given".into());
        }
        for (gs, t) in [(s.gate_muls.iter().map(|g| g.gate_type).collect::<Vec<_>>(), 0), (s.gate_adds.iter().map(|g| g.gate_type).collect(), 1), (s.gate_consts.iter().map(|g| g.gate_type).collect(), 2)] {
            if gs.iter().any(|g| *g != t) {
                return Err("a gate of the wrong type".into());
            }
        }
        for g in &s.gate_muls {
            o[g.o_id] = o[g.o_id] + i[g.i_ids[0]] * i[g.i_ids[1]] * ecoef(&g.coef_type, g.coef, pb);
        }
        for g in &s.gate_adds {
            o[g.o_id] = o[g.o_id] + i[g.i_ids[0]] * ecoef(&g.coef_type, g.coef, pb);
        }
        for g in &s.gate_consts {
            o[g.o_id] = o[g.o_id] + ecoef(&g.coef_type, g.coef, pb);
        }
        for g in &s.gate_uni {
            o[g.o_id] = o[g.o_id] + custom(g.gate_type, &[i[g.i_ids[0]]]) * ecoef(&g.coef_type, g.coef, pb);
        }
        for (id, al) in &s.child_segs {
            for a in al {
                let n = c.segments.get(*id).ok_or("a segment that does not exist")?;
                let (ni, no) = (1 << n.i_var_num, 1 << n.o_var_num);
                let (Some(i), Some(o)) = (i.get(a.i_offset..a.i_offset + ni), o.get_mut(a.o_offset..a.o_offset + no)) else {
                    return Err("an allocation outside its segment".into());
                };
                seg(c, *id, i, o, pb)?;
            }
        }
        Ok(())
    }
    let mut v = x.to_vec();
    for l in &c.layers {
        let s = &c.segments[*l];
        if v.len() != 1 << s.i_var_num {
            return Err("a layer whose size is not the previous layer's".into());
        }
        let mut o = vec![Sym::C(F::ZERO); 1 << s.o_var_num];
        seg(c, *l, &v, &mut o, pb)?;
        v = o;
    }
    Ok(v)
}
fn run_cross<F: Field>(c: &crosslayer_prototype::CrossLayerRecursiveCircuit<SC<F>>, x: &[Sym<F>], pb: &[Sym<F>]) -> Result<Vec<Sym<F>>, String> {
    type Cr<F> = crosslayer_prototype::CrossLayerRecursiveCircuit<SC<F>>;
    fn co<F: Field>(t: &crosslayer_prototype::CoefType, c: Sym<F>, pb: &[Sym<F>]) -> Sym<F> {
        use crosslayer_prototype::CoefType::*;
        match t {
            Constant => c,
            Random => ctx::new_rand(),
            PublicInput(i) => pb[*i],
        }
    }
    fn seg<F: Field>(c: &Cr<F>, id: usize, vals: &[Vec<Sym<F>>], cur: usize, io: &[usize], oo: usize, out: &mut Vec<Sym<F>>, pb: &[Sym<F>]) -> R {
        let s = &c.segments[id];
        if io.len() < s.input_size.len() {
            return Err("an allocation with too few input offsets".into());
        }
        for (l, n) in s.input_size.iter().enumerate() {
            if l > cur || io[l] + n > vals[cur - l].len() {
                return Err("a segment that reads outside its input".into());
            }
        }
        if oo + s.output_size > out.len() {
            return Err("a segment that writes outside its output".into());
        }
        let at = |l: usize, i: usize| vals[cur - l][io[l] + i];
        for g in &s.gate_muls {
            out[oo + g.o_id] = out[oo + g.o_id] + at(0, g.i_ids[0]) * at(0, g.i_ids[1]) * co(&g.coef_type, g.coef, pb);
        }
        for g in &s.gate_adds {
            out[oo + g.o_id] = out[oo + g.o_id] + at(0, g.i_ids[0]) * co(&g.coef_type, g.coef, pb);
        }
        for g in &s.gate_csts {
            out[oo + g.o_id] = out[oo + g.o_id] + co(&g.coef_type, g.coef, pb);
        }
        for g in &s.gate_relay {
            out[oo + g.o_id] = out[oo + g.o_id] + at(g.i_layer, g.i_id) * g.coef;
        }
        for (id, al) in &s.child_segs {
            for a in al {
                let io2: Vec<usize> = a.i_offset.iter().enumerate().map(|(l, x)| io[l] + x).collect();
                seg(c, *id, vals, cur, &io2, oo + a.o_offset, out, pb)?;
            }
        }
        Ok(())
    }
    let mut vals = vec![x.to_vec()];
    for l in &c.layers {
        let s = &c.segments[*l];
        let cur = vals.len() - 1;
        let mut out = vec![Sym::C(F::ZERO); s.output_size];
        seg(c, *l, &vals, cur, &vec![0; s.input_size.len()], 0, &mut out, pb)?;
        vals.push(out);
    }
    Ok(vals.pop().unwrap())
}
pub trait Exp: InputType + 'static {
    fn export<F: Field>(c: &Circuit<SC<F>, Self>, x: &[Sym<F>], pb: &[Sym<F>]) -> Result<(Vec<Sym<F>>, bool), String>
    where
        Self: Sized;
}
fn cut<F: Field>(o: Vec<Sym<F>>, z: usize, n: usize) -> Result<(Vec<Sym<F>>, bool), String> {
    if n > o.len() || z > n {
        return Err("more outputs than there are".into());
    }
    Ok((o[z..n].to_vec(), o[..z].iter().all(|x| x.is_zero())))
}
impl Exp for NormalInputType {
    fn export<F: Field>(c: &Circuit<SC<F>, Self>, x: &[Sym<F>], pb: &[Sym<F>]) -> Result<(Vec<Sym<F>>, bool), String> {
        let e = guarded(|| c.export_to_expander::<SC<F>>()).ok_or("exporting a valid circuit panics")?;
        if e.num_public_inputs != c.num_public_inputs || e.expected_num_output_zeros != c.expected_num_output_zeroes || e.num_outputs != c.num_actual_outputs {
            return Err("the exported circuit declares other inputs or outputs".into());
        }
        let o = run_expander(&e, x, pb)?;
        cut(o, e.expected_num_output_zeros, e.num_outputs)
    }
}
impl Exp for CrossLayerInputType {
    fn export<F: Field>(c: &Circuit<SC<F>, Self>, x: &[Sym<F>], pb: &[Sym<F>]) -> Result<(Vec<Sym<F>>, bool), String> {
        let e = guarded(|| c.export_to_expander::<SC<F>>()).ok_or("exporting a valid circuit panics")?;
        if e.num_public_inputs != c.num_public_inputs || e.expected_num_output_zeros != c.expected_num_output_zeroes || e.num_outputs != c.num_actual_outputs {
            return Err("the exported circuit declares other inputs or outputs".into());
        }
        let o = run_cross(&e, x, pb)?;
        cut(o, e.expected_num_output_zeros, e.num_outputs)
    }
}
fn compare_export<F: Field, I: Exp>(c0: &Circuit<SC<F>, I>, seed: u64, tag: &str) -> (Stats, Option<Violation>) {
    explore::<F>(&opts(), &|| {
        let c = sym_coefs(c0, seed);
        let x: Vec<Sym<F>> = (0..c.input_size()).map(|i| Sym::var(&format!("x{i}"))).collect();
        let pb: Vec<Sym<F>> = (0..c.num_public_inputs).map(|i| Sym::var(&format!("pub{i}"))).collect();
        let a = reference(&c, &x, &pb);
        let b = I::export(&c, &x, &pb)?;
        if a.1 != b.1 {
            return Err("~the exported circuit gives another verdict".into());
        }
        note(tag);
        note(if a.1 { "accepted" } else { "rejected" });
        same_outputs(&a.0, &b.0, "the exported circuit")
    })
}
fn c10_gen<F: Field, I: Exp>(pr: &LProf, seed: u64) -> Out {
    let mut c = gen_layered::<F, SC<F>, I>(pr, seed);
    if I::CROSS_LAYER_RELAY {
        for s in &mut c.segments {
            s.gate_customs.clear();
        }
    } else {
        // Expander's gates of this kind have one input
        for s in &mut c.segments {
            for g in &mut s.gate_customs {
                g.inputs.truncate(1);
                g.gate_type = expander_compiler::hints::BuiltinHintIds::Identity as u64 as usize;
            }
        }
    }
    let mut out = Out { desc: show(&c), programs: 1, ..Default::default() };
    out.add(compare_export(&c, seed, "generated"));
    out
}
fn c10_prog<F: Field, I: Exp>(pr: &LProf, seed: u64) -> Out {
    let p = gen(
        &Prof { p: pr.p, circs: 4, max_in: 3, max_ops: 6, hints: true, ints: pr.p <= 7, div: true, pubs: 2, max_cons: 3, nonzero: true, shape: Shape::Small },
        seed,
    );
    let (o, os) = options(seed % 144);
    let mut out = Out { desc: format!("{} with {os}", p.show()), ..Default::default() };
    match compile_prog::<F, 0, I>(&p, &o) {
        Ok(Some(c)) => {
            out.programs += 1;
            out.add(compare_export(&c.lc, seed, "compiled"));
        }
        // C01's and C03's concern
        _ => out.refused += 1,
    }
    out
}

// ------------------------------------------------------------------ witness solver
fn c16_case<F: Field, const K: usize>(pr: &LProf, seed: u64) -> Out {
    let p = gen(
        &Prof { p: pr.p, circs: 3, max_in: 3, max_ops: 5, hints: true, ints: pr.p <= 5, div: true, pubs: 2, max_cons: 2, nonzero: true, shape: Shape::Small },
        seed,
    );
    let (o, os) = options(seed % 144);
    let k = 1 + (seed % 5) as usize;
    let mut out = Out { desc: format!("{k} witnesses for {} with {os}", p.show()), ..Default::default() };
    let Ok(Some(c)) = compile_prog::<F, K, NormalInputType>(&p, &o) else {
        out.refused += 1;
        return out;
    };
    out.programs += 1;
    let ws = WitnessSolver { circuit: c.hn.clone() };
    let (a, b) = (p.circs[0].n_in, p.pubs);
    let mut r = Rng::new(seed);
    let fixed: Vec<u32> = (0..k * (a + b)).map(|_| r.below(3) as u32).collect();
    let symbolic: Vec<bool> = (0..k * (a + b)).map(|_| r.chance((400 / (k * (a + b))).min(100))).collect();
    let res = explore::<F>(&opts(), &|| {
        let v: Vec<Sym<F>> =
            (0..k * (a + b)).map(|i| if symbolic[i] { Sym::var(&format!("w{i}")) } else { Sym::C(F::from(fixed[i])) }).collect();
        let h = Hints::<F>::reset();
        let wit = |j: usize| (v[j * (a + b)..j * (a + b) + a].to_vec(), v[j * (a + b) + a..(j + 1) * (a + b)].to_vec());
        // each on its own, through the solver
        let mut alone: Vec<Option<Vec<Sym<F>>>> = vec![];
        let mut sems = vec![];
        for j in 0..k {
            let (x, pb) = wit(j);
            let sem = meaning(&p, &x, &pb, false);
            let e = guarded(|| c.hn.eval_safe(x.clone(), &pb, &h)).and_then(|x| x.ok());
            let s = guarded(|| ws.solve_witness_from_raw_inputs(x.clone(), pb.clone(), &h)).and_then(|x| x.ok());
            match (&e, &s) {
                (None, None) => {}
                (Some(e), Some(s)) => {
                    if s.num_witnesses != 1 || s.num_inputs_per_witness != e.len() || s.num_public_inputs_per_witness != b {
                        return Err("one witness: wrong dimensions".into());
                    }
                    let got: Vec<_> = s.iter_scalar().collect();
                    if got.len() != 1 || got[0].1.len() != b {
                        return Err("one witness: wrong dimensions".into());
                    }
                    same_outputs(e, &got[0].0, "one witness, inputs")?;
                    same_outputs(&pb, &got[0].1, "one witness, public inputs")?;
                    let (ok, o) = c.lc.run_with_output(s);
                    match &sem {
                        Sem::Accept(w) => {
                            if ok != [true] {
                                return Err("~the source accepts an input whose witness the circuit rejects".into());
                            }
                            same_outputs(w, &o[0], "one witness, outputs")?;
                        }
                        Sem::Reject if ok == [true] => return Err("the source rejects an input whose witness the circuit accepts".into()),
                        _ => {}
                    }
                }
                _ => return Err("~solving a witness fails where evaluating the witness program succeeds, or the other way round".into()),
            }
            if let (Sem::Accept(_), None) = (&sem, &s) {
                return Err("~the source accepts an input for which no witness is found".into());
            }
            alone.push(e);
            sems.push(sem);
        }
        // all at once
        let all = guarded(|| ws.solve_witnesses_from_raw_inputs(k, |j| wit(j), &h)).and_then(|x| x.ok());
        match all {
            None => {
                if alone.iter().all(|x| x.is_some()) {
                    return Err("~no witnesses are found together, though each is found alone".into());
                }
                note("unsolvable");
            }
            Some(w) => {
                if alone.iter().any(|x| x.is_none()) {
                    return Err("~witnesses are found together, though one is not found alone".into());
                }
                if w.num_witnesses != k || w.num_public_inputs_per_witness != b || w.num_inputs_per_witness != alone[0].as_ref().unwrap().len() {
                    return Err("witnesses: wrong dimensions".into());
                }
                let got: Vec<_> = w.iter_scalar().collect();
                if got.len() != k {
                    return Err("witnesses: wrong number".into());
                }
                let (oks, outs) = c.lc.run_with_output(&w);
                let oks2 = c.lc.run(&w);
                if oks.len() != k || outs.len() != k || oks2 != oks {
                    return Err("witnesses: wrong number of verdicts".into());
                }
                for j in 0..k {
                    same_outputs(alone[j].as_ref().unwrap(), &got[j].0, "several witnesses, inputs")?;
                    same_outputs(&wit(j).1, &got[j].1, "several witnesses, public inputs")?;
                    match &sems[j] {
                        Sem::Accept(w) => {
                            if !oks[j] {
                                return Err("~several witnesses: the source accepts what the circuit rejects".into());
                            }
                            same_outputs(w, &outs[j], "several witnesses, outputs")?;
                        }
                        Sem::Reject if oks[j] => return Err("several witnesses: the source rejects what the circuit accepts".into()),
                        _ => {}
                    }
                }
                // a prover takes packs whole: what fills one up is a witness of the batch, too
                let packs: Vec<_> = w.iter_simd().collect();
                let size = <expander_compiler::frontend::SIMDField<SymConfig<F, K>> as arith::SimdField>::PACK_SIZE;
                if packs.len() != k.div_ceil(size) {
                    return Err("witnesses: wrong number of packs".into());
                }
                for (n, (x, pb)) in packs.into_iter().enumerate() {
                    for l in k.saturating_sub(n * size).min(size)..size {
                        let is = |j: usize| {
                            let y = alone[j].as_ref().unwrap();
                            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.v[l] == *y) && pb.iter().zip(&wit(j).1).all(|(x, y)| x.v[l] == *y)
                        };
                        if !(0..k).rev().any(is) {
                            return Err("~several witnesses: a pack is filled up with something else than a witness".into());
                        }
                    }
                    let (_, oks3) = c.lc.eval_with_public_inputs_simd(x, &pb);
                    let mine = &oks[n * size..k.min((n + 1) * size)];
                    if oks3.len() != size || oks3[..mine.len()] != *mine {
                        return Err("several witnesses: the verdict on a pack is not the one on its witnesses".into());
                    }
                    if mine.iter().all(|x| *x) && !oks3.iter().all(|x| *x) {
                        return Err("several witnesses: all are accepted, but the pack they are in is not".into());
                    }
                }
                note(if k == 1 { "single" } else if k % 2 == 1 { "partly filled pack" } else { "full packs" });
            }
        }
        Ok(())
    });
    out.add(res);
    out
}

// ------------------------------------------------------------------ families
fn prof(p: u64) -> LProf {
    LProf { p, max_log: 2, layers: 3, pool: 4, gates: 6, customs: true, common: false, relays_only: false, random: true, nest: false }
}
fn c09(e: Env) -> Vec<Case> {
    let n = e.pick(150, 4000);
    let mut v = vec![];
    famc::<F3, NormalInputType>(&mut v, "f3", prof(3), n, e.seed, c09_layered::<F3, NormalInputType>);
    famc::<F3, CrossLayerInputType>(&mut v, "f3x", prof(3), n, e.seed, c09_layered::<F3, CrossLayerInputType>);
    famc::<F2, NormalInputType>(&mut v, "gf2", prof(2), n, e.seed, c09_layered::<F2, NormalInputType>);
    famc::<M31, CrossLayerInputType>(&mut v, "m31x", LProf { customs: false, ..prof((1 << 31) - 1) }, n, e.seed, c09_layered::<M31, CrossLayerInputType>);
    famc::<F3, NormalInputType>(&mut v, "ir", prof(3), 3 * n, e.seed, c09_ir::<F3>);
    famc::<M31, NormalInputType>(&mut v, "ir-m31", prof(3), n, e.seed, c09_ir::<M31>);
    finish(v)
}
fn c10(e: Env) -> Vec<Case> {
    let n = e.pick(250, 6000);
    let mut v = vec![];
    let x = LProf { relays_only: true, customs: false, ..prof(3) };
    famc::<F3, NormalInputType>(&mut v, "f3", prof(3), n, e.seed, c10_gen::<F3, NormalInputType>);
    famc::<F3, NormalInputType>(&mut v, "nest", LProf { nest: true, ..prof(3) }, n, e.seed, c10_gen::<F3, NormalInputType>);
    famc::<F3, CrossLayerInputType>(&mut v, "f3x", x, n, e.seed, c10_gen::<F3, CrossLayerInputType>);
    famc::<F3, CrossLayerInputType>(&mut v, "nestx", LProf { nest: true, ..x }, n, e.seed, c10_gen::<F3, CrossLayerInputType>);
    famc::<F3, NormalInputType>(&mut v, "prog", prof(3), n, e.seed, c10_prog::<F3, NormalInputType>);
    famc::<F3, CrossLayerInputType>(&mut v, "progx", prof(3), n, e.seed, c10_prog::<F3, CrossLayerInputType>);
    famc::<F2, CrossLayerInputType>(&mut v, "prog2x", prof(2), n, e.seed, c10_prog::<F2, CrossLayerInputType>);
    finish(v)
}
fn c16(e: Env) -> Vec<Case> {
    let n = e.pick(300, 6000);
    let mut v = vec![];
    famc::<F3, NormalInputType>(&mut v, "f3", prof(3), n, e.seed, c16_case::<F3, 0>);
    famc::<F5, NormalInputType>(&mut v, "f5", prof(5), n, e.seed, c16_case::<F5, 0>);
    famc::<F2, NormalInputType>(&mut v, "gf2", prof(2), n, e.seed, c16_case::<F2, 1>);
    finish(v)
}
pub fn props() -> Vec<Prop> {
    let _ = split::<F3, SC<F3>, NormalInputType>;
    vec![
        Prop { id: "C09", reach: &["layered", "source", "mapping", "witness program"], cases: c09 },
        Prop { id: "C10", reach: &["accepted", "rejected", "generated", "compiled"], cases: c10 },
        Prop { id: "C16", reach: &["single", "partly filled pack", "full packs", "unsolvable"], cases: c16 },
    ]
}
