//! The layered circuit on its own: its evaluators, its optimisation passes, its serialized form, its
//! export to Expander, batches of witnesses.
use crate::p_compile::{finish, guarded};
use crate::prog::Rng;
use crate::rep::*;
use arith::{Field, SimdField};
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::layered::witness::{Witness, WitnessValues};
use expander_compiler::circuit::layered::*;
use expander_compiler::hints;
use serdes::ExpSerde;
use symf::*;

pub type SC<F> = SymConfig<F, 0>;

// ------------------------------------------------------------------ reference semantics
/// What a layered circuit computes, written from the format's definition. `vals[0]` is the input.
pub fn layers<F: Field, C: Config, I: InputType>(c: &Circuit<C, I>, x: &[Sym<F>], coef: &dyn Fn(&Coef<C>) -> Sym<F>) -> Vec<Sym<F>> {
    fn seg<F: Field, C: Config, I: InputType>(
        c: &Circuit<C, I>,
        id: usize,
        vals: &[Vec<Sym<F>>],
        cur: usize,
        ioff: &[usize],
        ooff: usize,
        out: &mut [Sym<F>],
        coef: &dyn Fn(&Coef<C>) -> Sym<F>,
    ) {
        let s = &c.segments[id];
        let at = |i: &I::Input| vals[cur - i.layer()][ioff[i.layer()] + i.offset()];
        for g in &s.gate_muls {
            out[ooff + g.output] = out[ooff + g.output] + at(&g.inputs[0]) * at(&g.inputs[1]) * coef(&g.coef);
        }
        for g in &s.gate_adds {
            out[ooff + g.output] = out[ooff + g.output] + at(&g.inputs[0]) * coef(&g.coef);
        }
        for g in &s.gate_consts {
            out[ooff + g.output] = out[ooff + g.output] + coef(&g.coef);
        }
        for g in &s.gate_customs {
            let a: Vec<Sym<F>> = g.inputs.iter().map(|i| at(i)).collect();
            out[ooff + g.output] = out[ooff + g.output] + custom(g.gate_type, &a) * coef(&g.coef);
        }
        for (id, allocs) in &s.child_segs {
            for a in allocs {
                let io: Vec<usize> = a.input_offset.iter().enumerate().map(|(l, o)| ioff[l] + o).collect();
                seg(c, *id, vals, cur, &io, ooff + a.output_offset, out, coef);
            }
        }
    }
    let mut vals = vec![x.to_vec()];
    for l in &c.layer_ids {
        let s = &c.segments[*l];
        let mut out = vec![Sym::C(F::ZERO); s.num_outputs];
        let n = vals.len() - 1;
        seg(c, *l, &vals, n, &vec![0; s.num_inputs.len()], 0, &mut out, coef);
        vals.push(out);
    }
    vals.pop().unwrap()
}
pub fn custom<F: Field>(t: usize, a: &[Sym<F>]) -> Sym<F> {
    if t == hints::BuiltinHintIds::Select as u64 as usize {
        return if a[0].is_zero() { a[2] } else { a[1] };
    }
    if t == hints::BuiltinHintIds::Eq as u64 as usize {
        return if a[0] == a[1] { Sym::C(F::ONE) } else { Sym::C(F::ZERO) };
    }
    a[0]
}
pub fn split<F: Field, C: Config, I: InputType>(c: &Circuit<C, I>, o: Vec<Sym<F>>) -> (Vec<Sym<F>>, bool) {
    let z = c.expected_num_output_zeroes;
    let ok = o[..z].iter().all(|x| x.is_zero());
    (o[z..c.num_actual_outputs].to_vec(), ok)
}
pub fn reference<F: Field, C: Config, I: InputType>(c: &Circuit<C, I>, x: &[Sym<F>], pb: &[Sym<F>]) -> (Vec<Sym<F>>, bool)
where
    C: Config<FieldConfig = C> + gkr_engine::FieldEngine<CircuitField = Sym<F>>,
{
    let o = layers(c, x, &|k| match k {
        Coef::Constant(c) => *c,
        Coef::Random => ctx::new_rand(),
        Coef::PublicInput(i) => pb[*i],
    });
    split(c, o)
}
/// how public inputs are made up when none are given
pub fn stub_pub<F: Field>(i: usize) -> Sym<F> {
    let i = i as u64;
    Sym::C(F::from((i * i % 1000000007 * i % 1000000007) as u32))
}

// ------------------------------------------------------------------ generation
#[derive(Clone, Copy)]
pub struct LProf {
    pub p: u64,
    pub max_log: usize,
    pub layers: usize,
    pub pool: usize,
    pub gates: usize,
    pub customs: bool,
    /// layer segments share many gates
    pub common: bool,
    /// cross-layer inputs only for addition gates (what the exporter supports)
    pub relays_only: bool,
    pub random: bool,
    /// small child segments, often custom gates and inputs from older layers
    pub nest: bool,
}
pub fn gen_layered<F: Field, C, I: InputType>(pr: &LProf, seed: u64) -> Circuit<C, I>
where
    C: Config<FieldConfig = C> + gkr_engine::FieldEngine<CircuitField = Sym<F>>,
{
    let mut r = Rng::new(seed ^ 0x1a7e);
    let cross = I::CROSS_LAYER_RELAY;
    let pubs = r.range(0, 2);
    let nl = r.range(1, pr.layers);
    let same = pr.common || r.chance(30);
    let l0 = r.range(1, pr.max_log);
    let sizes: Vec<usize> = (0..=nl).map(|_| 1 << if same { l0 } else { r.range(0, pr.max_log) }).collect();
    let mut segs: Vec<Segment<C, I>> = vec![];
    let coef = |r: &mut Rng| -> Coef<C> {
        match r.below(12) {
            0 if pubs > 0 => Coef::PublicInput(r.below(pubs)),
            1 => Coef::Constant(Sym::C(F::ZERO)),
            2..=5 => Coef::Constant(Sym::C(F::ONE)),
            6 => Coef::Constant(Sym::C(-F::ONE)),
            _ => Coef::Constant(Sym::C(F::from((r.next() % pr.p.min(1 << 31)) as u32))),
        }
    };
    // in: sizes of the inputs of layers 0.., out: size of the output
    let mk = |r: &mut Rng, segs: &Vec<Segment<C, I>>, ins: Vec<usize>, out: usize, ng: usize, cover: bool| -> Segment<C, I> {
        let mut s = Segment::<C, I> { num_inputs: I::InputUsize::from_vec(ins.clone()), num_outputs: out, ..Default::default() };
        let inp = |r: &mut Rng, zero: bool| {
            let l = if zero { 0 } else { r.below(ins.len()) };
            I::Input::new(l, r.below(ins[l]))
        };
        for _ in 0..ng {
            let o = r.below(out);
            match r.below(if !pr.customs { 7 } else if pr.nest { 12 } else { 8 }) {
                0..=2 => s.gate_muls.push(Gate { inputs: [inp(r, pr.relays_only), inp(r, pr.relays_only)], output: o, coef: coef(r) }),
                3..=5 => {
                    let i = inp(r, false);
                    let mut k = coef(r);
                    if pr.relays_only && i.layer() > 0 && !k.is_constant() {
                        k = Coef::Constant(Sym::C(F::ONE));
                    }
                    s.gate_adds.push(Gate { inputs: [i], output: o, coef: k })
                }
                6 => s.gate_consts.push(Gate { inputs: [], output: o, coef: coef(r) }),
                _ => {
                    let (t, n) = match r.below(3) {
                        0 => (hints::BuiltinHintIds::Select as u64 as usize, 3),
                        1 => (hints::BuiltinHintIds::Eq as u64 as usize, 2),
                        _ => (hints::BuiltinHintIds::Identity as u64 as usize, 1),
                    };
                    s.gate_customs.push(GateCustom { gate_type: t, inputs: (0..n).map(|_| inp(r, false)).collect(), output: o, coef: coef(r) })
                }
            }
        }
        // children
        let fit: Vec<usize> = (0..segs.len())
            .filter(|i| {
                let c = &segs[*i];
                c.num_outputs <= out && c.num_inputs.len() <= ins.len() && c.num_inputs.iter().zip(&ins).all(|(a, b)| a <= *b)
            })
            .collect();
        if !fit.is_empty() {
            for _ in 0..if pr.nest { r.range(1, 4) } else { r.below(4) } {
                let id = fit[r.below(fit.len())];
                let c = &segs[id];
                let al = (0..r.range(1, 2))
                    .map(|_| Allocation {
                        input_offset: I::InputUsize::from_vec(c.num_inputs.iter().zip(&ins).map(|(a, b)| a * r.below(b / a)).collect()),
                        output_offset: c.num_outputs * r.below(out / c.num_outputs),
                    })
                    .collect();
                s.child_segs.push((id, al));
            }
        }
        if cover {
            for o in 0..out {
                s.gate_consts.push(Gate { inputs: [], output: o, coef: Coef::Constant(Sym::C(F::ZERO)) });
            }
        }
        if pr.random {
            dedup_nonconst(&mut s);
        }
        s
    };
    let npool = r.range(0, pr.pool);
    for _ in 0..npool {
        let n_in = if cross && r.chance(if pr.nest { 80 } else { 40 }) { if pr.nest { r.range(2, 3).min(nl) } else { 2.min(nl) } } else { 1 };
        let ins: Vec<usize> = (0..n_in).map(|_| 1 << r.range(0, pr.max_log)).collect();
        let out = 1 << r.range(0, pr.max_log);
        let ng = if pr.nest { r.range(1, 3) } else { r.range(0, 5) };
        let s = mk(&mut r, &segs, ins, out, ng, false);
        segs.push(s);
    }
    let base: Option<Segment<C, I>> =
        if pr.common { Some(mk(&mut r, &segs, vec![sizes[0]], sizes[0], 16 + pr.gates, false)) } else { None };
    let mut ids: Vec<usize> = vec![];
    for l in 0..nl {
        // the same segment again, where it fits
        let again: Vec<usize> = ids
            .iter()
            .copied()
            .filter(|i| {
                let s: &Segment<C, I> = &segs[*i];
                s.num_outputs == sizes[l + 1] && s.num_inputs.len() <= l + 1 && s.num_inputs.iter().enumerate().all(|(j, x)| x == sizes[l - j])
            })
            .collect();
        if !again.is_empty() && r.chance(30) {
            ids.push(again[r.below(again.len())]);
            continue;
        }
        let n_in = if cross { if pr.nest { l + 1 } else { r.range(1, l + 1) } } else { 1 };
        let ins: Vec<usize> = (0..n_in).map(|j| sizes[l - j]).collect();
        let ng = if pr.common { 3 } else { r.range(1, pr.gates) };
        let mut s = mk(&mut r, &segs, ins, sizes[l + 1], ng, true);
        if let Some(b) = &base {
            if r.chance(80) {
                let keep = |r: &mut Rng| r.chance(90);
                s.gate_muls.extend(b.gate_muls.iter().filter(|_| keep(&mut r)).cloned());
                s.gate_adds.extend(b.gate_adds.iter().filter(|_| keep(&mut r)).cloned());
                s.gate_consts.extend(b.gate_consts.iter().filter(|_| keep(&mut r)).cloned());
                s.gate_customs.extend(b.gate_customs.iter().filter(|_| keep(&mut r)).cloned());
                if pr.random {
                    dedup_nonconst(&mut s);
                }
            }
        }
        segs.push(s);
        ids.push(segs.len() - 1);
    }
    // a segment nothing uses
    if r.chance(20) {
        let s = mk(&mut r, &segs, vec![2], 2, 2, false);
        segs.push(s);
    }
    let last = sizes[nl];
    let z = r.range(0, 2.min(last));
    if pr.random && z > 0 {
        // a random combination of constraints, as the compiler emits it
        let lid = ids[nl - 1];
        if ids.iter().filter(|i| **i == lid).count() == 1 {
            let n = segs[lid].num_inputs.get(0);
            for i in 0..n.min(3) {
                segs[lid].gate_adds.push(Gate { inputs: [I::Input::new(0, i)], output: 0, coef: Coef::Random });
            }
            dedup_nonconst(&mut segs[lid]);
        }
    }
    Circuit { num_public_inputs: pubs, num_actual_outputs: r.range(z, last), expected_num_output_zeroes: z, segments: segs, layer_ids: ids }
}
/// The passes see one gate per input, output and public coefficient, as the compiler emits them.
fn dedup_nonconst<C: Config, I: InputType>(s: &mut Segment<C, I>) {
    fn d<T: PartialEq + Clone>(v: &mut Vec<T>, k: impl Fn(&T) -> bool) {
        let mut o: Vec<T> = vec![];
        for g in v.drain(..) {
            if k(&g) || !o.contains(&g) {
                o.push(g);
            }
        }
        *v = o;
    }
    d(&mut s.gate_muls, |g| g.coef.is_constant());
    d(&mut s.gate_adds, |g| g.coef.is_constant());
    d(&mut s.gate_consts, |g| g.coef.is_constant());
    d(&mut s.gate_customs, |g| g.coef.is_constant());
}
pub fn show<C: Config, I: InputType>(c: &Circuit<C, I>) -> String {
    format!("pubs={} outs={} zeros={} {:?} {:?}", c.num_public_inputs, c.num_actual_outputs, c.expected_num_output_zeroes, c.layer_ids, c.segments)
}
fn xs<F: Field>(n: usize, s: &str) -> Vec<Sym<F>> {
    (0..n).map(|i| Sym::var(&format!("{s}{i}"))).collect()
}
type R = Result<(), String>;
fn same<F: Field>(a: &(Vec<Sym<F>>, bool), b: &(Vec<Sym<F>>, bool), what: &str) -> R {
    if a.1 != b.1 {
        return Err(format!("~{what}: constraints {} instead of {}", b.1, a.1));
    }
    if a.0.len() != b.0.len() {
        return Err(format!("~{what}: {} outputs instead of {}", b.0.len(), a.0.len()));
    }
    for (i, (x, y)) in a.0.iter().zip(&b.0).enumerate() {
        if x != y {
            return Err(format!("~{what}: output {i} differs"));
        }
    }
    Ok(())
}
fn opts() -> Opts {
    Opts { max_paths: 600, max_time: std::time::Duration::from_secs(10), timeout_ms: 4000, ..Default::default() }
}

// ------------------------------------------------------------------ optimisation passes
fn passes<F: Field, I: InputType>(c: &Circuit<SC<F>, I>, out: &mut Out) {
    type P<C, I> = (&'static str, fn(&Circuit<C, I>) -> Circuit<C, I>);
    fn dd<C: Config, I: InputType>(c: &Circuit<C, I>) -> Circuit<C, I> {
        let mut c = c.clone();
        c.dedup_gates();
        c
    }
    let list: Vec<P<SC<F>, I>> = vec![
        ("dedup_gates", dd),
        ("expand_small_segments", |c| dd(c).expand_small_segments()),
        ("find_common_parts", |c| dd(c).find_common_parts()),
        ("find_common_parts alone", |c| c.find_common_parts()),
        ("expand then common parts", |c| dd(c).expand_small_segments().find_common_parts()),
        ("sort_everything", |c| {
            let mut c = c.clone();
            c.sort_everything();
            c
        }),
        ("expand twice", |c| c.expand_small_segments().expand_small_segments()),
    ];
    for (name, f) in list {
        let d = match guarded(|| f(c)) {
            None => return out.fail(format!("{name} panics on a valid circuit")),
            Some(d) => d,
        };
        if let Err(e) = d.validate() {
            return out.fail(format!("{name} makes an invalid circuit of a valid one: {e:?}"));
        }
        if d.input_size() != c.input_size() || d.num_public_inputs != c.num_public_inputs {
            return out.fail(format!("{name} changes the circuit's inputs"));
        }
        out.programs += 1;
        if d.segments != c.segments {
            out.note(name);
        }
        let r = explore::<F>(&opts(), &|| {
            let x = xs(c.input_size(), "x");
            let pb = xs(c.num_public_inputs, "pub");
            let a = reference(c, &x, &pb);
            let b = reference(&d, &x, &pb);
            note(if a.1 { "accepted" } else { "rejected" });
            same(&a, &b, name)
        });
        if out.add(r) {
            return;
        }
    }
}
fn c07_case<F: Field, I: InputType>(pr: &LProf, seed: u64) -> Out {
    let c = gen_layered::<F, SC<F>, I>(pr, seed);
    let mut out = Out { desc: show(&c), ..Default::default() };
    if let Err(e) = c.validate() {
        // the generator builds valid circuits only: a rejection is the validator's mistake
        out.fail(format!("a valid circuit is rejected: {e:?}"));
        return out;
    }
    passes::<F, I>(&c, &mut out);
    out
}

// ------------------------------------------------------------------ evaluators and batches
fn c08_eval<F: Field, I: InputType>(pr: &LProf, seed: u64) -> Out {
    let c = gen_layered::<F, SC<F>, I>(pr, seed);
    let mut out = Out { desc: show(&c), programs: 1, ..Default::default() };
    let r = explore::<F>(&opts(), &|| {
        let x = xs(c.input_size(), "x");
        let pb = xs(c.num_public_inputs, "pub");
        let a = reference(&c, &x, &pb);
        note(if a.1 { "accepted" } else { "rejected" });
        same(&a, &c.eval_with_public_inputs(x.clone(), &pb), "eval_with_public_inputs")?;
        let sp: Vec<Sym<F>> = (0..c.num_public_inputs).map(stub_pub).collect();
        same(&reference(&c, &x, &sp), &c.eval_unsafe(x.clone()), "eval_unsafe")
    });
    if out.add(r) {
        return out;
    }
    // both lanes of a packed evaluation; lanes fork independently, so keep to a few inputs
    let n = c.input_size();
    let r = explore::<F>(&opts(), &|| {
        let x: Vec<Vec<Sym<F>>> = (0..2)
            .map(|l| (0..n).map(|i| if i < 4 { Sym::var(&format!("x{l}_{i}")) } else { Sym::C(F::from((i + l) as u32)) }).collect())
            .collect();
        let pb: Vec<Vec<Sym<F>>> = (0..2).map(|l| xs(c.num_public_inputs, &format!("pub{l}_"))).collect();
        let pack = |v: &Vec<Vec<Sym<F>>>, n: usize| -> Vec<SymV<F>> { (0..n).map(|i| SymV { v: [v[0][i], v[1][i]] }).collect() };
        let (o, ok) = c.eval_with_public_inputs_simd(pack(&x, n), &pack(&pb, c.num_public_inputs));
        if ok.len() != 2 {
            return Err("packed evaluation: wrong number of verdicts".into());
        }
        for l in 0..2 {
            let a = reference(&c, &x[l], &pb[l]);
            let b = (o.iter().map(|s| s.v[l]).collect::<Vec<_>>(), ok[l]);
            same(&a, &b, "packed evaluation")?;
        }
        note("packed");
        Ok(())
    });
    out.add(r);
    out
}
/// A batch of witnesses gives, per witness, what evaluating that witness alone gives; a batch
/// survives serialization and every way of reading it.
fn c08_batch<F: Field, I: InputType>(pr: &LProf, seed: u64) -> Out {
    let c = gen_layered::<F, SC<F>, I>(pr, seed);
    let mut r = Rng::new(seed);
    let k = 1 + (seed % 5) as usize;
    let a = c.input_size();
    let b = c.num_public_inputs;
    let fixed: Vec<u32> = (0..k * (a + b)).map(|_| r.below(5) as u32).collect();
    // a few symbolic positions, the rest constant: verdicts fork per witness
    let symbolic: Vec<bool> = (0..k * (a + b)).map(|_| r.chance((600 / (k * (a + b))).min(100))).collect();
    let mut out = Out { desc: format!("{k} witnesses, {}", show(&c)), programs: 1, ..Default::default() };
    let res = explore::<F>(&opts(), &|| {
        let v: Vec<Sym<F>> =
            (0..k * (a + b)).map(|i| if symbolic[i] { Sym::var(&format!("w{i}")) } else { Sym::C(F::from(fixed[i])) }).collect();
        let w = Witness::<SC<F>> {
            num_witnesses: k,
            num_inputs_per_witness: a,
            num_public_inputs_per_witness: b,
            values: WitnessValues::Scalar(v.clone()),
        };
        let wit = |j: usize| (&v[j * (a + b)..j * (a + b) + a], &v[j * (a + b) + a..(j + 1) * (a + b)]);
        let check = |w: &Witness<SC<F>>, what: &str| -> R {
            if w.num_witnesses != k || w.num_inputs_per_witness != a || w.num_public_inputs_per_witness != b {
                return Err(format!("{what}: dimensions changed"));
            }
            let got: Vec<_> = w.iter_scalar().collect();
            if got.len() != k {
                return Err(format!("{what}: {} witnesses instead of {k}", got.len()));
            }
            for (j, (x, p)) in got.iter().enumerate() {
                let (x0, p0) = wit(j);
                if x[..] != *x0 || p[..] != *p0 {
                    return Err(format!("~{what}: witness {j} changed"));
                }
            }
            let packs: Vec<_> = w.iter_simd().collect();
            if packs.len() != (k + 1) / 2 {
                return Err(format!("{what}: {} packs instead of {}", packs.len(), (k + 1) / 2));
            }
            for (q, (x, p)) in packs.iter().enumerate() {
                for l in 0..2 {
                    if 2 * q + l >= k {
                        // what fills up a pack made here is a witness, too
                        let is = |j: usize| (0..a).all(|i| x[i].v[l] == wit(j).0[i]) && (0..b).all(|i| p[i].v[l] == wit(j).1[i]);
                        if matches!(w.values, WitnessValues::Scalar(_)) && !(0..k).rev().any(is) {
                            return Err(format!("~{what}: pack {q} is filled up with something else than a witness"));
                        }
                        continue;
                    }
                    let (x0, p0) = wit(2 * q + l);
                    if x.len() != a || p.len() != b || (0..a).any(|i| x[i].v[l] != x0[i]) || (0..b).any(|i| p[i].v[l] != p0[i]) {
                        return Err(format!("~{what}: pack {q} lane {l} changed"));
                    }
                }
            }
            let (x, p) = w.to_simd::<SymV<F>>();
            for l in 0..2.min(k) {
                let (x0, p0) = wit(l);
                if x.len() != a || p.len() != b || (0..a).any(|i| x[i].v[l] != x0[i]) || (0..b).any(|i| p[i].v[l] != p0[i]) {
                    return Err(format!("~{what}: to_simd lane {l} changed"));
                }
            }
            // a pack of another width
            let (x, p) = w.to_simd::<Wide<F>>();
            for l in 0..WIDE.min(k) {
                let (x0, p0) = wit(l);
                if x.len() != a || p.len() != b || (0..a).any(|i| x[i].0[l] != x0[i]) || (0..b).any(|i| p[i].0[l] != p0[i]) {
                    return Err(format!("~{what}: wide to_simd lane {l} changed"));
                }
            }
            Ok(())
        };
        check(&w, "batch")?;
        let mut buf = vec![];
        w.serialize_into(&mut buf).map_err(|e| format!("serializing: {e:?}"))?;
        let w2 = Witness::<SC<F>>::deserialize_from(&buf[..]).map_err(|e| format!("deserializing: {e:?}"))?;
        check(&w2, "batch read back")?;
        let mut buf2 = vec![];
        w2.serialize_into(&mut buf2).map_err(|e| format!("serializing: {e:?}"))?;
        if buf != buf2 {
            return Err("a batch read back serializes differently".into());
        }
        for w in [&w, &w2] {
            let oks = c.run(w);
            let (oks2, outs) = c.run_with_output(w);
            if oks.len() != k || oks2.len() != k || outs.len() != k {
                return Err("run: wrong number of verdicts".into());
            }
            for j in 0..k {
                let (x, p) = wit(j);
                let want = reference(&c, x, p);
                if oks[j] != want.1 {
                    return Err("~run: a witness gets another verdict in a batch than alone".into());
                }
                same(&want, &(outs[j].clone(), oks2[j]), "run_with_output")?;
            }
        }
        note(if k == 1 { "single" } else if k % 2 == 1 { "partly filled pack" } else { "full packs" });
        Ok(())
    });
    out.add(res);
    out
}
/// packs of another width than the configuration's
pub const WIDE: usize = 4;
mod wide {
    use super::*;
    use std::ops::{Add, Mul, Neg, Sub};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Wide<F: Field>(pub [Sym<F>; WIDE]);
    impl<F: Field> Default for Wide<F> {
        fn default() -> Self {
            Wide([Sym::default(); WIDE])
        }
    }
    macro_rules! op {
        ($t:ident, $f:ident) => {
            impl<F: Field> $t for Wide<F> {
                type Output = Self;
                fn $f(self, o: Self) -> Self {
                    Wide(std::array::from_fn(|i| self.0[i].$f(o.0[i])))
                }
            }
        };
    }
    op!(Add, add);
    op!(Sub, sub);
    op!(Mul, mul);
    impl<F: Field> Neg for Wide<F> {
        type Output = Self;
        fn neg(self) -> Self {
            Wide(std::array::from_fn(|i| -self.0[i]))
        }
    }
    arith::impl_field_ops!([F: Field] Wide<F>);
    impl<F: Field> From<u32> for Wide<F> {
        fn from(x: u32) -> Self {
            Wide([Sym::from(x); WIDE])
        }
    }
    impl<F: Field> From<Sym<F>> for Wide<F> {
        fn from(x: Sym<F>) -> Self {
            Wide([x; WIDE])
        }
    }
    impl<F: Field> ExpSerde for Wide<F> {
        fn serialize_into<W: std::io::Write>(&self, _: W) -> serdes::SerdeResult<()> {
            unimplemented!()
        }
        fn deserialize_from<R: std::io::Read>(_: R) -> serdes::SerdeResult<Self> {
            unimplemented!()
        }
    }
    impl<F: Field> Field for Wide<F> {
        const NAME: &'static str = "Wide";
        const SIZE: usize = 33 * WIDE;
        const FIELD_SIZE: usize = F::FIELD_SIZE;
        const ZERO: Self = Wide([Sym::C(F::ZERO); WIDE]);
        const ONE: Self = Wide([Sym::C(F::ONE); WIDE]);
        const INV_2: Self = Wide([Sym::C(F::INV_2); WIDE]);
        const MODULUS: arith::U256 = F::MODULUS;
        fn random_unsafe(_: impl rand::RngCore) -> Self {
            unimplemented!()
        }
        fn inv(&self) -> Option<Self> {
            unimplemented!()
        }
        fn as_u32_unchecked(&self) -> u32 {
            unimplemented!()
        }
    }
    impl<F: Field> SimdField for Wide<F> {
        type Scalar = Sym<F>;
        const PACK_SIZE: usize = WIDE;
        fn scale(&self, c: &Sym<F>) -> Self {
            Wide(std::array::from_fn(|i| self.0[i] * *c))
        }
        fn pack(b: &[Sym<F>]) -> Self {
            Wide(b.try_into().expect("pack size mismatch"))
        }
        fn unpack(&self) -> Vec<Sym<F>> {
            self.0.to_vec()
        }
    }
}
pub use wide::Wide;

// ------------------------------------------------------------------ families
fn prof(p: u64) -> LProf {
    LProf { p, max_log: 2, layers: 3, pool: 4, gates: 6, customs: true, common: false, relays_only: false, random: true, nest: false }
}
pub fn famc<F: Field, I: InputType + 'static>(v: &mut Vec<(u64, Case)>, tag: &str, pr: LProf, n: u64, seed: u64, f: fn(&LProf, u64) -> Out) {
    let _ = std::marker::PhantomData::<(F, I)>;
    for i in 0..n {
        let s = seed * 1_000_003 + i;
        v.push((i * 1000 / n, case(format!("{tag}-{s}"), move || f(&pr, s))));
    }
}
fn c07(e: Env) -> Vec<Case> {
    let n = e.pick(150, 4000);
    let mut v = vec![];
    type N = NormalInputType;
    type X = CrossLayerInputType;
    let p3 = prof(3);
    famc::<F3, N>(&mut v, "f3", p3, n, e.seed, c07_case::<F3, N>);
    famc::<F3, X>(&mut v, "f3x", p3, n, e.seed, c07_case::<F3, X>);
    famc::<F2, N>(&mut v, "gf2", prof(2), n, e.seed, c07_case::<F2, N>);
    famc::<F3, X>(&mut v, "nestx", LProf { nest: true, ..p3 }, 2 * n, e.seed, c07_case::<F3, X>);
    famc::<F3, N>(&mut v, "nest", LProf { nest: true, ..p3 }, n, e.seed, c07_case::<F3, N>);
    famc::<F5, X>(&mut v, "f5x", prof(5), n, e.seed, c07_case::<F5, X>);
    let co = LProf { common: true, max_log: 2, customs: false, ..p3 };
    famc::<F3, N>(&mut v, "common", co, n, e.seed, c07_case::<F3, N>);
    famc::<F3, X>(&mut v, "commonx", co, n, e.seed, c07_case::<F3, X>);
    famc::<F3, N>(&mut v, "dup", LProf { random: false, ..co }, n, e.seed, c07_case::<F3, N>);
    let cu = LProf { common: true, max_log: 1, layers: 2, random: false, ..p3 };
    famc::<F3, N>(&mut v, "commoncust", cu, n / 2, e.seed, c07_case::<F3, N>);
    famc::<F3, X>(&mut v, "commoncustx", cu, n / 2, e.seed, c07_case::<F3, X>);
    famc::<M31, N>(&mut v, "m31common", LProf { p: (1 << 31) - 1, random: false, ..co }, n, e.seed, c07_case::<M31, N>);
    finish(v)
}
fn c08(e: Env) -> Vec<Case> {
    let n = e.pick(150, 4000);
    let mut v = vec![];
    type N = NormalInputType;
    type X = CrossLayerInputType;
    famc::<F3, N>(&mut v, "eval-f3", prof(3), n, e.seed, c08_eval::<F3, N>);
    famc::<F5, X>(&mut v, "eval-f5x", prof(5), n, e.seed, c08_eval::<F5, X>);
    famc::<F3, X>(&mut v, "eval-nestx", LProf { nest: true, ..prof(3) }, n, e.seed, c08_eval::<F3, X>);
    famc::<F2, N>(&mut v, "eval-gf2", prof(2), n, e.seed, c08_eval::<F2, N>);
    famc::<F3, N>(&mut v, "batch-f3", LProf { customs: false, ..prof(3) }, n, e.seed, c08_batch::<F3, N>);
    famc::<F3, X>(&mut v, "batch-f3x", LProf { customs: false, ..prof(3) }, n, e.seed, c08_batch::<F3, X>);
    famc::<F2, N>(&mut v, "batch-gf2", LProf { customs: false, ..prof(2) }, n, e.seed, c08_batch::<F2, N>);
    finish(v)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            reach: &["accepted", "rejected", "dedup_gates", "expand_small_segments", "find_common_parts", "sort_everything"],
            cases: c07,
        },
        Prop { id: "C08", reach: &["accepted", "rejected", "packed", "single", "partly filled pack", "full packs"], cases: c08 },
    ]
}
