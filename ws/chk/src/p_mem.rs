//! Computation graphs handed to other processes through shared memory.
use crate::p_compile::finish;
use crate::p_layered::{gen_layered, LProf};
use crate::prog::Rng;
use crate::rep::*;
use arith::Field;
use expander_compiler::circuit::layered::*;
use expander_compiler::zkcuda::context::{ComputationGraph, ProofTemplate};
use expander_compiler::zkcuda::kernel::{Kernel, LayeredCircuitInputVec};
use gkr_engine::MPISharedMemory;
use std::mem::ManuallyDrop;
use symf::*;

type SC<F> = SymConfig<F, 0>;
type G<F> = ComputationGraph<SC<F>>;
const GUARD: u8 = 0xa5;

/// Writes the graphs one after the other into memory of just the size they ask for, reads them back from there
/// (in place), and gives them to `f`; afterwards the memory is taken back from them.
pub fn through_memory<F: Field, R>(gs: &[&G<F>], f: impl FnOnce(&[ManuallyDrop<G<F>>]) -> Result<R, String>) -> Result<R, String> {
    let sizes: Vec<usize> = gs.iter().map(|g| g.bytes_size()).collect();
    let n: usize = sizes.iter().sum();
    // 16-byte words, with a guard behind
    let mut buf = vec![u128::from_le_bytes([GUARD; 16]); n.div_ceil(16) + 64];
    let start = buf.as_mut_ptr() as *mut u8;
    let mut p = start;
    for (i, g) in gs.iter().enumerate() {
        let was = p;
        g.to_memory(&mut p);
        let used = p as usize - was as usize;
        if used != sizes[i] {
            return Err(format!("writing graph {i} took {used} bytes, its size was given as {}", sizes[i]));
        }
    }
    if unsafe { std::slice::from_raw_parts(start.add(n), 512) }.iter().any(|b| *b != GUARD) {
        return Err("writing went beyond the size given".into());
    }
    let mut p = start as *mut u8;
    let mut r = vec![];
    for i in 0..gs.len() {
        let was = p;
        // what borrows the memory is never dropped, also when a path is abandoned
        r.push(ManuallyDrop::new(G::<F>::new_from_memory(&mut p)));
        let used = p as usize - was as usize;
        if used != sizes[i] {
            return Err(format!("reading graph {i} took {used} bytes of {}", sizes[i]));
        }
    }
    let res = f(&r)?;
    for g in r {
        ManuallyDrop::into_inner(g).discard_control_of_shared_mem();
    }
    drop(buf);
    Ok(res)
}
/// the same graph, but for the hint solvers
pub fn same_graph<F: Field>(a: &G<F>, b: &G<F>) -> Result<(), String> {
    if a.commitments_lens != b.commitments_lens {
        return Err(format!("commitment lengths {:?} became {:?}", a.commitments_lens, b.commitments_lens));
    }
    if a.proof_templates != b.proof_templates {
        return Err(format!("proof templates {:?} became {:?}", a.proof_templates, b.proof_templates));
    }
    if a.kernels.len() != b.kernels.len() {
        return Err(format!("{} kernels became {}", a.kernels.len(), b.kernels.len()));
    }
    for (i, (x, y)) in a.kernels.iter().zip(&b.kernels).enumerate() {
        if x.layered_circuit_input != y.layered_circuit_input {
            return Err(format!("kernel {i}: inputs {:?} became {:?}", x.layered_circuit_input, y.layered_circuit_input));
        }
        let (c, d) = (&x.layered_circuit, &y.layered_circuit);
        if (c.num_public_inputs, c.num_actual_outputs, c.expected_num_output_zeroes, &c.layer_ids) != (d.num_public_inputs, d.num_actual_outputs, d.expected_num_output_zeroes, &d.layer_ids) {
            return Err(format!("kernel {i}: the circuit's numbers of inputs and outputs or layers differ"));
        }
        if c.segments.len() != d.segments.len() {
            return Err(format!("kernel {i}: {} segments became {}", c.segments.len(), d.segments.len()));
        }
        for (j, (s, t)) in c.segments.iter().zip(&d.segments).enumerate() {
            if (&s.num_inputs, s.num_outputs, &s.child_segs) != (&t.num_inputs, t.num_outputs, &t.child_segs) {
                return Err(format!("kernel {i}: segment {j} has other sizes or children"));
            }
            if s.gate_muls != t.gate_muls || s.gate_adds != t.gate_adds || s.gate_consts != t.gate_consts || !t.gate_customs.is_empty() {
                return Err(format!("kernel {i}: segment {j} has other gates"));
            }
        }
    }
    Ok(())
}
fn opts() -> Opts {
    Opts { max_paths: 300, max_time: std::time::Duration::from_secs(10), timeout_ms: 4000, ..Default::default() }
}
/// kernels of random layered circuits, some of their coefficients symbolic; templates of any shape
fn circ_case<F: Field>(pr: &LProf, seed: u64) -> Out {
    let mut r = Rng::new(seed ^ 0x3e3);
    let mut cs: Vec<Circuit<SC<F>, NormalInputType>> = (0..r.range(0, 3)).map(|i| gen_layered::<F, SC<F>, NormalInputType>(pr, seed * 5 + i as u64)).collect();
    // now and then many children
    for c in &mut cs {
        for s in &mut c.segments {
            if r.chance(10) && s.child_segs.len() > 0 {
                let ch = s.child_segs.clone();
                for _ in 0..r.range(1, 6) {
                    s.child_segs.extend(ch.iter().cloned());
                }
                let a = s.child_segs[0].1.clone();
                for _ in 0..r.range(0, 10) {
                    s.child_segs[0].1.extend(a.iter().cloned());
                }
            }
        }
    }
    let nk = cs.len();
    let vec = |r: &mut Rng, n: usize| -> Vec<usize> { (0..r.range(0, n)).map(|_| if r.chance(10) { r.next() as usize } else { r.below(40) }).collect() };
    let ts: Vec<ProofTemplate> = (0..r.range(0, 4))
        .map(|_| ProofTemplate {
            kernel_id: r.below(nk.max(1)),
            commitment_indices: vec(&mut r, 4),
            commitment_bit_orders: (0..r.range(0, 4)).map(|_| vec(&mut r, 5)).collect(),
            parallel_count: 1 << r.below(6),
            is_broadcast: (0..r.range(0, 20)).map(|_| r.chance(50)).collect(),
        })
        .collect();
    let lens = vec(&mut r, 5);
    let ins: Vec<Vec<LayeredCircuitInputVec>> = cs.iter().map(|_| (0..r.range(0, 4)).map(|_| LayeredCircuitInputVec { len: r.below(100), offset: r.next() as usize >> r.below(64) }).collect()).collect();
    let pick = r.next();
    let mut out = Out { desc: format!("field {}; {nk} kernels {:?}; templates {ts:?}; lengths {lens:?}", F::NAME, cs), programs: nk as u64, ..Default::default() };
    out.add(explore::<F>(&opts(), &|| {
        let mut r = Rng::new(pick);
        let mut n = 0;
        let mut coef = |k: &mut Coef<SC<F>>| {
            if matches!(k, Coef::Constant(_)) && r.chance(25) && n < 6 {
                n += 1;
                *k = Coef::Constant(Sym::var(&format!("k{n}")));
            }
        };
        let mut cs = cs.clone();
        for c in &mut cs {
            for s in &mut c.segments {
                s.gate_muls.iter_mut().for_each(|g| coef(&mut g.coef));
                s.gate_adds.iter_mut().for_each(|g| coef(&mut g.coef));
                s.gate_consts.iter_mut().for_each(|g| coef(&mut g.coef));
            }
        }
        let kernel = |i: usize| Kernel { hint_solver: None, layered_circuit: cs[i].clone(), layered_circuit_input: ins[i].clone() };
        let g = G::<F> { kernels: (0..nk).map(kernel).collect(), commitments_lens: lens.clone(), proof_templates: ts.clone() };
        let h = G::<F> { kernels: (0..nk).rev().take(1).map(kernel).collect(), commitments_lens: vec![], proof_templates: ts.iter().take(1).cloned().collect() };
        let x: Vec<Vec<Sym<F>>> = cs.iter().enumerate().map(|(i, c)| (0..c.input_size()).map(|j| Sym::var(&format!("x{i}_{j}"))).collect()).collect();
        through_memory(&[&g, &h, &g], |r| {
            same_graph(&g, &r[0])?;
            same_graph(&h, &r[1])?;
            same_graph(&g, &r[2])?;
            for i in 0..nk {
                let (c, d) = (&cs[i], &r[2].kernels[i].layered_circuit);
                if c.segments.iter().any(|s| s.gate_muls.iter().map(|g| &g.coef).chain(s.gate_adds.iter().map(|g| &g.coef)).chain(s.gate_consts.iter().map(|g| &g.coef)).any(|k| matches!(k, Coef::Random))) {
                    continue;
                }
                if r[2].kernels[i].layered_circuit.input_size() != c.input_size() {
                    return Err(format!("kernel {i}: another input size"));
                }
                let p: Vec<Sym<F>> = (0..c.num_public_inputs).map(|j| Sym::var(&format!("p{i}_{j}"))).collect();
                let (a, b) = (c.eval_with_public_inputs(x[i].clone(), &p), d.eval_with_public_inputs(x[i].clone(), &p));
                if a.0 != b.0 || a.1 != b.1 {
                    return Err(format!("kernel {i} computes something else after the copy"));
                }
            }
            note("copied");
            Ok(())
        })
    }));
    out
}
fn c22(e: Env) -> Vec<Case> {
    let n = e.pick(1500, 30_000);
    let mut v = vec![];
    let lp = |p: u64| LProf { p, max_log: 2, layers: 3, pool: 4, gates: 6, customs: false, common: false, relays_only: false, random: true, nest: false };
    let mut fam = |tag: &str, n: u64, f: Box<dyn Fn(u64) -> Out + Send + Sync>| {
        let f = std::sync::Arc::new(f);
        for i in 0..n {
            let s = (e.seed + 22) * 1_000_003 + i;
            let f = f.clone();
            v.push((i * 1000 / n, case(format!("{tag}-{s}"), move || f(s))));
        }
    };
    fam("circuit-f3", n, Box::new(move |s| circ_case::<F3>(&lp(3), s)));
    fam("circuit-m31", n, Box::new(move |s| circ_case::<M31>(&lp((1 << 31) - 1), s)));
    fam("circuit-nest", n, Box::new(move |s| circ_case::<F5>(&LProf { nest: true, ..lp(5) }, s)));
    fam("graph-m31", 3 * n, Box::new(|s| crate::p_zk::c22_graph::<M31>((1 << 31) - 1, s)));
    fam("graph-f5", n, Box::new(|s| crate::p_zk::c22_graph::<F5>(5, s)));
    finish(v)
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C22", reach: &["copied", "proved", "rejected"], cases: c22 }]
}
