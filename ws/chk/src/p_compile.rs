//! The compiler pipeline: source circuit -> witness program + layered circuit.
use crate::prog::*;
use crate::rep::*;
use arith::Field;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir::hint_normalized;
use expander_compiler::circuit::layered::{self, CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::compile::{compile_with_options, CompileOptions};
use expander_compiler::field::FieldArith;
use expander_compiler::utils::error::Error;
use std::panic::{catch_unwind, AssertUnwindSafe};
use symf::*;

pub fn inputs<F: Field>(p: &Prog) -> (Vec<Sym<F>>, Vec<Sym<F>>) {
    inputs_named(p.circs[0].n_in, p.pubs)
}
pub fn inputs_named<F: Field>(n: usize, pubs: usize) -> (Vec<Sym<F>>, Vec<Sym<F>>) {
    ((0..n).map(|i| Sym::var(&format!("x{}", i + 1))).collect(), (0..pubs).map(|i| Sym::var(&format!("pub{i}"))).collect())
}
pub fn same_outputs<F: Field>(want: &[Sym<F>], got: &[Sym<F>], what: &str) -> Result<(), String> {
    if want.len() != got.len() {
        return Err(format!("~{what}: {} outputs instead of {}", got.len(), want.len()));
    }
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if w != g {
            return Err(format!("~{what}: output {i} is not the source program's"));
        }
    }
    Ok(())
}
/// Calls into the code under test; a panic becomes None.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(e) => {
            symf::ctx::rethrow(e);
            None
        }
    }
}

pub struct Compiled<C: Config, I: InputType + 'static> {
    pub hn: hint_normalized::RootCircuit<C>,
    pub lc: layered::Circuit<C, I>,
}
/// Ok(None): refused with a user error
pub fn compile_prog<F: Field, const K: usize, I: InputType + 'static>(
    p: &Prog,
    o: &CompileOptions,
) -> Result<Option<Compiled<SymConfig<F, K>, I>>, String> {
    let ir = to_ir::<SymConfig<F, K>>(p);
    match catch_unwind(AssertUnwindSafe(|| compile_with_options::<SymConfig<F, K>, I>(&ir, o.clone()))) {
        Ok(Ok((hn, lc))) => Ok(Some(Compiled { hn, lc })),
        Ok(Err(Error::UserError(_))) => Ok(None),
        Ok(Err(Error::InternalError(e))) => Err(format!("compiling a valid program ends in an internal error: {e}")),
        Err(e) => Err(format!("compiling a valid program panics: {}", symf::ctx::rethrow(e))),
    }
}

/// The witness program and the layered circuit together accept exactly what the source accepts,
/// with the same outputs.
pub fn honest<F: Field, const K: usize, I: InputType + 'static>(
    p: &Prog,
    c: &Compiled<SymConfig<F, K>, I>,
    opts: &Opts,
) -> (Stats, Option<Violation>) {
    explore::<F>(opts, &|| {
        let (x, pb) = inputs::<F>(p);
        let h = Hints::<F>::reset();
        let want = meaning(p, &x, &pb, false);
        if let Sem::Open = want {
            note("open");
            return Ok(());
        }
        let w = guarded(|| c.hn.eval_safe(x.clone(), &pb, &h));
        let got = match w {
            Some(Ok(w)) => Some(c.lc.eval_with_public_inputs(w, &pb)),
            _ => None,
        };
        match (want, got) {
            (Sem::Accept(o), Some((got, true))) => {
                note("accepted");
                same_outputs(&o, &got, "accepted input")
            }
            (Sem::Accept(_), None) => Err("~the source accepts an input for which no witness is found".into()),
            (Sem::Accept(_), Some((_, false))) => {
                Err("~the source accepts an input that the layered circuit rejects".into())
            }
            (Sem::Reject, Some((_, true))) => {
                Err("the source rejects an input that the layered circuit accepts".into())
            }
            (Sem::Reject, _) => {
                note("rejected");
                Ok(())
            }
            (Sem::Open, _) => unreachable!(),
        }
    })
}
/// Whatever a prover puts in place of hint results, what the layered circuit accepts the source
/// accepts with the same outputs.
pub fn adversarial<F: Field, const K: usize, I: InputType + 'static>(
    p: &Prog,
    c: &Compiled<SymConfig<F, K>, I>,
    opts: &Opts,
) -> (Stats, Option<Violation>) {
    let n = c.hn.circuits[&0].num_inputs;
    let outs = c.hn.circuits[&0].outputs.clone();
    explore::<F>(opts, &|| {
        let (x, pb) = inputs::<F>(p);
        let w: Vec<Sym<F>> = outs
            .iter()
            .enumerate()
            .map(|(i, id)| if *id <= n { x[*id - 1] } else { Sym::var(&format!("prover{i}")) })
            .collect();
        if outs.iter().any(|id| *id > n) {
            note("prover-chosen values");
        }
        let (got, ok) = c.lc.eval_with_public_inputs(w, &pb);
        if !ok {
            note("rejected");
            return Ok(());
        }
        match meaning(p, &x, &pb, true) {
            Sem::Open => {
                note("open");
                Ok(())
            }
            Sem::Reject => Err("some prover-chosen values make the layered circuit accept an input the source rejects".into()),
            Sem::Accept(o) => {
                note("accepted");
                same_outputs(&o, &got, "accepted prover-chosen values").map_err(|e| e.trim_start_matches('~').to_string())
            }
        }
    })
}

pub fn options(k: u64) -> (CompileOptions, String) {
    let mut o = CompileOptions::default().with_opt_level([1, 2, 3, 3][(k % 4) as usize]);
    if (k / 4) % 3 == 1 {
        o = o.without_input_reorder();
    }
    if (k / 12) % 3 == 1 {
        o = o.with_mul_fanout_limit(2 + (k as usize / 36) % 3);
    }
    let s = format!("{o:?}");
    (o, s)
}

fn small_prof(p: u64, hints: bool) -> Prof {
    let ints = p <= 7;
    Prof { p, circs: 4, max_in: 3, max_ops: 6, hints, ints, div: true, pubs: 2, max_cons: 3, nonzero: true, shape: Shape::Small }
}
fn opts() -> Opts {
    Opts { max_paths: 1500, max_time: std::time::Duration::from_secs(12), timeout_ms: 4000, ..Default::default() }
}
fn one<F: Field, const K: usize, I: InputType + 'static>(
    prof: &Prof,
    seed: u64,
    optk: u64,
    f: fn(&Prog, &Compiled<SymConfig<F, K>, I>, &Opts) -> (Stats, Option<Violation>),
) -> Out {
    let p = gen(prof, seed);
    let (o, os) = options(optk);
    let mut out = Out { desc: format!("{} field {} with {os}", p.show(), F::NAME), ..Default::default() };
    match compile_prog::<F, K, I>(&p, &o) {
        Err(e) => out.fail(e),
        Ok(None) => out.refused += 1,
        Ok(Some(c)) => {
            out.programs += 1;
            if std::env::var("DUMP").is_ok() {
                out.desc = format!("{}\n{:?}\n{:?}\n{:?}", out.desc, to_ir::<SymConfig<F, K>>(&p), c.hn, c.lc);
                eprintln!("{}", out.desc);
            }
            out.add(f(&p, &c, &opts()));
        }
    }
    out
}
fn fam<F: Field, const K: usize, I: InputType + 'static>(
    v: &mut Vec<(u64, Case)>,
    tag: &str,
    prof: Prof,
    n: u64,
    seed: u64,
    f: fn(&Prog, &Compiled<SymConfig<F, K>, I>, &Opts) -> (Stats, Option<Violation>),
) {
    for i in 0..n {
        let prof = prof.clone();
        let s = seed * 1_000_003 + i;
        // interleave the families, so that a short run covers all of them
        v.push((i * 1000 / n, case(format!("{tag}-{s}"), move || one::<F, K, I>(&prof, s, s % 144, f))));
    }
}
pub fn finish(mut v: Vec<(u64, Case)>) -> Vec<Case> {
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
type N = NormalInputType;
type X = CrossLayerInputType;
type Chk<F, const K: usize, I> = fn(&Prog, &Compiled<SymConfig<F, K>, I>, &Opts) -> (Stats, Option<Violation>);
/// the larger shapes, over fields where the programs' polynomials stay small enough
fn big<I: InputType + 'static>(v: &mut Vec<(u64, Case)>, hints: bool, n: u64, s: u64, f3: Chk<F3, 0, I>, f2: Chk<F2, 1, I>, m31: Chk<M31, 0, I>) {
    for (t, sh) in [("wide", Shape::Wide), ("nest", Shape::Nest), ("repeat", Shape::Repeat), ("long", Shape::Long)] {
        fam::<F3, 0, I>(v, &format!("f3-{t}"), small_prof(3, hints).shaped(sh), n, s + 7, f3);
        fam::<F2, 1, I>(v, &format!("gf2-{t}"), small_prof(2, hints).shaped(sh), n / 2, s + 7, f2);
        fam::<M31, 0, I>(v, &format!("m31-{t}"), Prof { hints: false, div: false, ..small_prof((1 << 31) - 1, hints) }.shaped(sh), n / 2, s + 7, m31);
    }
}
fn c01(e: Env) -> Vec<Case> {
    let n = e.pick(500, 10000);
    let mut v = vec![];
    let s = e.seed;
    fam::<F3, 0, N>(&mut v, "f3", small_prof(3, true), 2 * n, s, honest);
    fam::<F5, 0, N>(&mut v, "f5", small_prof(5, true), n, s, honest);
    fam::<F2, 1, N>(&mut v, "gf2", small_prof(2, true), n, s, honest);
    fam::<F7, 0, N>(&mut v, "f7", Prof { ints: false, ..small_prof(7, true) }, n, s, honest);
    fam::<M31, 0, N>(&mut v, "m31", Prof { hints: false, ..small_prof((1 << 31) - 1, true) }, n, s, honest);
    big::<N>(&mut v, true, e.pick(150, 3000), s, honest, honest, honest);
    finish(v)
}
fn c02(e: Env) -> Vec<Case> {
    let n = e.pick(500, 10000);
    let mut v = vec![];
    let s = e.seed;
    fam::<F3, 0, N>(&mut v, "f3", small_prof(3, false), 2 * n, s, adversarial);
    fam::<F5, 0, N>(&mut v, "f5", small_prof(5, false), n, s, adversarial);
    fam::<F2, 1, N>(&mut v, "gf2", small_prof(2, false), n, s, adversarial);
    fam::<F7, 0, N>(&mut v, "f7", Prof { ints: false, ..small_prof(7, false) }, n, s, adversarial);
    fam::<F5, 0, X>(&mut v, "f5x", small_prof(5, false), n, s + 1, adversarial);
    big::<N>(&mut v, false, e.pick(150, 3000), s, adversarial, adversarial, adversarial);
    finish(v)
}
fn c03(e: Env) -> Vec<Case> {
    let n = e.pick(500, 10000);
    let mut v = vec![];
    let s = e.seed + 2;
    fam::<F3, 0, X>(&mut v, "f3", small_prof(3, true), 2 * n, s, honest);
    fam::<F5, 0, X>(&mut v, "f5", small_prof(5, true), n, s, honest);
    fam::<F2, 1, X>(&mut v, "gf2", small_prof(2, true), n, s, honest);
    fam::<M31, 0, X>(&mut v, "m31", Prof { hints: false, ..small_prof((1 << 31) - 1, true) }, n, s, honest);
    big::<X>(&mut v, true, e.pick(150, 3000), s, honest, honest, honest);
    finish(v)
}

// ------------------------------------------------------------------ refusals
/// What the compiler refuses, no input satisfies; and a program with a reachable failing constant is not accepted silently.
fn c04_case<F: Field, const K: usize>(prof: &Prof, seed: u64) -> Out {
    let p = gen(prof, seed);
    let (o, os) = options(seed % 144);
    let mut out = Out { desc: format!("{} field {} with {os}", p.show(), F::NAME), ..Default::default() };
    out.programs += 1;
    let ir = to_ir::<SymConfig<F, K>>(&p);
    match catch_unwind(AssertUnwindSafe(|| compile_with_options::<SymConfig<F, K>, N>(&ir, o.clone()))) {
        Ok(Ok(_)) => {
            out.note("compiled");
        }
        Ok(Err(Error::InternalError(e))) => out.fail(format!("compiling a valid program ends in an internal error: {e}")),
        Err(e) => out.fail(format!("compiling a valid program panics: {}", symf::ctx::rethrow(e))),
        Ok(Err(Error::UserError(why))) => {
            out.refused += 1;
            // without outputs, a program that accepts everything leaves nothing to compile
            if p.circs[0].outs.is_empty() && why.contains("should have constraints or outputs") {
                out.note("refused as empty");
                out.add(explore::<F>(&opts(), &|| {
                    let (x, pb) = inputs::<F>(&p);
                    let _h = Hints::<F>::reset();
                    match meaning(&p, &x, &pb, false) {
                        Sem::Reject => Err("a program that can reject is refused as empty".into()),
                        _ => Ok(()),
                    }
                }));
                return out;
            }
            if why.contains("circuit has no inputs") {
                // every circuit needs inputs that matter; which of a sub-circuit's do depends on its callers
                if p.circs[0].ops.iter().any(|o| matches!(o, Op::Call(..))) {
                    return out;
                }
                out.note("refused for want of inputs");
                out.add(explore::<F>(&opts(), &|| {
                    let (x, pb) = inputs::<F>(&p);
                    let y: Vec<Sym<F>> = (0..x.len()).map(|i| Sym::var(&format!("y{}", i + 1))).collect();
                    let _h = Hints::<F>::reset();
                    match (meaning(&p, &x, &pb, false), meaning(&p, &y, &pb, false)) {
                        (Sem::Open, _) | (_, Sem::Open) | (Sem::Reject, Sem::Reject) => Ok(()),
                        (Sem::Accept(a), Sem::Accept(b)) => {
                            same_outputs(&a, &b, "").map_err(|_| "a program is refused for want of inputs, though its outputs depend on them".into())
                        }
                        _ => Err("a program is refused for want of inputs, though what it accepts depends on them".into()),
                    }
                }));
                return out;
            }
            out.note("refused");
            out.add(explore::<F>(&opts(), &|| {
                let (x, pb) = inputs::<F>(&p);
                let _h = Hints::<F>::reset();
                ZERO_BY_ZERO.with(|z| z.set(false));
                match meaning(&p, &x, &pb, false) {
                    // dividing by a constant zero is refused, whatever is divided
                    Sem::Accept(_) if why.contains("division by zero") && ZERO_BY_ZERO.with(|z| z.get()) => {
                        note("refused to divide by zero");
                        Ok(())
                    }
                    Sem::Accept(_) => Err(format!("a program is refused ({why}) though this input satisfies it")),
                    _ => Ok(()),
                }
            }));
        }
    }
    out
}
/// Options the documentation rules out are refused as the caller's mistake, whatever the program.
fn c04_bad<F: Field, const K: usize>(prof: &Prof, seed: u64) -> Out {
    let p = gen(prof, seed);
    let o = match seed % 4 {
        0 => CompileOptions::default().with_mul_fanout_limit(0),
        1 => CompileOptions::default().with_mul_fanout_limit(1),
        2 => CompileOptions::default().with_opt_level(0),
        _ => CompileOptions::default().with_opt_level(4),
    };
    let mut out = Out { desc: format!("{} field {} with the invalid options {o:?}", p.show(), F::NAME), programs: 1, refused: 1, ..Default::default() };
    let ir = to_ir::<SymConfig<F, K>>(&p);
    match catch_unwind(AssertUnwindSafe(|| compile_with_options::<SymConfig<F, K>, N>(&ir, o.clone()))) {
        Ok(Err(Error::UserError(_))) => out.note("invalid options refused"),
        Ok(Ok(_)) => out.fail("options that are documented as invalid are accepted"),
        Ok(Err(Error::InternalError(e))) => out.fail(format!("invalid options end in an internal error: {e}")),
        Err(e) => out.fail(format!("invalid options end in a panic: {}", symf::ctx::rethrow(e))),
    }
    out
}
fn fam4<F: Field, const K: usize>(v: &mut Vec<(u64, Case)>, tag: &str, prof: Prof, n: u64, seed: u64) {
    for i in 0..n {
        let prof = prof.clone();
        let s = seed * 1_000_003 + i;
        v.push((i * 1000 / n, case(format!("{tag}-{s}"), move || c04_case::<F, K>(&prof, s))));
    }
}
fn c04(e: Env) -> Vec<Case> {
    let n = e.pick(8000, 100000);
    let mut v = vec![];
    let s = e.seed + 3;
    // few inputs and many constants, so that constants reach checks
    let c = |p: u64| Prof { max_in: 2, max_cons: 4, ..small_prof(p, true) };
    fam4::<F3, 0>(&mut v, "f3", c(3), 2 * n, s);
    fam4::<F5, 0>(&mut v, "f5", c(5), n, s);
    fam4::<F2, 1>(&mut v, "gf2", c(2), n, s);
    fam4::<M31, 0>(&mut v, "m31", c((1 << 31) - 1), n, s);
    for i in 0..40 {
        let pr = c(3);
        let s = s * 1_000_003 + i;
        v.push((i * 25, case(format!("options-{s}"), move || c04_bad::<F3, 0>(&pr, s))));
    }
    finish(v)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", reach: &["accepted", "rejected"], cases: c01 },
        Prop { id: "C02", reach: &["accepted", "rejected", "prover-chosen values"], cases: c02 },
        Prop { id: "C03", reach: &["accepted", "rejected"], cases: c03 },
        Prop { id: "C04", reach: &["compiled", "refused", "refused as empty", "refused for want of inputs"], cases: c04 },
    ]
}
