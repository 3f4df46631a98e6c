//! C20: lookups, range proofs, matrix products and selectors of circuit-std-rs.
use crate::p_compile::guarded;
use crate::rep::*;
use arith::Field;
use circuit_std_rs::logup::*;
use circuit_std_rs::matmul::{MatMulCircuit, MatMulParams};
use circuit_std_rs::utils::{simple_lookup2, simple_select};
use circuit_std_rs::StdCircuit;
use expander_compiler::frontend::extra::*;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::*;
use expander_compiler::hints::registry::{hint_key_to_id, HintCaller};
use std::cell::Cell;
use symf::*;

type S<F> = Sym<F>;
type C0<F> = SymConfig<F, 0>;

thread_local! {
    static HINTS: Cell<usize> = const { Cell::new(0) };
}
/// hints of the library: the values it computes itself, or whatever the prover likes
#[derive(Clone, Copy)]
pub struct Prover<F: Field> {
    pub honest: bool,
    f: std::marker::PhantomData<F>,
}
impl<F: Field> Prover<F> {
    pub fn new(honest: bool) -> Self {
        HINTS.with(|h| h.set(0));
        Prover { honest, f: std::marker::PhantomData }
    }
}
impl<F: Field> HintCaller<S<F>> for Prover<F> {
    fn call(&self, id: usize, args: &[S<F>], n: usize) -> Result<Vec<S<F>>, Error> {
        if !self.honest {
            let v: Vec<S<F>> = (0..n)
                .map(|_| {
                    let k = HINTS.with(|h| {
                        h.set(h.get() + 1);
                        h.get()
                    });
                    Sym::var(&format!("prover{k}"))
                })
                .collect();
            if id == hint_key_to_id("myhint.rangeproofhint") {
                // cases: every piece is in the table, or a first one is not
                if let Some(bits) = args[1].konst() {
                    let _ = v.iter().all(|v| below(*v, 1 << bits.to_u256().as_usize()));
                }
            }
            return Ok(v);
        }
        let mut out = vec![S::<F>::ZERO; n];
        let is = |k: &str| id == hint_key_to_id(k);
        if is("myhint.querycounthint") {
            query_count_hint(args, &mut out)?
        } else if is("myhint.querycountbykeyhint") {
            query_count_by_key_hint(args, &mut out)?
        } else if is("myhint.rangeproofhint") {
            rangeproof_hint(args, &mut out)?
        } else {
            return Err(Error::UserError(format!("no hint {id}")));
        }
        Ok(out)
    }
}
type B<F> = DebugBuilder<C0<F>, Prover<F>>;
fn vars<F: Field>(p: &str, n: usize) -> Vec<S<F>> {
    (0..n).map(|i| Sym::var(&format!("{p}{i}"))).collect()
}
/// what the circuit does on these inputs: its outputs, or None when it rejects
fn run<F: Field>(x: &[S<F>], honest: bool, f: impl FnOnce(&mut B<F>, &[Variable]) -> Vec<Variable>) -> Option<Vec<S<F>>> {
    guarded(|| {
        let (mut b, v, _) = DebugBuilder::<C0<F>, _>::new(x.to_vec(), vec![], Prover::new(honest));
        let o = f(&mut b, &v);
        b.set_outputs(o);
        b.get_outputs()
    })
}
fn opts(seconds: u64) -> Opts {
    Opts { max_paths: 20000, max_time: std::time::Duration::from_secs(seconds), timeout_ms: 10_000, ..Default::default() }
}
fn verdict(want: bool, got: bool, what: &str) -> Result<(), String> {
    match (want, got) {
        (true, true) => {
            note("accepted");
            Ok(())
        }
        (false, false) => {
            note("rejected");
            Ok(())
        }
        (true, false) => Err(format!("~{what} rejects what it should accept")),
        (false, true) => Err(format!("{what} accepts what it should reject")),
    }
}
/// for every row that occurs: what the counts of the table say is how often it was queried
fn counts_fit<F: Field>(table: &[Vec<S<F>>], queries: &[Vec<S<F>>], counts: &[S<F>]) -> bool {
    let mut classes: Vec<(Vec<S<F>>, S<F>)> = vec![];
    let mut put = |row: &Vec<S<F>>, n: S<F>| {
        for c in classes.iter_mut() {
            if c.0.iter().zip(row).all(|(a, b)| *a == *b) {
                c.1 += n;
                return;
            }
        }
        classes.push((row.clone(), n));
    };
    for (r, c) in table.iter().zip(counts) {
        put(r, *c);
    }
    for q in queries {
        put(q, -S::<F>::ONE);
    }
    classes.iter().all(|c| c.1.is_zero())
}
fn split<T: Clone>(x: &[T], w: usize) -> Vec<Vec<T>> {
    x.chunks(w).map(|c| c.to_vec()).collect()
}
/// LogUpCircuit: keys and values, counts given
fn logup<F: Field>(k: usize, v: usize, rows: usize, qs: usize, seconds: u64) -> Out {
    let mut out = Out { desc: format!("{rows} rows and {qs} queries of {k} keys and {v} values over {}", F::NAME), programs: 1, ..Default::default() };
    out.add(explore::<F>(&opts(seconds), &|| {
        let p = LogUpParams { key_len: k, value_len: v, n_table_rows: rows, n_queries: qs };
        let c = <LogUpCircuit as StdCircuit<C0<F>>>::new_circuit(&p);
        // the variables in the order of the declaration
        let (tk, tv, qk, qv, n) = (vars::<F>("tk", rows * k), vars::<F>("tv", rows * v), vars::<F>("qk", qs * k), vars::<F>("qv", qs * v), vars::<F>("n", rows));
        let row = |a: &[S<F>], b: &[S<F>], m: usize| -> Vec<Vec<S<F>>> { (0..m).map(|i| [&a[i * k..(i + 1) * k], &b[i * v..(i + 1) * v]].concat()).collect() };
        let want = counts_fit(&row(&tk, &tv, rows), &row(&qk, &qv, qs), &n);
        let x = [tk, tv, qk, qv, n].concat();
        let got = run::<F>(&x, false, |b, mut vs| {
            let mut c = c.clone();
            c.load_from(&mut vs, &mut &[][..]);
            c.define(b);
            vec![]
        });
        verdict(want, got.is_some(), "LogUpCircuit")
    }));
    out
}
/// LogUpSingleKeyTable, with counts given by the caller or by the hint
fn single<F: Field>(v: usize, rows: usize, qs: usize, counts: u8, how: usize, seconds: u64) -> Out {
    let mut out = Out { desc: format!("{rows} rows and {qs} queries of {v} values over {}, counts {}", F::NAME, ["given", "from the hint", "from the prover"][counts as usize]), programs: 1, ..Default::default() };
    out.add(explore::<F>(&opts(seconds), &|| {
        let w = v + 1;
        let (t, q) = (vars::<F>("t", rows * w), vars::<F>("q", qs * w));
        let n = match counts {
            0 => vars::<F>("n", rows),
            2 => (1..=rows).map(|i| Sym::var(&format!("prover{i}"))).collect(),
            _ => vec![],
        };
        let (tr, qr) = (split(&t, w), split(&q, w));
        let want = if counts == 1 {
            // keys of the table differ
            for i in 0..rows {
                for j in 0..i {
                    assume(tr[i][0] != tr[j][0]);
                }
            }
            qr.iter().all(|q| tr.iter().any(|r| r == q))
        } else {
            counts_fit(&tr, &qr, &n)
        };
        let x = [&t[..], &q[..], if counts == 0 { &n[..] } else { &[] }].concat();
        let got = run::<F>(&x, counts == 1, |b, vs| {
            let mut s = LogUpSingleKeyTable::new(8);
            let (tr, rest) = vs.split_at(rows * w);
            let (qr, n) = rest.split_at(qs * w);
            let (tr, qr) = (split(tr, w), split(qr, w));
            let (tk, tv): (Vec<_>, Vec<_>) = tr.iter().map(|r| (r[0], r[1..].to_vec())).unzip();
            let (qk, qv): (Vec<_>, Vec<_>) = qr.iter().map(|r| (r[0], r[1..].to_vec())).unzip();
            if how == 0 {
                s.new_table(tk, tv);
                s.batch_query(qk, qv);
            } else {
                tk.iter().zip(tv).for_each(|(k, v)| s.add_table_row(*k, v));
                qk.iter().zip(qv).for_each(|(k, v)| s.query(*k, v));
            }
            match counts {
                0 => s.final_check_with_query_count(b, n),
                _ => s.final_check(b),
            }
            vec![]
        });
        verdict(want, got.is_some(), "LogUpSingleKeyTable")
    }));
    out
}
/// keys that only differ above 32 bits, counted by the hint
fn wide_keys(seconds: u64) -> Out {
    type F = Fr;
    let mut out = Out { desc: "two rows whose keys differ in bit 32, two queries, over Fr, counts from the hint".into(), programs: 1, ..Default::default() };
    out.add(explore::<F>(&opts(seconds), &|| {
        let (s, t) = (Sym::<F>::bit("s"), Sym::<F>::bit("t"));
        let high = Sym::C(F::from_u256(ethnum::U256::ONE << 32));
        let key = |b: S<F>| if b.is_zero() { S::<F>::from(5u32) } else { S::<F>::from(5u32) + high };
        let v = vars::<F>("v", 2);
        let q = vars::<F>("q", 2);
        let (ks, kt) = (key(s), key(t));
        let want = [(s, q[0]), (t, q[1])].iter().all(|(b, q)| *q == v[if b.is_zero() { 0 } else { 1 }]);
        let x = [S::<F>::from(5u32), v[0], S::<F>::from(5u32) + high, v[1], ks, q[0], kt, q[1]];
        let got = run::<F>(&x, true, |b, x| {
            let mut l = LogUpSingleKeyTable::new(8);
            l.new_table(vec![x[0], x[2]], vec![vec![x[1]], vec![x[3]]]);
            l.batch_query(vec![x[4], x[6]], vec![vec![x[5]], vec![x[7]]]);
            l.final_check(b);
            vec![]
        });
        verdict(want, got.is_some(), "LogUpSingleKeyTable")
    }));
    out
}
/// a product of linear factors that is zero on 0..n
fn below<F: Field>(a: S<F>, n: usize) -> bool {
    let mut p = S::<F>::ONE;
    for i in 0..n {
        p *= a - S::<F>::from(i as u32);
    }
    p.is_zero()
}
/// LogUpRangeProofTable: values accepted are exactly those below 2^n
fn range<F: Field>(bits: usize, ns: &[usize], one: bool, honest: bool, seconds: u64) -> Out {
    let mut out = Out { desc: format!("below 2^{ns:?} by {bits} bits over {}, hints {}", F::NAME, if honest { "of the library" } else { "of the prover" }), programs: 1, ..Default::default() };
    out.add(explore::<F>(&opts(seconds), &|| {
        let x = vars::<F>("a", ns.len());
        let want = x.iter().zip(ns).all(|(a, n)| below(*a, 1 << n));
        let got = run::<F>(&x, honest, |b, vs| {
            let mut t = LogUpRangeProofTable::new(bits);
            t.initial(b);
            for (v, n) in vs.iter().zip(ns) {
                if one {
                    t.rangeproof_onechunk(b, *v, *n);
                } else {
                    t.rangeproof(b, *v, *n);
                }
            }
            t.final_check(b);
            vec![]
        });
        match (want, got.is_some()) {
            // some hints may be wrong
            (true, false) if !honest => {
                note("rejected");
                Ok(())
            }
            (a, b) => verdict(a, b, "LogUpRangeProofTable"),
        }
    }));
    out
}
/// MatMulCircuit: the third matrix is the product of the others
fn matmul<F: Field>(m: usize, n: usize, k: usize, seconds: u64) -> Out {
    let mut out = Out { desc: format!("{m}x{n} by {n}x{k} over {}", F::NAME), programs: 1, ..Default::default() };
    out.add(explore::<F>(&opts(seconds), &|| {
        let c = <MatMulCircuit as StdCircuit<C0<F>>>::new_circuit(&MatMulParams { m1: m, n1: n, m2: n, n2: k });
        let (a, b, r) = (vars::<F>("a", m * n), vars::<F>("b", n * k), vars::<F>("r", m * k));
        let want = (0..m).all(|i| (0..k).all(|j| (0..n).fold(r[i * k + j], |s, l| s - a[i * n + l] * b[l * k + j]).is_zero()));
        let x = [a, b, r].concat();
        let got = run::<F>(&x, false, |b, mut vs| {
            let mut c = c.clone();
            c.load_from(&mut vs, &mut &[][..]);
            c.define(b);
            vec![]
        });
        verdict(want, got.is_some(), "MatMulCircuit")
    }));
    out
}
/// StdCircuit::new_assignment: an assignment its circuit accepts, of the shape of the circuit
fn sample<F: Field, T: StdCircuit<C0<F>>>(p: T::Params, what: &'static str, seconds: u64) -> Out {
    use rand::SeedableRng;
    let mut out = Out { desc: format!("{what} {p:?} over {}", F::NAME), programs: 1, ..Default::default() };
    out.add(explore::<F>(&opts(seconds), &|| {
        for seed in 0..4 {
            let c = T::new_circuit(&p);
            let a = T::new_assignment(&p, rand::rngs::StdRng::seed_from_u64(seed));
            let (mut x, mut pb) = (vec![], vec![]);
            a.dump_into(&mut x, &mut pb);
            if (x.len(), pb.len()) != c.num_vars() {
                return Err(format!("~{what}: an assignment has another number of values than the circuit has variables"));
            }
            let got = run::<F>(&x, true, |b, mut vs| {
                let mut c = c.clone();
                c.load_from(&mut vs, &mut &[][..]);
                c.define(b);
                vec![]
            });
            verdict(true, got.is_some(), what)?;
        }
        Ok(())
    }));
    out
}
fn selectors<F: Field>(seconds: u64) -> Out {
    let mut out = Out { desc: format!("selectors over {}", F::NAME), programs: 2, ..Default::default() };
    out.add(explore::<F>(&opts(seconds), &|| {
        let (s0, s1) = (Sym::<F>::bit("s0"), Sym::<F>::bit("s1"));
        let v = vars::<F>("v", 4);
        let x = [vec![s0, s1], v.clone()].concat();
        let got = run::<F>(&x, true, |b, x| vec![simple_select(b, x[0], x[2], x[3]), simple_lookup2(b, x[0], x[1], x[2], x[3], x[4], x[5])]).ok_or("a selector rejects")?;
        let (p, q) = (!s0.is_zero(), !s1.is_zero());
        if got[0] != v[if p { 0 } else { 1 }] {
            return Err("simple_select(s, a, b) is not a for s = 1 and b for s = 0".into());
        }
        if got[1] != v[p as usize + 2 * q as usize] {
            return Err("simple_lookup2 selects another value".into());
        }
        note("selected");
        Ok(())
    }));
    out
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C20", reach: &["accepted", "rejected", "selected"], cases }]
}
fn cases(e: Env) -> Vec<Case> {
    let mut v = vec![];
    let t = e.pick(30, 120);
    macro_rules! each {
        ($f:ident [$($F:ty),*] $name:expr, $a:tt) => {{ $( { let n = $name; v.push(case(format!("{n} {}", stringify!($F)), move || $f::<$F> $a)); } )* }};
    }
    each!(selectors [F7, M31, Fr] "selectors", (t));
    for (m, n, k) in [(1, 1, 1), (2, 2, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1)] {
        each!(matmul [F7, F257, M31, Fr] format!("matmul {m}x{n}x{k}"), (m, n, k, t));
        v.push(case(format!("matmul sample {m}x{n}x{k}"), move || sample::<M31, MatMulCircuit>(MatMulParams { m1: m, n1: n, m2: n, n2: k }, "MatMulCircuit", t)));
    }
    for (k, w, r, q) in [(1, 1, 1, 1), (1, 1, 2, 1), (1, 1, 2, 2), (2, 1, 1, 2), (1, 2, 2, 1)] {
        each!(logup [F3, F5] format!("logup {k}+{w} {r}x{q}"), (k, w, r, q, t));
        if (r, q) != (2, 2) {
            each!(logup [F7, M31] format!("logup {k}+{w} {r}x{q}"), (k, w, r, q, t));
        }
        v.push(case(format!("logup sample {k}+{w} {r}x{q}"), move || sample::<M31, LogUpCircuit>(LogUpParams { key_len: k, value_len: w, n_table_rows: r, n_queries: q }, "LogUpCircuit", t)));
    }
    for (w, r, q) in [(1, 1, 1), (1, 2, 1), (1, 2, 2), (2, 1, 2), (0, 3, 2)] {
        for c in 0..3 {
            if c != 1 && r + q < 5 {
                each!(single [F3] format!("single key {w} {r}x{q} {c}"), (w, r, q, c, (r + q) % 2, t));
            }
            each!(single [F5] format!("single key {w} {r}x{q} {c}"), (w, r, q, c, (r + q) % 2, t));
        }
    }
    v.push(case("wide keys", move || wide_keys(t)));
    // fields larger than the table and what is asked of it
    for (bits, n) in [(1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)] {
        for h in [false, true] {
            if bits < 3 {
                each!(range [F13] format!("one chunk {bits} {n} {h}"), (bits, &[n], true, h, t));
            }
            each!(range [F31] format!("one chunk {bits} {n} {h}"), (bits, &[n], true, h, t));
        }
    }
    for (bits, n) in [(1, 1), (1, 2), (1, 3), (2, 1), (2, 3), (2, 4), (3, 2), (3, 4), (1, 4)] {
        for h in [false, true] {
            if n <= 3 && bits < 3 {
                each!(range [F13] format!("range {bits} {n} {h}"), (bits, &[n], false, h, t));
            }
            each!(range [F31] format!("range {bits} {n} {h}"), (bits, &[n], false, h, t));
        }
    }
    v
}
