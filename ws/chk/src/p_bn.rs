//! C23: 2048-bit numbers in limbs of 120 bits over BN254, against the integers they stand for.
use crate::int::*;
use crate::rep::*;
use crate::xag::NotEncodable;
use arith::{Field, Fr};
use circuit_std_rs::non_native as nn;
use circuit_std_rs::non_native::U2048Variable;
use ethnum::{I256, U256};
use expander_compiler::frontend::extra::DebugBuilder;
use expander_compiler::frontend::*;
use expander_compiler::hints::registry::EmptyHintCaller;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use symf::solver::Sat;

const N: usize = 18;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Less,
    GreaterEq,
    Equal,
    HintGreaterEq,
    MulFree,
    Accumulate,
    Bytes,
    Add,
    Mul,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum In {
    /// anything up to this
    Any(U256),
    Const(U256),
}
fn run<B: RootAPI<BN254Config>>(op: Op, b: &mut B, x: &[Variable]) -> Vec<Variable> {
    let n = |i: usize| U2048Variable::from_raw(x[i * N..i * N + N].try_into().unwrap());
    let two = b.constant(nn::BN_TWO_TO_120);
    match op {
        Op::Less => vec![n(0).assert_is_less_than(&n(1), b)],
        Op::GreaterEq => vec![n(0).assert_is_greater_eq(&n(1), b)],
        Op::Equal => vec![n(0).assert_is_equal(&n(1), b)],
        Op::HintGreaterEq => vec![n(0).unconstrained_greater_eq(&n(1), b)],
        Op::MulFree => U2048Variable::mul_without_mod_reduction(&n(0), &n(1), &two, b),
        Op::Accumulate => {
            let (r, c) = nn::accumulate_u120(x, &two, b);
            vec![r, c]
        }
        Op::Bytes => {
            let s: Vec<Variable> = (0..32).map(|i| b.constant(Fr::from_u256(U256::ONE << (8 * i)))).collect();
            nn::byte_decomposition(&x[0], &s, b)
        }
        Op::Add => {
            U2048Variable::assert_add(&n(0), &n(1), &n(2), &x[4 * N], &n(3), &two, b);
            vec![]
        }
        Op::Mul => {
            U2048Variable::assert_mul(&n(0), &n(1), &n(2), &n(3), &n(4), &two, b);
            vec![]
        }
    }
}
/// what is to hold: of the outputs, or (nothing else being wrong) exactly when it is accepted
fn holds(op: Op, x: &[U256], o: &[U256]) -> bool {
    let n = |i: usize| Nat::of(&x[i * N..i * N + N]);
    let small = |o: &[U256], k: u32| o.iter().all(|v| *v < (U256::ONE << k));
    let is = |o: &[U256], w: bool| o == [U256::from(w as u8)];
    match op {
        Op::Less => is(o, n(0).less(&n(1))),
        Op::GreaterEq | Op::HintGreaterEq => is(o, !n(0).less(&n(1))),
        Op::Equal => is(o, n(0) == n(1)),
        Op::MulFree => o.len() == 2 * N && small(o, 120) && Nat::of(o) == n(0).mul(&n(1)),
        Op::Accumulate => small(&o[..1], 120) && x.iter().fold(Nat::default(), |a, v| a.add(&Nat::of(&[*v]))) == Nat::of(o),
        Op::Bytes => o.len() == 32 && o.iter().enumerate().all(|(i, v)| *v == (x[0] >> (8 * i as u32)) & U256::from(255u8)),
        Op::Add => x[4 * N] <= 1 && n(2).less(&n(3)) && n(0).add(&n(1)) == if x[4 * N] == 1 { n(2).add(&n(3)) } else { n(2) },
        Op::Mul => n(0).mul(&n(1)) == n(2).add(&n(3).mul(&n(4))),
    }
}
fn accepts(op: Op) -> bool {
    matches!(op, Op::Add | Op::Mul)
}
fn sums(v: &[(usize, String)]) -> String {
    let mut s = String::from("(+ 0");
    for (i, x) in v {
        let mut n = String::from("1");
        if *i > 0 {
            n = Nat(std::iter::repeat(0).take(120 * i / 32).chain([1u32 << (120 * i % 32)]).collect()).decimal();
        }
        s += &format!(" (* {n} {x})");
    }
    s + ")"
}
/// the same for the solver; None when a product is not linear and has no atom
fn spec(b: &mut IB, op: Op, x: &[Lin], o: &[Lin]) -> Vec<String> {
    let n = |i: usize| &x[i * N..i * N + N];
    let number = |l: &[Lin]| sums(&l.iter().enumerate().filter(|(_, l)| l.konst() != Some(I256::ZERO)).map(|(i, l)| (i, l.smt())).collect::<Vec<_>>());
    let less = |a: &[Lin], b: &[Lin]| {
        let mut s = String::from("false");
        for (a, b) in a.iter().zip(b) {
            s = format!("(or (< {0} {1}) (and (= {0} {1}) {s}))", a.smt(), b.smt());
        }
        s
    };
    let is = |c: String| format!("(= {} (ite {c} 1 0))", o[0].smt());
    let product = |b: &mut IB, s: &[Lin], t: &[Lin]| {
        let mut v = vec![];
        for (i, x) in s.iter().enumerate() {
            for (j, y) in t.iter().enumerate() {
                let p = b.raw_times(x, y);
                if p.konst() != Some(I256::ZERO) {
                    v.push((i + j, p.smt()));
                }
            }
        }
        sums(&v)
    };
    let limbs = |o: &[Lin], k: u32| o.iter().map(|l| format!("(<= 0 {0} {1})", l.smt(), num((I256::ONE << k) - I256::ONE))).collect::<Vec<_>>();
    match op {
        Op::Less => vec![is(less(n(0), n(1)))],
        Op::GreaterEq | Op::HintGreaterEq => vec![is(format!("(not {})", less(n(0), n(1))))],
        Op::Equal => vec![is(format!("(and {})", n(0).iter().zip(n(1)).map(|(a, b)| format!("(= {} {})", a.smt(), b.smt())).collect::<Vec<_>>().join(" ")))],
        Op::MulFree => [limbs(o, 120), vec![format!("(= {} {})", number(o), product(b, n(0), n(1)))]].concat(),
        Op::Accumulate => [limbs(&o[..1], 120), vec![format!("(= {} (+ 0 {}))", number(o), x.iter().map(|l| l.smt()).collect::<Vec<_>>().join(" "))]].concat(),
        Op::Bytes => {
            let s: String = o.iter().enumerate().map(|(i, l)| format!(" (* {} {})", U256::ONE << (8 * i as u32), l.smt())).collect();
            [limbs(o, 8), vec![format!("(= {} (+{s}))", x[0].smt())]].concat()
        }
        Op::Add => {
            let c = product(b, &x[4 * N..], n(3));
            vec![
                format!("(<= 0 {} 1)", x[4 * N].smt()),
                less(n(2), n(3)),
                format!("(= (+ {} {}) (+ {} {c}))", number(n(0)), number(n(1)), number(n(2))),
            ]
        }
        Op::Mul => {
            let (l, r) = (product(b, n(0), n(1)), product(b, n(3), n(4)));
            vec![format!("(= {l} (+ {} {r}))", number(n(2)))]
        }
    }
}
/// two terms
fn split(s: &str) -> Option<(&str, &str)> {
    let mut d = 0;
    for (i, c) in s.char_indices() {
        match c {
            '(' => d += 1,
            ')' => d -= 1,
            ' ' if d == 0 => return Some((&s[..i], &s[i + 1..])),
            _ => {}
        }
    }
    None
}
type Fact = (String, BTreeSet<u32>);
/// sets of assumptions, each enough by itself, and what follows
type Claim = (Vec<Vec<Fact>>, Fact);
fn concrete(op: Op, x: &[U256]) -> Result<Vec<U256>, String> {
    catch_unwind(AssertUnwindSafe(|| {
        let (mut b, v, _) = DebugBuilder::<BN254Config, _>::new(x.iter().map(|v| Fr::from_u256(*v)).collect(), vec![], EmptyHintCaller);
        let o = run(op, &mut b, &v);
        b.set_outputs(o);
        b.get_outputs().iter().map(|v| v.to_u256()).collect()
    }))
    .map_err(|e| symf::ctx::panic_text(&e))
}
/// what the real code does on these inputs
fn replay(op: Op, x: &[U256]) -> Option<String> {
    let s = || format!("{op:?} of {}", x.iter().map(|v| format!("{v:x}")).collect::<Vec<_>>().join(" "));
    match concrete(op, x) {
        Err(e) if accepts(op) => holds(op, x, &[]).then(|| format!("{}: rejected ({e}) though it holds", s())),
        Err(e) => Some(format!("{}: rejected: {e}", s())),
        Ok(_) if accepts(op) => (!holds(op, x, &[])).then(|| format!("{}: accepted though it does not hold", s())),
        Ok(o) => (!holds(op, x, &o)).then(|| format!("{}: gives {}", s(), o.iter().map(|v| format!("{v:x}")).collect::<Vec<_>>().join(" "))),
    }
}
fn check(op: Op, name: String, x: Vec<In>, ms: u64) -> Out {
    let mut o = Out { desc: format!("{op:?}, {name}"), programs: 1, ..Default::default() };
    let mut b = IB::new();
    let vars: Vec<Variable> = x
        .iter()
        .enumerate()
        .map(|(i, v)| match v {
            In::Any(hi) => b.input(&format!("x{i}"), hi.as_i256()),
            In::Const(c) => b.put(Lin::k(c.as_i256())),
        })
        .collect();
    o.stats.paths += 1;
    let mut bad: Vec<Vec<U256>> = vec![];
    let mut open = false;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let outs = run(op, &mut b, &vars);
        let outs: Vec<Lin> = outs.iter().map(|v| b.of(*v)).collect();
        let ins: Vec<Lin> = vars.iter().map(|v| b.of(*v)).collect();
        let want = spec(&mut b, op, &ins, &outs);
        let must = b.must.clone();
        let at = |b: &IB, s: String| {
            let of = b.mentioned(&s);
            (s, of)
        };
        let want: Vec<Fact> = want.into_iter().map(|w| at(&b, w)).collect();
        let mut claims: Vec<Claim> = vec![];
        if op == Op::Mul && b.equal.len() == must.len() {
            // in one step: the two sides are what they are to be, and numbers are equal exactly if their limbs are
            let eq = b.equal.clone();
            let [l, r] = [|e: &(Lin, Lin)| e.0.smt(), |e: &(Lin, Lin)| e.1.smt()].map(|f| sums(&eq.iter().map(f).enumerate().collect::<Vec<_>>()));
            let (p, q) = want[0].0.strip_prefix("(= ").and_then(|s| s.strip_suffix(')')).and_then(|s| split(s)).unwrap_or_else(|| panic!("MACHINERY: the equation"));
            let sides = [[(&l, p), (&r, q)], [(&l, q), (&r, p)]].map(|w| w.map(|(s, t)| at(&b, format!("(= {s} {t})"))));
            let limb = eq.iter().flat_map(|e| [&e.0, &e.1]).all(|l| {
                let (lo, hi) = b.range(l);
                lo >= 0 && hi < (I256::ONE << 120)
            });
            if limb {
                b.timeout(ms);
                let mut proved = false;
                for two in &sides {
                    proved = two.iter().all(|same| {
                        b.z.cmd("(push)");
                        let cone = b.cone(same.1.iter().copied(), usize::MAX);
                        b.assume(&cone);
                        b.z.cmd(&format!("(assert (not {}))", same.0));
                        let r = b.z.check();
                        if std::env::var("BN_TRACE").is_ok() {
                            eprintln!("{op:?} {name}: a side {r:?} {:.0} ms in all, {} atoms", b.z.ms, cone.len());
                        }
                        b.z.cmd("(pop)");
                        r == Sat::Unsat
                    });
                    if b.z.dead {
                        open = true;
                        return;
                    }
                    if proved {
                        break;
                    }
                }
                if proved {
                    // p = q <=> l = r <=> the limbs are equal: the i-th limbs are, if those below are and the numbers are
                    for i in 0..eq.len() {
                        b.z.cmd("(push)");
                        let mut s = String::new();
                        for j in i..eq.len() {
                            s += &format!("(declare-const l{j} Int)(declare-const r{j} Int)(assert (<= 0 l{j} {0}))(assert (<= 0 r{j} {0}))", num((I256::ONE << 120) - I256::ONE));
                        }
                        let [l, r] = ["l", "r"].map(|n| sums(&(i..eq.len()).map(|j| (j - i, format!("{n}{j}"))).collect::<Vec<_>>()));
                        b.z.cmd(&format!("{s}(assert (= {l} {r}))(assert (not (= l{i} r{i})))"));
                        open |= b.z.check() != Sat::Unsat;
                        if b.z.dead {
                            return;
                        }
                        b.z.cmd("(pop)");
                    }
                    return;
                }
            }
        }
        if accepts(op) {
            for w in &want {
                let n = must.len().max(1) - 1;
                claims.push((vec![must[n..].to_vec(), must[..n].to_vec(), must.clone()], w.clone()));
            }
            for i in 0..must.len() {
                claims.push((vec![want.clone(), [&must[..i], &want[..]].concat()], must[i].clone()));
            }
        } else {
            claims.extend(must.iter().map(|m| (vec![vec![]], m.clone())));
            claims.extend(want.iter().map(|m| (vec![vec![]], m.clone())));
        }
        let start = std::time::Instant::now();
        'next: for (ways, (c, of)) in claims {
          let n = ways.len();
          for (k, a) in ways.into_iter().enumerate() {
            b.timeout(if k + 1 < n { 3000 } else { ms });
            if start.elapsed().as_millis() > 2 * ms as u128 {
                open = true;
                return;
            }
            b.z.cmd("(push)");
            let from: BTreeSet<u32> = a.iter().flat_map(|a| a.1.iter().copied()).chain(of.clone()).collect();
            let cone = b.cone(from, usize::MAX);
            b.assume(&cone);
            for (a, _) in a {
                b.z.cmd(&format!("(assert {a})"));
            }
            b.z.cmd(&format!("(assert (not {c}))"));
            let r = b.z.check();
            if std::env::var("BN_TRACE").is_ok() {
                eprintln!("{op:?} {name}: {r:?} {:.0} ms in all, {} atoms", b.z.ms, cone.len());
            }
            match r {
                Sat::Unsat => {
                    b.z.cmd("(pop)");
                    continue 'next;
                }
                Sat::Sat | Sat::Unknown if k + 1 < n && !b.z.dead => {
                    b.z.cmd("(pop)");
                    continue;
                }
                Sat::Sat => {
                    let names: Vec<String> = b.names.iter().map(|(a, _)| format!("a{a}")).collect();
                    let m = b.z.values(&names);
                    let mut k = 0;
                    bad.push(
                        x.iter()
                            .map(|v| match v {
                                In::Const(c) => *c,
                                In::Any(_) => {
                                    k += 1;
                                    U256::from_str_radix(&m[k - 1].1, 10).unwrap_or(U256::ZERO)
                                }
                            })
                            .collect(),
                    );
                }
                Sat::Unknown => open = true,
            }
            if b.z.dead {
                open = true;
                return;
            }
            b.z.cmd("(pop)");
            if !bad.is_empty() {
                return;
            }
          }
        }
    }));
    if let Err(e) = r {
        match e.downcast_ref::<NotEncodable>() {
            Some(NotEncodable(w)) => {
                o.stats.unsupported += 1;
                *o.stats.unsupported_why.entry(w.clone()).or_insert(0) += 1;
            }
            None => {
                // the code panicked whatever the values
                bad.push(x.iter().map(|v| match v { In::Const(c) => *c, In::Any(h) => *h }).collect());
            }
        }
    } else if !open && bad.is_empty() {
        o.note("decided");
    }
    let n = bad.len() as u64;
    for v in &bad {
        if let Some(w) = replay(op, v) {
            o.fail(w);
        }
    }
    if o.vio.is_none() {
        o.stats.unreplayed += n;
    }
    if open {
        o.stats.unresolved += 1;
    }
    o.stats.queries += b.z.queries;
    o.stats.solver_ms += b.z.ms;
    o.desc += &format!("; {} integer variables", b.all().len());
    o
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C23", reach: &["decided"], cases }]
}
fn top(i: usize) -> U256 {
    (U256::ONE << if i == N - 1 { 8 } else { 120 }) - U256::ONE
}
fn number(f: impl Fn(usize) -> Option<U256>) -> Vec<In> {
    (0..N).map(|i| f(i).map(|c| In::Const(c & top(i))).unwrap_or(In::Any(top(i)))).collect()
}
fn free() -> Vec<In> {
    number(|_| None)
}
fn cases(e: Env) -> Vec<Case> {
    let mut v = vec![];
    let ms = e.pick(40_000, 100_000);
    let mut add = |op: Op, name: &str, x: Vec<Vec<In>>| {
        let (x, name) = (x.concat(), name.to_string());
        v.push(case(format!("{op:?} {name}"), move || check(op, name.clone(), x.clone(), ms)));
    };
    let mut seed = e.seed;
    let mut rnd = move || {
        let mut r = U256::ZERO;
        for _ in 0..4 {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            r = (r << 32u32) | U256::from(seed >> 33);
        }
        r
    };
    for op in [Op::Less, Op::GreaterEq, Op::Equal, Op::HintGreaterEq] {
        add(op, "of any two numbers", vec![free(), free()]);
    }
    for n in [2usize, 3, 8, 17, 40] {
        add(Op::Accumulate, &format!("of any {n} limbs"), vec![vec![In::Any(top(0)); n]]);
        add(Op::Accumulate, &format!("of any {n} values of 200 bits"), vec![vec![In::Any((U256::ONE << 200) - U256::ONE); n]]);
    }
    add(Op::Bytes, "of any element", vec![vec![In::Any(Fr::MODULUS - U256::ONE)]]);
    add(Op::Bytes, "of any 120 bits", vec![vec![In::Any(top(0))]]);
    // factors: all ones, sparse, random
    let r: Vec<U256> = (0..N).map(|_| rnd()).collect();
    let ones = || number(|_| Some(U256::MAX));
    let rand = || number(|i| Some(r[i]));
    let few = |ks: &'static [usize]| number(move |i| (!ks.contains(&i)).then_some(U256::ZERO));
    let unit = |k: usize| number(move |i| Some(U256::from((i == k) as u8)));
    let two = |j: usize, k: usize| number(move |i| Some(if i == j || i == k { U256::MAX } else { U256::ZERO }));
    let many = e.pick(false, true);
    add(Op::MulFree, "of any two numbers", vec![free(), free()]);
    for (s, y) in [("all ones", ones()), ("a random number", rand()), ("2^120", unit(1)), ("limbs 0 and 17", two(0, 17))] {
        if s == "a random number" && !many {
            continue;
        }
        add(Op::MulFree, &format!("of three limbs by {s}"), vec![few(&[0, 1, 17]), y.clone()]);
        add(Op::MulFree, &format!("of {s} by any number"), vec![y, free()]);
    }
    for c in 0..3u8 {
        let carry = |c| vec![if c == 2 { In::Any(U256::ONE) } else { In::Const(U256::from(c * 2)) }];
        add(Op::Add, &format!("of any numbers, carry {}", ["0", "2", "of one bit"][c as usize]), vec![free(), free(), free(), free(), carry(c)]);
        add(Op::Add, &format!("of few limbs, carry {}", ["0", "2", "of one bit"][c as usize]), vec![few(&[0, 16, 17]), rand(), free(), ones(), carry(c)]);
    }
    add(Op::Mul, "of any numbers", vec![free(); 5]);
    for (s, y, m) in [("sparse numbers", two(0, 1), two(0, 17)), ("sparse numbers and 1", unit(0), two(0, 17)), ("high limbs", unit(17), unit(17)), ("all ones", ones(), ones()), ("random numbers", rand(), ones())] {
        if s == "random numbers" && !many {
            continue;
        }
        add(Op::Mul, &format!("by {s}, few limbs"), vec![few(&[0, 1, 17]), y.clone(), few(&[0, 5, 17]), few(&[0, 17]), m.clone()]);
        add(Op::Mul, &format!("by {s}, any numbers"), vec![free(), y, free(), free(), m]);
    }
    v
}
