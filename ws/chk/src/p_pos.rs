//! C21: the Poseidon gadget over Mersenne 31, against the permutation and sponge it is meant to be.
use crate::pf::*;
use crate::rep::*;
use crate::xag::NotEncodable;
use arith::Field;
use circuit_std_rs::poseidon::poseidon_m31::PoseidonM31Params;
use expander_compiler::frontend::extra::DebugBuilder;
use expander_compiler::frontend::*;
use expander_compiler::hints::registry::HintCaller;
use std::panic::{catch_unwind, AssertUnwindSafe};
use symf::solver::Sat;
use tiny_keccak::{Hasher, Keccak};

type C = M31Config;
type P = Pol<M31>;
/// rate, width, full rounds, partial rounds
type Shape = (usize, usize, usize, usize);
#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Permute,
    Hash,
    Flat,
}
fn keccak(x: &[u8]) -> [u8; 32] {
    let mut k = Keccak::v256();
    let mut o = [0u8; 32];
    k.update(x);
    k.finalize(&mut o);
    o
}
/// constants: a chain of Keccak-256 from the seed, the first four bytes of every link
fn constants(width: usize, rounds: usize) -> Vec<Vec<M31>> {
    let mut b = keccak(format!("poseidon_seed_Mersenne 31_{width}").as_bytes());
    (0..rounds)
        .map(|_| {
            (0..width)
                .map(|_| {
                    b = keccak(&b);
                    M31::from_u256(ethnum::U256::from(u32::from_le_bytes(b[..4].try_into().unwrap()) as u64 % 0x7fff_ffff))
                })
                .collect()
        })
        .collect()
}
fn first_row(width: usize) -> &'static [u32] {
    match width {
        8 => &[7, 1, 3, 8, 8, 3, 4, 9],
        12 => &[1, 1, 2, 1, 8, 9, 10, 7, 5, 9, 4, 10],
        _ => &[1, 1, 51, 1, 11, 17, 2, 1, 101, 63, 15, 2, 67, 22, 13, 3],
    }
}
fn permute(e: &mut Eng<M31>, (_, w, full, part): Shape, s: &mut Vec<P>) {
    let rc = constants(w, full + part);
    let row = first_row(w);
    for r in 0..full + part {
        let x: Vec<P> = (0..w).map(|i| s[i].add(&Pol::k(rc[r][i]), M31::ONE)).collect();
        *s = (0..w).map(|i| (0..w).fold(Pol::k(M31::ZERO), |a, j| a.add(&x[j], M31::from(row[(i + j) % w])))).collect();
        let n = if r < full / 2 || r >= full / 2 + part { w } else { 1 };
        for x in s.iter_mut().take(n) {
            let y = x.clone();
            for _ in 0..4 {
                *x = e.mul(x, &y);
            }
        }
    }
}
fn spec(e: &mut Eng<M31>, sh: Shape, what: What, x: &[P]) -> Vec<P> {
    let (rate, w, _, _) = sh;
    if what == What::Permute {
        let mut s = x.to_vec();
        permute(e, sh, &mut s);
        return s;
    }
    let mut s = vec![Pol::k(M31::ZERO); w];
    for c in x.chunks(rate) {
        for (i, v) in c.iter().enumerate() {
            s[w - rate + i] = s[w - rate + i].add(v, M31::ONE);
        }
        permute(e, sh, &mut s);
    }
    s
}
fn gadget<B: RootAPI<C>>(b: &mut B, (rate, w, full, part): Shape, what: What, x: &[Variable]) -> Vec<Variable> {
    let p = PoseidonM31Params::new(b, rate, w, full, part);
    match what {
        What::Permute => {
            let mut s = x.to_vec();
            p.permute(b, &mut s);
            s
        }
        What::Hash => p.hash_to_state(b, x),
        What::Flat => p.hash_to_state_flatten(b, x),
    }
}
/// which element of every copy is not the copied value: none, one of them, all of them
#[derive(Clone, Copy, PartialEq)]
enum Wrong {
    No,
    One(usize),
    All,
}
#[derive(Clone, Copy)]
struct Copies(Wrong);
impl HintCaller<M31> for Copies {
    fn call(&self, _: usize, args: &[M31], n: usize) -> Result<Vec<M31>, Error> {
        let wrong = |i| self.0 == Wrong::All || self.0 == Wrong::One(i);
        Ok((0..n).map(|i| *args.get(i).unwrap_or(&M31::ZERO) + if wrong(i) { M31::from(i as u32 + 12345) } else { M31::ZERO }).collect())
    }
}
fn concrete(sh: Shape, what: What, x: &[M31], wrong: Wrong) -> Result<Vec<M31>, String> {
    catch_unwind(AssertUnwindSafe(|| {
        let (mut b, v, _) = DebugBuilder::<C, _>::new(x.to_vec(), vec![], Copies(wrong));
        let o = gadget(&mut b, sh, what, &v);
        b.set_outputs(o);
        b.get_outputs()
    }))
    .map_err(|e| symf::ctx::panic_text(&e))
}
fn check(sh: Shape, what: What, n: usize) -> Out {
    let mut o = Out { desc: format!("{what:?} of {n} values, rate {} width {} rounds {} + {}", sh.0, sh.1, sh.2, sh.3), programs: 1, ..Default::default() };
    let mut b = FB::<C>::new();
    let ins: Vec<P> = (0..n).map(|i| b.e.input(&format!("x{i}"))).collect();
    let vars: Vec<Variable> = ins.iter().map(|p| b.put(p.clone())).collect();
    let want = spec(&mut b.e, sh, what, &ins);
    let (xs, ws): (Vec<_>, Vec<_>) = (ins.iter().map(|p| b.e.at(p)).collect(), want.iter().map(|p| b.e.at(p)).collect());
    // what the real code does at a point
    let replay = || -> Option<String> {
        for k in 0..POINTS {
            let (x, w): (Vec<M31>, Vec<M31>) = (xs.iter().map(|v| v[k]).collect(), ws.iter().map(|v| v[k]).collect());
            let s = || x.iter().map(|v| v.to_u256().to_string()).collect::<Vec<_>>().join(" ");
            match concrete(sh, what, &x, Wrong::No) {
                Err(e) => return Some(format!("inputs {}: rejected: {e}", s())),
                Ok(g) if g != w => return Some(format!("inputs {}: the circuit computes {g:?}, specified is {w:?}", s())),
                Ok(_) => {}
            }
            for wrong in (0..sh.1).map(Wrong::One).chain([Wrong::All]) {
                match concrete(sh, what, &x, wrong) {
                    Ok(g) if g != w => return Some(format!("inputs {}: with other values for its hints the circuit computes {g:?} and accepts, specified is {w:?}", s())),
                    _ => {}
                }
            }
        }
        None
    };
    let got = catch_unwind(AssertUnwindSafe(|| {
        let g = gadget(&mut b, sh, what, &vars);
        g.iter().map(|v| b.of(*v)).collect::<Vec<_>>()
    }));
    o.stats.paths += 1;
    let mut differ = false;
    match got {
        Err(e) => match e.downcast_ref::<NotEncodable>() {
            Some(NotEncodable(w)) => {
                o.stats.unsupported += 1;
                *o.stats.unsupported_why.entry(w.clone()).or_insert(0) += 1;
            }
            None => differ = true,
        },
        Ok(g) => {
            differ |= g.len() != want.len();
            for (x, y) in g.iter().zip(&want) {
                differ |= b.e.same(x, y) != Sat::Unsat;
            }
            for m in b.must.clone() {
                differ |= b.e.same(&m, &Pol::k(M31::ZERO)) != Sat::Unsat;
            }
            if !differ {
                o.note("decided");
            }
        }
    }
    if differ {
        match replay() {
            Some(w) => o.fail(w),
            None => o.stats.unresolved += 1,
        }
    }
    o.stats.queries += b.e.z.queries;
    o.stats.solver_ms += b.e.z.ms;
    o.stats.decisions += b.e.merged;
    o.desc += &format!("; {} shared subexpressions", b.e.merged);
    o
}
/// the specification on the published example: eight times 114514
fn self_test() -> Out {
    let mut o = Out { desc: "the specification on the example of the tests".into(), programs: 1, ..Default::default() };
    let mut e = Eng::<M31>::new();
    let x = vec![Pol::k(M31::from(114514u32)); 8];
    let got: Vec<u32> = spec(&mut e, (8, 16, 8, 14), What::Hash, &x).iter().map(|p| p.c.to_u256().as_u32()).collect();
    let want = [
        1021105124u32, 1342990709, 1593716396, 2100280498, 330652568, 1371365483, 586650367, 345482939, 849034538, 175601510, 1454280121, 1362077584, 528171622, 187534772, 436020341, 1441052621,
    ];
    assert_eq!(got, want, "MACHINERY: the specification");
    o.note("specification checked");
    o
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C21", reach: &["specification checked"], cases }]
}
fn cases(e: Env) -> Vec<Case> {
    let mut v = vec![case("the specification", self_test)];
    let std = (8, 16, 8, 14);
    let shapes: Vec<Shape> = vec![std, (4, 8, 2, 1), (6, 12, 4, 3), (8, 16, 2, 0), (1, 8, 8, 14), (7, 8, 4, 0), (8, 8, 2, 2), (12, 12, 2, 1), (4, 16, 8, 22)];
    for sh in shapes {
        let sh: Shape = sh;
        v.push(case(format!("permute {sh:?}"), move || check(sh, What::Permute, sh.1)));
        let ns: Vec<usize> = if e.pick(true, false) { vec![1, sh.0 - 1, sh.0, sh.0 + 1, 2 * sh.0 + 1] } else { (0..=4 * sh.0 + 1).collect() };
        for n in ns {
            v.push(case(format!("hash {sh:?} of {n}"), move || check(sh, What::Hash, n)));
            v.push(case(format!("flat {sh:?} of {n}"), move || check(sh, What::Flat, n)));
        }
    }
    v
}
