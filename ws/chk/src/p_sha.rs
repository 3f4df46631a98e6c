//! C19: the SHA-256 gadgets, and the bit helpers they are made of, against FIPS 180-4.
use crate::rep::*;
use crate::xag::*;
use circuit_std_rs::sha256::{gf2::SHA256GF2, gf2_utils as gu, m31, m31_utils as mu};
use expander_compiler::frontend::extra::DebugBuilder;
use expander_compiler::frontend::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Gadget<C: Config>: Send + Sync {
    fn run<B: RootAPI<C>>(&self, api: &mut B, x: &[Variable], p: &[usize]) -> Vec<Variable>;
}
/// what a gadget has to do: inputs (bits of every variable, lowest first), when it accepts, and the values of its outputs
pub struct Spec {
    pub accept: Lit,
    pub outs: Option<Vec<Vec<Lit>>>,
}
type SpecFn = dyn Fn(&mut Xag, &[Vec<Lit>], &[usize]) -> Spec + Send + Sync;

/// the real circuit on values, with the debug builder
fn concrete<C: Config, G: Gadget<C>>(g: &G, x: &[u128], p: &[usize]) -> Result<Vec<u128>, String> {
    let f = |v: u128| CircuitField::<C>::from_u256(ethnum::U256::from(v));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let (mut b, vars, _) = DebugBuilder::<C, _>::new(x.iter().map(|v| f(*v)).collect(), vec![], EmptyHintCaller);
        let o = g.run(&mut b, &vars, p);
        b.set_outputs(o);
        b.get_outputs().iter().map(|v| v.to_u256().as_u128()).collect()
    }));
    r.map_err(|e| symf::ctx::panic_text(&e))
}
pub fn decide<C: Config, G: Gadget<C>>(g: &G, widths: &[usize], p: &[usize], spec: &SpecFn, seconds: u64) -> Out {
    let mut o = Out { desc: format!("{} inputs of {:?} bits, parameters {p:?}", widths.len(), widths.iter().max()), programs: 1, ..Default::default() };
    let mut b = XB::<C>::new(seconds);
    let ins: Vec<Vec<Lit>> = widths.iter().enumerate().map(|(i, w)| (0..*w).map(|k| b.g.input(&format!("x{i}.{k}"))).collect()).collect();
    let vars: Vec<Variable> = ins.iter().map(|l| b.put(Lin::word(l))).collect();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let outs = g.run(&mut b, &vars, p);
        let l: Vec<Lin> = outs.iter().map(|v| b.lin(*v)).collect();
        l.iter().map(|l| b.int_bits(l)).collect::<Vec<_>>()
    }));
    let value = |m: &BTreeMap<String, bool>| -> Vec<u128> {
        widths.iter().enumerate().map(|(i, w)| (0..*w).map(|k| (m[&format!("x{i}.{k}")] as u128) << k).sum()).collect()
    };
    let want = |b: &XB<C>, s: &Spec, m: &BTreeMap<String, bool>| {
        let v = b.g.eval(m);
        let g = |l: Lit| v[(l / 2) as usize] ^ (l & 1 == 1);
        let outs: Option<Vec<u128>> = s.outs.as_ref().map(|o| o.iter().map(|w| w.iter().enumerate().map(|(i, l)| (g(*l) as u128) << i).sum()).collect());
        (g(s.accept), outs)
    };
    let check = |b: &XB<C>, s: &Spec, m: &BTreeMap<String, bool>| -> Option<String> {
        let x = value(m);
        let (acc, outs) = want(b, s, m);
        let shown = || {
            let v: Vec<String> = x.iter().map(|v| format!("{v:x}")).collect();
            v.join(if x.iter().all(|v| *v < 2) { "" } else { " " })
        };
        match (concrete::<C, G>(g, &x, p), acc) {
            (Ok(got), true) => match outs {
                Some(w) if w != got => Some(format!("inputs {}: the circuit computes {got:x?}, specified is {w:x?}", shown())),
                _ => None,
            },
            (Ok(_), false) => Some(format!("inputs {} are accepted", shown())),
            (Err(e), true) => Some(format!("inputs {} are rejected: {e}", shown())),
            (Err(_), false) => None,
        }
    };
    let s = spec(&mut b.g, &ins, p);
    let got = match r {
        Ok(x) => x,
        Err(e) => {
            match e.downcast_ref::<NotEncodable>() {
                Some(NotEncodable(w)) => {
                    o.stats.unsupported += 1;
                    *o.stats.unsupported_why.entry(w.clone()).or_insert(0) += 1;
                }
                // the gadget itself panics, whatever the values
                None => {
                    let m: BTreeMap<String, bool> = b.g.names.iter().map(|n| (n.clone(), false)).collect();
                    if let Some(w) = check(&b, &s, &m) {
                        o.fail(w);
                    }
                }
            }
            return o;
        }
    };
    o.stats.paths += 1;
    let must = b.must.clone();
    let mut goals: Vec<(Vec<Lit>, Lit)> = vec![];
    for m in &must {
        goals.push((vec![s.accept], *m));
    }
    if s.accept != TRUE {
        goals.push((must.clone(), s.accept));
    }
    if let Some(w) = &s.outs {
        if w.len() != got.len() {
            o.fail(format!("{} outputs, {} expected", got.len(), w.len()));
            return o;
        }
        let pre = if s.accept == TRUE { vec![] } else { vec![s.accept] };
        for (a, c) in got.iter().zip(w) {
            for i in 0..a.len().max(c.len()) {
                let e = b.g.eq(*a.get(i).unwrap_or(&FALSE), *c.get(i).unwrap_or(&FALSE));
                goals.push((pre.clone(), e));
            }
        }
    }
    let mut open = 0;
    for (pre, l) in goals {
        // an undecided output bit says that the others will be too
        if open == 3 {
            break;
        }
        match b.g.holds_if(&pre, l, 15_000) {
            Verdict::Holds => {}
            Verdict::Unknown => open += 1,
            Verdict::Fails(m) => match check(&b, &s, &m) {
                Some(w) => {
                    o.fail(w);
                    break;
                }
                None => {
                    o.stats.unreplayed += 1;
                    *o.stats.unreplayed_why.entry("the debug builder agrees with the specification".into()).or_insert(0) += 1;
                    break;
                }
            },
        }
    }
    o.stats.unresolved += open;
    if open == 0 {
        o.note("decided");
    }
    o.stats.queries += b.g.queries;
    o.stats.solver_ms += b.g.ms;
    o.stats.decisions += b.g.merged;
    o.desc += &format!("; graph of {} nodes, {} merged by z3, {} constraints", b.g.size(), b.g.merged, must.len());
    o
}

// ---- FIPS 180-4, on words of 32 bits, lowest first ----
type Word = Vec<Lit>;
pub const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7,
    0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147,
    0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819,
    0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
    0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
pub const H0: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
fn num(x: u64, n: usize) -> Word {
    (0..n).map(|i| (x >> i & 1) as Lit).collect()
}
fn rotr(w: &[Lit], k: usize) -> Word {
    (0..32).map(|i| w[(i + k) % 32]).collect()
}
fn shr(w: &[Lit], k: usize) -> Word {
    (0..32).map(|i| if i + k < 32 { w[i + k] } else { FALSE }).collect()
}
fn xor3(g: &mut Xag, a: &[Lit], b: &[Lit], c: &[Lit]) -> Word {
    (0..a.len())
        .map(|i| {
            let t = g.xor(a[i], b[i]);
            g.xor(t, c[i])
        })
        .collect()
}
fn ssig(g: &mut Xag, w: &[Lit], r: [usize; 3]) -> Word {
    xor3(g, &rotr(w, r[0]), &rotr(w, r[1]), &shr(w, r[2]))
}
fn bsig(g: &mut Xag, w: &[Lit], r: [usize; 3]) -> Word {
    xor3(g, &rotr(w, r[0]), &rotr(w, r[1]), &rotr(w, r[2]))
}
fn ch(g: &mut Xag, x: &[Lit], y: &[Lit], z: &[Lit]) -> Word {
    (0..32).map(|i| g.mux(x[i], y[i], z[i])).collect()
}
fn maj(g: &mut Xag, x: &[Lit], y: &[Lit], z: &[Lit]) -> Word {
    (0..32)
        .map(|i| {
            let (a, b, c) = (g.and(x[i], y[i]), g.and(x[i], z[i]), g.and(y[i], z[i]));
            let t = g.or(a, b);
            g.or(t, c)
        })
        .collect()
}
fn add2(g: &mut Xag, a: &[Lit], b: &[Lit]) -> Word {
    let mut c = FALSE;
    let mut r = vec![];
    for i in 0..a.len() {
        let t = g.xor(a[i], b[i]);
        r.push(g.xor(t, c));
        let (p, q) = (g.and(a[i], b[i]), g.and(t, c));
        c = g.or(p, q);
    }
    r
}
/// how to add several words: in pairs, or as two integers of 26 and 6 bits (any way gives the same sum; one that is close to
/// the circuit is easier to compare)
#[derive(Clone, Copy, PartialEq)]
enum Add {
    Pairs,
    Split,
}
fn sum(g: &mut Xag, how: Add, v: &[&Word]) -> Word {
    match how {
        Add::Pairs => {
            if v.len() == 1 {
                return v[0].clone();
            }
            let h = v.len() / 2;
            let (a, b) = (sum(g, how, &v[..h]), sum(g, how, &v[h..]));
            add2(g, &a, &b)
        }
        Add::Split => {
            let lo = v.iter().fold(Lin::k(0), |s, w| s.add(&Lin::word(&w[..26]), 1));
            let lo = g.bits(&lo, 30);
            let hi = v.iter().fold(Lin::word(&lo[26..]), |s, w| s.add(&Lin::word(&w[26..]), 1));
            let hi = g.bits(&hi, 6);
            [&lo[..26], &hi[..]].concat()
        }
    }
}
fn compress(g: &mut Xag, how: Add, st: &[Word], block: &[Word]) -> Vec<Word> {
    let mut w: Vec<Word> = block.to_vec();
    for t in 16..64 {
        let s1 = ssig(g, &w[t - 2], [17, 19, 10]);
        let s0 = ssig(g, &w[t - 15], [7, 18, 3]);
        let (w7, w16) = (w[t - 7].clone(), w[t - 16].clone());
        let x = sum(g, how, &[&s1, &w7, &s0, &w16]);
        w.push(x);
    }
    let mut s = st.to_vec();
    for t in 0..64 {
        let [a, b, c, d, e, f, gg, h]: [Word; 8] = s.clone().try_into().unwrap();
        let s1 = bsig(g, &e, [6, 11, 25]);
        let c1 = ch(g, &e, &f, &gg);
        let s0 = bsig(g, &a, [2, 13, 22]);
        let m = maj(g, &a, &b, &c);
        let k = num(K[t] as u64, 32);
        let (na, ne) = match how {
            Add::Pairs => {
                let t1a = add2(g, &h, &c1);
                let wk = add2(g, &w[t], &k);
                let t1b = add2(g, &s1, &wk);
                let t1 = add2(g, &t1a, &t1b);
                let t2 = add2(g, &s0, &m);
                (add2(g, &t1, &t2), add2(g, &d, &t1))
            }
            Add::Split => (sum(g, how, &[&h, &s1, &c1, &k, &w[t], &s0, &m]), sum(g, how, &[&d, &h, &s1, &c1, &k, &w[t]])),
        };
        s = vec![na, a, b, c, ne, e, f, gg];
    }
    (0..8).map(|i| sum(g, how, &[&st[i], &s[i]])).collect()
}
/// bits of the message, first bit first; digest likewise
fn sha(g: &mut Xag, how: Add, msg: &[Lit]) -> Vec<Lit> {
    let mut m = msg.to_vec();
    m.push(TRUE);
    while m.len() % 512 != 448 {
        m.push(FALSE);
    }
    m.extend(num(msg.len() as u64, 64).into_iter().rev());
    let mut st: Vec<Word> = H0.iter().map(|x| num(*x as u64, 32)).collect();
    for b in m.chunks(512) {
        let w: Vec<Word> = b.chunks(32).map(|c| c.iter().rev().cloned().collect()).collect();
        st = compress(g, how, &st, &w);
    }
    st.iter().flat_map(|w| w.iter().rev().cloned().collect::<Vec<_>>()).collect()
}
fn rev(x: &[Lit]) -> Vec<Lit> {
    x.iter().rev().cloned().collect()
}
/// the specification itself, on the example of the standard
fn self_test() -> Out {
    let mut o = Out { desc: "the specification on \"abc\" and on the two-block example of FIPS 180-4".into(), ..Default::default() };
    for how in [Add::Pairs, Add::Split] {
        for (m, d) in [
            ("abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
            ("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq", "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"),
        ] {
            let mut g = Xag::new(10);
            let bits: Vec<Lit> = m.bytes().flat_map(|b| rev(&num(b as u64, 8))).collect();
            let h = sha(&mut g, how, &bits);
            let s: String = h.chunks(4).map(|c| format!("{:x}", c.iter().fold(0, |a, b| a * 2 + b))).collect();
            assert_eq!(s, d, "MACHINERY: the specification of SHA-256 is wrong");
        }
    }
    o.note("specification checked");
    o
}
pub fn any() -> Spec {
    Spec { accept: TRUE, outs: None }
}

macro_rules! gadget {
    ($n:ident, $c:ty, |$a:ident, $x:ident, $p:ident| $b:expr) => {
        struct $n;
        impl Gadget<$c> for $n {
            #[allow(unused_variables)]
            fn run<B: RootAPI<$c>>(&self, $a: &mut B, $x: &[Variable], $p: &[usize]) -> Vec<Variable> {
                $b
            }
        }
    };
}
fn w(x: &[Variable], i: usize) -> gu::Sha256Word {
    x[i * 32..i * 32 + 32].try_into().unwrap()
}
// words of the GF(2) gadgets start with their highest bit
gadget!(G2Add, GF2Config, |a, x, p| match p[0] {
    0 => gu::add(a, &w(x, 0), &w(x, 1)).to_vec(),
    1 => gu::add_vanilla(a, &w(x, 0), &w(x, 1)).to_vec(),
    _ => gu::add_brentkung(a, &w(x, 0), &w(x, 1)).to_vec(),
});
gadget!(G2AddConst, GF2Config, |a, x, p| gu::add_const(a, &w(x, 0), p[0] as u32).to_vec());
gadget!(G2Sum, GF2Config, |a, x, p| {
    let v: Vec<_> = (0..p[0]).map(|i| w(x, i)).collect();
    gu::sum_all(a, &v).to_vec()
});
gadget!(G2Fun, GF2Config, |a, x, p| {
    let (u, v, t) = (w(x, 0), w(x, 1), w(x, 2));
    match p[0] {
        0 => gu::ch(a, &u, &v, &t),
        1 => gu::maj(a, &u, &v, &t),
        2 => gu::lower_case_sigma0(a, &u),
        3 => gu::lower_case_sigma1(a, &u),
        4 => gu::capital_sigma0(a, &u),
        5 => gu::capital_sigma1(a, &u),
        6 => gu::xor(a, &u, &v),
        7 => gu::and(a, &u, &v),
        8 => gu::not(a, &u),
        9 => gu::rotate_right(&u, p[1]),
        _ => gu::shift_right(a, &u, p[1]),
    }
    .to_vec()
});
gadget!(G2Compress, GF2Config, |a, x, p| {
    let mut st: [gu::Sha256Word; 8] = (0..8).map(|i| w(x, i)).collect::<Vec<_>>().try_into().unwrap();
    SHA256GF2::new().sha256_compress(a, &mut st, &x[256..].try_into().unwrap());
    st.iter().flatten().cloned().collect()
});
gadget!(G2Hash, GF2Config, |a, x, p| {
    let mut h = SHA256GF2::new();
    // p: where the message is cut into updates
    let mut from = 0;
    for c in p {
        h.update(&x[from..from + c]);
        from += c;
    }
    h.update(&x[from..]);
    h.finalize(a)
});
gadget!(M37, M31Config, |a, x, p| m31::sha256_37bytes(a, x));
gadget!(M37C, M31Config, |a, x, p| m31::sha256_37bytes_compress(a, x));
gadget!(M37B, M31Config, |a, x, p| {
    let v: Vec<Vec<Variable>> = batch(x, p[0], p[1]);
    m31::sha256_37bytes_256batch_compress(a, &v).concat()
});
gadget!(MVar, M31Config, |a, x, p| m31::sha256_var_bytes(a, x));
gadget!(MCheck, M31Config, |a, x, p| match p[0] {
    0 => m31::check_sha256_37bytes(a, x),
    1 => m31::check_sha256_37bytes_compress(a, x),
    _ => {
        let (ins, outs) = x.split_at(x.len() - 32 * p[1]);
        let v = batch(ins, p[1], p[2]);
        let u: Vec<Vec<Variable>> = outs.chunks(32).map(|c| c.to_vec()).collect();
        m31::check_sha256_37bytes_256batch_compress(a, &v, &u).concat()
    }
});
/// several messages of 296 bits that agree on the first `common`
fn batch<T: Clone>(x: &[T], n: usize, common: usize) -> Vec<Vec<T>> {
    let r = 296 - common;
    (0..n).map(|i| [&x[..common], &x[common + i * r..common + (i + 1) * r]].concat()).collect()
}
/// the order of bits the compressing gadgets take: words lowest bit first, the last byte highest first
fn from_compressed(x: &[Lit]) -> Vec<Lit> {
    let mut m: Vec<Lit> = x[..288].chunks(32).flat_map(rev).collect();
    m.extend(&x[288..296]);
    // (the last byte and the padding behind it form a word that the gadget reverses as a whole)
    m
}
fn bytes_of(d: &[Lit]) -> Vec<Vec<Lit>> {
    d.chunks(8).map(rev).collect()
}
fn one(x: &[Vec<Lit>]) -> Vec<Lit> {
    x.iter().map(|w| w[0]).collect()
}
fn words(x: &[Vec<Lit>]) -> Vec<Word> {
    x.chunks(32).map(|c| c.iter().rev().map(|w| w[0]).collect()).collect()
}
fn back(v: &[Word]) -> Vec<Vec<Lit>> {
    v.iter().flat_map(|w| w.iter().rev().map(|l| vec![*l]).collect::<Vec<_>>()).collect()
}
/// bytes of a message given as field elements, and that they are bytes
fn as_bytes(g: &mut Xag, x: &[Vec<Lit>]) -> (Lit, Vec<Lit>) {
    let big: Vec<Lit> = x.iter().flat_map(|w| w[8..].iter().map(|l| l ^ 1).collect::<Vec<_>>()).collect();
    let ok = g.all(&big);
    (ok, x.iter().flat_map(|w| rev(&w[..8])).collect())
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C19", reach: &["specification checked"], cases }]
}
fn cases(e: Env) -> Vec<Case> {
    let mut v = vec![case("the specification", self_test)];
    let t = e.pick(100, 250);
    // whole hashes first: they take longest
    let bits: &[usize] = e.pick(&[0, 1, 447, 448, 511, 512], &[0, 1, 2, 8, 24, 31, 33, 255, 256, 440, 446, 447, 448, 449, 500, 510, 511, 512, 513, 600, 959, 960, 961, 1023, 1024, 1100]);
    for n in bits.iter().rev() {
        let n = *n;
        let cut = if n > 8 { vec![n / 3, n / 2] } else { vec![] };
        v.push(case(format!("gf2 hash of {n} bits"), move || {
            decide::<GF2Config, _>(&G2Hash, &vec![1; n], &cut, &|g, x, _| Spec { accept: TRUE, outs: Some(sha(g, Add::Pairs, &one(x)).iter().map(|l| vec![*l]).collect()) }, t)
        }));
    }
    v.push(case("gf2 compression", move || {
        decide::<GF2Config, _>(
            &G2Compress,
            &vec![1; 768],
            &[],
            &|g, x, _| {
                let w = words(x);
                Spec { accept: TRUE, outs: Some(back(&compress(g, Add::Pairs, &w[..8], &w[8..]))) }
            },
            t,
        )
    }));
    let bytes: &[usize] = e.pick(&[0, 1, 37, 55, 56, 63, 64], &[0, 1, 2, 3, 4, 20, 31, 32, 33, 37, 54, 55, 56, 57, 60, 63, 64, 65, 100, 118, 119, 120, 121, 127, 128, 130, 183, 184]);
    for n in bytes.iter().rev() {
        let n = *n;
        v.push(case(format!("m31 hash of {n} bytes"), move || decide::<M31Config, _>(&MVar, &vec![30; n], &[], &hash_bytes, t)));
    }
    v.push(case("m31 hash of 37 bytes, fixed", move || decide::<M31Config, _>(&M37, &vec![30; 37], &[], &hash_bytes, t)));
    v.push(case("m31 hash of 37 bytes as bits", move || {
        decide::<M31Config, _>(&M37C, &vec![1; 296], &[], &|g, x, _| Spec { accept: TRUE, outs: Some(bytes_of(&sha(g, Add::Split, &from_compressed(&one(x))))) }, t)
    }));
    for (n, common) in e.pick(vec![(2, 256)], vec![(1, 256), (2, 256), (3, 256), (4, 264), (5, 256)]) {
        v.push(case(format!("m31 batch of {n} hashes of 37 bytes, first {common} bits shared"), move || {
            decide::<M31Config, _>(
                &M37B,
                &vec![1; common + n * (296 - common)],
                &[n, common],
                &move |g, x, _| {
                    let o = batch(&one(x), n, common).iter().flat_map(|m| bytes_of(&sha(g, Add::Split, &from_compressed(m)))).collect();
                    Spec { accept: TRUE, outs: Some(o) }
                },
                t,
            )
        }));
    }
    // claimed digests
    v.push(case("m31 claimed hash of 37 bytes", move || {
        decide::<M31Config, _>(
            &MCheck,
            &vec![9; 69],
            &[0],
            &|g, x, _| {
                let (ok, m) = as_bytes(g, &x[..37]);
                let d = bytes_of(&sha(g, Add::Split, &m));
                claimed(g, ok, d, &x[37..])
            },
            t,
        )
    }));
    v.push(case("m31 claimed hash of 37 bytes as bits", move || {
        decide::<M31Config, _>(
            &MCheck,
            &[vec![1; 296], vec![9; 32]].concat(),
            &[1],
            &|g, x, _| {
                let d = bytes_of(&sha(g, Add::Split, &from_compressed(&one(&x[..296]))));
                claimed(g, TRUE, d, &x[296..])
            },
            t,
        )
    }));
    for n in e.pick(vec![2], vec![1, 2, 3]) {
        v.push(case(format!("m31 {n} claimed hashes in a batch"), move || {
            decide::<M31Config, _>(
                &MCheck,
                &[vec![1; 256 + n * 40], vec![9; 32 * n]].concat(),
                &[2, n, 256],
                &move |g, x, _| {
                    let (a, b) = x.split_at(256 + n * 40);
                    let d = batch(&one(a), n, 256).iter().flat_map(|m| bytes_of(&sha(g, Add::Split, &from_compressed(m)))).collect();
                    claimed(g, TRUE, d, b)
                },
                t,
            )
        }));
    }
    // the pieces
    for i in 0..3 {
        v.push(case(format!("gf2 addition {i}"), move || {
            decide::<GF2Config, _>(
                &G2Add,
                &vec![1; 64],
                &[i],
                &|g, x, _| {
                    let w = words(x);
                    Spec { accept: TRUE, outs: Some(back(&[add2(g, &w[0], &w[1])])) }
                },
                t,
            )
        }));
    }
    let mut consts: Vec<u32> = vec![0, 1, 2, 0x8000_0000, 0xffff_ffff, 0x7fff_ffff, 0xaaaa_aaaa, 0x5555_5555];
    consts.extend(&K[..e.pick(4, 64)]);
    for c in consts {
        v.push(case(format!("gf2 addition of {c:x}"), move || {
            decide::<GF2Config, _>(
                &G2AddConst,
                &vec![1; 32],
                &[c as usize],
                &move |g, x, _| {
                    let w = words(x);
                    Spec { accept: TRUE, outs: Some(back(&[add2(g, &w[0], &num(c as u64, 32))])) }
                },
                t,
            )
        }));
    }
    for n in 1..=e.pick(5, 9) {
        v.push(case(format!("gf2 sum of {n}"), move || {
            decide::<GF2Config, _>(
                &G2Sum,
                &vec![1; 32 * n],
                &[n],
                &move |g, x, _| {
                    // first halves against second halves, an odd one kept for last
                    let mut w = words(x);
                    while w.len() > 1 {
                        let h = w.len() / 2;
                        let odd = (w.len() % 2 == 1).then(|| w[w.len() - 1].clone());
                        w = (0..h).map(|i| add2(g, &w[i], &w[i + h])).chain(odd).collect();
                    }
                    Spec { accept: TRUE, outs: Some(back(&w)) }
                },
                t.min(60),
            )
        }));
    }
    for f in 0..9 {
        v.push(case(format!("gf2 function {f}"), move || decide::<GF2Config, _>(&G2Fun, &vec![1; 96], &[f], &gf2_fun, t)));
    }
    for f in [9, 10] {
        for k in e.pick(vec![0, 1, 31], (0..32).collect()) {
            v.push(case(format!("gf2 function {f} by {k}"), move || decide::<GF2Config, _>(&G2Fun, &vec![1; 96], &[f, k], &gf2_fun, t)));
        }
    }
    v.extend(m31_pieces(e));
    v
}
fn claimed(g: &mut Xag, ok: Lit, d: Vec<Vec<Lit>>, c: &[Vec<Lit>]) -> Spec {
    g.fix = g.names.len() - c.iter().map(|w| w.len()).sum::<usize>();
    let mut all = vec![ok];
    for (a, b) in d.iter().zip(c) {
        for i in 0..b.len() {
            all.push(g.eq(*a.get(i).unwrap_or(&FALSE), b[i]));
        }
    }
    Spec { accept: g.all(&all), outs: None }
}
fn hash_bytes(g: &mut Xag, x: &[Vec<Lit>], _: &[usize]) -> Spec {
    let (ok, m) = as_bytes(g, x);
    Spec { accept: ok, outs: Some(bytes_of(&sha(g, Add::Split, &m))) }
}
fn gf2_fun(g: &mut Xag, x: &[Vec<Lit>], p: &[usize]) -> Spec {
    let w = words(x);
    let zero = num(0, 32);
    let r = match p[0] {
        0 => ch(g, &w[0], &w[1], &w[2]),
        1 => maj(g, &w[0], &w[1], &w[2]),
        2 => ssig(g, &w[0], [7, 18, 3]),
        3 => ssig(g, &w[0], [17, 19, 10]),
        4 => bsig(g, &w[0], [2, 13, 22]),
        5 => bsig(g, &w[0], [6, 11, 25]),
        6 => xor3(g, &w[0], &w[1], &zero),
        7 => (0..32).map(|i| g.and(w[0][i], w[1][i])).collect(),
        8 => w[0].iter().map(|l| l ^ 1).collect(),
        9 => rotr(&w[0], p[1]),
        _ => shr(&w[0], p[1]),
    };
    Spec { accept: TRUE, outs: Some(back(&[r])) }
}

// ---- helpers of the M31 gadgets ----
gadget!(MAddReduce, M31Config, |a, x, p| {
    let (u, v) = x.split_at(x.len() / 2);
    match p[0] {
        0 => mu::big_array_add_reduce(a, u, v, p[1]),
        1 => mu::big_array_add(a, u, v, p[1]),
        2 => mu::big_array_add_no_reduce(a, u, v),
        _ => mu::sha_m31_26_add(a, u, v, 26).to_vec(),
    }
});
gadget!(MConv, M31Config, |a, x, p| {
    let z = a.constant(0);
    match p[0] {
        0 => mu::bytes_to_bits(a, x),
        1 => mu::bit_array_to_m31(a, x).to_vec(),
        2 => mu::bit_array_to_m31_26(a, x).to_vec(),
        3 => {
            let mut b = [z; 4];
            mu::big_endian_m31_array_put_uint32(a, &mut b, [x[0], x[1]]);
            b.to_vec()
        }
        4 => {
            let mut b = [z; 4];
            mu::m31_26_array_put_uint32(a, &mut b, [x[0], x[1]]);
            b.to_vec()
        }
        5 => {
            let mut b = [z; 8];
            mu::big_endian_put_uint64(a, &mut b, x[0]);
            b.to_vec()
        }
        6 => mu::m31_to_bit_array(a, x),
        7 => mu::m31_26_to_bit_array_seperate(a, x, p[1]),
        8 => vec![mu::from_binary(a, x.to_vec())],
        9 => vec![mu::big_is_zero(a, x.len(), x)],
        10 => {
            let (u, v) = x.split_at(x.len() / 2);
            vec![mu::big_less_than(a, p[1], u.len(), u, v)]
        }
        11 => vec![mu::my_is_less(a, p[1], x[0], x[1])],
        12 => {
            let (q, r) = mu::idiv_mod_bit(a, x[0], p[1] as u64);
            vec![q, r]
        }
        13 => mu::ch(a, &x[..32], &x[32..64], &x[64..96]),
        14 => mu::maj(a, &x[..32], &x[32..64], &x[64..96]),
        15 => mu::sigma0(a, x),
        16 => mu::sigma1(a, x),
        17 => mu::cap_sigma0(a, x),
        18 => mu::cap_sigma1(a, x),
        19 => mu::rotate_right(x, p[1]),
        _ => mu::right_shift(a, x, p[1]),
    }
});
fn each(w: Word) -> Vec<Vec<Lit>> {
    w.iter().map(|l| vec![*l]).collect()
}
fn conv_spec(g: &mut Xag, x: &[Vec<Lit>], p: &[usize]) -> Spec {
    let flat: Vec<Lit> = x.iter().flatten().cloned().collect();
    let word = |k: usize| -> Word { x[k * 32..k * 32 + 32].iter().map(|w| w[0]).collect() };
    let mut accept = TRUE;
    let outs = match p[0] {
        0 => {
            accept = as_bytes(g, x).0;
            each(x.iter().rev().flat_map(|b| b[..8].to_vec()).collect())
        }
        1 => vec![flat[..30].to_vec(), flat[30..].to_vec()],
        2 => vec![flat[..26].to_vec(), flat[26..].to_vec()],
        // two limbs (30 + 2 bits, or 26 + 6) as four bytes, highest first
        3 | 4 => {
            let f = [&x[0][..], &x[1][..]].concat();
            f.chunks(8).rev().map(|c| c.to_vec()).collect()
        }
        5 => {
            let mut f = x[0].clone();
            f.resize(64, FALSE);
            f.chunks(8).rev().map(|c| c.to_vec()).collect()
        }
        6 => each(flat),
        // limbs of 26 and 6 bits that have not been reduced: the sum, and nothing is lost
        7 => {
            let hi = Lin::word(&x[1]).add(&Lin::word(&x[0][26..]), 1);
            let n = 7 + p[1];
            let b = g.bits(&hi, 31);
            let over: Vec<Lit> = b[n..].iter().map(|l| l ^ 1).collect();
            accept = g.all(&over);
            each([&x[0][..26], &b[..n]].concat())
        }
        8 => vec![flat],
        9 => {
            let z = g.any(&flat) ^ 1;
            vec![vec![z]]
        }
        10 | 11 => {
            let (a, b) = x.split_at(x.len() / 2);
            let (a, b) = (a.concat(), b.concat());
            let mut lt = FALSE;
            for i in 0..a.len() {
                let d = g.xor(a[i], b[i]);
                lt = g.mux(d, b[i], lt);
            }
            vec![vec![lt]]
        }
        12 => vec![x[0][p[1]..].to_vec(), x[0][..p[1]].to_vec()],
        13 => each(ch(g, &word(0), &word(1), &word(2))),
        14 => each(maj(g, &word(0), &word(1), &word(2))),
        15 => each(ssig(g, &word(0), [7, 18, 3])),
        16 => each(ssig(g, &word(0), [17, 19, 10])),
        17 => each(bsig(g, &word(0), [2, 13, 22])),
        18 => each(bsig(g, &word(0), [6, 11, 25])),
        19 => each(rotr(&word(0), p[1])),
        _ => each(shr(&word(0), p[1])),
    };
    Spec { accept, outs: Some(outs) }
}
fn m31_pieces(e: Env) -> Vec<Case> {
    let mut v = vec![];
    let t = 60;
    for (kind, limbs, nb) in e.pick(
        vec![(0, 2, 26), (0, 3, 28), (1, 2, 26), (1, 3, 8), (2, 2, 26), (3, 2, 26)],
        vec![(0, 1, 5), (0, 2, 26), (0, 3, 28), (0, 4, 29), (0, 8, 13), (1, 1, 26), (1, 2, 26), (1, 3, 8), (1, 5, 29), (2, 2, 26), (2, 5, 29), (3, 2, 26)],
    ) {
        v.push(case(format!("m31 addition {kind} of {limbs} limbs of {nb} bits"), move || {
            let w = if kind == 3 { vec![26, 6, 26, 6] } else { vec![nb; 2 * limbs] };
            decide::<M31Config, _>(
                &MAddReduce,
                &w,
                &[kind, nb],
                &move |g, x, _| {
                    let (a, b) = x.split_at(x.len() / 2);
                    let mut outs = vec![];
                    let mut carry = FALSE;
                    for i in 0..a.len() {
                        let n = a[i].len();
                        let mut s = add_c(g, &a[i], &b[i], if kind == 2 { FALSE } else { carry });
                        let last = i + 1 == a.len();
                        if !(kind == 2 || kind == 1 && last) {
                            carry = s.pop().unwrap();
                        }
                        let _ = n;
                        outs.push(s);
                    }
                    Spec { accept: TRUE, outs: Some(outs) }
                },
                t,
            )
        }));
    }
    let mut add = |name: &str, w: Vec<usize>, p: Vec<usize>| {
        v.push(case(format!("m31 {name} {p:?} on {} values", w.len()), move || decide::<M31Config, _>(&MConv, &w, &p, &conv_spec, t)));
    };
    add("bytes to bits", vec![10; 4], vec![0]);
    add("bytes to bits", vec![30; 1], vec![0]);
    add("bits to limbs", vec![1; 40], vec![1]);
    add("bits to limbs", vec![1; 59], vec![1]);
    add("bits to limbs", vec![1; 32], vec![2]);
    add("bits to limbs", vec![1; 52], vec![2]);
    add("bytes of limbs", vec![30, 2], vec![3]);
    add("bytes of limbs", vec![26, 6], vec![4]);
    add("bytes of a value", vec![30], vec![5]);
    add("bits of values", vec![30; 3], vec![6]);
    for over in [0, 2, 4] {
        add("bits of limbs", vec![29, 6 + over + 1], vec![7, over]);
    }
    for n in [1, 8, 30] {
        add("from binary", vec![1; n], vec![8]);
    }
    for n in [1, 2, 5] {
        add("all zero", vec![29; n], vec![9]);
    }
    for (n, k) in e.pick(vec![(5, 2), (20, 3)], vec![(1, 2), (5, 2), (29, 2), (20, 3), (28, 4), (8, 6)]) {
        add("less", vec![n; 2 * k], vec![10, n]);
    }
    for n in e.pick(vec![1, 8, 28], (1..=29).collect()) {
        add("less", vec![n; 2], vec![11, n]);
    }
    for n in e.pick(vec![1, 8], (0..=29).collect()) {
        add("quotient and remainder", vec![30], vec![12, n]);
    }
    for f in 13..19 {
        add("function", vec![1; if f < 15 { 96 } else { 32 }], vec![f]);
    }
    for k in e.pick(vec![0, 1, 7, 31], (0..32).collect()) {
        add("rotation", vec![1; 32], vec![19, k]);
        add("shift", vec![1; 32], vec![20, k]);
    }
    v
}
/// all bits of a sum with a carry in
fn add_c(g: &mut Xag, a: &[Lit], b: &[Lit], mut c: Lit) -> Word {
    let mut r = vec![];
    for i in 0..a.len() {
        let t = g.xor(a[i], b[i]);
        r.push(g.xor(t, c));
        let (p, q) = (g.and(a[i], b[i]), g.and(t, c));
        c = g.or(p, q);
    }
    r.push(c);
    r
}
