//! zkcuda: kernels called over device memories, what the host sees, and the computation graph that is proved.
use crate::p_api::{gen_fun, mean, prof, run, Api, Fun, CUR, P};
use crate::p_compile::{finish, guarded};
use crate::prog::{Hints, Rng};
use crate::rep::*;
use arith::{Field, SimdField};
use expander_compiler::frontend::*;
use expander_compiler::hints::registry::HintCaller;
use expander_compiler::zkcuda::context::*;
use expander_compiler::zkcuda::kernel::*;
use expander_compiler::zkcuda::proving_system::{DummyProvingSystem, ProvingSystem};
use expander_compiler::zkcuda::shape::{Reshape, Transpose};
use expander_compiler::zkcuda::vec_shaped::VecShaped;
use serdes::ExpSerde;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering};
use symf::*;

type S<F> = Sym<F>;
type V<F> = SymV<F>;
type SC<F> = SymConfig<F, 0>;
type Shape = Vec<usize>;
const ILLEGAL: &str = "Detected illegal shape operation";

// ------------------------------------------------------------------ plans
#[derive(Clone, Debug)]
struct KArg {
    shape: Shape,
    inp: bool,
    out: bool,
}
#[derive(Clone, Debug)]
struct Kern {
    args: Vec<KArg>,
    api: Rc<Api>,
    /// per element of the outputs in order: which of the program's results it gets, if any
    outs: Vec<Option<usize>>,
}
#[derive(Clone, Debug)]
enum Ch {
    R(Shape),
    T(Vec<usize>),
}
#[derive(Clone, Debug)]
struct View {
    mem: usize,
    chain: Vec<Ch>,
}
#[derive(Clone, Debug)]
enum Step {
    /// 0 copy_to_device, 1 copy_to_device_and_pack_simd, 2 copy_simd_to_device, 3 copy_flat_simd_to_device
    Copy(u8, Shape),
    /// kernel, parallel count, per argument a view (inputs) or nothing (outputs); which outputs get an old handle in place of None
    Call(usize, usize, Vec<Option<View>>, Vec<Option<usize>>),
}
#[derive(Clone, Debug, Default)]
struct Plan {
    kerns: Vec<Kern>,
    steps: Vec<Step>,
    /// shape of every device memory, in order of creation
    mems: Vec<Shape>,
    /// every kernel is called at the same place in memory, as when a function compiles a kernel and calls it
    slot: bool,
    /// what the host looks at in the end
    looks: Vec<(View, u8)>,
}
fn len(s: &[usize]) -> usize {
    s.iter().product()
}
impl Plan {
    fn show(&self) -> String {
        let mut s = String::new();
        for (i, k) in self.kerns.iter().enumerate() {
            s += &format!("kernel {i}: {} computes {} outputs {:?}; ", k.args.iter().map(|a| format!("{}{}{:?}", if a.inp { "in" } else { "" }, if a.out { "out" } else { "" }, a.shape)).collect::<Vec<_>>().join(","), k.api.show(), k.outs);
        }
        s + if self.slot { "one kernel variable; " } else { "" } + &format!("steps {:?}; looks {:?}", self.steps, self.looks)
    }
    /// for every device memory, the call and argument that make it
    fn made_by(&self) -> Vec<Option<(usize, usize)>> {
        let mut r = vec![];
        for (i, s) in self.steps.iter().enumerate() {
            match s {
                Step::Copy(..) => r.push(None),
                Step::Call(k, ..) => {
                    for (j, a) in self.kerns[*k].args.iter().enumerate() {
                        if a.out {
                            r.push(Some((i, j)));
                        }
                    }
                }
            }
        }
        r
    }
}
/// the elements of a memory of this shape in the order a view shows them, and the view's shape
fn view(base: &Shape, chain: &[Ch]) -> (Shape, Vec<usize>) {
    let mut shape = base.clone();
    let mut idx: Vec<usize> = (0..len(base)).collect();
    for c in chain {
        match c {
            Ch::R(s) => shape = s.clone(),
            Ch::T(axes) => {
                let ns: Shape = axes.iter().map(|a| shape[*a]).collect();
                let mut ni = vec![];
                for i in 0..len(&ns) {
                    // coordinates in the new shape
                    let mut rest = i;
                    let mut at = vec![0; shape.len()];
                    for d in (0..ns.len()).rev() {
                        at[axes[d]] = rest % ns[d];
                        rest /= ns[d];
                    }
                    let flat = at.iter().zip(&shape).fold(0, |f, (x, s)| f * s + x);
                    ni.push(idx[flat]);
                }
                shape = ns;
                idx = ni;
            }
        }
    }
    (shape, idx)
}
fn factors(r: &mut Rng, n: usize, ones: bool) -> Shape {
    let mut s = vec![];
    let mut n = n;
    for _ in 0..2 {
        let d: Vec<usize> = (1..=n).filter(|x| n % x == 0 && (ones || *x > 1)).collect();
        if d.is_empty() || r.chance(25) {
            break;
        }
        let x = d[r.below(d.len())];
        s.push(x);
        n /= x;
    }
    if n > 1 || s.is_empty() || (ones && r.chance(20)) {
        s.push(n);
    }
    s
}
fn perm(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        p.swap(i, r.below(i + 1));
    }
    p
}
#[derive(Clone, Copy)]
struct ZProf {
    pow2: bool,
    ones: bool,
    ker: P,
    calls: usize,
    /// how many elements an argument of a kernel has at most
    cap: usize,
    /// how often a view is transposed, in percent
    trans: usize,
}
fn chain(r: &mut Rng, z: &ZProf, base: &Shape, target: Option<&Shape>) -> Vec<Ch> {
    let n = len(base);
    let mut c = vec![];
    let mut cur = base.clone();
    for _ in 0..2 {
        if !r.chance(z.trans) {
            continue;
        }
        if r.chance(70) {
            cur = factors(r, n, z.ones);
            c.push(Ch::R(cur.clone()));
        }
        let p = perm(r, cur.len());
        cur = p.iter().map(|a| cur[*a]).collect();
        c.push(Ch::T(p));
    }
    if let Some(t) = target {
        if cur != *t || r.chance(10) {
            if t.len() > 1 && r.chance(z.trans) {
                // arrive by a transposition
                let p = perm(r, t.len());
                let mut pre = vec![0; t.len()];
                for (i, a) in p.iter().enumerate() {
                    pre[*a] = t[i];
                }
                c.push(Ch::R(pre));
                c.push(Ch::T(p));
            } else {
                c.push(Ch::R(t.clone()));
            }
        }
    }
    c
}
fn gen_plan(z: &ZProf, seed: u64) -> Plan {
    let mut r = Rng::new(seed ^ 0x2cda);
    let mut p = Plan::default();
    let dims: &[usize] = if z.pow2 { &[1, 2, 4] } else { &[1, 2, 3, 4] };
    let pars: &[usize] = if z.pow2 { &[1, 2, 4] } else { &[1, 2, 3, 4, 5, 6] };
    for _ in 0..r.range(1, z.calls) {
        let k = if !p.kerns.is_empty() && r.chance(40) {
            r.below(p.kerns.len())
        } else {
            let k = gen_kern(z, &mut r, dims);
            p.kerns.push(k);
            p.kerns.len() - 1
        };
        // prefer a parallel count some existing memory divides by
        let par = pars[r.below(pars.len())];
        let mut views = vec![];
        let mut stale = vec![];
        for a in p.kerns[k].args.clone() {
            if !a.inp {
                views.push(None);
                stale.push(if !p.mems.is_empty() && r.chance(25) { Some(r.below(p.mems.len())) } else { None });
                continue;
            }
            stale.push(None);
            let mut t = a.shape.clone();
            if a.out || !r.chance(25) {
                t.insert(0, par);
            }
            let n = len(&t);
            let fit: Vec<usize> = (0..p.mems.len()).filter(|m| len(&p.mems[*m]) == n).collect();
            let m = if !fit.is_empty() && r.chance(75) {
                fit[r.below(fit.len())]
            } else {
                let mut kind = r.below(4) as u8;
                let mut s = if r.chance(50) { t.clone() } else { factors(&mut r, n, z.ones) };
                if kind == 3 {
                    let d: Vec<usize> = (1..=n).filter(|x| n % x == 0).collect();
                    let c = d[r.below(d.len())];
                    s = vec![n / c, c];
                    if !z.ones && (c == 1 || c == n) {
                        kind = 2;
                        s = vec![n];
                    }
                }
                p.steps.push(Step::Copy(kind, s.clone()));
                p.mems.push(s);
                p.mems.len() - 1
            };
            let c = chain(&mut r, z, &p.mems[m], Some(&t));
            views.push(Some(View { mem: m, chain: c }));
        }
        for a in p.kerns[k].args.iter().filter(|a| a.out) {
            let mut s = a.shape.clone();
            s.insert(0, par);
            p.mems.push(s);
        }
        p.steps.push(Step::Call(k, par, views, stale));
    }
    p.slot = r.chance(40);
    for m in 0..p.mems.len() {
        let c = chain(&mut r, z, &p.mems[m].clone(), None);
        p.looks.push((View { mem: m, chain: c }, r.below(3) as u8));
    }
    p
}
fn gen_kern(z: &ZProf, r: &mut Rng, dims: &[usize]) -> Kern {
    let n = r.range(1, 3);
    let mut args = vec![];
    let mut budget = z.cap + 1;
    for i in 0..n {
        let mut shape: Shape = (0..r.below(3)).map(|_| dims[r.below(dims.len())]).filter(|x| z.ones || *x > 1).collect();
        while len(&shape) > budget.min(z.cap) {
            shape.pop();
        }
        let inp = i == 0 || r.chance(60);
        let out = !inp || r.chance(if i + 1 == n { 70 } else { 30 });
        if inp {
            budget = (budget - len(&shape)).max(1);
        }
        args.push(KArg { shape, inp, out });
    }
    let n_in: usize = args.iter().filter(|a| a.inp).map(|a| len(&a.shape)).sum();
    let n_out: usize = args.iter().filter(|a| a.out).map(|a| len(&a.shape)).sum();
    let mut api = Api { pubs: 0, funs: vec![Fun::default(); 2] };
    let small = P { ops: 3, ..z.ker };
    let k = r.range(1, 2);
    api.funs[1] = gen_fun(&small, r, &api, 1, 2, k);
    let f = gen_fun(&z.ker, r, &api, 0, 2, n_in);
    let nv = n_in + f.ops.iter().map(|o| api.n_out(o)).sum::<usize>();
    let mut outs = vec![];
    let mut picks = vec![];
    for _ in 0..n_out {
        if r.chance(8) {
            outs.push(None);
        } else {
            outs.push(Some(picks.len()));
            picks.push(if r.chance(60) { r.range(nv.saturating_sub(3).max(1), nv) } else { r.range(1, nv) });
        }
    }
    api.funs[0] = Fun { outs: picks, ..f };
    Kern { args, api: Rc::new(api), outs }
}

// ------------------------------------------------------------------ what a kernel computes
/// inputs and results: one vector per argument (empty where the argument is not one); None: the kernel's assertions fail
fn kernel_means<F: Field>(k: &Kern, ins: &[Vec<S<F>>]) -> Option<Vec<Vec<S<F>>>> {
    let o = mean(&k.api, 0, &ins.concat())?;
    let mut at = 0;
    let mut r = vec![];
    for (i, a) in k.args.iter().enumerate() {
        let mut v = vec![];
        if a.out {
            for j in 0..len(&a.shape) {
                v.push(match k.outs[at] {
                    Some(x) => o[x],
                    None if a.inp => ins[i][j],
                    None => Sym::C(F::ZERO),
                });
                at += 1;
            }
        }
        r.push(v);
    }
    Some(r)
}
fn specs(k: &Kern) -> (Vec<IOVecSpec>, Vec<Shape>) {
    (
        k.args.iter().map(|a| IOVecSpec { len: len(&a.shape), is_input: a.inp, is_output: a.out }).collect(),
        k.args.iter().map(|a| a.shape.clone()).collect(),
    )
}
fn compile_kern<F: Field>(k: &Kern) -> Result<KernelPrimitive<SC<F>>, Error> {
    CUR.with(|c| *c.borrow_mut() = k.api.clone());
    let (sp, sh) = specs(k);
    compile_with_spec_and_shapes::<SC<F>, _>(
        |api, io| {
            let mut a = vec![];
            for (x, s) in io.iter().zip(&k.args) {
                if s.inp {
                    a.extend_from_slice(x);
                }
            }
            let o = run::<SC<F>, API<SC<F>>>(api, 0, &a);
            let mut at = 0;
            for (x, s) in io.iter_mut().zip(&k.args) {
                if s.out {
                    for y in x.iter_mut() {
                        if let Some(i) = k.outs[at] {
                            *y = o[i];
                        }
                        at += 1;
                    }
                }
            }
        },
        &sp,
        &sh,
    )
}
/// a kernel of the same shape whose every output is a new number
fn compile_twin(k: &Kern) -> Result<KernelPrimitive<SC<M31>>, Error> {
    let (sp, sh) = specs(k);
    compile_with_spec_and_shapes::<SC<M31>, _>(
        |api, io| {
            let a: Vec<Variable> = io.iter().zip(&k.args).filter(|x| x.1.inp).flat_map(|x| x.0.clone()).collect();
            for (x, s) in io.iter_mut().zip(&k.args) {
                if s.out {
                    let n = x.len();
                    *x = api.new_hint("counter", &a, n);
                }
            }
        },
        &sp,
        &sh,
    )
}

// ------------------------------------------------------------------ nested vectors
trait Nest<T>: Sized {
    fn make(flat: &mut &[T], shape: &[usize]) -> Self;
    /// false: ragged or of another shape
    fn flat(&self, shape: &[usize], out: &mut Vec<T>) -> bool;
}
macro_rules! leaf {
    ($t:ident) => {
        impl<F: Field> Nest<$t<F>> for $t<F> {
            fn make(flat: &mut &[$t<F>], _: &[usize]) -> Self {
                let x = flat[0];
                *flat = &flat[1..];
                x
            }
            fn flat(&self, shape: &[usize], out: &mut Vec<$t<F>>) -> bool {
                out.push(*self);
                shape.is_empty()
            }
        }
    };
}
leaf!(Sym);
leaf!(SymV);
impl<T, X: Nest<T>> Nest<T> for Vec<X> {
    fn make(flat: &mut &[T], shape: &[usize]) -> Self {
        (0..shape[0]).map(|_| X::make(flat, &shape[1..])).collect()
    }
    fn flat(&self, shape: &[usize], out: &mut Vec<T>) -> bool {
        !shape.is_empty() && self.len() == shape[0] && self.iter().all(|x| x.flat(&shape[1..], out))
    }
}
macro_rules! by_depth {
    ($d:expr, $t:ty, $f:ident, $($a:expr),*) => {
        match $d {
            0 => $f::<$t, _, _>($($a),*),
            1 => $f::<Vec<$t>, _, _>($($a),*),
            2 => $f::<Vec<Vec<$t>>, _, _>($($a),*),
            3 => $f::<Vec<Vec<Vec<$t>>>, _, _>($($a),*),
            4 => $f::<Vec<Vec<Vec<Vec<$t>>>>, _, _>($($a),*),
            5 => $f::<Vec<Vec<Vec<Vec<Vec<$t>>>>>, _, _>($($a),*),
            _ => panic!("MACHINERY: depth"),
        }
    };
}
type Ctx<F, H> = Context<SC<F>, H>;
fn up0<N: Nest<S<F>> + VecShaped<S<F>>, F: Field, H: HintCaller<S<F>>>(c: &mut Ctx<F, H>, x: &[S<F>], s: &[usize]) -> DeviceMemoryHandle {
    c.copy_to_device(&N::make(&mut &*x, s))
}
fn up1<N: Nest<S<F>> + VecShaped<S<F>>, F: Field, H: HintCaller<S<F>>>(c: &mut Ctx<F, H>, x: &[S<F>], s: &[usize]) -> DeviceMemoryHandle {
    c.copy_to_device_and_pack_simd(&N::make(&mut &*x, s))
}
fn up2<N: Nest<V<F>> + VecShaped<V<F>>, F: Field, H: HintCaller<S<F>>>(c: &mut Ctx<F, H>, x: &[V<F>], s: &[usize]) -> DeviceMemoryHandle {
    c.copy_simd_to_device(&N::make(&mut &*x, s))
}
fn down0<N: Nest<S<F>> + VecShaped<S<F>> + Default, F: Field, H: HintCaller<S<F>>>(c: &Ctx<F, H>, h: &DeviceMemoryHandle, s: &[usize]) -> Option<Vec<S<F>>> {
    let mut o = vec![];
    c.copy_to_host::<N>(h.clone()).flat(s, &mut o).then_some(o)
}
fn down1<N: Nest<S<F>> + VecShaped<S<F>> + Default, F: Field, H: HintCaller<S<F>>>(c: &Ctx<F, H>, h: &DeviceMemoryHandle, s: &[usize]) -> Option<Vec<S<F>>> {
    let mut o = vec![];
    c.copy_to_host_and_unpack_simd::<N>(h.clone()).flat(s, &mut o).then_some(o)
}
fn down2<N: Nest<V<F>> + VecShaped<V<F>> + Default, F: Field, H: HintCaller<S<F>>>(c: &Ctx<F, H>, h: &DeviceMemoryHandle, s: &[usize]) -> Option<Vec<V<F>>> {
    let mut o = vec![];
    c.copy_simd_to_host::<N>(h.clone()).flat(s, &mut o).then_some(o)
}
fn upload<F: Field, H: HintCaller<S<F>>>(c: &mut Ctx<F, H>, kind: u8, x: &[V<F>], s: &Shape) -> DeviceMemoryHandle {
    match kind {
        0 => {
            let y: Vec<S<F>> = x.iter().map(|x| x.v[0]).collect();
            by_depth!(s.len(), S<F>, up0, c, &y, s)
        }
        1 => {
            let mut t = s.clone();
            t.insert(0, LANES);
            let y: Vec<S<F>> = (0..LANES).flat_map(|l| x.iter().map(move |x| x.v[l])).collect();
            by_depth!(t.len(), S<F>, up1, c, &y, &t)
        }
        2 => by_depth!(s.len(), V<F>, up2, c, x, s),
        _ => c.copy_flat_simd_to_device(x.to_vec(), s[1]),
    }
}
/// what the host sees of a handle equals `want`
fn look<F: Field, H: HintCaller<S<F>>>(c: &Ctx<F, H>, h: &DeviceMemoryHandle, kind: u8, want: &[V<F>], s: &Shape) -> Result<(), String> {
    let bad = |k: &str| Err(format!("{k} returns other values than the device memory should hold"));
    let shape = |k: &str| format!("{k} returns a vector of another shape than the handle's");
    match kind {
        0 => {
            let g = by_depth!(s.len(), S<F>, down0, c, h, s).ok_or(shape("copy_to_host"))?;
            if g.len() != want.len() || g.iter().zip(want).any(|(g, w)| *g != w.v[0]) {
                return bad("~copy_to_host");
            }
        }
        1 => {
            let mut t = s.clone();
            t.insert(0, LANES);
            let g = by_depth!(t.len(), S<F>, down1, c, h, &t).ok_or(shape("copy_to_host_and_unpack_simd"))?;
            if g.len() != want.len() * LANES || g.iter().enumerate().any(|(i, g)| *g != want[i % want.len()].v[i / want.len()]) {
                return bad("~copy_to_host_and_unpack_simd");
            }
        }
        _ => {
            let g = by_depth!(s.len(), V<F>, down2, c, h, s).ok_or(shape("copy_simd_to_host"))?;
            if g.len() != want.len() || g.iter().zip(want).any(|(g, w)| (0..LANES).any(|l| g.v[l] != w.v[l])) {
                return bad("~copy_simd_to_host");
            }
        }
    }
    Ok(())
}
fn handle(base: &DeviceMemoryHandle, c: &[Ch]) -> DeviceMemoryHandle {
    let mut h = base.clone();
    for x in c {
        h = match x {
            Ch::R(s) => h.reshape(s),
            Ch::T(a) => h.transpose(a),
        };
    }
    h
}

// ------------------------------------------------------------------ running a plan
/// constants in place of user hints: compiling does not depend on data
struct Konst;
impl<F: Field> HintCaller<S<F>> for Konst {
    fn call(&self, id: usize, _: &[S<F>], n: usize) -> Result<Vec<S<F>>, Error> {
        Ok((0..n).map(|i| Sym::C(F::from((id % 5 + i) as u32))).collect())
    }
}
struct Counter(AtomicU32);
impl HintCaller<S<M31>> for Counter {
    fn call(&self, _: usize, _: &[S<M31>], n: usize) -> Result<Vec<S<M31>>, Error> {
        Ok((0..n).map(|_| Sym::C(M31::from(self.0.fetch_add(1, Ordering::SeqCst)))).collect())
    }
}
enum Built<F: Field> {
    Graph(ComputationGraph<SC<F>>, Option<Vec<Vec<V<F>>>>),
    /// a shape operation is refused
    Illegal,
    /// no data was found for which all calls go through
    NoData,
    Refused,
    Fail(String),
}
fn calls<F: Field, H: HintCaller<S<F>>>(
    p: &Plan,
    prims: &[KernelPrimitive<SC<F>>],
    c: &mut Ctx<F, H>,
    data: &dyn Fn(usize, usize) -> V<F>,
) -> Result<Vec<DeviceMemoryHandle>, String> {
    let mut hs: Vec<DeviceMemoryHandle> = vec![];
    let mut slot = prims[0].clone();
    for s in &p.steps {
        match s {
            Step::Copy(k, s) => {
                let m = hs.len();
                let x: Vec<V<F>> = (0..len(s)).map(|i| data(m, i)).collect();
                hs.push(upload(c, *k, &x, s));
            }
            Step::Call(k, par, views, stale) => {
                let mut io: Vec<DeviceMemoryHandle> = views
                    .iter()
                    .zip(stale)
                    .map(|(v, st)| match (v, st) {
                        (Some(v), _) => handle(&hs[v.mem], &v.chain),
                        (None, Some(m)) => hs[*m].clone(),
                        _ => None,
                    })
                    .collect();
                let prim = if p.slot {
                    slot = prims[*k].clone();
                    &slot
                } else {
                    &prims[*k]
                };
                c.call_kernel(prim, *par, &mut io).map_err(|e| format!("{e}"))?;
                for (h, a) in io.iter().zip(&p.kerns[*k].args) {
                    if a.out {
                        hs.push(h.clone());
                    }
                }
            }
        }
    }
    Ok(hs)
}
fn build<F: Field>(p: &Plan, prims: &[KernelPrimitive<SC<F>>], seed: u64) -> Built<F> {
    for t in 0..4u64 {
        let mut c: Ctx<F, Konst> = Context::new(Konst);
        let data = |m: usize, i: usize| {
            let mut r = Rng::new(seed * 77 + t * 1000 + (m * 64 + i) as u64);
            let x = Sym::C(F::from(if t < 2 { r.below(2) } else { r.below(7) } as u32));
            SymV { v: [x; LANES] }
        };
        match catch_unwind(AssertUnwindSafe(|| calls(p, prims, &mut c, &data))) {
            Ok(Ok(_)) => {}
            Ok(Err(_)) => continue,
            Err(e) => {
                if symf::ctx::rethrow(e).contains(ILLEGAL) {
                    return Built::Illegal;
                }
                continue;
            }
        }
        return match catch_unwind(AssertUnwindSafe(|| c.compile_computation_graph())) {
            Ok(Ok(g)) => {
                let m = guarded(|| {
                    c.solve_witness().ok()?;
                    Some(c.export_device_memories())
                });
                Built::Graph(g, m.flatten())
            }
            Ok(Err(Error::UserError(_))) => Built::Refused,
            Ok(Err(e)) => Built::Fail(format!("compiling the computation graph ends in an internal error: {e}")),
            Err(e) => {
                let m = symf::ctx::rethrow(e);
                if m.contains(ILLEGAL) {
                    Built::Illegal
                } else {
                    Built::Fail(format!("compiling the computation graph panics: {m}"))
                }
            }
        };
    }
    Built::NoData
}
/// all the inputs of one instance of a call
fn instance<F: Field>(p: &Plan, k: &Kern, views: &[Option<View>], par: usize, i: usize, lane: usize, mem: &dyn Fn(usize, usize) -> V<F>) -> Vec<Vec<S<F>>> {
    k.args
        .iter()
        .zip(views)
        .map(|(a, v)| match v {
            None => vec![],
            Some(v) => {
                let (s, idx) = view(&p.mems[v.mem], &v.chain);
                let n = len(&a.shape);
                let off = if s.len() == a.shape.len() { 0 } else { i * n };
                assert!(s.len() == a.shape.len() || s[0] == par, "MACHINERY: view");
                (0..n).map(|j| mem(v.mem, idx[off + j]).v[lane]).collect()
            }
        })
        .collect()
}
/// what the verifier of the graph checks: every kernel's layered circuit on every parallel instance, the
/// commitments read in the order the templates prescribe
fn accepts<F: Field>(g: &ComputationGraph<SC<F>>, mems: &[Vec<V<F>>]) -> Result<bool, String> {
    let mut ok = true;
    for (ti, t) in g.proof_templates().iter().enumerate() {
        let k = &g.kernels()[t.kernel_id()];
        let lc = k.layered_circuit();
        let li = k.layered_circuit_input();
        let n = t.commitment_indices().len();
        if n != li.len() || n != t.commitment_bit_orders().len() || n != t.is_broadcast().len() {
            return Err(format!("template {ti}: numbers of commitments and kernel inputs differ"));
        }
        if !t.parallel_count().is_power_of_two() {
            return Err(format!("template {ti}: the parallel count {} is not a power of two", t.parallel_count()));
        }
        let mut vals = vec![];
        for j in 0..n {
            let m = &mems[t.commitment_indices()[j]];
            let o = &t.commitment_bit_orders()[j];
            if m.len() != 1 << o.len() {
                return Err(format!("template {ti}: input {j} has {} values and {} index bits", m.len(), o.len()));
            }
            let mut seen = o.clone();
            seen.sort();
            if seen.iter().enumerate().any(|(i, x)| i != *x) {
                return Err(format!("template {ti}: bit order {o:?} is not a permutation"));
            }
            let want = li[j].len * if t.is_broadcast()[j] { 1 } else { t.parallel_count() };
            if m.len() != want {
                return Err(format!("template {ti}: input {j} has {} values, the kernel takes {want}", m.len()));
            }
            vals.push((0..m.len()).map(|i| m[o.iter().enumerate().map(|(b, a)| ((i >> b) & 1) << a).sum::<usize>()]).collect::<Vec<_>>());
        }
        for i in 0..t.parallel_count() {
            let mut x = vec![V::<F>::default(); lc.input_size()];
            for j in 0..n {
                let off = if t.is_broadcast()[j] { 0 } else { i * li[j].len };
                x[li[j].offset..li[j].offset + li[j].len].copy_from_slice(&vals[j][off..off + li[j].len]);
            }
            let (_, c) = lc.eval_with_public_inputs_simd(x, &[]);
            if c.iter().any(|x| !x) {
                ok = false;
            }
        }
    }
    Ok(ok)
}
fn opts() -> Opts {
    Opts { max_paths: 200, max_time: std::time::Duration::from_secs(10), timeout_ms: 4000, ..Default::default() }
}
/// some elements are symbolic, the others constants
fn data_plan(p: &Plan, seed: u64, n: usize) -> impl Fn(usize, usize) -> [Option<u32>; LANES] {
    let mut r = Rng::new(seed ^ 0xda7a);
    let mut all = vec![];
    let mut m = 0;
    for s in &p.steps {
        match s {
            Step::Copy(k, s) => {
                for i in 0..len(s) {
                    for l in 0..if *k == 0 { 1 } else { LANES } {
                        all.push((m, i, l));
                    }
                }
                m += 1;
            }
            Step::Call(k, ..) => m += p.kerns[*k].args.iter().filter(|a| a.out).count(),
        }
    }
    let mut pick = std::collections::HashSet::new();
    for _ in 0..n.min(all.len()) {
        pick.insert(all[r.below(all.len())]);
    }
    move |m, i| {
        let mut v = [None; LANES];
        for l in 0..LANES {
            if !pick.contains(&(m, i, l)) {
                let mut r = Rng::new(seed * 31 + (m * 256 + i * 2 + l) as u64);
                v[l] = Some(r.below(3) as u32);
            }
        }
        v
    }
}
fn prims<F: Field>(p: &Plan, out: &mut Out) -> Option<Vec<KernelPrimitive<SC<F>>>> {
    let mut r = vec![];
    for k in &p.kerns {
        match catch_unwind(AssertUnwindSafe(|| compile_kern::<F>(k))) {
            Ok(Ok(k)) => r.push(k),
            Ok(Err(Error::UserError(_))) => {
                out.refused += 1;
                return None;
            }
            Ok(Err(e)) => {
                out.fail(format!("compiling a kernel ends in an internal error: {e}"));
                return None;
            }
            Err(e) => {
                let m = symf::ctx::rethrow(e);
                // as in C11: constants that never satisfy the program
                if m.contains("assert") || m.contains("inverse") || m.contains("division") || m.contains("zero") {
                    out.refused += 1;
                } else {
                    out.refused += 1;
                    out.note(&format!("kernel builder: {}", m.chars().take(60).collect::<String>()));
                }
                return None;
            }
        }
    }
    out.programs += r.len() as u64;
    Some(r)
}
/// the plan step by step on symbolic data; with a graph, also what is proved
fn honest<F: Field>(p: &Plan, prims: &[KernelPrimitive<SC<F>>], g: Option<&ComputationGraph<SC<F>>>, seed: u64, pow2: bool, nsym: usize) -> (Stats, Option<Violation>) {
    let dp = data_plan(p, seed, nsym);
    let plain = g.map(|g| g.proof_templates().iter().all(|t| t.commitment_bit_orders().iter().all(|o| o.iter().enumerate().all(|(i, x)| i == *x)))).unwrap_or(false);
    explore::<F>(&opts(), &|| {
        let h = Hints::<F>::reset();
        let mut c: Ctx<F, Hints<F>> = Context::new(h);
        let mut mems: Vec<Vec<V<F>>> = vec![];
        let mut hs: Vec<DeviceMemoryHandle> = vec![];
        let mut rejected = false;
        let mut slot = prims[0].clone();
        for s in &p.steps {
            match s {
                Step::Copy(k, s) => {
                    let m = mems.len();
                    let x: Vec<V<F>> = (0..len(s))
                        .map(|i| {
                            let d = dp(m, i);
                            let mut v = [Sym::default(); LANES];
                            for l in 0..LANES {
                                v[l] = match d[l] {
                                    Some(k) => Sym::C(F::from(k)),
                                    None => Sym::var(&format!("m{m}_{i}_{l}")),
                                };
                                if *k == 0 {
                                    v[l] = v[0];
                                }
                            }
                            SymV { v }
                        })
                        .collect();
                    hs.push(upload(&mut c, *k, &x, s));
                    mems.push(x);
                }
                Step::Call(k, par, views, stale) => {
                    let kern = &p.kerns[*k];
                    let mut want: Vec<Vec<Vec<Vec<S<F>>>>> = vec![];
                    let mut bad = false;
                    for i in 0..*par {
                        let mut w = vec![];
                        for l in 0..LANES {
                            match kernel_means(kern, &instance(p, kern, views, *par, i, l, &|m, i| mems[m][i])) {
                                Some(x) => w.push(x),
                                None => bad = true,
                            }
                        }
                        want.push(w);
                    }
                    let mut io: Vec<DeviceMemoryHandle> = views
                        .iter()
                        .zip(stale)
                        .map(|(v, st)| match (v, st) {
                            (Some(v), _) => handle(&hs[v.mem], &v.chain),
                            (None, Some(m)) => hs[*m].clone(),
                            _ => None,
                        })
                        .collect();
                    let prim = if p.slot {
                        slot = prims[*k].clone();
                        &slot
                    } else {
                        &prims[*k]
                    };
                    match catch_unwind(AssertUnwindSafe(|| c.call_kernel(prim, *par, &mut io))) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => {
                            if bad {
                                note("call refused");
                                return Ok(());
                            }
                            return Err(format!("~a kernel call fails ({e}) though the kernel accepts every instance"));
                        }
                        Err(e) => {
                            let m = symf::ctx::rethrow(e);
                            if m.contains(ILLEGAL) {
                                if pow2 {
                                    return Err("a kernel call over dimensions that are powers of two is refused for its shapes".into());
                                }
                                note("shapes refused");
                                return Ok(());
                            }
                            if bad {
                                note("call refused");
                                return Ok(());
                            }
                            return Err(format!("~a kernel call panics ({m}) though the kernel accepts every instance"));
                        }
                    }
                    for (j, a) in kern.args.iter().enumerate() {
                        if !a.out {
                            if io[j].is_some() {
                                return Err("an argument that is only an input still has a handle after the call".into());
                            }
                            continue;
                        }
                        let m = mems.len();
                        let s = &p.mems[m];
                        let n = len(&a.shape);
                        let got = match guarded(|| by_depth!(s.len(), V<F>, down2, &c, &io[j], s)) {
                            Some(Some(g)) => g,
                            _ => return Err("a kernel's output does not have the shape of its argument under the parallel count".into()),
                        };
                        if !bad {
                            for i in 0..len(s) {
                                for l in 0..LANES {
                                    if got[i].v[l] != want[i / n][l][j][i % n] {
                                        return Err("~a kernel call returns another value than the kernel computes".into());
                                    }
                                }
                            }
                            note("called");
                        }
                        mems.push(got);
                        hs.push(io[j].clone());
                    }
                    rejected |= bad;
                }
            }
        }
        for (v, k) in &p.looks {
            let (s, idx) = view(&p.mems[v.mem], &v.chain);
            let want: Vec<V<F>> = idx.iter().map(|i| mems[v.mem][*i]).collect();
            look(&c, &handle(&hs[v.mem], &v.chain), *k, &want, &s)?;
        }
        let Some(g) = g else { return Ok(()) };
        // the graph, written and read back
        let mut buf = vec![];
        g.serialize_into(&mut buf).map_err(|e| format!("serializing the graph: {e:?}"))?;
        let g2 = ComputationGraph::<SC<F>>::deserialize_from(&buf[..]).map_err(|e| format!("reading the graph back: {e:?}"))?;
        match catch_unwind(AssertUnwindSafe(|| c.load_computation_graph(g2.clone()))) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("a graph compiled from the same calls does not load: {e}")),
            Err(e) => return Err(format!("loading a graph compiled from the same calls panics: {}", symf::ctx::rethrow(e))),
        }
        let w = catch_unwind(AssertUnwindSafe(|| c.solve_witness()));
        match w {
            Ok(Ok(())) => {}
            x if rejected => {
                if let Err(e) = x {
                    symf::ctx::rethrow(e);
                }
                return Ok(());
            }
            Ok(Err(e)) => return Err(format!("~no witness ({e}) for calls whose kernels accept")),
            Err(e) => return Err(format!("~solving the witness panics ({}) for calls whose kernels accept", symf::ctx::rethrow(e))),
        }
        let ex = c.export_device_memories();
        if ex.len() != g2.commitments_lens().len() || ex.iter().zip(g2.commitments_lens()).any(|(m, n)| m.len() != *n) {
            return Err(format!("exported memories have lengths {:?}, the graph says {:?}", ex.iter().map(|m| m.len()).collect::<Vec<_>>(), g2.commitments_lens()));
        }
        let ok = accepts(&g2, &ex)?;
        if ok == rejected {
            return Err(if ok { "the graph accepts calls whose kernels reject" } else { "~the graph rejects calls whose kernels accept" }.into());
        }
        note(if ok { "proved" } else { "rejected" });
        if plain {
            type D<F> = DummyProvingSystem<SC<F>>;
            let (ps, vs) = <D<F> as ProvingSystem<SC<F>>>::setup(&g2);
            let proof = guarded(|| <D<F> as ProvingSystem<SC<F>>>::prove(&ps, &g2, ex));
            match proof {
                Some(pr) => {
                    if rejected {
                        return Err("the dummy prover proves calls whose kernels reject".into());
                    }
                    if !<D<F> as ProvingSystem<SC<F>>>::verify(&vs, &g2, &pr) {
                        return Err("~the dummy verifier rejects a proof".into());
                    }
                    note("dummy proof");
                }
                None if !rejected => return Err("~the dummy prover refuses calls whose kernels accept".into()),
                None => {}
            }
        }
        Ok(())
    })
}
fn c17_case<F: Field>(z: &ZProf, seed: u64, prove: bool) -> Out {
    let p = gen_plan(z, seed);
    let mut out = Out { desc: format!("field {}; {}", F::NAME, p.show()), ..Default::default() };
    let Some(pr) = prims::<F>(&p, &mut out) else { return out };
    let mut g = None;
    if prove {
        match build(&p, &pr, seed) {
            Built::Graph(x, _) => {
                out.note("graph");
                g = Some(x)
            }
            Built::Illegal if z.pow2 => {
                out.fail("shapes whose dimensions are powers of two are refused");
                return out;
            }
            Built::Illegal => {
                out.note("shapes refused");
                return out;
            }
            Built::NoData => {
                out.note("no data");
                return out;
            }
            Built::Refused => {
                out.refused += 1;
                return out;
            }
            Built::Fail(m) => {
                out.fail(m);
                return out;
            }
        }
    }
    out.add(honest(&p, &pr, g.as_ref(), seed, z.pow2, 5));
    out
}
/// where every element of every device memory is in the exported memory
fn layout(p: &Plan) -> Option<Vec<Vec<usize>>> {
    let tw: Vec<_> = p.kerns.iter().map(|k| compile_twin(k).ok()).collect::<Option<_>>()?;
    let next = std::cell::Cell::new(1u32 << 20);
    let mut c: Ctx<M31, Counter> = Context::new(Counter(AtomicU32::new(1)));
    let r = guarded(|| {
        let hs = calls(p, &tw, &mut c, &|_, _| {
            next.set(next.get() + 1);
            SymV { v: [Sym::C(M31::from(next.get())); LANES] }
        })
        .ok()?;
        c.compile_computation_graph().ok()?;
        let ex = c.export_device_memories_unchecked();
        let mut r = vec![];
        for (m, h) in hs.iter().enumerate() {
            let s = &p.mems[m];
            let x = by_depth!(s.len(), S<M31>, down0, &c, h, s)?;
            let pos: Vec<Option<usize>> = x.iter().map(|x| ex[m].iter().position(|y| y.v[0].konst() == x.konst())).collect();
            // padding only repeats
            if ex[m].iter().any(|y| !x.iter().any(|x| x.konst() == y.v[0].konst())) {
                return None;
            }
            r.push(pos.into_iter().collect::<Option<Vec<_>>>()?);
        }
        Some(r)
    });
    r.flatten()
}
/// Whatever the committed memories hold, what the graph accepts is what the kernels compute.
fn c18_prover<F: Field>(z: &ZProf, seed: u64) -> Out {
    let p = gen_plan(z, seed);
    let mut out = Out { desc: format!("field {}; {}", F::NAME, p.show()), ..Default::default() };
    let Some(pr) = prims::<F>(&p, &mut out) else { return out };
    let (g, base) = match build(&p, &pr, seed) {
        Built::Graph(g, m) => (g, m),
        Built::Fail(m) => {
            out.fail(m);
            return out;
        }
        _ => {
            out.note("no graph");
            return out;
        }
    };
    let Some(lay) = layout(&p) else {
        out.note("no layout");
        return out;
    };
    let Some(base) = base else {
        out.note("no base");
        return out;
    };
    if base.len() != g.commitments_lens().len() || base.iter().zip(g.commitments_lens()).any(|(m, n)| m.len() != *n) {
        out.fail(format!("exported memories have lengths {:?}, the graph says {:?}", base.iter().map(|m| m.len()).collect::<Vec<_>>(), g.commitments_lens()));
        return out;
    }
    // positions the prover chooses freely
    let mut r = Rng::new(seed ^ 0xadd);
    let mut free: Vec<(usize, usize)> = vec![];
    let made = p.made_by();
    for _ in 0..r.range(2, 6) {
        let m = r.below(base.len());
        let m = if m < made.len() && made[m].is_none() && r.chance(60) { r.below(base.len()) } else { m };
        free.push((m, if m < lay.len() && r.chance(80) { lay[m][r.below(lay[m].len())] } else { r.below(base[m].len()) }));
    }
    out.desc += &format!("; free positions (memory, index) {free:?}");
    out.add(explore::<F>(&opts(), &|| {
        let mut mems = base.clone();
        for (m, i) in &free {
            let x = Sym::var(&format!("c{m}_{i}"));
            // the other lanes keep their values where they can differ
            mems[*m][*i].v[0] = x;
        }
        if !accepts(&g, &mems)? {
            note("rejected");
            return Ok(());
        }
        crate::prog::ZERO_BY_ZERO.with(|z| z.set(false));
        for s in p.steps.iter() {
            let Step::Call(k, par, views, _) = s else { continue };
            let kern = &p.kerns[*k];
            let outs: Vec<usize> = (0..made.len()).filter(|m| made[*m].map(|x| std::ptr::eq(&p.steps[x.0], s)).unwrap_or(false)).collect();
            for i in 0..*par {
                let ins = instance(&p, kern, views, *par, i, 0, &|m, i| mems[m][lay[m][i]]);
                let w = kernel_means(kern, &ins);
                if crate::prog::ZERO_BY_ZERO.with(|z| z.get()) {
                    note("open");
                    return Ok(());
                }
                let Some(w) = w else {
                    return Err("the graph accepts memories on which a kernel rejects".into());
                };
                for m in &outs {
                    let a = made[*m].unwrap().1;
                    let n = len(&kern.args[a].shape);
                    for j in 0..n {
                        if mems[*m][lay[*m][i * n + j]].v[0] != w[a][j] {
                            return Err("the graph accepts memories in which an output is not what the kernel computes".into());
                        }
                    }
                }
            }
        }
        note("accepted");
        Ok(())
    }));
    out
}

// ------------------------------------------------------------------ kernels written with the macro
#[kernel]
fn mac_nest<C: Config>(api: &mut API<C>, a: &[[InputVariable; 3]; 2], b: &mut [[OutputVariable; 1]; 3], c: &mut [[[InputOutputVariable; 2]; 1]; 3]) {
    for i in 0..3 {
        b[i][0] = api.add(a[0][i], a[1][i]);
        b[i][0] = api.mul(b[i][0], (i + 1) as u32);
        c[i][0][0] = api.mul(c[i][0][0], c[i][0][1]);
    }
}
#[kernel]
fn mac_single<C: Config>(api: &mut API<C>, a: &InputVariable, b: &mut OutputVariable, c: &mut InputOutputVariable) {
    *b = api.sub(*a, *c);
    *c = api.add(*c, *b);
    *c = api.mul(*c, *b);
}
#[kernel]
fn mac_swap<C: Config>(api: &mut API<C>, a: &mut [[[InputOutputVariable; 2]; 3]; 4], b: &mut [[[InputOutputVariable; 4]; 3]; 2], c: &InputVariable) {
    for i in 0..4 {
        for j in 0..3 {
            for k in 0..2 {
                let x = api.add(a[i][j][k], c);
                a[i][j][k] = b[k][j][i];
                b[k][j][i] = x;
            }
        }
    }
}
#[kernel]
fn mac_order<C: Config>(api: &mut API<C>, o: &mut [OutputVariable; 2], a: &[InputVariable; 2], p: &mut OutputVariable, b: &[InputVariable; 3]) {
    o[1] = api.sub(a[0], a[1]);
    o[0] = api.sub(b[0], b[2]);
    *p = api.mul(b[1], a[0]);
}
/// what each argument holds after one instance
fn mac_means<F: Field>(which: usize, x: &[Vec<S<F>>]) -> Vec<Vec<S<F>>> {
    let mut y = x.to_vec();
    match which {
        0 => {
            y[1] = (0..3).map(|i| (x[0][i] + x[0][3 + i]) * Sym::C(F::from(i as u32 + 1))).collect();
            for i in 0..3 {
                y[2][2 * i] = x[2][2 * i] * x[2][2 * i + 1];
            }
        }
        1 => {
            let b = x[0][0] - x[2][0];
            y[1] = vec![b];
            y[2] = vec![(x[2][0] + b) * b];
        }
        2 => {
            for i in 0..4 {
                for j in 0..3 {
                    for k in 0..2 {
                        let (p, q) = (i * 6 + j * 2 + k, k * 12 + j * 4 + i);
                        y[0][p] = x[1][q];
                        y[1][q] = x[0][p] + x[2][0];
                    }
                }
            }
        }
        _ => {
            y[0] = vec![x[3][0] - x[3][2], x[1][0] - x[1][1]];
            y[2] = vec![x[3][1] * x[1][0]];
        }
    }
    y
}
fn mac_case<F: Field>(which: usize, par: usize, bcast: usize) -> Out {
    let mut out = Out { desc: format!("field {}; macro kernel {which}, parallel {par}, argument broadcast {bcast:b}", F::NAME), ..Default::default() };
    let k = match which {
        0 => compile_mac_nest::<SC<F>>(),
        1 => compile_mac_single::<SC<F>>(),
        2 => compile_mac_swap::<SC<F>>(),
        _ => compile_mac_order::<SC<F>>(),
    };
    let k = match k {
        Ok(k) => k,
        Err(e) => {
            out.fail(format!("a kernel does not compile: {e}"));
            return out;
        }
    };
    out.programs += 1;
    let args: Vec<(Shape, bool, bool)> = match which {
        0 => vec![(vec![2, 3], true, false), (vec![3, 1], false, true), (vec![3, 1, 2], true, true)],
        1 => vec![(vec![], true, false), (vec![], false, true), (vec![], true, true)],
        2 => vec![(vec![4, 3, 2], true, true), (vec![2, 3, 4], true, true), (vec![], true, false)],
        _ => vec![(vec![2], false, true), (vec![2], true, false), (vec![], false, true), (vec![3], true, false)],
    };
    let shared = |j: usize| args[j].1 && !args[j].2 && bcast >> j & 1 == 1;
    out.add(explore::<F>(&opts(), &|| {
        let h = Hints::<F>::reset();
        let mut c: Ctx<F, Hints<F>> = Context::new(h);
        let mut hs: Vec<DeviceMemoryHandle> = vec![];
        let mut data: Vec<Vec<V<F>>> = vec![];
        for (j, (s, inp, _)) in args.iter().enumerate() {
            if !inp {
                hs.push(None);
                data.push(vec![]);
                continue;
            }
            let mut t = s.clone();
            if !shared(j) {
                t.insert(0, par);
            }
            let x: Vec<V<F>> = (0..len(&t)).map(|i| SymV { v: std::array::from_fn(|l| Sym::var(&format!("a{j}_{i}_{l}"))) }).collect();
            hs.push(upload(&mut c, 2, &x, &t));
            data.push(x);
        }
        let mut go = || -> Result<(), Error> {
            match which {
                0 => {
                    let (a, mut b, mut d) = (hs[0].clone(), hs[1].clone(), hs[2].clone());
                    call_kernel!(c, k, par, a, mut b, mut d)?;
                    hs = vec![None, b, d];
                }
                1 => {
                    let (a, mut b, mut d) = (hs[0].clone(), hs[1].clone(), hs[2].clone());
                    call_kernel!(c, k, par, a, mut b, mut d)?;
                    hs = vec![None, b, d];
                }
                2 => {
                    let (mut a, mut b, d) = (hs[0].clone(), hs[1].clone(), hs[2].clone());
                    call_kernel!(c, k, par, mut a, mut b, d)?;
                    hs = vec![a, b, None];
                }
                _ => {
                    let (mut o, a, mut p, b) = (hs[0].clone(), hs[1].clone(), hs[2].clone(), hs[3].clone());
                    call_kernel!(c, k, par, mut o, a, mut p, b)?;
                    hs = vec![o, None, p, None];
                }
            }
            Ok(())
        };
        match catch_unwind(AssertUnwindSafe(&mut go)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("a kernel call fails: {e}")),
            Err(e) => return Err(format!("a kernel call panics: {}", symf::ctx::rethrow(e))),
        }
        for (j, (s, _, o)) in args.iter().enumerate() {
            if !o {
                continue;
            }
            let mut t = s.clone();
            t.insert(0, par);
            let n = len(s);
            let got = match guarded(|| by_depth!(t.len(), V<F>, down2, &c, &hs[j], &t)) {
                Some(Some(g)) => g,
                _ => return Err("a kernel's output does not have the shape of its argument under the parallel count".into()),
            };
            for i in 0..par {
                for l in 0..LANES {
                    let x: Vec<Vec<S<F>>> = (0..args.len())
                        .map(|a| {
                            let m = len(&args[a].0);
                            let at = if shared(a) { 0 } else { i * m };
                            if args[a].1 { data[a][at..at + m].iter().map(|v| v.v[l]).collect() } else { vec![] }
                        })
                        .collect();
                    let w = mac_means(which, &x);
                    if (0..n).any(|e| got[i * n + e].v[l] != w[j][e]) {
                        return Err("~a kernel written with the macro returns another value than its body computes".into());
                    }
                }
            }
        }
        note("called");
        Ok(())
    }));
    out
}

// ------------------------------------------------------------------ cases
fn zprof(p: u64, pow2: bool) -> ZProf {
    ZProf { pow2, ones: false, ker: P { ops: 4, gt: false, konst: 15, memo: 5, ..prof(p) }, calls: 3, cap: 4, trans: 45 }
}
/// kernels with larger arguments, calls through transposed views
fn wide(p: u64) -> ZProf {
    let z = zprof(p, false);
    ZProf { cap: 9, calls: 2, trans: 75, ker: P { ops: 2, ..z.ker }, ..z }
}
fn fam(v: &mut Vec<(u64, Case)>, tag: &str, n: u64, seed: u64, pr: ZProf, f: fn(&ZProf, u64) -> Out) {
    for i in 0..n {
        let s = seed * 1_000_003 + i;
        v.push((i * 1000 / n, case(format!("{tag}-{s}"), move || f(&pr, s))));
    }
}
fn c17(e: Env) -> Vec<Case> {
    let n = e.pick(5000, 100_000);
    let s = e.seed + 17;
    let mut v = vec![];
    for which in 0..4usize {
        for par in 1..=e.pick(4, 8) as usize {
            for b in if which == 3 { vec![0usize, 2, 8, 10] } else { vec![0, 1, 4] } {
                v.push((which as u64, case(format!("macro-{which}-{par}-{b}"), move || mac_case::<M31>(which, par, b))));
            }
        }
    }
    let big = (1 << 31) - 1;
    fam(&mut v, "m31", n, s, zprof(big, false), |z, s| c17_case::<M31>(z, s, false));
    fam(&mut v, "m31-pow2", n, s, zprof(big, true), |z, s| c17_case::<M31>(z, s, false));
    fam(&mut v, "m31-ones", n / 2, s, ZProf { ones: true, ..zprof(big, false) }, |z, s| c17_case::<M31>(z, s, false));
    fam(&mut v, "m31-wide", n / 2, s, wide(big), |z, s| c17_case::<M31>(z, s, false));
    fam(&mut v, "f5", n / 2, s, zprof(5, false), |z, s| c17_case::<F5>(z, s, false));
    finish(v)
}
fn c18(e: Env) -> Vec<Case> {
    let n = e.pick(3000, 40_000);
    let s = e.seed + 18;
    let mut v = vec![];
    let big = (1 << 31) - 1;
    fam(&mut v, "m31", n, s, zprof(big, false), |z, s| c17_case::<M31>(z, s, true));
    fam(&mut v, "m31-pow2", n, s, zprof(big, true), |z, s| c17_case::<M31>(z, s, true));
    fam(&mut v, "m31-ones", n / 2, s, ZProf { ones: true, ..zprof(big, false) }, |z, s| c17_case::<M31>(z, s, true));
    fam(&mut v, "m31-wide", n / 2, s, wide(big), |z, s| c17_case::<M31>(z, s, true));
    fam(&mut v, "f5", n / 2, s, zprof(5, false), |z, s| c17_case::<F5>(z, s, true));
    let a = |z: ZProf| ZProf { ker: P { hints: false, ..z.ker }, ..z };
    fam(&mut v, "m31-prover", n, s, a(zprof(big, false)), c18_prover::<M31>);
    fam(&mut v, "f5-prover", n / 2, s, a(zprof(5, false)), c18_prover::<F5>);
    finish(v)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C17", reach: &["called"], cases: c17 },
        Prop { id: "C18", reach: &["proved", "rejected", "accepted", "dummy proof"], cases: c18 },
    ]
}
/// A compiled graph, copied through memory: same graph, and it accepts the same memories.
pub fn c22_graph<F: Field>(p: u64, seed: u64) -> Out {
    let z = zprof(p, false);
    let p = gen_plan(&z, seed);
    let mut out = Out { desc: format!("field {}; {}", F::NAME, p.show()), ..Default::default() };
    let Some(pr) = prims::<F>(&p, &mut out) else { return out };
    let Built::Graph(g, Some(base)) = build(&p, &pr, seed) else {
        out.note("no graph");
        return out;
    };
    let mut r = Rng::new(seed ^ 0x5a);
    let free: Vec<(usize, usize, usize)> = (0..r.range(1, 4))
        .map(|_| {
            let m = r.below(base.len());
            (m, r.below(base[m].len()), r.below(LANES))
        })
        .collect();
    out.desc += &format!("; free positions (memory, index, lane) {free:?}");
    let bare = {
        let mut b = g.clone();
        b.kernels.iter_mut().for_each(|k| k.hint_solver = None);
        b
    };
    out.add(explore::<F>(&opts(), &|| {
        let mut mems = base.clone();
        for (m, i, l) in &free {
            mems[*m][*i].v[*l] = Sym::var(&format!("c{m}_{i}_{l}"));
        }
        // (a graph with hint solvers is copied with a warning)
        crate::p_mem::through_memory(&[&bare, if seed % 20 == 0 { &g } else { &bare }], |r| {
            crate::p_mem::same_graph(&g, &r[0])?;
            crate::p_mem::same_graph(&g, &r[1])?;
            let (a, b) = (accepts(&g, &mems)?, accepts(&r[1], &mems)?);
            if a != b {
                return Err(format!("the graph {} memories that its copy {}", if a { "accepts" } else { "rejects" }, if b { "accepts" } else { "rejects" }));
            }
            note(if a { "proved" } else { "rejected" });
            Ok(())
        })
    }));
    out
}
