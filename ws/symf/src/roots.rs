//! Roots of a univariate polynomial over a prime field (Cantor-Zassenhaus).
use arith::Field;

type P<F> = Vec<F>;
fn trim<F: Field>(p: &mut P<F>) {
    while p.last().map(|x| x.is_zero()).unwrap_or(false) {
        p.pop();
    }
}
fn rem<F: Field>(mut a: P<F>, m: &P<F>) -> P<F> {
    trim(&mut a);
    let inv = m[m.len() - 1].inv().unwrap();
    while a.len() >= m.len() {
        let k = a[a.len() - 1] * inv;
        let o = a.len() - m.len();
        for i in 0..m.len() {
            a[o + i] -= k * m[i];
        }
        trim(&mut a);
    }
    a
}
fn div<F: Field>(mut a: P<F>, m: &P<F>) -> P<F> {
    let inv = m[m.len() - 1].inv().unwrap();
    let mut q = vec![F::ZERO; (a.len() + 1).saturating_sub(m.len())];
    while a.len() >= m.len() {
        let k = a[a.len() - 1] * inv;
        let o = a.len() - m.len();
        q[o] = k;
        for i in 0..m.len() {
            a[o + i] -= k * m[i];
        }
        trim(&mut a);
    }
    q
}
fn mul<F: Field>(a: &P<F>, b: &P<F>, m: &P<F>) -> P<F> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![F::ZERO; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += *x * *y;
        }
    }
    rem(r, m)
}
fn gcd<F: Field>(mut a: P<F>, mut b: P<F>) -> P<F> {
    trim(&mut a);
    trim(&mut b);
    while !b.is_empty() {
        let r = rem(a, &b);
        a = b;
        b = r;
    }
    a
}
fn pow<F: Field>(x: &P<F>, e: arith::U256, m: &P<F>) -> P<F> {
    let mut r: P<F> = rem(vec![F::ONE], m);
    for i in (0..256 - e.leading_zeros()).rev() {
        r = mul(&r.clone(), &r, m);
        if (e >> i) & 1 == 1 {
            r = mul(&r, x, m);
        }
    }
    r
}
/// the product of the distinct linear factors: gcd(x^p - x, f)
fn linear_part<F: Field>(f: P<F>) -> P<F> {
    let mut g = pow(&vec![F::ZERO, F::ONE], F::MODULUS, &f);
    g.resize(g.len().max(2), F::ZERO);
    g[1] -= F::ONE;
    gcd(f, g)
}
pub fn no_root<F: Field>(p: &[F]) -> bool {
    let mut f = p.to_vec();
    trim(&mut f);
    f.len() >= 2 && linear_part(f).len() == 1
}
pub fn roots<F: Field>(p: &[F], mut rng: impl FnMut() -> u64) -> Vec<F> {
    let mut f = p.to_vec();
    trim(&mut f);
    if f.len() < 2 {
        return vec![];
    }
    let g = linear_part(f);
    let mut out = vec![];
    let mut work = vec![g];
    let mut tries = 0;
    while let Some(g) = work.pop() {
        if g.len() < 2 {
            continue;
        }
        if g.len() == 2 {
            out.push(-g[0] * g[1].inv().unwrap());
            continue;
        }
        tries += 1;
        if tries > 60 {
            break;
        }
        let s = F::from((rng() >> 33) as u32);
        let mut h = pow(&vec![s, F::ONE], (F::MODULUS - arith::U256::ONE) >> 1u32, &g);
        h.resize(h.len().max(1), F::ZERO);
        h[0] -= F::ONE;
        let d = gcd(g.clone(), h);
        if d.len() < 2 || d.len() == g.len() {
            work.push(g);
        } else {
            let q = div(g, &d);
            work.push(d);
            work.push(q);
        }
    }
    out
}
