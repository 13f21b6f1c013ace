//! C14: Moebius maps — apply, chain, inverse and derivatives are consistent.
use harness::*;
use num_traits::{One, Zero};
use std::ops::*;
use vecmat::complex::Moebius;
use vecmat::traits::Normalize;
use vecmat::{Complex, Matrix, Quaternion, Transform};

/// Reference algebra: scalars, complex numbers and quaternions all as
/// quaternions [w, x, y, z].
type Q<T> = [T; 4];
trait Field: Copy + Zero + One + Neg<Output = Self> + Sub<Output = Self> + Div<Output = Self> + PartialEq + std::fmt::Debug {}
impl<T: Copy + Zero + One + Neg<Output = T> + Sub<Output = T> + Div<Output = T> + PartialEq + std::fmt::Debug> Field for T {}
fn add<T: Field>(a: Q<T>, b: Q<T>) -> Q<T> {
    std::array::from_fn(|i| a[i] + b[i])
}
fn sub<T: Field>(a: Q<T>, b: Q<T>) -> Q<T> {
    std::array::from_fn(|i| a[i] - b[i])
}
fn n2<T: Field>(a: Q<T>) -> T {
    a.iter().fold(T::zero(), |s, x| s + *x * *x)
}
fn qinv<T: Field>(a: Q<T>) -> Q<T> {
    let n = n2(a);
    [a[0] / n, -a[1] / n, -a[2] / n, -a[3] / n]
}
/// (a, b, c, d), as quaternions
type M<T> = [Q<T>; 4];
fn den<T: Field>(m: &M<T>, x: Q<T>) -> Q<T> {
    add(qmul(m[2], x), m[3])
}
fn num<T: Field>(m: &M<T>, x: Q<T>) -> Q<T> {
    add(qmul(m[0], x), m[1])
}
fn app<T: Field>(m: &M<T>, x: Q<T>) -> Q<T> {
    qmul(num(m, x), qinv(den(m, x)))
}
/// a v q^-1 - u q^-1 c v q^-1
fn der<T: Field>(m: &M<T>, x: Q<T>, v: Q<T>) -> Q<T> {
    let (u, i) = (num(m, x), qinv(den(m, x)));
    sub(qmul(qmul(m[0], v), i), qmul(qmul(u, i), qmul(qmul(m[2], v), i)))
}
fn mm<T: Field>(p: &M<T>, q: &M<T>) -> M<T> {
    let e = |i: usize, j: usize| add(qmul(p[2 * i], q[j]), qmul(p[2 * i + 1], q[2 + j]));
    [e(0, 0), e(0, 1), e(1, 0), e(1, 1)]
}
fn emb2<T: Field>(z: Complex<T>) -> Q<T> {
    let [a, b] = z.into_array();
    [a, b, T::zero(), T::zero()]
}
fn emb1<T: Field>(x: T) -> Q<T> {
    [x, T::zero(), T::zero(), T::zero()]
}
fn mc<T: Field>(m: &[Complex<T>; 4]) -> M<T> {
    m.map(emb2)
}
fn moe<T>([a, b, c, d]: [T; 4]) -> Moebius<T> {
    Moebius::new(a, b, c, d)
}

fn gz<F: Exact>(r: &mut Rng) -> Complex<F> {
    Complex::new(F::any(r), F::any(r))
}
fn gq<F: Exact>(r: &mut Rng) -> Quaternion<F> {
    Quaternion::new(F::any(r), F::any(r), F::any(r), F::any(r))
}
fn ok<F: Exact>(d: Q<F>) -> bool {
    n2(d).unit()
}

// ------------------------------------------------------------- exact

fn scalar<F: Exact>(c: &mut Ctx) {
    let (m, k): ([F; 4], [F; 4]) = (std::array::from_fn(|_| F::any(&mut c.rng)), std::array::from_fn(|_| F::any(&mut c.rng)));
    let x = F::any(&mut c.rng);
    c.input(hash_u64s(m.iter().chain(&k).chain([&x]).map(|v| v.bits())));
    c.sample(|| format!("{} map {m:?} at {x:?}", F::RING));
    let (a, b) = (moe(m), moe(k));
    let d = || format!("{}: A = {m:?}, B = {k:?}, x = {x:?}", F::RING);
    let at = |m: &[F; 4], x: F| { let q = m[2] * x + m[3]; if !q.unit() { None } else { Some((m[0] * x + m[1]) / q) } };
    if let Some(w) = at(&m, x) {
        c.eq("Moebius::apply scalar", a.apply(x), w, d);
    }
    let ab = [m[0] * k[0] + m[1] * k[2], m[0] * k[1] + m[1] * k[3], m[2] * k[0] + m[3] * k[2], m[2] * k[1] + m[3] * k[3]];
    let ch = a.chain(b);
    if let Some(w) = at(&k, x).and_then(|y| at(&m, y)) {
        c.eq("chain is composition", ch.apply(x), w, d);
    }
    c.eq("Moebius::chain", [ch.a(), ch.b(), ch.c(), ch.d()], ab, d);
    let det = m[0] * m[3] - m[1] * m[2];
    c.eq("Moebius::det", a.det(), det, d);
    c.eq("identity is neutral", Moebius::<F>::identity().apply(x), x, d);
    c.eq("identity is neutral", Moebius::identity().chain(a), a, d);
    c.eq("identity is neutral", a.chain(Moebius::identity()), a, d);
    if det.unit() {
        let i = a.inv();
        if let Some(y) = at(&m, x) {
            // the inverse has a pole only where the map is not defined
            c.eq("inv undoes the map", i.apply(y), x, d);
        }
        let j = [i.a(), i.b(), i.c(), i.d()];
        if let Some(y) = at(&j, x) {
            if (m[2] * y + m[3]).unit() {
                c.eq("the map undoes inv", a.apply(y), x, d);
            }
        }
        let p = a.chain(i);
        c.check(p.b() == F::zero() && p.c() == F::zero() && p.a() == p.d() && p.a() != F::zero(), "A inv(A) is the identity map", || format!("{p:?}; {}", d()));
        normalise_exact(c, a, det, d);
    }
    accessors(c, m);
}

fn normalise_exact<T: Field>(c: &mut Ctx, a: Moebius<T>, det: T, d: impl Fn() -> String)
where
    Moebius<T>: Normalize,
{
    let m = [a.a(), a.b(), a.c(), a.d()];
    let n = a.normalize();
    let g = [n.a(), n.b(), n.c(), n.d()];
    c.op("Moebius::normalize");
    // same map: proportional coefficients (commutative), not all zero
    let same = (0..4).all(|i| (0..4).all(|j| g[i] * m[j] == g[j] * m[i])) && g.iter().any(|x| !x.is_zero());
    c.check(same, "normalize leaves the represented map unchanged", || format!("got {g:?}; {}", d()));
    let gd = g[0] * g[3] - g[1] * g[2];
    let nn = n.normalize();
    let again = [nn.a(), nn.b(), nn.c(), nn.d()];
    if gd != T::one() || again != g {
        if det != T::one() && g == m.map(|x| x / det) {
            c.known("moebius-normalize-det", format!("det {det:?} becomes {gd:?}; {}", d()));
        } else {
            c.fail("normalize gives determinant one and is idempotent", format!("got {g:?} of determinant {gd:?}; {}", d()));
        }
    }
}

fn accessors<T: Field>(c: &mut Ctx, m: [T; 4]) {
    let d = || format!("{m:?}");
    let mut a = moe(m);
    let arr = [[m[0], m[1]], [m[2], m[3]]];
    let mat = Matrix::from(arr);
    c.eq("coefficients", [a.a(), a.b(), a.c(), a.d()], m, d);
    c.eq("coefficients", [*a.a_ref(), *a.b_ref(), *a.c_ref(), *a.d_ref()], m, d);
    c.eq("conversions", (a.into_array(), a.into_matrix(), a.into_tuple()), (arr, mat, (m[0], m[1], m[2], m[3])), d);
    c.eq("conversions", (Moebius::from(arr), Moebius::from(mat), Moebius::from_tuple((m[0], m[1], m[2], m[3]))), (a, a, a), d);
    c.eq("conversions", (Moebius::from_array(arr), Moebius::from_matrix(mat)), (a, a), d);
    c.eq("views", (*a.as_matrix(), *a.as_array_of_arrays()), (mat, arr), d);
    c.eq("conversions", (<[[T; 2]; 2]>::from(a), Matrix::<T, 2, 2>::from(a)), (arr, mat), d);
    c.eq("views", (*<&[[T; 2]; 2]>::from(&a), *<&Matrix<T, 2, 2>>::from(&a)), (arr, mat), d);
    // each coefficient is reached by its own mutable accessor
    let z = m[0] - m[3];
    *a.a_mut() = m[3];
    c.eq("a_mut", a.into_array(), [[m[3], m[1]], [m[2], m[3]]], d);
    *a.d_mut() = z;
    c.eq("d_mut", a.into_array(), [[m[3], m[1]], [m[2], z]], d);
    *a.b_mut() = m[2];
    c.eq("b_mut", a.into_array(), [[m[3], m[2]], [m[2], z]], d);
    *a.c_mut() = m[1];
    c.eq("c_mut", a.into_array(), [[m[3], m[2]], [m[1], z]], d);
    a.as_mut_matrix()[(0, 1)] = z;
    c.eq("as_mut_matrix", a.into_array(), [[m[3], z], [m[1], z]], d);
    a.as_mut_array_of_arrays()[1][0] = m[0];
    c.eq("as_mut_array_of_arrays", a.into_array(), [[m[3], z], [m[0], z]], d);
    <&mut [[T; 2]; 2]>::from(&mut a)[0][0] = z;
    <&mut Matrix<T, 2, 2>>::from(&mut a)[(1, 1)] = m[1];
    c.eq("mutable views", a.into_array(), [[z, z], [m[0], m[1]]], d);
}

fn complex<F: Exact>(c: &mut Ctx) {
    let (m, k): ([Complex<F>; 4], [Complex<F>; 4]) = (std::array::from_fn(|_| gz(&mut c.rng)), std::array::from_fn(|_| gz(&mut c.rng)));
    let (x, v) = (gz(&mut c.rng), gz(&mut c.rng));
    c.input(hash_u64s(m.iter().chain(&k).chain([&x, &v]).flat_map(|z| z.into_array()).map(|v| v.bits())));
    let d = || format!("complex over the {}: A = {m:?}, B = {k:?}, x = {x:?}, v = {v:?}", F::RING);
    let (a, b) = (moe(m), moe(k));
    let (rm, rk) = (mc(&m), mc(&k));
    let (rx, rv) = (emb2(x), emb2(v));
    macro_rules! is { ($op:expr, $got:expr, $want:expr) => { c.eq($op, emb2($got), $want, d) } }
    let ch = a.chain(b);
    c.eq("Moebius::chain", mc(&[ch.a(), ch.b(), ch.c(), ch.d()]), mm(&rm, &rk), d);
    let ch2 = <Moebius<Complex<F>> as Transform<Complex<F>>>::chain(a, b);
    c.eq("Transform::chain", ch2, ch, d);
    is!("identity is neutral", <Moebius<Complex<F>> as Transform<Complex<F>>>::identity().apply(x), rx);
    c.eq("identity is neutral", <Moebius<Complex<F>> as Transform<Complex<F>>>::identity(), Moebius::identity(), d);
    is!("deriv of identity", Transform::deriv(&<Moebius<Complex<F>> as Transform<Complex<F>>>::identity(), x, v), rv);
    let det = m[0] * m[3] - m[1] * m[2];
    c.eq("Moebius::det", emb2(a.det()), emb2(det), d);
    if ok(den(&rm, rx)) {
        is!("Moebius::apply complex", a.apply(x), app(&rm, rx));
        is!("Transform::apply complex", Transform::apply(&a, x), app(&rm, rx));
        is!("Moebius::deriv", a.deriv(x) * v, der(&rm, rx, rv));
        is!("Transform::deriv complex", Transform::deriv(&a, x, v), der(&rm, rx, rv));
        // derivative of the code itself, by dual numbers
        let dm = m.map(|z| Complex::new(Dual::con(z.re()), Dual::con(z.im())));
        let y = moe(dm).apply(Complex::new(Dual::new(x.re(), v.re()), Dual::new(x.im(), v.im())));
        is!("deriv is the derivative of apply", Transform::deriv(&a, x, v), [y.re().d, y.im().d, F::zero(), F::zero()]);
        if det.norm_sqr().unit() {
            is!("inv undoes the map", a.inv().apply(a.apply(x)), rx);
            is!("inv undoes the map", Transform::apply(&<Moebius<Complex<F>> as Transform<Complex<F>>>::inv(a), Transform::apply(&a, x)), rx);
        }
    }
    if det.norm_sqr().unit() {
        let i = a.inv();
        let ri = mc(&[i.a(), i.b(), i.c(), i.d()]);
        if ok(den(&ri, rx)) && ok(den(&rm, app(&ri, rx))) {
            is!("the map undoes inv", a.apply(i.apply(x)), rx);
        }
        c.eq("Transform::inv", <Moebius<Complex<F>> as Transform<Complex<F>>>::inv(a), i, d);
        normalise_exact(c, a, det, d);
    }
    if ok(den(&rk, rx)) {
        let y = app(&rk, rx);
        if ok(den(&rm, y)) {
            is!("chain is composition", ch.apply(x), app(&rm, y));
            let dv = der(&rk, rx, rv);
            is!("chain rule", Transform::deriv(&ch, x, v), der(&rm, y, dv));
        }
    }
    accessors(c, m);
}

/// complex coefficients acting on quaternion points
fn quaternion<F: Exact>(c: &mut Ctx) {
    let (m, k): ([Complex<F>; 4], [Complex<F>; 4]) = (std::array::from_fn(|_| gz(&mut c.rng)), std::array::from_fn(|_| gz(&mut c.rng)));
    let (x, v) = (gq(&mut c.rng), gq(&mut c.rng));
    let (rx, rv) = (x.into_array(), v.into_array());
    c.input(hash_u64s(m.iter().chain(&k).flat_map(|z| z.into_array()).chain(rx).chain(rv).map(|v| v.bits())));
    let d = || format!("quaternions over the {}: A = {m:?}, B = {k:?}, x = {x:?}, v = {v:?}", F::RING);
    let (a, b) = (moe(m), moe(k));
    let (rm, rk) = (mc(&m), mc(&k));
    macro_rules! is { ($op:expr, $got:expr, $want:expr) => { c.eq($op, $got.into_array(), $want, d) } }
    let tr = |m: &Moebius<Complex<F>>, x: Quaternion<F>| Transform::<Quaternion<F>>::apply(m, x);
    let dv = |m: &Moebius<Complex<F>>, x: Quaternion<F>, v: Quaternion<F>| Transform::<Quaternion<F>>::deriv(m, x, v);
    let id = <Moebius<Complex<F>> as Transform<Quaternion<F>>>::identity();
    c.eq("identity is neutral", id, Moebius::identity(), d);
    is!("identity is neutral", tr(&id, x), rx);
    is!("deriv of identity", dv(&id, x, v), rv);
    let ch = <Moebius<Complex<F>> as Transform<Quaternion<F>>>::chain(a, b);
    c.eq("Transform::chain", mc(&[ch.a(), ch.b(), ch.c(), ch.d()]), mm(&rm, &rk), d);
    let det = a.det();
    if ok(den(&rm, rx)) {
        is!("Moebius::apply quaternion", a.apply(x), app(&rm, rx));
        is!("Transform::apply quaternion", tr(&a, x), app(&rm, rx));
        is!("Moebius::deriv_dir", a.deriv_dir(x, v), der(&rm, rx, rv));
        is!("Transform::deriv quaternion", dv(&a, x, v), der(&rm, rx, rv));
        let dm = m.map(|z| Complex::new(Dual::con(z.re()), Dual::con(z.im())));
        let y = moe(dm).apply(Quaternion::from_array(std::array::from_fn(|i| Dual::new(rx[i], rv[i])))).into_array().map(|t| t.d);
        is!("deriv is the derivative of apply", dv(&a, x, v), y);
        if det.norm_sqr().unit() {
            let i = <Moebius<Complex<F>> as Transform<Quaternion<F>>>::inv(a);
            // q^-1 exists whenever the image is not the pole of the inverse
            let ri = mc(&[i.a(), i.b(), i.c(), i.d()]);
            if ok(den(&ri, app(&rm, rx))) {
                is!("inv undoes the map", tr(&i, tr(&a, x)), rx);
            }
        }
    }
    if ok(den(&rk, rx)) {
        let y = app(&rk, rx);
        if ok(den(&rm, y)) {
            is!("chain is composition", tr(&ch, x), app(&rm, y));
            is!("chain rule", dv(&ch, x, v), der(&rm, y, der(&rk, rx, rv)));
        }
    }
}

/// non-commutative coefficients: apply and chain only
fn noncommutative<F: Exact>(c: &mut Ctx) {
    let g = |c: &mut Ctx| -> [Quaternion<F>; 4] { std::array::from_fn(|_| gq(&mut c.rng)) };
    let (m, k, l) = (g(c), g(c), g(c));
    let x = gq(&mut c.rng);
    let e = |m: &[Quaternion<F>; 4]| -> M<F> { m.map(|q| q.into_array()) };
    let (rm, rk, rl) = (e(&m), e(&k), e(&l));
    c.input(hash_u64s(rm.iter().chain(&rk).flatten().map(|v| v.bits())));
    let d = || format!("quaternion coefficients: A = {m:?}, B = {k:?}, C = {l:?}, x = {x:?}");
    let (a, b, s) = (moe(m), moe(k), moe(l));
    let rx = x.into_array();
    let ab = a.chain(b);
    c.eq("Moebius::chain", [ab.a(), ab.b(), ab.c(), ab.d()].map(|q| q.into_array()), mm(&rm, &rk), d);
    c.eq("chain associates", a.chain(b).chain(s), a.chain(b.chain(s)), d);
    c.eq("identity is neutral", (a.chain(Moebius::identity()), Moebius::identity().chain(a)), (a, a), d);
    c.eq("identity is neutral", Moebius::<Quaternion<F>>::identity().apply(x), x, d);
    if ok(den(&rm, rx)) {
        c.eq("Moebius::apply quaternion", a.apply(x).into_array(), app(&rm, rx), d);
    }
    if ok(den(&rk, rx)) && ok(den(&rm, app(&rk, rx))) {
        c.eq("chain is composition", ab.apply(x).into_array(), app(&rm, app(&rk, rx)), d);
        if ok(den(&rl, rx)) && ok(den(&rk, app(&rl, rx))) && ok(den(&rm, app(&rk, app(&rl, rx)))) {
            c.eq("chain is composition", a.chain(b).chain(s).apply(x).into_array(), app(&rm, app(&rk, app(&rl, rx))), d);
        }
    }
    // a ring that is not a division algebra
    let n: [Nc; 9] = std::array::from_fn(|_| Nc::random(&mut c.rng));
    let (p, q) = (moe([n[0], n[1], n[2], n[3]]), moe([n[4], n[5], n[6], n[7]]));
    let det = |x: Nc| x.0[0] * x.0[3] - x.0[1] * x.0[2];
    let (qd, y) = (n[6] * n[8] + n[7], n[8]);
    if det(qd).unit() {
        let z = (n[4] * y + n[5]) / qd;
        c.eq("Moebius::apply over a matrix ring", q.apply(y), z, || format!("{n:?}"));
        let pd = n[2] * z + n[3];
        if det(pd).unit() {
            c.eq("chain is composition", p.chain(q).apply(y), (n[0] * z + n[1]) / pd, || format!("{n:?}"));
        }
    }
}

/// words of maps: many chained steps against step-by-step application
fn words<F: Exact>(c: &mut Ctx) {
    let n = 2 + c.rng.below(12);
    let mut total = Moebius::<Complex<F>>::identity();
    let x = gz(&mut c.rng);
    let v = gz(&mut c.rng);
    let (mut y, mut w) = (emb2(x), emb2(v));
    let mut log = Vec::new();
    for _ in 0..n {
        let m: [Complex<F>; 4] = match c.rng.below(5) {
            0 => [Complex::one(), gz(&mut c.rng), Complex::zero(), Complex::one()],
            1 => [gz(&mut c.rng), Complex::zero(), Complex::zero(), Complex::one()],
            2 => [Complex::zero(), Complex::one(), Complex::one(), Complex::zero()],
            _ => std::array::from_fn(|_| gz(&mut c.rng)),
        };
        let rm = mc(&m);
        let det = m[0] * m[3] - m[1] * m[2];
        if !det.norm_sqr().unit() || !ok(den(&rm, y)) {
            continue;
        }
        w = der(&rm, y, w);
        y = app(&rm, y);
        log.push(m);
        total = moe(m).chain(total);
        let rt = mc(&[total.a(), total.b(), total.c(), total.d()]);
        // an intermediate pole may have been skipped over exactly
        if ok(den(&rt, emb2(x))) {
            c.eq("word of maps", emb2(total.apply(x)), y, || format!("{log:?} at {x:?}"));
            c.eq("derivative of a word of maps", emb2(Transform::deriv(&total, x, v)), w, || format!("{log:?} at {x:?}, {v:?}"));
        }
    }
    c.input(hash_u64s(log.iter().flatten().flat_map(|z| z.into_array()).map(|v| v.bits())));
    if ok(w) || !log.is_empty() {
        let back = total.inv();
        let yc = Complex::new(y[0], y[1]);
        c.eq("inverse of a word of maps", emb2(back.apply(yc)), emb2(x), || format!("{log:?} at {x:?}"));
    }
}

// ------------------------------------------------------------- floats

fn floats<T: Fl>(c: &mut Ctx)
where
    T: Mul<Complex<T>, Output = Complex<T>> + Mul<Quaternion<T>, Output = Quaternion<T>>,
{
    let mag = |r: &mut Rng| if r.chance(2, 3) { 1.0 } else { 10f64.powi(r.range(-4, 4) as i32) };
    let v = |r: &mut Rng, n: usize| -> [T; 4] {
        let s = mag(r);
        let mut a = [T::zero(); 4];
        for x in a.iter_mut().take(n) {
            *x = if r.chance(1, 6) { T::f(r.range(-2, 2) as f64) } else { T::f(r.gauss() * s) };
        }
        relate_fl(r, &mut a[..n]);
        a
    };
    let f = |x: [T; 4]| x.map(|t| t.d());
    // dimension of coefficients and points
    let (kc, kx) = c.rng.pick(&[(1, 1), (1, 2), (1, 4), (2, 2), (2, 4), (4, 4)]);
    let mut m: [[T; 4]; 4] = std::array::from_fn(|_| v(&mut c.rng, kc));
    if c.rng.chance(1, 3) {
        // relations between and over the coefficients
        let mut e: Vec<T> = m.iter().flat_map(|x| x[..kc].to_vec()).collect();
        relate_fl(&mut c.rng, &mut e);
        for (i, x) in e.into_iter().enumerate() {
            m[i / kc][i % kc] = x;
        }
    }
    let (x, dir) = (v(&mut c.rng, kx), v(&mut c.rng, kx));
    c.input(hash_u64s(m.iter().flatten().chain(&x).map(|t| t.bits())));
    let (rm, rx, rv): (M<f64>, _, _) = (m.map(f), f(x), f(dir));
    let l = |a: &[f64; 4]| len(a);
    let q = den(&rm, rx);
    let (nu, nd) = (l(&rm[0]) * l(&rx) + l(&rm[1]), l(&rm[2]) * l(&rx) + l(&rm[3]));
    let cond = nd / l(&q);
    // where the squares of denominators neither overflow nor underflow
    let lim = T::max_value().d().powf(0.25) / 8.0;
    if !(cond < 1e3 && nd < lim && nu < lim && l(&q) > 8.0 / lim) {
        return;
    }
    let d = || format!("{} ({kc} to {kx} components): {m:?} at {x:?} along {dir:?}", T::NAME);
    let near = |c: &mut Ctx, op: &'static str, got: [T; 4], want: [f64; 4], bound: f64| {
        c.op(op);
        let g = f(got);
        c.check(dist(&g, &want) <= bound * T::eps() * 40.0, op, || format!("got {g:?}, expected {want:?}; {}", d()));
    };
    let bound = nu / l(&q) * (1.0 + cond) + 1e-30;
    let want = app(&rm, rx);
    let dbound = (l(&rm[0]) + nu * l(&rm[2]) / l(&q)) * l(&rv) / l(&q) * (1.0 + cond) * (1.0 + cond) + 1e-30;
    let c2 = |a: [T; 4]| Complex::new(a[0], a[1]);
    let u2 = |z: Complex<T>| [z.re(), z.im(), T::zero(), T::zero()];
    let h = |a: [T; 4]| Quaternion::from_array(a);
    let wd = der(&rm, rx, rv);
    match (kc, kx) {
        (1, 1) => near(c, "apply scalar", [moe(m.map(|a| a[0])).apply(x[0]), T::zero(), T::zero(), T::zero()], want, bound),
        (2, 2) => {
            let a = moe(m.map(c2));
            near(c, "apply complex", u2(a.apply(c2(x))), want, bound);
            near(c, "Transform::apply complex", u2(Transform::apply(&a, c2(x))), want, bound);
            near(c, "deriv complex", u2(a.deriv(c2(x)) * c2(dir)), wd, dbound);
            near(c, "Transform::deriv complex", u2(Transform::deriv(&a, c2(x), c2(dir))), wd, dbound);
        }
        (2, 4) => {
            let a = moe(m.map(c2));
            near(c, "apply quaternion", a.apply(h(x)).into_array(), want, bound);
            near(c, "Transform::apply quaternion", Transform::apply(&a, h(x)).into_array(), want, bound);
            near(c, "deriv_dir", a.deriv_dir(h(x), h(dir)).into_array(), wd, dbound);
            near(c, "Transform::deriv quaternion", Transform::deriv(&a, h(x), h(dir)).into_array(), wd, dbound);
        }
        (4, 4) => near(c, "apply quaternion", moe(m.map(h)).apply(h(x)).into_array(), want, bound),
        _ => {}
    }
    if kc == 1 && kx == 1 {
        let a = moe(m.map(|a| a[0]));
        let det = rm[0][0] * rm[3][0] - rm[1][0] * rm[2][0];
        let sz = (rm[0][0] * rm[3][0]).abs() + (rm[1][0] * rm[2][0]).abs();
        c.op("Moebius::det");
        c.check((a.det().d() - det).abs() <= sz * T::eps() * 4.0, "Moebius::det", || d());
        if det.abs() > sz * 1e-2 && sz > 1e-6 {
            let n = a.normalize();
            let g = [n.a().d(), n.b().d(), n.c().d(), n.d().d()];
            let s = rm.map(|x| x[0]);
            let (lg, ls) = (l(&g), l(&s));
            c.op("Moebius::normalize");
            let prop = (0..4).all(|i| (0..4).all(|j| (g[i] * s[j] - g[j] * s[i]).abs() <= lg * ls * T::eps() * 8.0));
            c.check(prop && lg > 0.0, "normalize leaves the represented map unchanged", || format!("got {g:?}; {}", d()));
            let gd = g[0] * g[3] - g[1] * g[2];
            if (gd - 1.0).abs() > (lg * lg + 1.0) * T::eps() * 400.0 {
                if (0..4).all(|i| (g[i] - s[i] / det).abs() <= (s[i] / det).abs() * T::eps() * 2000.0) {
                    c.known("moebius-normalize-det", format!("det {det:e} becomes {gd:e}; {}", d()));
                } else {
                    c.fail("normalize gives determinant one", format!("got {g:?} of determinant {gd:e}; {}", d()));
                }
            }
        }
    }
}
/// real coefficients on complex and quaternion points
macro_rules! real_on {
    ($f:ident, $t:ty) => {
        fn $f(c: &mut Ctx) {
            let m: [$t; 4] = std::array::from_fn(|_| c.rng.range(-9, 9) as $t);
            let x: [$t; 4] = std::array::from_fn(|_| c.rng.range(-9, 9) as $t);
            c.input(hash_u64s(m.iter().chain(&x).map(|t| t.to_bits() as u64)));
            let rm: M<f64> = m.map(|v| emb1(v as f64));
            for n in [2, 4] {
                let mut rx = x.map(|v| v as f64);
                for v in rx.iter_mut().skip(n) {
                    *v = 0.0;
                }
                let q = den(&rm, rx);
                if n2(q) == 0.0 {
                    continue;
                }
                let want = app(&rm, rx);
                let g: [f64; 4] = if n == 2 {
                    let z = moe(m).apply(Complex::new(x[0], x[1]));
                    [z.re() as f64, z.im() as f64, 0.0, 0.0]
                } else {
                    moe(m).apply(Quaternion::from_array(x)).into_array().map(|v| v as f64)
                };
                c.op("real coefficients on hypercomplex points");
                c.check(dist(&g, &want) <= (len(&want) + 1.0) * <$t>::EPSILON as f64 * 64.0, "real coefficients on hypercomplex points", || {
                    format!("{m:?} at {x:?} ({n} components): got {g:?}, expected {want:?}")
                });
            }
        }
    };
}
real_on!(real_f64, f64);
real_on!(real_f32, f32);

/// integer coefficients held in floats: composition is exact, inversion is the adjugate up to scale
macro_rules! integer_maps {
    ($f:ident, $t:ty) => {
        fn $f(c: &mut Ctx) {
            let draw = |c: &mut Ctx| -> M<f64> { std::array::from_fn(|_| std::array::from_fn(|_| c.rng.range(-9, 9) as f64)) };
            let (m, k) = (draw(c), draw(c));
            c.input(hash_u64s(m.iter().chain(&k).flatten().map(|x| x.to_bits())));
            let d = || format!("{} holding A = {m:?}, B = {k:?} (leading components)", stringify!($t));
            let cut = |m: &M<f64>, n: usize| -> M<f64> { m.map(|q| std::array::from_fn(|i| if i < n { q[i] } else { 0.0 })) };
            let one = |m: &M<f64>| moe(m.map(|q| q[0] as $t));
            let two = |m: &M<f64>| moe(m.map(|q| Complex::new(q[0] as $t, q[1] as $t)));
            let four = |m: &M<f64>| moe(m.map(|q| Quaternion::from_array(q.map(|x| x as $t))));
            let r1 = |a: Moebius<$t>| -> M<f64> { [a.a(), a.b(), a.c(), a.d()].map(|x| emb1(x as f64)) };
            let r2 = |a: Moebius<Complex<$t>>| -> M<f64> { [a.a(), a.b(), a.c(), a.d()].map(|z| [z.re() as f64, z.im() as f64, 0.0, 0.0]) };
            let r4 = |a: Moebius<Quaternion<$t>>| -> M<f64> { [a.a(), a.b(), a.c(), a.d()].map(|q| q.into_array().map(|x| x as f64)) };
            let (m1, m2) = (cut(&m, 1), cut(&m, 2));
            c.eq("Moebius::chain", r1(one(&m).chain(one(&k))), mm(&m1, &cut(&k, 1)), d);
            c.eq("Moebius::chain", r2(two(&m).chain(two(&k))), mm(&m2, &cut(&k, 2)), d);
            c.eq("Moebius::chain", r4(four(&m).chain(four(&k))), mm(&m, &k), d);
            c.eq("Transform::chain", r2(<Moebius<Complex<$t>> as Transform<Complex<$t>>>::chain(two(&m), two(&k))), mm(&m2, &cut(&k, 2)), d);
            c.eq("Transform::chain", r2(<Moebius<Complex<$t>> as Transform<Quaternion<$t>>>::chain(two(&m), two(&k))), mm(&m2, &cut(&k, 2)), d);
            c.eq("identity is neutral", r2(<Moebius<Complex<$t>> as Transform<Complex<$t>>>::identity()), mc(&[1.0, 0.0, 0.0, 1.0].map(|x| Complex::new(x, 0.0))), d);
            c.eq("identity is neutral", r2(<Moebius<Complex<$t>> as Transform<Quaternion<$t>>>::identity()), mc(&[1.0, 0.0, 0.0, 1.0].map(|x| Complex::new(x, 0.0))), d);
            let adj = |m: &M<f64>| -> M<f64> { [m[3], m[1].map(|x| -x), m[2].map(|x| -x), m[0]] };
            let det = |m: &M<f64>| n2(sub(qmul(m[0], m[3]), qmul(m[1], m[2])));
            let mut inverse = |got: M<f64>, of: &M<f64>| {
                let w = adj(of);
                let (lg, lw) = (got.iter().flatten().map(|x| x * x).sum::<f64>().sqrt(), w.iter().flatten().map(|x| x * x).sum::<f64>().sqrt());
                let tol = lg * lw * <$t>::EPSILON as f64 * 64.0;
                let same = (0..4).all(|i| (0..4).all(|j| dist(&qmul(got[i], w[j]), &qmul(w[i], got[j])) <= tol));
                c.op("inverse is the adjugate up to scale");
                c.check(same && lg > 0.0 && lg.is_finite(), "inverse is the adjugate up to scale", || format!("inverse {got:?} of {of:?}; {}", d()));
            };
            // the scale comes from a quotient by the determinant, which is exact here
            if det(&m1) != 0.0 {
                inverse(r1(one(&m).inv()), &m1);
            }
            if det(&m2) != 0.0 {
                inverse(r2(two(&m).inv()), &m2);
                inverse(r2(<Moebius<Complex<$t>> as Transform<Complex<$t>>>::inv(two(&m))), &m2);
                inverse(r2(<Moebius<Complex<$t>> as Transform<Quaternion<$t>>>::inv(two(&m))), &m2);
            }
        }
    };
}
integer_maps!(integer_f64, f64);
integer_maps!(integer_f32, f32);

fn main() {
    let mut s = Suite::new(
        "C14",
        "a case applies, chains, inverts, differentiates and normalises random Moebius maps (zero coefficients included) at random \
         points away from poles; non-trivial: maps and points (hashed) differ",
    );
    s.section("scalar", 2000, scalar::<Fp>);
    s.section("complex", 2500, complex::<Fp>);
    s.section("quaternion", 2500, quaternion::<Fp>);
    s.section("noncommutative", 1500, noncommutative::<Fp>);
    s.section("words", 600, words::<Fp>);
    s.section("small_fields", 5000, |c| {
        const T: &[fn(&mut Ctx)] = &[
            scalar::<Zn<2>>, scalar::<Zn<3>>, scalar::<Zn<5>>, scalar::<Zn<7>>, complex::<Zn<3>>, complex::<Zn<7>>,
            complex::<Zn<5>>, quaternion::<Zn<3>>, quaternion::<Zn<7>>, noncommutative::<Zn<3>>, noncommutative::<Zn<7>>,
            scalar::<Dual<Fp>>, complex::<Dual<Fp>>, quaternion::<Dual<Fp>>, words::<Zn<3>>, words::<Zn<7>>,
        ];
        run_table!(c, T)
    });
    s.section("floats_f64", 6000, floats::<f64>);
    s.section("floats_f32", 4000, floats::<f32>);
    s.section("real_f64", 1500, real_f64);
    s.section("real_f32", 1500, real_f32);
    s.section("integer_maps_f64", 1500, integer_f64);
    s.section("integer_maps_f32", 1500, integer_f32);
    s.run();
}
