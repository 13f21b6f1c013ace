//! C13: quaternion arithmetic obeys Hamilton's algebra in every operand form.
use harness::*;
use num_traits::{Inv, One, Zero};
use std::ops::*;
use vecmat::traits::{Conj, Dot, NormL2};
use vecmat::{Complex, Quaternion, Vector};

type Q<T> = [T; 4];

fn add4<T: Copy + Add<Output = T>>(a: Q<T>, b: Q<T>) -> Q<T> {
    std::array::from_fn(|i| a[i] + b[i])
}
fn sub4<T: Copy + Sub<Output = T>>(a: Q<T>, b: Q<T>) -> Q<T> {
    std::array::from_fn(|i| a[i] - b[i])
}
fn conj4<T: Copy + Neg<Output = T>>(a: Q<T>) -> Q<T> {
    [a[0], -a[1], -a[2], -a[3]]
}

macro_rules! exact {
    ($f:ident, $t:ty, $gen:expr, $word:expr) => {
        fn $f(c: &mut Ctx) {
            let gen: fn(&mut Rng) -> $t = $gen;
            let word: fn(&$t) -> u64 = $word;
            let n = stringify!($t);
            let p: Q<$t> = std::array::from_fn(|_| gen(&mut c.rng));
            let q: Q<$t> = std::array::from_fn(|_| gen(&mut c.rng));
            let s: $t = gen(&mut c.rng);
            let zc: [$t; 2] = [gen(&mut c.rng), gen(&mut c.rng)];
            let (zero, one) = (<$t>::zero(), <$t>::one());
            let (a, b, z) = (Quaternion::from_array(p), Quaternion::from_array(q), Complex::from_array(zc));
            // complex numbers and reals embed in the span of 1 and i
            let ze: Q<$t> = [zc[0], zc[1], zero, zero];
            let se: Q<$t> = [s, zero, zero, zero];
            c.input(hash_u64s(p.iter().chain(&q).chain(&zc).chain([&s]).map(word)));
            c.sample(|| format!("over {n}: {p:?}, {q:?}, complex {zc:?}, scalar {s:?}"));
            let d = || format!("over {n}: a = {p:?}, b = {q:?}, z = {zc:?}, s = {s:?}");
            macro_rules! is { ($op:expr, $got:expr, $want:expr) => { c.eq($op, $got.into_array(), $want, d) } }
            is!("Quat + Quat", a + b, add4(p, q));
            is!("Quat - Quat", a - b, sub4(p, q));
            is!("Quat * Quat", a * b, qmul(p, q));
            is!("Quat + Complex", a + z, add4(p, ze));
            is!("Quat - Complex", a - z, sub4(p, ze));
            is!("Quat * Complex", a * z, qmul(p, ze));
            is!("Complex * Quat", z * a, qmul(ze, p));
            is!("Quat + T", a + s, add4(p, se));
            is!("Quat - T", a - s, sub4(p, se));
            is!("Quat * T", a * s, qmul(p, se));
            is!("-Quat", -a, sub4([zero; 4], p));
            macro_rules! asg { ($op:expr, $sym:tt, $arg:expr, $want:expr) => {{ let mut x = a; x $sym $arg; c.eq($op, x.into_array(), $want, d) }} }
            asg!("Quat += Quat", +=, b, add4(p, q));
            asg!("Quat -= Quat", -=, b, sub4(p, q));
            asg!("Quat *= Quat", *=, b, qmul(p, q));
            asg!("Quat += Complex", +=, z, add4(p, ze));
            asg!("Quat -= Complex", -=, z, sub4(p, ze));
            asg!("Quat *= Complex", *=, z, qmul(p, ze));
            asg!("Quat += T", +=, s, add4(p, se));
            asg!("Quat -= T", -=, s, sub4(p, se));
            asg!("Quat *= T", *=, s, qmul(p, se));
            // conjugate, norm, dot, constants
            is!("Quaternion::conj", a.conj(), conj4(p));
            is!("Conj::conj", Conj::conj(a), conj4(p));
            let n2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2] + p[3] * p[3];
            c.eq("Quaternion::norm_sqr", a.norm_sqr(), n2, d);
            c.eq("Quaternion::dot", a.dot(b), p[0] * q[0] + p[1] * q[1] + p[2] * q[2] + p[3] * q[3], d);
            is!("a conj(a) is the squared norm", a * a.conj(), [n2, zero, zero, zero]);
            is!("Quaternion::zero", Quaternion::<$t>::zero(), [zero; 4]);
            is!("Quaternion::one", Quaternion::<$t>::one(), [one, zero, zero, zero]);
            is!("Quaternion::i", Quaternion::<$t>::i(), [zero, one, zero, zero]);
            is!("Quaternion::j", Quaternion::<$t>::j(), [zero, zero, one, zero]);
            is!("Quaternion::k", Quaternion::<$t>::k(), [zero, zero, zero, one]);
            is!("Quaternion::default", Quaternion::<$t>::default(), [zero; 4]);
            c.eq("Quaternion::is_zero", a.is_zero(), p.iter().all(|x| x.is_zero()), d);
            c.eq("Quaternion::is_one", a.is_one(), p == [one, zero, zero, zero], d);
            let mut r = p;
            let k = c.rng.below(4);
            r[k] = q[k];
            c.eq("Quaternion::eq", a == Quaternion::from_array(r), p[k] == q[k], || format!("component {k}; {}", d()));
            c.eq("Quaternion::ne", a != b, p != q, d);
            // parts
            c.eq("parts", [a.w(), a.x(), a.y(), a.z()], p, d);
            c.eq("parts", a.xyz().into_array(), [p[1], p[2], p[3]], d);
            c.eq("parts by reference", [*a.w_ref(), *a.x_ref(), *a.y_ref(), *a.z_ref()], p, d);
            let mut m = a;
            *m.w_mut() = q[0];
            is!("w_mut", m, [q[0], p[1], p[2], p[3]]);
            *m.x_mut() = q[1];
            is!("x_mut", m, [q[0], q[1], p[2], p[3]]);
            *m.z_mut() = q[3];
            is!("z_mut", m, [q[0], q[1], p[2], q[3]]);
            *m.y_mut() = q[2];
            is!("y_mut", m, q);
            // conversions
            let (t, v) = ((p[0], p[1], p[2], p[3]), Vector::from(p));
            let v3 = Vector::from([p[1], p[2], p[3]]);
            is!("conversions", Quaternion::new(p[0], p[1], p[2], p[3]), p);
            is!("conversions", Quaternion::from_tuple(t), p);
            is!("conversions", Quaternion::from(t), p);
            is!("conversions", Quaternion::from(p), p);
            is!("conversions", Quaternion::from_vector(v), p);
            is!("conversions", Quaternion::from(v), p);
            is!("conversions", Quaternion::from_scalar_and_vector3(p[0], v3), p);
            is!("conversions", Quaternion::from((p[0], v3)), p);
            c.eq("conversions", (a.into_tuple(), a.into_array(), a.into_vector(), a.into_scalar_and_vector3()), (t, p, v, (p[0], v3)), d);
            let (t2, p2, v2): ((_, _, _, _), [$t; 4], Vector<$t, 4>) = (a.into(), a.into(), a.into());
            let sv: ($t, Vector<$t, 3>) = a.into();
            c.eq("conversions", (t2, p2, v2, sv), (t, p, v, (p[0], v3)), d);
            // the matrix acts by left multiplication
            c.eq("matrix form acts by left multiplication", a.into_matrix().dot(Vector::from(q)).into_array(), qmul(p, q), d);
            c.eq("matrix form of a conjugate", a.conj().into_matrix(), a.into_matrix().transpose(), d);
            // sums and ordered products of several
            let k = c.rng.below(6);
            let xs: Vec<Q<$t>> = (0..k).map(|_| std::array::from_fn(|_| gen(&mut c.rng))).collect();
            let qs: Vec<_> = xs.iter().map(|x| Quaternion::from_array(*x)).collect();
            let want = xs.iter().fold([zero; 4], |s, x| add4(s, *x));
            c.eq("Sum for Quaternion", qs.iter().copied().sum::<Quaternion<$t>>().into_array(), want, || format!("{xs:?}"));
            let k = k.min(3);
            let want = xs[..k].iter().fold([one, zero, zero, zero], |s, x| qmul(s, *x));
            c.eq("Product for Quaternion", qs[..k].iter().copied().product::<Quaternion<$t>>().into_array(), want, || format!("{xs:?}"));
        }
    };
}
exact!(over_field, Fp, |r| r.fp(), |x| x.0);
exact!(over_z3, Zn<3>, |r| Zn::random(r), |x| x.bits());
exact!(over_z7, Zn<7>, |r| Zn::random(r), |x| x.bits());
exact!(over_z4, Zn<4>, |r| Zn::random(r), |x| x.bits());
exact!(over_dual, Dual<Fp>, |r| Exact::any(r), |x| x.bits());
exact!(over_i64, i64, |r| if r.chance(1, 3) { r.range(-3, 3) } else { r.range(-60_000, 60_000) }, |x| *x as u64);
exact!(over_i32, i32, |r| if r.chance(1, 3) { r.range(-3, 3) } else { r.range(-300, 300) } as i32, |x| *x as u64);
exact!(over_f64, f64, |r| if r.chance(1, 3) { r.range(-3, 3) } else { r.range(-60_000, 60_000) } as f64, |x| x.to_bits());
exact!(over_f32, f32, |r| r.range(-60, 60) as f32, |x| x.to_bits() as u64);

/// laws that need a field
fn field<F: Exact>(c: &mut Ctx) {
    let gq = |r: &mut Rng| -> Q<F> { std::array::from_fn(|_| F::any(r)) };
    let (p, q, r) = (gq(&mut c.rng), gq(&mut c.rng), gq(&mut c.rng));
    let zc = [F::any(&mut c.rng), F::any(&mut c.rng)];
    let s = F::any_nz(&mut c.rng);
    c.input(hash_u64s(p.iter().chain(&q).chain(&r).chain(&zc).map(|x| x.bits())));
    let [a, b, e] = [p, q, r].map(Quaternion::from_array);
    let z = Complex::from_array(zc);
    let d = || format!("{}: a = {p:?}, b = {q:?}, c = {r:?}, z = {zc:?}, s = {s:?}", F::RING);
    let n2 = |x: Q<F>| x.iter().fold(F::zero(), |s, v| s + *v * *v);
    let one = [F::one(), F::zero(), F::zero(), F::zero()];
    c.eq("multiplication associates", (a * b * e).into_array(), (a * (b * e)).into_array(), d);
    c.eq("left distributive", (a * (b + e)).into_array(), (a * b + a * e).into_array(), d);
    c.eq("right distributive", ((a + b) * e).into_array(), (a * e + b * e).into_array(), d);
    c.eq("conj reverses products", (a * b).conj().into_array(), (b.conj() * a.conj()).into_array(), d);
    c.eq("norm is multiplicative", (a * b).norm_sqr(), a.norm_sqr() * b.norm_sqr(), d);
    c.eq("matrix form is multiplicative", a.into_matrix().dot(b.into_matrix()), (a * b).into_matrix(), d);
    c.eq("det of the matrix form", a.into_matrix().det(), n2(p) * n2(p), d);
    let re2 = (a.conj() * b).w();
    c.eq("dot is the real part of conj(a) b", a.dot(b), re2, d);
    if n2(q).unit() {
        let k = n2(q).inv();
        let inv = conj4(q).map(|x| x * k);
        c.eq("Quaternion::inv", b.inv().into_array(), inv, d);
        c.eq("b inv(b) = 1", (b * b.inv()).into_array(), one, d);
        c.eq("inv(b) b = 1", (b.inv() * b).into_array(), one, d);
        c.eq("Quat / Quat", (a / b).into_array(), qmul(p, inv), d);
        c.eq("(a b) / b = a", (a * b / b).into_array(), p, d);
        let mut x = a;
        x /= b;
        c.eq("Quat /= Quat", x.into_array(), qmul(p, inv), d);
        c.eq("Complex / Quat", (z / b).into_array(), qmul([zc[0], zc[1], F::zero(), F::zero()], inv), d);
    }
    let nz = zc[0] * zc[0] + zc[1] * zc[1];
    if nz.unit() {
        let k = nz.inv();
        let inv = [zc[0] * k, -zc[1] * k, F::zero(), F::zero()];
        c.eq("Quat / Complex", (a / z).into_array(), qmul(p, inv), d);
        let mut x = a;
        x /= z;
        c.eq("Quat /= Complex", x.into_array(), qmul(p, inv), d);
    }
    let k = s.inv();
    c.eq("Quat / T", (a / s).into_array(), p.map(|x| x * k), d);
    let mut x = a;
    x /= s;
    c.eq("Quat /= T", x.into_array(), p.map(|x| x * k), d);
}

/// unit quaternions over the integers are invertible
fn int_units(c: &mut Ctx) {
    let p: Q<i64> = std::array::from_fn(|_| c.rng.range(-999_999, 999_999));
    c.input(hash_u64s(p.iter().map(|x| *x as u64)));
    let a = Quaternion::from_array(p);
    for k in 0..4 {
        for s in [1, -1] {
            let mut u = [0; 4];
            u[k] = s;
            let uq = Quaternion::from_array(u);
            let inv = conj4(u);
            let d = || format!("{p:?} and unit {u:?}");
            c.eq("Quaternion::inv", uq.inv().into_array(), inv, d);
            c.eq("Quat / Quat", (a / uq).into_array(), qmul(p, inv), d);
            if k < 2 {
                let z = Complex::new(u[0], u[1]);
                c.eq("Quat / Complex", (a / z).into_array(), qmul(p, inv), d);
            }
        }
    }
    let s = loop {
        let s = c.rng.range(-99, 99);
        if s != 0 {
            break s;
        }
    };
    c.eq("Quat / T", ((a * s) / s).into_array(), p, || format!("{p:?} {s}"));
    // integer division acts on each component
    c.eq("Quat / T", (a / s).into_array(), p.map(|x| x / s), || format!("{p:?} {s}"));
}

fn neg4(x: Q<f64>) -> Q<f64> {
    x.map(|v| -v)
}
fn floats<T: Fl>(c: &mut Ctx)
where
    T: Add<Quaternion<T>, Output = Quaternion<T>> + Sub<Quaternion<T>, Output = Quaternion<T>> + Mul<Quaternion<T>, Output = Quaternion<T>> + Div<Quaternion<T>, Output = Quaternion<T>>,
    Complex<T>: Add<Quaternion<T>, Output = Quaternion<T>> + Sub<Quaternion<T>, Output = Quaternion<T>>,
{
    let lim = if T::NAME == "f32" { 8 } else { 70 };
    let scale = |r: &mut Rng| 10f64.powi(if r.chance(1, 2) { 0 } else { r.range(-lim, lim) as i32 });
    fn val<T: Fl, const N: usize>(r: &mut Rng, s: f64) -> [T; N] {
        loop {
            let mode = r.below(9);
            let one = r.below(N);
            // a unit, or components of one size
            let (dir, x): ([f64; N], f64) = (r.direction(), r.gauss() * s);
            let v: [T; N] = std::array::from_fn(|i| match mode {
                0 if i != one => T::zero(),
                1 => T::f(r.range(-2, 2) as f64 * s),
                2 if i != one => T::f(r.gauss() * s * 1e-5),
                3 if r.chance(1, 2) => T::zero(),
                4 => T::f(dir[i]),
                5 => T::f(if r.chance(1, 2) { x } else { -x }),
                6 if i == one => T::zero(),
                _ => T::f(r.gauss() * s),
            });
            if v.iter().any(|x| *x != T::zero()) {
                return v;
            }
        }
    }
    let s1 = scale(&mut c.rng);
    let mut p: Q<T> = val(&mut c.rng, s1);
    let s2 = scale(&mut c.rng);
    let mut q: Q<T> = val(&mut c.rng, s2);
    let s3 = scale(&mut c.rng);
    let mut zc: [T; 2] = val(&mut c.rng, s3);
    let s4 = scale(&mut c.rng);
    let [mut s]: [T; 1] = val(&mut c.rng, s4);
    // related operands
    match c.rng.below(50) {
        0 => q = p,
        1 => q = p.map(|x| -x),
        2 => q = [p[0], -p[1], -p[2], -p[3]],
        3 => q = [p[0], p[2], p[3], p[1]],
        4 => p = [T::zero(); 4],
        5 => p = [zc[0], zc[1], T::zero(), T::zero()],
        6 => q = [zc[0], zc[1], T::zero(), T::zero()],
        7 => q = [T::zero(), T::zero(), zc[0], zc[1]],
        8 if p[0] != T::zero() => zc = [p[0], p[1]],
        9 => s = T::zero(),
        10 => s = T::one(),
        11 => s = p[0],
        _ => (),
    }
    c.input(hash_u64s(p.iter().chain(&q).chain(&zc).chain([&s]).map(|x| x.bits())));
    let (a, b, z) = (Quaternion::from_array(p), Quaternion::from_array(q), Complex::from_array(zc));
    let (zero, f) = (T::zero(), |x: Q<T>| x.map(|v| v.d()));
    let ze = [zc[0], zc[1], zero, zero];
    let se = [s, zero, zero, zero];
    let (pd, qd, zd, sd) = (f(p), f(q), f(ze), f(se));
    let d = || format!("{} a = {p:?} b = {q:?} z = {zc:?} s = {s:?}", T::NAME);
    // sums are judged by component, with room for another order of evaluation
    let sum = |c: &mut Ctx, op: &'static str, got: Quaternion<T>, x: Q<f64>, y: Q<f64>| {
        let g = f(got.into_array());
        c.op(op);
        let ok = |i: usize| (g[i] - (x[i] + y[i])).abs() <= (x[i].abs() + y[i].abs()) * T::eps() * 4.0 + T::min_positive_value().d();
        c.check((0..4).all(ok), op, || format!("{}: got {g:?}, expected {:?}", d(), add4(x, y)));
    };
    let scaled = |c: &mut Ctx, op: &'static str, got: Quaternion<T>, want: Q<T>| {
        let g = got.into_array();
        c.op(op);
        let ok = |i: usize| ulps(g[i], want[i]) <= 4 || (g[i] - want[i]).abs() < T::min_positive_value();
        c.check((0..4).all(ok), op, || format!("{}: got {g:?}, expected {want:?}", d()));
    };
    let near = |c: &mut Ctx, op: &'static str, got: Quaternion<T>, want: Q<f64>, mag: f64| {
        let g = f(got.into_array());
        c.op(op);
        c.check(dist(&g, &want) <= mag * T::eps() * 20.0 + T::min_positive_value().d() * 8.0, op, || format!("{}: got {g:?}, expected {want:?}", d()));
    };
    macro_rules! asg { ($sym:tt, $arg:expr) => {{ let mut x = a; x $sym $arg; x }} }
    sum(c, "Quat + Quat", a + b, pd, qd);
    sum(c, "Quat - Quat", a - b, pd, neg4(qd));
    sum(c, "Quat += Quat", asg!(+=, b), pd, qd);
    sum(c, "Quat -= Quat", asg!(-=, b), pd, neg4(qd));
    sum(c, "Quat + Complex", a + z, pd, zd);
    sum(c, "Quat - Complex", a - z, pd, neg4(zd));
    sum(c, "Quat += Complex", asg!(+=, z), pd, zd);
    sum(c, "Quat -= Complex", asg!(-=, z), pd, neg4(zd));
    sum(c, "Complex + Quat", z + a, zd, pd);
    sum(c, "Complex - Quat", z - a, zd, neg4(pd));
    sum(c, "Quat + T", a + s, pd, sd);
    sum(c, "Quat - T", a - s, pd, neg4(sd));
    sum(c, "Quat += T", asg!(+=, s), pd, sd);
    sum(c, "Quat -= T", asg!(-=, s), pd, neg4(sd));
    sum(c, "T + Quat", s + a, sd, pd);
    sum(c, "T - Quat", s - a, sd, neg4(pd));
    scaled(c, "Quat * T", a * s, p.map(|x| x * s));
    scaled(c, "Quat *= T", asg!(*=, s), p.map(|x| x * s));
    scaled(c, "T * Quat", s * a, p.map(|x| x * s));
    if s != T::zero() {
        scaled(c, "Quat / T", a / s, p.map(|x| x / s));
        scaled(c, "Quat /= T", asg!(/=, s), p.map(|x| x / s));
    }
    let (lp, lq, lz, ls) = (len(&pd), len(&qd), len(&zd), len(&sd));
    near(c, "Quat * Quat", a * b, qmul(pd, qd), lp * lq);
    near(c, "Quat *= Quat", asg!(*=, b), qmul(pd, qd), lp * lq);
    near(c, "Quat * Complex", a * z, qmul(pd, zd), lp * lz);
    near(c, "Quat *= Complex", asg!(*=, z), qmul(pd, zd), lp * lz);
    near(c, "Complex * Quat", z * a, qmul(zd, pd), lp * lz);
    let inv = |x: Q<f64>| { let n = x.iter().map(|v| v * v).sum::<f64>(); conj4(x).map(|v| v / n) };
    let big = T::max_value().d().sqrt();
    let (iq, iz) = (inv(qd), inv(zd));
    near(c, "Quaternion::inv", b.inv(), iq, 1.0 / lq);
    near(c, "Inv for Quaternion", Inv::inv(b), iq, 1.0 / lq);
    if lp / lq < big && lp / lz < big && lz / lq < big && ls / lq < big {
        near(c, "Quat / Quat", a / b, qmul(pd, iq), lp / lq);
        near(c, "Quat /= Quat", asg!(/=, b), qmul(pd, iq), lp / lq);
        near(c, "Quat / Complex", a / z, qmul(pd, iz), lp / lz);
        near(c, "Quat /= Complex", asg!(/=, z), qmul(pd, iz), lp / lz);
        near(c, "Complex / Quat", z / b, qmul(zd, iq), lz / lq);
        near(c, "T / Quat", s / b, iq.map(|v| v * sd[0]), ls / lq);
    }
    let n2 = lp * lp;
    c.op("Quaternion::norm_sqr");
    c.check((a.norm_sqr().d() - n2).abs() <= n2 * T::eps() * 8.0 + T::min_positive_value().d() * 8.0, "Quaternion::norm_sqr", || d());
    c.op("norm_l2_sqr");
    c.check((a.norm_l2_sqr().d() - n2).abs() <= n2 * T::eps() * 8.0 + T::min_positive_value().d() * 8.0, "norm_l2_sqr", || d());
    // the matrix form acts by multiplication
    let m = a.into_matrix();
    near(c, "into_matrix acts by multiplication", Quaternion::from_vector(m.dot(b.into_vector())), qmul(pd, qd), lp * lq);
    for k in 0..4 {
        let e: [f64; 4] = std::array::from_fn(|i| if i == k { 1.0 } else { 0.0 });
        near(c, "into_matrix acts by multiplication", Quaternion::from_vector(m.dot(Vector::from(e.map(T::f)))), qmul(pd, e), lp);
    }
    let dt: f64 = (0..4).map(|i| pd[i] * qd[i]).sum();
    c.op("Quaternion::dot");
    c.check((a.dot(b).d() - dt).abs() <= lp * lq * T::eps() * 8.0 + T::min_positive_value().d() * 8.0, "Quaternion::dot", || d());
}

/// Long mixed sequences of operations against the reference algebra.
fn chains<F: Exact>(c: &mut Ctx) {
    let mut p: Q<F> = std::array::from_fn(|_| F::any(&mut c.rng));
    let mut a = Quaternion::from_array(p);
    let mut log = Vec::new();
    for _ in 0..40 {
        let q: Q<F> = std::array::from_fn(|_| F::any(&mut c.rng));
        let s = F::any_nz(&mut c.rng);
        let b = Quaternion::from_array(q);
        let (z, ze) = (Complex::new(q[0], q[1]), [q[0], q[1], F::zero(), F::zero()]);
        let n2 = q.iter().fold(F::zero(), |s, v| s + *v * *v);
        let nz = q[0] * q[0] + q[1] * q[1];
        let k = c.rng.below(18);
        log.push((k, q, s));
        match k {
            0 => (a = a + b, p = add4(p, q)).0,
            1 => (a -= b, p = sub4(p, q)).0,
            2 => (a = a * b, p = qmul(p, q)).0,
            3 => (a = b * a, p = qmul(q, p)).0,
            4 => (a *= z, p = qmul(p, ze)).0,
            5 => (a = z * a, p = qmul(ze, p)).0,
            6 if n2.unit() => (a = a / b, p = qmul(p, conj4(q).map(|x| x * n2.inv()))).0,
            7 if n2.unit() => (a = b.inv() * a, p = qmul(conj4(q).map(|x| x * n2.inv()), p)).0,
            8 if nz.unit() => (a /= z, p = qmul(p, conj4(ze).map(|x| x * nz.inv()))).0,
            9 => (a = a.conj(), p = conj4(p)).0,
            10 => (a = a / s, p = p.map(|x| x * s.inv())).0,
            11 => (a *= s, p = p.map(|x| x * s)).0,
            12 => (a = a + z - s, p = sub4(add4(p, ze), [s, F::zero(), F::zero(), F::zero()])).0,
            13 => (a = a * Quaternion::j(), p = qmul(p, [F::zero(), F::zero(), F::one(), F::zero()])).0,
            14 => (a = Quaternion::<F>::k() * a, p = qmul([F::zero(), F::zero(), F::zero(), F::one()], p)).0,
            15 => (a = Quaternion::from_vector(b.into_matrix().dot(a.into_vector())), p = qmul(q, p)).0,
            16 => (a = [b, a, b.conj()].into_iter().product(), p = qmul(qmul(q, p), conj4(q))).0,
            _ => (a = -a - z, p = sub4(sub4([F::zero(); 4], p), ze)).0,
        }
        c.op("chain step");
        c.check(a.into_array() == p, "chain of operations", || format!("after {log:?}: {:?}, expected {p:?}", a.into_array()));
    }
    c.input(hash_u64s(p.iter().map(|x| x.bits())));
}

fn main() {
    let mut s = Suite::new(
        "C13",
        "a case applies every arithmetic form (quaternion, complex and scalar operands on either side, assigning forms) to random \
         quaternions over one scalar type and compares with the multiplication table of 1, i, j, k; non-trivial: operands differ",
    );
    s.section("forms_field", 2000, over_field);
    s.section("forms_small_rings", 1500, |c| {
        const T: &[fn(&mut Ctx)] = &[over_z3, over_z7, over_z4, over_dual];
        run_table!(c, T)
    });
    s.section("laws_small_rings", 3000, |c| {
        const T: &[fn(&mut Ctx)] = &[field::<Zn<3>>, field::<Zn<5>>, field::<Zn<7>>, field::<Zn<6>>, field::<Zn<16>>, field::<Dual<Fp>>];
        run_table!(c, T)
    });
    s.section("forms_i64", 1000, over_i64);
    s.section("forms_i32", 500, over_i32);
    s.section("forms_f64", 1000, over_f64);
    s.section("forms_f32", 500, over_f32);
    s.section("laws_field", 3000, field::<Fp>);
    s.section("units_i64", 500, int_units);
    s.section("floats_f64", 4000, floats::<f64>);
    s.section("floats_f32", 3000, floats::<f32>);
    s.section("chains", 400, chains::<Fp>);
    s.section("chains_mod_3", 200, chains::<Zn<3>>);
    s.run();
}
