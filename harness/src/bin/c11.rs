//! C11: complex arithmetic obeys the complex field in every operand form.
use harness::*;
use num_complex::Complex as NumComplex;
use num_traits::{Inv, Num, NumCast, One, Zero};
use std::ops::*;
use vecmat::traits::{Conj, Dot, NormL2};
use vecmat::{Complex, Matrix, Vector};

type C2<T> = [T; 2];

macro_rules! exact {
    ($f:ident, $t:ty, $gen:expr, $word:expr, $div:expr) => {
        fn $f(c: &mut Ctx) {
            let gen: fn(&mut Rng) -> $t = $gen;
            let word: fn(&$t) -> u64 = $word;
            let n = stringify!($t);
            let (p, q): (C2<$t>, C2<$t>) = ([gen(&mut c.rng), gen(&mut c.rng)], [gen(&mut c.rng), gen(&mut c.rng)]);
            let s: $t = gen(&mut c.rng);
            let (zero, one) = (<$t>::zero(), <$t>::one());
            let (z, w) = (Complex::from_array(p), Complex::from_array(q));
            c.input(hash_u64s(p.iter().chain(&q).chain([&s]).map(word)));
            c.sample(|| format!("over {n}: {p:?}, {q:?}, scalar {s:?}"));
            let d = || format!("over {n}: z = {p:?}, w = {q:?}, s = {s:?}");
            macro_rules! is { ($op:expr, $got:expr, $want:expr) => { c.eq($op, $got.into_array(), $want, d) } }
            // binary forms and the assigning ones
            is!("Complex + Complex", z + w, [p[0] + q[0], p[1] + q[1]]);
            is!("Complex - Complex", z - w, [p[0] - q[0], p[1] - q[1]]);
            is!("Complex * Complex", z * w, cmul(p, q));
            is!("Complex + T", z + s, [p[0] + s, p[1]]);
            is!("Complex - T", z - s, [p[0] - s, p[1]]);
            is!("Complex * T", z * s, [p[0] * s, p[1] * s]);
            is!("-Complex", -z, [-p[0], -p[1]]);
            macro_rules! asg { ($op:expr, $sym:tt, $arg:expr, $want:expr) => {{ let mut a = z; a $sym $arg; c.eq($op, a.into_array(), $want, d) }} }
            asg!("Complex += Complex", +=, w, [p[0] + q[0], p[1] + q[1]]);
            asg!("Complex -= Complex", -=, w, [p[0] - q[0], p[1] - q[1]]);
            asg!("Complex *= Complex", *=, w, cmul(p, q));
            asg!("Complex += T", +=, s, [p[0] + s, p[1]]);
            asg!("Complex -= T", -=, s, [p[0] - s, p[1]]);
            asg!("Complex *= T", *=, s, [p[0] * s, p[1] * s]);
            // parts, conjugate, norms, constants
            is!("Complex::conj", z.conj(), [p[0], -p[1]]);
            is!("Conj::conj", Conj::conj(z), [p[0], -p[1]]);
            c.eq("Complex::norm_sqr", z.norm_sqr(), p[0] * p[0] + p[1] * p[1], d);
            c.eq("Complex::dot", z.dot(w), p[0] * q[0] + p[1] * q[1], d);
            c.eq("Complex::re/im", [z.re(), z.im()], p, d);
            is!("Complex::zero", Complex::<$t>::zero(), [zero, zero]);
            is!("Complex::one", Complex::<$t>::one(), [one, zero]);
            is!("Complex::i", Complex::<$t>::i(), [zero, one]);
            c.eq("Complex::is_zero", z.is_zero(), p[0].is_zero() && p[1].is_zero(), d);
            c.eq("Complex::eq", z == w, p[0] == q[0] && p[1] == q[1], d);
            c.eq("Complex::eq", z == Complex::from_array([p[0], q[1]]), p[1] == q[1], d);
            // matrix form is a ring homomorphism
            c.eq("Complex::into_matrix", z.into_matrix().into_array_of_arrays(), [[p[0], -p[1]], [p[1], p[0]]], d);
            // conversions
            c.eq("Complex conversions", (z.into_array(), z.into_tuple(), z.into_vector(), z.into_num()), (p, (p[0], p[1]), Vector::from(p), NumComplex::new(p[0], p[1])), d);
            is!("Complex conversions", Complex::from_tuple((p[0], p[1])), p);
            is!("Complex conversions", Complex::from(NumComplex::new(p[0], p[1])), p);
            is!("Complex conversions", Complex::from(Vector::from(p)), p);
            is!("Complex conversions", Complex::new(p[0], p[1]), p);
            // sums and products of several numbers, none included
            let k = c.rng.below(6);
            let xs: Vec<C2<$t>> = (0..k).map(|_| [gen(&mut c.rng), gen(&mut c.rng)]).collect();
            let zs: Vec<Complex<$t>> = xs.iter().map(|x| Complex::from_array(*x)).collect();
            let want = xs.iter().fold([zero, zero], |a, x| [a[0] + x[0], a[1] + x[1]]);
            c.eq("Sum for Complex", zs.iter().copied().sum::<Complex<$t>>().into_array(), want, || format!("{xs:?}"));
            let k = k.min(3);
            let want = xs[..k].iter().fold([one, zero], |a, x| cmul(a, *x));
            c.eq("Product for Complex", zs[..k].iter().copied().product::<Complex<$t>>().into_array(), want, || format!("{xs:?}"));
            // unsigned powers
            let e = c.rng.below(4) as u32;
            let want = (0..e).fold([one, zero], |a, _| cmul(a, p));
            is!("Complex::powu", z.powu(e), want);
            is!("Complex::powi", z.powi(e as i32), want);
            let div: fn(&mut Ctx, Complex<$t>, Complex<$t>, $t) = $div;
            div(c, z, w, s);
        }
    };
}
exact!(over_field, Fp, |r| r.fp(), |x| x.0, field_div);
exact!(over_z3, Zn<3>, |r| Zn::random(r), |x| x.bits(), field_div);
exact!(over_z5, Zn<5>, |r| Zn::random(r), |x| x.bits(), field_div);
exact!(over_z7, Zn<7>, |r| Zn::random(r), |x| x.bits(), field_div);
exact!(over_z6, Zn<6>, |r| Zn::random(r), |x| x.bits(), field_div);
exact!(over_dual, Dual<Fp>, |r| Exact::any(r), |x| x.bits(), field_div);
exact!(over_i128, i128, |r| r.range(-1 << 40, 1 << 40) as i128, |x| *x as u64, |_, _, _, _| ());
exact!(over_i64, i64, |r| if r.chance(1, 3) { r.range(-3, 3) } else { r.range(-60_000, 60_000) }, |x| *x as u64, int_div);
exact!(over_i32, i32, |r| if r.chance(1, 3) { r.range(-3, 3) } else { r.range(-700, 700) } as i32, |x| *x as u64, |_, _, _, _| ());
exact!(over_f64, f64, |r| if r.chance(1, 3) { r.range(-3, 3) } else { r.range(-60_000, 60_000) } as f64, |x| x.to_bits(), float_div);
exact!(over_f32, f32, |r| r.range(-99, 99) as f32, |x| x.to_bits() as u64, |_, _, _, _| ());

fn field_div<F: Exact>(c: &mut Ctx, z: Complex<F>, w: Complex<F>, s: F) {
    let (p, q) = (z.into_array(), w.into_array());
    let d = || format!("{}: z = {p:?}, w = {q:?}, s = {s:?}", F::RING);
    let nrm = q[0] * q[0] + q[1] * q[1];
    if nrm.unit() {
        let r = nrm.inv();
        let inv = [q[0] * r, -q[1] * r];
        c.eq("Complex::inv", w.inv().into_array(), inv, d);
        c.eq("Complex / Complex", (z / w).into_array(), cmul(p, inv), d);
        let mut a = z;
        a /= w;
        c.eq("Complex /= Complex", a.into_array(), cmul(p, inv), d);
        c.eq("Complex % Complex", (z % w).into_array(), [F::zero(), F::zero()], d);
        // division undoes multiplication
        c.eq("(z w) / w = z", (z * w / w).into_array(), p, d);
        // negative powers
        let e = c.rng.range(1, 9) as i32;
        let want = (0..e).fold([F::one(), F::zero()], |a, _| cmul(a, inv));
        c.eq("Complex::powi", w.powi(-e).into_array(), want, d);
    }
    if s.unit() {
        let r = s.inv();
        c.eq("Complex / T", (z / s).into_array(), [p[0] * r, p[1] * r], d);
        let mut a = z;
        a /= s;
        c.eq("Complex /= T", a.into_array(), [p[0] * r, p[1] * r], d);
    }
    // large powers, by binary expansion
    let e = match c.rng.below(4) {
        0 => c.rng.u64() as u32,
        1 => u32::MAX - c.rng.below(3) as u32,
        2 => 1 << c.rng.below(32),
        _ => c.rng.below(40) as u32,
    };
    let want = (0..32).rev().fold([F::one(), F::zero()], |a, b| {
        let a = cmul(a, a);
        if e >> b & 1 == 1 {
            cmul(a, p)
        } else {
            a
        }
    });
    c.eq("Complex::powu", z.powu(e).into_array(), want, || format!("exponent {e}; {}", d()));
    // matrix form multiplies like the numbers
    c.eq("into_matrix is multiplicative", z.into_matrix().dot(w.into_matrix()), (z * w).into_matrix(), d);
    let m = z.into_matrix().dot(Vector::from(q));
    c.eq("into_matrix acts by multiplication", m.into_array(), cmul(p, q), d);
    c.eq("det of the matrix form", z.into_matrix().det(), z.norm_sqr(), d);
    // ring laws
    let v = Complex::new(s, q[0]);
    c.eq("multiplication associates", (z * w * v).into_array(), (z * (w * v)).into_array(), d);
    c.eq("multiplication distributes", (z * (w + v)).into_array(), (z * w + z * v).into_array(), d);
    c.eq("conj is multiplicative", (z * w).conj().into_array(), (z.conj() * w.conj()).into_array(), d);
}

fn int_div(c: &mut Ctx, z: Complex<i64>, w: Complex<i64>, _: i64) {
    let (p, q) = (z.into_array(), w.into_array());
    let nrm = q[0] * q[0] + q[1] * q[1];
    let d = || format!("i64: z = {p:?}, w = {q:?}");
    if nrm != 0 {
        let n = cmul(p, [q[0], -q[1]]);
        let t = [n[0] / nrm, n[1] / nrm];
        let m = cmul(t, q);
        c.eq("Complex % Complex", (z % w).into_array(), [p[0] - m[0], p[1] - m[1]], d);
    }
    // units are invertible
    for u in [[1, 0], [-1, 0], [0, 1], [0, -1]] {
        let cu = Complex::from_array(u);
        let inv = [u[0], -u[1]];
        c.eq("Complex::inv", cu.inv().into_array(), inv, d);
        c.eq("Complex / Complex", (z / cu).into_array(), cmul(p, inv), d);
        let mut a = z;
        a /= cu;
        c.eq("Complex /= Complex", a.into_array(), cmul(p, inv), d);
        let e = c.rng.below(40) as i32;
        let want = (0..e % 4).fold([1, 0], |a, _| cmul(a, inv));
        c.eq("Complex::powi", cu.powi(-e).into_array(), want, || format!("({u:?})^-{e}"));
    }
    // division of a scalar multiple by the scalar
    let s = loop {
        let s = c.rng.range(-999, 999);
        if s != 0 {
            break s;
        }
    };
    c.eq("Complex / T", ((z * s) / s).into_array(), p, d);
    let mut a = z * s;
    a /= s;
    c.eq("Complex /= T", a.into_array(), p, d);
}

fn float_div(c: &mut Ctx, z: Complex<f64>, _: Complex<f64>, _: f64) {
    // divisors whose squared norm is a power of two: everything stays exact
    let p = z.into_array();
    let k = 2f64.powi(c.rng.range(-20, 20) as i32);
    for u in [[1.0, 1.0], [1.0, -1.0], [-1.0, 1.0], [-1.0, -1.0], [1.0, 0.0], [0.0, -1.0], [-1.0, 0.0], [0.0, 1.0]] {
        let q = [u[0] * k, u[1] * k];
        let n = q[0] * q[0] + q[1] * q[1];
        let w = Complex::from_array(q);
        let inv = [q[0] / n, -q[1] / n];
        let want = cmul(p, inv);
        c.eq("Complex::inv", w.inv().into_array(), inv, || format!("{q:?}"));
        c.eq("Inv::inv", Inv::inv(w).into_array(), inv, || format!("{q:?}"));
        c.eq("Complex / Complex", (z / w).into_array(), want, || format!("{p:?} / {q:?}"));
    }
}

/// floats in general position: every form within rounding of the textbook
fn floats<T: Fl>(c: &mut Ctx)
where
    T: Add<Complex<T>, Output = Complex<T>> + Sub<Complex<T>, Output = Complex<T>> + Mul<Complex<T>, Output = Complex<T>> + Div<Complex<T>, Output = Complex<T>>,
{
    // magnitudes up to the point where squares stay well inside the range
    let lim = if T::NAME == "f32" { 8 } else { 70 };
    let scale = |r: &mut Rng| 10f64.powi(if r.chance(1, 2) { 0 } else { r.range(-lim, lim) as i32 });
    let num = |r: &mut Rng| -> C2<T> {
        let s = scale(r);
        match r.below(9) {
            0 => [T::f(r.gauss() * s), T::zero()],
            1 => [T::zero(), T::f(r.gauss() * s)],
            2 => [T::f(r.gauss() * s), T::f(r.gauss() * s * 1e-5)],
            3 => [T::f(r.gauss() * s * 1e-5), T::f(r.gauss() * s)],
            // on a diagonal, on the unit circle
            4 => {
                let x = T::f(r.gauss() * s);
                [x, if r.chance(1, 2) { x } else { -x }]
            }
            5 => {
                let a = r.gauss() * 3.0;
                [T::f(a.cos()), T::f(a.sin())]
            }
            _ => [T::f(r.gauss() * s), T::f(r.gauss() * s)],
        }
    };
    let (mut p, mut q) = (num(&mut c.rng), num(&mut c.rng));
    // related operands
    match c.rng.below(40) {
        0 => q = p,
        1 => q = p.map(|x| -x),
        2 => q = [p[0], -p[1]],
        3 => q = [p[1], p[0]],
        4 => q = [-p[1], p[0]],
        5 => p = [T::zero(); 2],
        _ => (),
    }
    let k = scale(&mut c.rng);
    let s: T = match c.rng.below(16) {
        0 => T::zero(),
        1 => T::one(),
        2 => p[0],
        _ => T::f(c.rng.gauss() * k),
    };
    c.input(hash_u64s(p.iter().chain(&q).chain([&s]).map(|x| x.bits())));
    let (z, w) = (Complex::from_array(p), Complex::from_array(q));
    let (pd, qd, sd) = (p.map(|x| x.d()), q.map(|x| x.d()), s.d());
    let h = |a: C2<f64>| a[0].hypot(a[1]);
    let near = |c: &mut Ctx, op: &'static str, got: Complex<T>, want: C2<f64>, mag: f64| {
        let g = got.into_array().map(|x| x.d());
        c.op(op);
        c.check(h([g[0] - want[0], g[1] - want[1]]) <= mag * T::eps() * 12.0 + T::min_positive_value().d() * 4.0, op, || {
            format!("{} z = {p:?} w = {q:?} s = {s:?}: got {g:?}, expected {want:?}", T::NAME)
        });
    };
    // sums are judged by component, with room for another order of evaluation
    let sum = |c: &mut Ctx, op: &'static str, got: Complex<T>, x: C2<f64>, y: C2<f64>| {
        let g = got.into_array().map(|x| x.d());
        c.op(op);
        let ok = |i: usize| (g[i] - (x[i] + y[i])).abs() <= (x[i].abs() + y[i].abs()) * T::eps() * 4.0 + T::min_positive_value().d();
        c.check(ok(0) && ok(1), op, || format!("{} z = {p:?} w = {q:?} s = {s:?}: got {g:?}, expected {x:?} + {y:?}", T::NAME));
    };
    let scaled = |c: &mut Ctx, op: &'static str, got: Complex<T>, want: C2<T>| {
        let g = got.into_array();
        c.op(op);
        let ok = |i: usize| ulps(g[i], want[i]) <= 4 || (g[i] - want[i]).abs() < T::min_positive_value();
        c.check(ok(0) && ok(1), op, || format!("{} z = {p:?} w = {q:?} s = {s:?}: got {g:?}, expected {want:?}", T::NAME));
    };
    let (neg, se) = (|a: C2<f64>| [-a[0], -a[1]], [sd, 0.0]);
    // forms that round each component once
    sum(c, "Complex + Complex", z + w, pd, qd);
    sum(c, "Complex - Complex", z - w, pd, neg(qd));
    sum(c, "Complex + T", z + s, pd, se);
    sum(c, "Complex - T", z - s, pd, neg(se));
    scaled(c, "Complex * T", z * s, [p[0] * s, p[1] * s]);
    if s != T::zero() {
        scaled(c, "Complex / T", z / s, [p[0] / s, p[1] / s]);
    }
    sum(c, "T + Complex", s + z, se, pd);
    sum(c, "T - Complex", s - z, se, neg(pd));
    scaled(c, "T * Complex", s * z, [s * p[0], s * p[1]]);
    let mut a = z;
    a += s;
    sum(c, "Complex += T", a, pd, se);
    let mut a = z;
    a -= s;
    sum(c, "Complex -= T", a, pd, neg(se));
    let mut a = z;
    a *= s;
    scaled(c, "Complex *= T", a, [p[0] * s, p[1] * s]);
    if s != T::zero() {
        let mut a = z;
        a /= s;
        scaled(c, "Complex /= T", a, [p[0] / s, p[1] / s]);
    }
    near(c, "Complex * Complex", z * w, cmul(pd, qd), h(pd) * h(qd));
    let mut a = z;
    a *= w;
    near(c, "Complex *= Complex", a, cmul(pd, qd), h(pd) * h(qd));
    let n = qd[0] * qd[0] + qd[1] * qd[1];
    // the quotient must be representable as well
    if n > 0.0 && h(pd) / h(qd) < T::max_value().d().sqrt() && sd.abs() / h(qd) < T::max_value().d().sqrt() {
        let inv = [qd[0] / n, -qd[1] / n];
        near(c, "Complex::inv", w.inv(), inv, 1.0 / h(qd));
        near(c, "Inv::inv", Inv::inv(w), inv, 1.0 / h(qd));
        near(c, "Complex / Complex", z / w, cmul(pd, inv), h(pd) / h(qd));
        near(c, "T / Complex", s / w, [sd * inv[0], sd * inv[1]], sd.abs() / h(qd));
        let mut a = z;
        a /= w;
        near(c, "Complex /= Complex", a, cmul(pd, inv), h(pd) / h(qd));
        // remainder, away from the jumps of the quotient
        let t = cmul(pd, inv);
        if t.iter().all(|x| x.abs() < 1e5 && (x - x.round()).abs() > 1e-3 * x.abs().max(1.0) * if T::NAME == "f32" { 100.0 } else { 1.0 }) {
            let k = [t[0].trunc(), t[1].trunc()];
            let m = cmul(k, qd);
            near(c, "Complex % Complex", z % w, [pd[0] - m[0], pd[1] - m[1]], (h(pd) + h(k) * h(qd)) * 2.0);
        }
        let e = c.rng.range(-5, 5) as i32;
        let b = if e < 0 { inv } else { qd };
        let want = (0..e.abs()).fold([1.0, 0.0], |a, _| cmul(a, b));
        if h(want) < 1e30 && h(want) > 1e-30 && h(qd) < 1e5 && h(qd) > 1e-5 {
            near(c, "Complex::powi", w.powi(e), want, h(want) * 4.0);
        }
    }
    let nz = pd[0] * pd[0] + pd[1] * pd[1];
    let ok = |g: T, want: f64| (g.d() - want).abs() <= want.abs() * T::eps() * 4.0 + T::min_positive_value().d() * 4.0;
    c.op("Complex::norm_sqr");
    c.check(ok(z.norm_sqr(), nz) && ok(z.norm_l2_sqr(), nz), "Complex::norm_sqr", || format!("{p:?}"));
    let dt = pd[0] * qd[0] + pd[1] * qd[1];
    c.op("Complex::dot");
    c.check((z.dot(w).d() - dt).abs() <= h(pd) * h(qd) * T::eps() * 4.0 + T::min_positive_value().d() * 4.0, "Complex::dot", || format!("{p:?} {q:?}"));
    let m: Matrix<T, 2, 2> = z.into_matrix();
    c.check(m == Matrix::from([[p[0], -p[1]], [p[1], p[0]]]), "Complex::into_matrix", || format!("{p:?}"));
}

/// Many operations in sequence, against the same sequence in the reference.
fn chains<F: Exact>(c: &mut Ctx) {
    let mut z = Complex::new(F::any(&mut c.rng), F::any(&mut c.rng));
    let mut p = z.into_array();
    let n = 40;
    let mut log = Vec::new();
    for _ in 0..n {
        let q = [F::any(&mut c.rng), F::any(&mut c.rng)];
        let s = F::any_nz(&mut c.rng);
        let w = Complex::from_array(q);
        let nrm = q[0] * q[0] + q[1] * q[1];
        let k = c.rng.below(13);
        log.push((k, q, s));
        match k {
            0 => (z = z + w, p = [p[0] + q[0], p[1] + q[1]]).0,
            1 => (z = z - w, p = [p[0] - q[0], p[1] - q[1]]).0,
            2 => (z = w * z, p = cmul(p, q)).0,
            3 => (z *= w, p = cmul(p, q)).0,
            4 if nrm.unit() => (z = z / w, p = cmul(p, [q[0] * nrm.inv(), -q[1] * nrm.inv()])).0,
            5 => (z = z + s, p = [p[0] + s, p[1]]).0,
            6 => (z -= s, p = [p[0] - s, p[1]]).0,
            7 => (z = z / s, p = [p[0] * s.inv(), p[1] * s.inv()]).0,
            8 => (z = -z.conj(), p = [-p[0], p[1]]).0,
            9 => (z *= s, p = [p[0] * s, p[1] * s]).0,
            10 => (z = Complex::<F>::i() * z, p = [-p[1], p[0]]).0,
            11 => (z = z.powu(2), p = cmul(p, p)).0,
            _ => (z = Complex::from_vector(z.into_matrix().dot(w.into_vector())), p = cmul(p, q)).0,
        }
        c.op("chain step");
        c.check(z.into_array() == p, "chain of operations", || format!("after {log:?}: {:?}, expected {p:?}", z.into_array()));
    }
    c.input(hash_u64s(p.iter().map(|x| x.bits())));
}

/// division with remainder over narrow (and the widest) integers
fn tiny<T: Num + NumCast + Copy + Neg<Output = T> + std::fmt::Debug>(c: &mut Ctx)
where
    T: num_traits::NumAssign,
{
    let p: [i64; 2] = std::array::from_fn(|_| c.rng.range(-5, 5));
    let q: [i64; 2] = std::array::from_fn(|_| c.rng.range(-5, 5));
    c.input(hash_u64s(p.iter().chain(&q).map(|x| *x as u64)));
    let mk = |a: [i64; 2]| Complex::from_array(a.map(|x| T::from(x).unwrap()));
    let (z, w) = (mk(p), mk(q));
    let d = || format!("{}: z = {p:?}, w = {q:?}", std::any::type_name::<T>());
    c.eq("Complex * Complex", z * w, mk(cmul(p, q)), d);
    c.eq("Complex::norm_sqr", Some(w.norm_sqr()), T::from(q[0] * q[0] + q[1] * q[1]), d);
    let nrm = q[0] * q[0] + q[1] * q[1];
    if nrm != 0 {
        let n = cmul(p, [q[0], -q[1]]);
        let m = cmul([n[0] / nrm, n[1] / nrm], q);
        let want = mk([p[0] - m[0], p[1] - m[1]]);
        c.eq("Complex % Complex", z % w, want, d);
        let f = cmul(p, q);
        c.eq("Complex % Complex", mk([f[0] % 11, f[1] % 11]) % mk([1, 0]), mk([0, 0]), d);
    }
}

fn main() {
    let mut s = Suite::new(
        "C11",
        "a case applies every arithmetic form to random complex numbers (with zero parts, units, extreme magnitudes) over one \
         scalar type and compares with the textbook formulas; non-trivial: operands (hashed) differ",
    );
    s.section("field", 3000, over_field);
    s.section("small_rings", 3000, |c| {
        const T: &[fn(&mut Ctx)] = &[over_z3, over_z5, over_z7, over_z6, over_dual, over_i128];
        run_table!(c, T)
    });
    s.section("i64", 2000, over_i64);
    s.section("i32", 500, over_i32);
    s.section("tiny_integers", 1000, |c| run_table!(c, [tiny::<i8>, tiny::<i16>, tiny::<i128>] as [fn(&mut Ctx); 3]));
    s.section("f64_exact", 2000, over_f64);
    s.section("f32_exact", 500, over_f32);
    s.section("floats_f64", 4000, floats::<f64>);
    s.section("floats_f32", 2000, floats::<f32>);
    s.section("chains", 400, chains::<Fp>);
    s.section("chains_mod_7", 200, chains::<Zn<7>>);
    s.run();
}
