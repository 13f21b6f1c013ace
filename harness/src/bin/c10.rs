//! C10: norms are the mathematical norms; normalising gives unit norm.
use harness::*;
use std::ops::*;
use vecmat::traits::{NormL1, NormL2, NormLInf, Normalize};
use vecmat::{Complex, Matrix, Quaternion, Vector};

/// Exact norms over the integers. `bound` keeps every sum representable.
macro_rules! ints {
    ($vec:ident, $mat:ident, $prim:ident, $t:ty) => {
        fn $prim(c: &mut Ctx) {
            let n = stringify!($t);
            let raw = c.rng.int() as $t;
            c.input(hash_u64s([raw as u64]));
            // the most negative value has no absolute value
            #[allow(unused_comparisons)]
            let x = if raw < 0 && raw == <$t>::MIN { raw + 1 } else { raw };
            let a = (x as i128).unsigned_abs() as $t;
            let d = || format!("{n} {x}");
            c.eq("norm_l1 of a scalar", NormL1::norm_l1(x), a, d);
            c.eq("norm_l2 of a scalar", NormL2::norm_l2(x), a, d);
            c.eq("norm_l_inf of a scalar", NormLInf::norm_l_inf(x), a, d);
            if let Some(s) = x.checked_mul(x) {
                c.eq("norm_l2_sqr of a scalar", NormL2::norm_l2_sqr(x), s, d);
            }
        }
        fn $vec<const N: usize>(c: &mut Ctx) {
            let lim = (<$t>::MAX as i128 / N as i128).min(i64::MAX as i128) as i64;
            let a = small_ints::<N>(c, lim, <$t>::MIN != 0).map(|x| x as $t);
            let w = a.map(|x| (x as i128).unsigned_abs());
            let d = || format!("Vector<{}, {N}> {a:?}", stringify!($t));
            let v = Vector::from(a);
            c.eq("norm_l1", v.norm_l1() as u128, w.iter().sum::<u128>(), d);
            c.eq("norm_l_inf", v.norm_l_inf() as u128, *w.iter().max().unwrap(), d);
            // squares on a smaller range
            let k = a.map(|x| x % (((lim as f64).sqrt() as i64).max(1).min(1 << 31) as $t));
            let s: u128 = k.iter().map(|x| ((*x as i128) * (*x as i128)) as u128).sum();
            c.eq("square_length", Vector::from(k).square_length() as u128, s, || format!("Vector<{}, {N}> {k:?}", stringify!($t)));
        }
        fn $mat<const M: usize, const N: usize>(c: &mut Ctx) {
            let lim = (<$t>::MAX as i128 / (M * N) as i128).min(i64::MAX as i128) as i64;
            let mut a = [[0 as $t; N]; M];
            for r in a.iter_mut() {
                *r = small_ints::<N>(c, lim, <$t>::MIN != 0).map(|x| x as $t);
            }
            let w: Vec<u128> = a.iter().flatten().map(|x| (*x as i128).unsigned_abs()).collect();
            let d = || format!("Matrix<{}, {M}, {N}> {a:?}", stringify!($t));
            let m = Matrix::from(a);
            c.eq("norm_l1", m.norm_l1() as u128, w.iter().sum::<u128>(), d);
            c.eq("norm_l_inf", m.norm_l_inf() as u128, *w.iter().max().unwrap(), d);
        }
    };
}
ints!(v_u8, m_u8, p_u8, u8);
ints!(v_u16, m_u16, p_u16, u16);
ints!(v_u32, m_u32, p_u32, u32);
ints!(v_u64, m_u64, p_u64, u64);
ints!(v_usize, m_usize, p_usize, usize);
ints!(v_i8, m_i8, p_i8, i8);
ints!(v_i16, m_i16, p_i16, i16);
ints!(v_i32, m_i32, p_i32, i32);
ints!(v_i64, m_i64, p_i64, i64);
ints!(v_isize, m_isize, p_isize, isize);

fn small_ints<const N: usize>(c: &mut Ctx, lim: i64, signed: bool) -> [i64; N] {
    let mode = c.rng.below(4);
    let one = c.rng.below(N);
    let mut a = [0i64; N];
    for (i, x) in a.iter_mut().enumerate() {
        *x = match mode {
            // one dominant element, of either sign
            0 => {
                if i == one {
                    lim
                } else {
                    c.rng.range(0, lim.min(3))
                }
            }
            1 => c.rng.range(0, lim.min(5)),
            2 => (c.rng.u64() >> 1) as i64 % lim.max(1),
            _ => {
                if c.rng.chance(1, 2) {
                    0
                } else {
                    c.rng.range(0, lim.min(1000))
                }
            }
        };
        if signed && c.rng.chance(1, 2) {
            *x = -*x;
        }
    }
    c.input(hash_u64s(a.iter().map(|x| *x as u64)));
    a
}

fn tables(c: &mut Ctx) {
    let t: &[fn(&mut Ctx)] = match c.rng.below(10) {
        0 => vdims1!(v_u8),
        1 => vdims1!(v_u16),
        2 => vdims1!(v_u32),
        3 => vdims1!(v_u64),
        4 => vdims1!(v_usize),
        5 => vdims1!(v_i8),
        6 => vdims1!(v_i16),
        7 => vdims1!(v_i32),
        8 => vdims1!(v_i64),
        _ => vdims1!(v_isize),
    };
    run_table!(c, t)
}
fn mtables(c: &mut Ctx) {
    let t: &[fn(&mut Ctx)] = match c.rng.below(10) {
        0 => mdims1!(m_u8),
        1 => mdims1!(m_u16),
        2 => mdims1!(m_u32),
        3 => mdims1!(m_u64),
        4 => mdims1!(m_usize),
        5 => mdims1!(m_i8),
        6 => mdims1!(m_i16),
        7 => mdims1!(m_i32),
        8 => mdims1!(m_i64),
        _ => mdims1!(m_isize),
    };
    run_table!(c, t)
}
fn prims(c: &mut Ctx) {
    let t: &[fn(&mut Ctx)] = &[p_u8, p_u16, p_u32, p_u64, p_usize, p_i8, p_i16, p_i32, p_i64, p_isize];
    run_table!(c, t)
}

fn float_prim<T: Fl + NormL2<Output = T>>(c: &mut Ctx) {
    let x: T = c.rng.hostile();
    c.input(x.bits());
    let d = || format!("{} {x:?}", T::NAME);
    for (op, g, w) in [
        ("norm_l1 of a scalar", x.norm_l1(), x.abs()),
        ("norm_l2 of a scalar", NormL2::norm_l2(x), x.abs()),
        ("norm_l_inf of a scalar", x.norm_l_inf(), x.abs()),
        ("norm_l2_sqr of a scalar", NormL2::norm_l2_sqr(x), x * x),
    ] {
        c.op(op);
        c.check(ulps(g, w) == 0, op, || format!("{}: got {g:?}, expected {w:?}", d()));
    }
}

/// square_length over exact rings
fn ring<const N: usize>(c: &mut Ctx) {
    let a: [Fp; N] = std::array::from_fn(|_| c.rng.fp());
    c.input(hash_u64s(a.iter().map(|x| x.0)));
    let want = a.iter().fold(Fp(0), |s, x| s + *x * *x);
    c.eq("square_length", Vector::from(a).square_length(), want, || format!("F_p^{N} {a:?}"));
}
fn ring_cq(c: &mut Ctx) {
    let a: [Fp; 4] = std::array::from_fn(|_| c.rng.fp());
    c.input(hash_u64s(a.iter().map(|x| x.0)));
    c.eq("Complex::norm_sqr", Complex::new(a[0], a[1]).norm_sqr(), a[0] * a[0] + a[1] * a[1], || format!("{a:?}"));
    c.eq("Quaternion::norm_sqr", Quaternion::from(a).norm_sqr(), a.iter().fold(Fp(0), |s, x| s + *x * *x), || format!("{a:?}"));
    let b: [i32; 4] = std::array::from_fn(|_| c.rng.range(-1 << 13, 1 << 13) as i32);
    c.eq("norm_l1", Complex::new(b[0], b[1]).norm_l1(), b[0].abs() + b[1].abs(), || format!("{b:?}"));
    c.eq("norm_l1", Quaternion::from(b).norm_l1(), b.iter().map(|x| x.abs()).sum::<i32>(), || format!("{b:?}"));
    c.eq("Complex::norm_sqr", Complex::new(b[0], b[1]).norm_sqr(), b[0] * b[0] + b[1] * b[1], || format!("{b:?}"));
    c.eq("Quaternion::norm_sqr", Quaternion::from(b).norm_sqr(), b.iter().map(|x| x * x).sum::<i32>(), || format!("{b:?}"));
}

/// floats whose squared norm is representable: shape x scale
fn values<T: Fl>(rng: &mut Rng, n: usize) -> Vec<T> {
    let one = rng.below(n);
    let mode = rng.below(9);
    let mut v: Vec<f64> = (0..n)
        .map(|i| match mode {
            0 => if i == one { rng.gauss() } else { 0.0 },
            1 => rng.range(-2, 2) as f64,
            // wildly different magnitudes
            2 => rng.gauss() * 10f64.powi(rng.range(-20, 0) as i32),
            3 => if i == one { 1.0 } else { rng.gauss() * 1e-9 },
            // all alike, in absolute value
            4 => if rng.chance(1, 2) { 1.5 } else { -1.5 },
            5 => -rng.gauss().abs(),
            6 => if rng.chance(1, 3) { 0.0 } else { rng.gauss() },
            _ => rng.gauss(),
        })
        .collect();
    if v.iter().all(|x| *x == 0.0) {
        v[one] = -1.0;
    }
    // bring the norm to the wanted size
    let nrm = len(&v);
    let (lo, hi) = if T::NAME == "f32" { (1e-14, 9e18) } else { (1e-145, 6e153) };
    let want: f64 = match rng.below(8) {
        0 => lo,
        1 => hi,
        2 | 3 => (f64::ln(lo) + rng.unit() * (f64::ln(hi) - f64::ln(lo))).exp(),
        4 => 1.0,
        5 => 1.0 + rng.gauss() * 10f64.powi(rng.range(-16, -1) as i32),
        _ if nrm > lo && nrm < hi => return v.into_iter().map(T::f).collect(),
        _ => 1.0,
    };
    v.into_iter().map(|x| T::f(x / nrm * want)).collect()
}
fn exact_norms(v: &[f64]) -> (f64, f64, f64) {
    let m = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    (v.iter().map(|x| x.abs()).sum(), v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt() * m, m)
}

fn rel<T: Fl>(c: &mut Ctx, op: &'static str, got: T, want: f64, k: f64, d: &dyn Fn() -> String) {
    c.op(op);
    c.check((got.d() - want).abs() <= want.abs() * T::eps() * k, op, || format!("{}: got {got:?}, expected {want:e}", d()));
}
fn unit<T: Fl>(c: &mut Ctx, op: &'static str, got: &[T], a: &[T], l2: f64, k: f64, d: &dyn Fn() -> String) {
    c.op(op);
    let n = len(&got.iter().map(|x| x.d()).collect::<Vec<_>>());
    let ok = (n - 1.0).abs() <= k * T::eps()
        && got.iter().zip(a).all(|(g, x)| {
            let w = x.d() / l2;
            (g.d() - w).abs() <= w.abs() * T::eps() * k + T::min_positive_value().d() * 4.0 && (w.abs() < 1e-30 || (g.d() < 0.0) == (w < 0.0))
        });
    c.check(ok, op, || format!("{}: got {got:?} of norm {n}", d()));
}

fn float_vec<T: Fl, const N: usize>(c: &mut Ctx) {
    let a: Vec<T> = values(&mut c.rng, N);
    c.input(hash_u64s(a.iter().map(|x| x.bits())));
    let f: Vec<f64> = a.iter().map(|x| x.d()).collect();
    let (l1, l2, li) = exact_norms(&f);
    let k = N as f64 + 8.0;
    let d = || format!("Vector<{}, {N}> {a:?}", T::NAME);
    c.sample(d);
    let v: Vector<T, N> = Vector::build(a.clone());
    rel(c, "norm_l1", v.norm_l1(), l1, k, &d);
    rel(c, "norm_l2", NormL2::norm_l2(v), l2, k, &d);
    rel(c, "length", v.length(), l2, k, &d);
    rel(c, "norm_l2_sqr", NormL2::norm_l2_sqr(v), l2 * l2, k, &d);
    rel(c, "square_length", v.square_length(), l2 * l2, k, &d);
    rel(c, "norm_l_inf", v.norm_l_inf(), li, 0.0, &d);
    unit(c, "Vector::normalize", v.normalize().as_ref(), &a, l2, k, &d);
    unit(c, "Normalize for Vector", Normalize::normalize(v).as_ref(), &a, l2, k, &d);
}
fn float_mat<T: Fl, const M: usize, const N: usize>(c: &mut Ctx) {
    let a: Vec<T> = values(&mut c.rng, M * N);
    c.input(hash_u64s(a.iter().map(|x| x.bits())));
    let f: Vec<f64> = a.iter().map(|x| x.d()).collect();
    let (l1, l2, li) = exact_norms(&f);
    let k = (M * N) as f64 + 8.0;
    let d = || format!("Matrix<{}, {M}, {N}> {a:?}", T::NAME);
    let m: Matrix<T, M, N> = Matrix::build(a.clone());
    rel(c, "norm_l1", m.norm_l1(), l1, k, &d);
    rel(c, "norm_l2", NormL2::norm_l2(m), l2, k, &d);
    rel(c, "norm_l2_sqr", NormL2::norm_l2_sqr(m), l2 * l2, k, &d);
    rel(c, "norm_l_inf", m.norm_l_inf(), li, 0.0, &d);
}
fn float_cq<T: Fl>(c: &mut Ctx) {
    let k = 16.0;
    let a: Vec<T> = values(&mut c.rng, 2);
    c.input(hash_u64s(a.iter().map(|x| x.bits())));
    let (l1, l2, _) = exact_norms(&[a[0].d(), a[1].d()]);
    let z = Complex::new(a[0], a[1]);
    let d = || format!("Complex<{}> {a:?}", T::NAME);
    rel(c, "norm_l1", z.norm_l1(), l1, k, &d);
    rel(c, "norm_l2", NormL2::norm_l2(z), l2, k, &d);
    rel(c, "Complex::norm", z.norm(), l2, k, &d);
    rel(c, "Complex::norm_sqr", z.norm_sqr(), l2 * l2, k, &d);
    rel(c, "norm_l2_sqr", NormL2::norm_l2_sqr(z), l2 * l2, k, &d);
    unit(c, "Complex::normalize", &z.normalize().into_array(), &a, l2, k, &d);
    unit(c, "Normalize for Complex", &Normalize::normalize(z).into_array(), &a, l2, k, &d);
    let a: Vec<T> = values(&mut c.rng, 4);
    c.input(hash_u64s(a.iter().map(|x| x.bits())));
    let (l1, l2, _) = exact_norms(&a.iter().map(|x| x.d()).collect::<Vec<_>>());
    let q = Quaternion::new(a[0], a[1], a[2], a[3]);
    let d = || format!("Quaternion<{}> {a:?}", T::NAME);
    rel(c, "norm_l1", q.norm_l1(), l1, k, &d);
    rel(c, "norm_l2", NormL2::norm_l2(q), l2, k, &d);
    rel(c, "Quaternion::norm", q.norm(), l2, k, &d);
    rel(c, "Quaternion::norm_sqr", q.norm_sqr(), l2 * l2, k, &d);
    rel(c, "norm_l2_sqr", NormL2::norm_l2_sqr(q), l2 * l2, k, &d);
    unit(c, "Quaternion::normalize", &q.normalize().into_array(), &a, l2, k, &d);
    unit(c, "Normalize for Quaternion", &Normalize::normalize(q).into_array(), &a, l2, k, &d);
}

/// infinite components and zeros
fn extremes<T: Fl, const N: usize>(c: &mut Ctx) {
    let z = [T::zero(); N].map(|x| if c.rng.chance(1, 2) { -x } else { x });
    let v = Vector::from(z);
    for (op, g) in [("norm_l1", v.norm_l1()), ("norm_l2", v.norm_l2()), ("norm_l_inf", v.norm_l_inf()), ("length", v.length()), ("norm_l2_sqr", v.norm_l2_sqr())] {
        c.op(op);
        c.check(g == T::zero(), op, || format!("zero vector {z:?} of {}: {g:?}", T::NAME));
    }
    let mut a: [T; N] = std::array::from_fn(|_| c.rng.tame());
    let i = c.rng.below(N);
    a[i] = if c.rng.chance(1, 2) { T::infinity() } else { T::neg_infinity() };
    c.input(hash_u64s(a.iter().map(|x| x.bits())));
    let v = Vector::from(a);
    for (op, g) in [("norm_l1", v.norm_l1()), ("norm_l2", v.norm_l2()), ("norm_l_inf", v.norm_l_inf()), ("length", v.length()), ("norm_l2_sqr", v.norm_l2_sqr())] {
        c.op(op);
        c.check(g == T::infinity(), op, || format!("{a:?} of {}: {g:?}", T::NAME));
    }
}

fn main() {
    let mut s = Suite::new(
        "C10",
        "a case computes every norm of one scalar, vector, matrix, complex number or quaternion (all element types; one dominant, \
         equal, tiny, huge and unit-size components) and normalises it; non-trivial: operands (hashed) differ",
    );
    s.section("scalars_int", 2000, prims);
    s.section("scalars_f64", 2000, float_prim::<f64>);
    s.section("scalars_f32", 2000, float_prim::<f32>);
    s.section("vectors_int", 4000, tables);
    s.section("matrices_int", 3000, mtables);
    s.section("ring", 500, |c| run_table!(c, vdims1!(ring)));
    s.section("complex_quaternion_exact", 1500, ring_cq);
    s.section("vectors_f64", 3000, |c| run_table!(c, vdims1!(float_vec, f64)));
    s.section("vectors_f32", 2000, |c| run_table!(c, vdims1!(float_vec, f32)));
    s.section("matrices_f64", 2000, |c| run_table!(c, mdims1!(float_mat, f64)));
    s.section("matrices_f32", 1000, |c| run_table!(c, mdims1!(float_mat, f32)));
    s.section("complex_quaternion_f64", 3000, float_cq::<f64>);
    s.section("complex_quaternion_f32", 2000, float_cq::<f32>);
    s.section("complex_quaternion_wide", 500, float_cq::<Wide>);
    s.section("vectors_wide", 400, |c| run_table!(c, [float_vec::<Wide, 1>, float_vec::<Wide, 3>, float_vec::<Wide, 6>] as [fn(&mut Ctx); 3]));
    s.section("matrices_wide", 400, |c| run_table!(c, [float_mat::<Wide, 1, 3>, float_mat::<Wide, 2, 2>, float_mat::<Wide, 3, 2>] as [fn(&mut Ctx); 3]));
    s.section("extremes_f64", 300, |c| run_table!(c, vdims1!(extremes, f64)));
    s.section("extremes_f32", 300, |c| run_table!(c, vdims1!(extremes, f32)));
    s.native("large", 5 * 4, |c| {
        const T: &[fn(&mut Ctx)] = &[float_vec::<f64, 263>, float_mat::<f64, 16, 17>, float_mat::<f32, 135, 1>, ring::<263>, extremes::<f64, 135>];
        run_table!(c, T)
    });
    s.run();
}
