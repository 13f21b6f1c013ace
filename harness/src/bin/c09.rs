//! C09: determinant, cofactors, adjugate and inverse are exact for every matrix.
use harness::*;
use num_traits::{Inv, One};
use vecmat::traits::Dot;
use vecmat::{Complex, Matrix};

/// a matrix of one of many structures: dense, sparse, with zero leading
/// entries, permutations, triangular, singular of every rank, companion...
fn gen<const N: usize>(r: &mut Rng) -> Matrix<Fp, N, N> {
    let kind = r.below(21);
    let mut a: Mat<Fp> = vec![vec![Fp(0); N]; N];
    match kind {
        0 => {}
        1 => (0..N).for_each(|i| a[i][i] = Fp(1)),
        2 => (0..N).for_each(|i| a[i][i] = r.fp()),
        3 => {
            // scaled permutation
            let mut p: Vec<usize> = (0..N).collect();
            for i in (1..N).rev() {
                p.swap(i, r.below(i + 1));
            }
            for i in 0..N {
                a[i][p[i]] = r.fp_nz();
            }
        }
        4 | 5 => {
            let up = kind == 4;
            for i in 0..N {
                for j in 0..N {
                    if (i <= j) == up || i == j {
                        a[i][j] = r.fp();
                    }
                }
            }
        }
        6 => {
            // rank at most k
            let k = r.below(N.max(1));
            for _ in 0..k {
                let u: Vec<Fp> = (0..N).map(|_| r.fp()).collect();
                let v: Vec<Fp> = (0..N).map(|_| r.fp()).collect();
                for i in 0..N {
                    for j in 0..N {
                        a[i][j] = a[i][j] + u[i] * v[j];
                    }
                }
            }
        }
        7 | 8 => {
            let p = r.below(6) + 1;
            for row in a.iter_mut() {
                for x in row.iter_mut() {
                    if r.below(6) < p {
                        *x = r.fp();
                    }
                }
            }
        }
        9 => {
            // small entries: many coincidences
            for row in a.iter_mut() {
                for x in row.iter_mut() {
                    *x = Fp::int(r.range(-1, 1));
                }
            }
        }
        10 => {
            // symmetric or antisymmetric
            let anti = r.chance(1, 2);
            for i in 0..N {
                for j in 0..=i {
                    let x = r.fp();
                    a[i][j] = x;
                    a[j][i] = if anti { -x } else { x };
                }
            }
        }
        11..=14 => {
            // a structured zero pattern; the entries dense, equal or constant along diagonals
            let (w, how, k) = (mask(r, N, N), r.below(4), r.fp_nz());
            let d: Vec<Fp> = (0..2 * N).map(|_| r.fp_nz()).collect();
            for i in 0..N {
                for j in 0..N {
                    if w[i][j] {
                        a[i][j] = match how {
                            0 => k,
                            1 => d[i + N - j],
                            _ => r.fp_nz(),
                        };
                    }
                }
            }
        }
        18.. => a = special(r, N),
        _ => {
            for row in a.iter_mut() {
                for x in row.iter_mut() {
                    *x = r.dense_fp();
                }
            }
        }
    }
    // a zero row, column, or entry in an otherwise dense matrix
    if N > 0 && r.chance(1, 6) {
        let k = r.below(N);
        match r.below(3) {
            0 => (0..N).for_each(|j| a[k][j] = Fp(0)),
            1 => (0..N).for_each(|j| a[j][k] = Fp(0)),
            _ => a[0][0] = Fp(0),
        }
    }
    mat_from(|i, j| a[i][j])
}

/// matrices with something special about them in any ring: conjugates of
/// diagonal or nilpotent matrices (involutions, idempotents, finite order),
/// repeated or opposite rows, columns and neighbours, two-valued entries
fn special<F: Exact>(r: &mut Rng, n: usize) -> Mat<F> {
    let mut a: Mat<F> = (0..n).map(|_| (0..n).map(|_| F::any(r)).collect()).collect();
    let idx = |r: &mut Rng| (r.below(n.max(1)), r.below(n.max(1)));
    match r.below(8) {
        0 | 1 => {
            // P D P^-1, with P a product of elementary matrices
            let jordan = r.chance(1, 3);
            let (x, y) = (F::exact(r.range(-1, 1)), F::exact(r.range(-1, 1)));
            for i in 0..n {
                for j in 0..n {
                    a[i][j] = if i == j { if r.chance(1, 2) { x } else { y } } else if jordan && j == i + 1 { F::one() } else { F::zero() };
                }
            }
            for _ in 0..2 * n {
                let (i, j) = idx(r);
                if i != j {
                    let k = F::any(r);
                    for t in 0..n {
                        let x = a[j][t];
                        a[i][t] = a[i][t] + k * x;
                    }
                    for t in 0..n {
                        let x = a[t][i];
                        a[t][j] = a[t][j] - k * x;
                    }
                }
            }
        }
        2 | 3 => {
            // copies of rows and columns, possibly with the other sign
            for _ in 0..1 + r.below(3) {
                let ((i, j), s) = (idx(r), r.chance(1, 2));
                let sg = |x: F| if s { -x } else { x };
                if n > 0 && r.chance(1, 2) {
                    for t in 0..n {
                        a[i][t] = sg(a[j][t]);
                    }
                } else if n > 0 {
                    for t in 0..n {
                        a[t][i] = sg(a[t][j]);
                    }
                }
            }
        }
        4 => {
            // neighbours repeat
            for i in 0..n {
                for j in 0..n {
                    if j > 0 && r.chance(1, 2) {
                        a[i][j] = a[i][j - 1];
                    } else if i > 0 && r.chance(1, 3) {
                        a[i][j] = a[i - 1][j];
                    }
                }
            }
        }
        5 => {
            let (x, y) = (F::any(r), F::any(r));
            for v in a.iter_mut().flatten() {
                *v = if r.chance(1, 2) { x } else { y };
            }
        }
        6 => {
            // symmetric, antisymmetric, circulant
            let k = r.below(3);
            for i in 0..n {
                for j in 0..n {
                    a[i][j] = match k {
                        0 => a[i.min(j)][i.max(j)],
                        1 if j < i => -a[j][i],
                        1 => a[i][j],
                        _ => a[0][(j + n - i) % n],
                    };
                }
            }
        }
        _ => {}
    }
    if r.chance(1, 4) {
        let w = mask(r, n, n);
        for i in 0..n {
            for j in 0..n {
                if !w[i][j] {
                    a[i][j] = F::zero();
                }
            }
        }
    }
    a
}

/// rings with zero divisors and elements that are their own opposite
fn ring<F: Exact, const N: usize>(c: &mut Ctx) {
    let a: Mat<F> = special(&mut c.rng, N);
    let m: Matrix<F, N, N> = mat_from(|i, j| a[i][j]);
    c.input(hash_u64s(a.iter().flatten().map(|x| x.bits()).chain([hash_str(F::RING)])));
    c.sample(|| format!("{N}x{N} over {}: {a:?}", F::RING));
    let d = || format!("N = {N}, over {}, matrix {a:?}", F::RING);
    let det = det_leibniz(&a);
    c.eq("Matrix::det", m.det(), det, d);
    let sg = |i: usize, j: usize, x: F| if (i + j) % 2 == 1 { -x } else { x };
    let cof: Mat<F> = (0..N).map(|i| (0..N).map(|j| sg(i, j, det_leibniz(&minor(&a, i, j)))).collect()).collect();
    for i in 0..N {
        for j in 0..N {
            c.eq("Matrix::cofactor", m.cofactor(i, j), cof[i][j], || format!("at ({i}, {j}); {}", d()));
        }
    }
    let adj = m.adj();
    let want: Mat<F> = (0..N).map(|i| (0..N).map(|j| cof[j][i]).collect()).collect();
    c.eq("Matrix::adj", rows_of(&adj.into_array_of_arrays()), want, d);
    let one = Matrix::<F, N, N>::one();
    c.check(m.dot(adj) == one * det && adj.dot(m) == one * det, "A adj(A) = det(A) I", d);
    if det.unit() {
        let (i1, i2) = (Matrix::inv(&m), Inv::inv(m));
        c.op("Matrix::inv");
        c.check(i1 == i2, "Inv for Matrix", d);
        c.check(m.dot(i1) == one && i1.dot(m) == one, "A inv(A) = I", d);
    }
    let b: Mat<F> = special(&mut c.rng, N);
    let b: Matrix<F, N, N> = mat_from(|i, j| b[i][j]);
    c.eq("det is multiplicative", m.dot(b).det(), m.det() * b.det(), d);
    c.eq("det of the transpose", m.transpose().det(), det, d);
}

fn field<const N: usize>(c: &mut Ctx) {
    let m: Matrix<Fp, N, N> = gen(&mut c.rng);
    let a = rows_of(&m.into_array_of_arrays());
    c.input(hash_u64s(a.iter().flatten().map(|x| x.0)));
    c.sample(|| format!("{N}x{N} over the prime field: {a:?}"));
    let d = || format!("N = {N}, matrix {a:?}");
    let det = det_gauss(&a);
    c.eq("Matrix::det", m.det(), det, d);
    // the cofactors: all of them for small sizes, a sample for large ones
    let mut cof: Mat<Fp> = vec![vec![Fp(0); N]; N];
    for i in 0..N {
        for j in 0..N {
            cof[i][j] = cofactor_ref(&a, i, j);
            if N <= 6 || c.rng.chance(1, 8) {
                c.eq("Matrix::cofactor", m.cofactor(i, j), cof[i][j], || format!("at ({i}, {j}); {}", d()));
            }
        }
    }
    if N <= 6 {
        let adj = m.adj();
        let want: Mat<Fp> = (0..N).map(|i| (0..N).map(|j| cof[j][i]).collect()).collect();
        c.eq("Matrix::adj", rows_of(&adj.into_array_of_arrays()), want, d);
        if N > 0 {
            let s = Matrix::<Fp, N, N>::one() * det;
            c.check(m.dot(adj) == s && adj.dot(m) == s, "A adj(A) = det(A) I", d);
        }
        if det.0 != 0 {
            let (i1, i2) = (Matrix::inv(&m), Inv::inv(m));
            let r = det.recip();
            let want: Mat<Fp> = (0..N).map(|i| (0..N).map(|j| cof[j][i] * r).collect()).collect();
            c.eq("Matrix::inv", rows_of(&i1.into_array_of_arrays()), want.clone(), d);
            c.eq("Inv for Matrix", rows_of(&i2.into_array_of_arrays()), want, d);
            if N > 0 {
                let one = Matrix::<Fp, N, N>::one();
                c.check(m.dot(i1) == one && i1.dot(m) == one, "A inv(A) = I", d);
            }
        }
    }
    // laws
    if N > 0 && N <= 6 {
        let b: Matrix<Fp, N, N> = gen(&mut c.rng);
        c.eq("det is multiplicative", m.dot(b).det(), m.det() * b.det(), d);
        c.eq("det of the transpose", m.transpose().det(), det, d);
    }
    // an out-of-range cofactor is refused
    for (i, j) in [(N, 0), (0, N), (N, N), (N + 1, 0), (0, usize::MAX), (usize::MAX, usize::MAX)] {
        c.op("Matrix::cofactor out of range");
        if let Ok(x) = catch(|| m.cofactor(i, j)) {
            c.fail("Matrix::cofactor out of range", format!("cofactor({i}, {j}) of a {N}x{N} matrix returned {x:?}"));
        }
    }
}

/// small integers, sparse or with a structured zero pattern
fn small<const N: usize>(c: &mut Ctx, m: i64) -> [[i64; N]; N] {
    if c.rng.chance(1, 2) {
        return arr2(|_, _| if c.rng.chance(1, 4) { 0 } else { c.rng.range(-m, m) });
    }
    let w = mask(&mut c.rng, N, N);
    arr2(|i, j| if w[i][j] { c.rng.range(1, m) * if c.rng.chance(1, 2) { -1 } else { 1 } } else { 0 })
}

/// integers: nothing overflows, the value is the exact one
fn integers<const N: usize>(c: &mut Ctx) {
    let a: [[i64; N]; N] = small(c, 30);
    c.input(hash_u64s(a.iter().flatten().map(|x| *x as u64)));
    let m = Matrix::from(a);
    let r = rows_of(&a);
    let d = || format!("{a:?}");
    c.eq("Matrix<i64>::det", m.det(), det_leibniz(&r), d);
    c.eq("Matrix<i128>::det", m.map(|x| x as i128).det(), det_leibniz(&r) as i128, d);
    for i in 0..N {
        for j in 0..N {
            let w = det_leibniz(&minor(&r, i, j)) * if (i + j) % 2 == 1 { -1 } else { 1 };
            c.eq("Matrix<i64>::cofactor", m.cofactor(i, j), w, || format!("({i}, {j}) {a:?}"));
            c.eq("Matrix<i64>::adj", m.adj()[(j, i)], w, || format!("({j}, {i}) {a:?}"));
        }
    }
    // unimodular: the inverse is integral
    let mut u: Matrix<i64, N, N> = Matrix::one();
    for _ in 0..4 {
        let (i, j) = (c.rng.below(N.max(1)), c.rng.below(N.max(1)));
        if i != j {
            let k = c.rng.range(-3, 3);
            let mut e: Matrix<i64, N, N> = Matrix::one();
            e[(i, j)] = k;
            u = u.dot(e);
        }
    }
    if N > 0 {
        let one = Matrix::<i64, N, N>::one();
        c.op("Matrix<i64>::inv");
        c.check(u.dot(Matrix::inv(&u)) == one && Matrix::inv(&u).dot(u) == one && Inv::inv(u) == Matrix::inv(&u), "Matrix<i64>::inv", || format!("unimodular {u:?} inverse {:?}", u.inv()));
    }
}

/// floats whose entries are small integers: the determinant and cofactors are exact
fn float_exact<T: Fl, const N: usize>(c: &mut Ctx) {
    let a: [[i64; N]; N] = small(c, 9);
    c.input(hash_u64s(a.iter().flatten().map(|x| *x as u64)));
    let m: Matrix<T, N, N> = Matrix::from(a).map(|x| T::f(x as f64));
    let r = rows_of(&a);
    c.eq("Matrix<float>::det", m.det(), T::f(det_leibniz(&r) as f64), || format!("{a:?}"));
    for i in 0..N {
        for j in 0..N {
            let w = det_leibniz(&minor(&r, i, j)) * if (i + j) % 2 == 1 { -1 } else { 1 };
            c.eq("Matrix<float>::cofactor", m.cofactor(i, j), T::f(w as f64), || format!("({i}, {j}) {a:?}"));
        }
    }
    // scaling by powers of two keeps everything exact, also for tiny and
    // huge determinants, which are still invertible
    let det = det_leibniz(&r);
    if det != 0 && N > 0 {
        let lim = if T::NAME == "f32" { 30 } else { 200 } / N as i64;
        let s = T::f(2f64.powi(c.rng.range(-lim, lim) as i32));
        let (i1, i2) = (Matrix::inv(&m), Matrix::inv(&(m * s)));
        let t = Inv::inv(m);
        for i in 0..N {
            for j in 0..N {
                let w = det_leibniz(&minor(&r, j, i)) * if (i + j) % 2 == 1 { -1 } else { 1 };
                let want = T::f(w as f64) / T::f(det as f64);
                c.op("Matrix<float>::inv");
                for (how, g) in [("inv", i1[(i, j)]), ("Inv::inv", t[(i, j)]), ("inv after scaling", i2[(i, j)] * s)] {
                    c.check(ulps(g, want) <= 4, "Matrix<float>::inv", || format!("{how} of {m:?} (scale {s:?}) at ({i}, {j}): got {g:?}, expected {want:?}"));
                }
            }
        }
    }
}

/// floats up to conditioning
fn float_inverse<T: Fl, const N: usize>(c: &mut Ctx) {
    let mut k = 0;
    let (m, inv, cond) = loop {
        // entries of very different size, badly scaled rows, pivots near zero
        let rs: Vec<f64> = (0..N).map(|_| 10f64.powi(c.rng.range(-3, 3) as i32)).collect();
        let m: Matrix<T, N, N> = mat_from(|i, _| T::f(c.rng.gauss() * rs[i]));
        let a: Vec<Vec<f64>> = rows_of(&m.into_array_of_arrays()).iter().map(|r| r.iter().map(|x| x.d()).collect()).collect();
        let Some(inv) = gauss_inverse(&a) else { continue };
        let n1: f64 = m.flat().iter().map(|x| x.d().powi(2)).sum::<f64>().sqrt();
        let n2: f64 = inv.iter().flatten().map(|x| x.powi(2)).sum::<f64>().sqrt();
        k += 1;
        if n1 * n2 < 1e4 || k > 50 {
            break (m, inv, n1 * n2);
        }
    };
    c.input(hash_u64s(m.flat().iter().map(|x| x.bits())));
    if cond > 1e4 {
        return;
    }
    let n2: f64 = inv.iter().flatten().map(|x| x.powi(2)).sum::<f64>().sqrt();
    let tol = T::eps() * cond * cond * n2 * 8.0;
    for (how, g) in [("inv", Matrix::inv(&m)), ("Inv::inv", Inv::inv(m))] {
        c.op("Matrix<float>::inv");
        for i in 0..N {
            for j in 0..N {
                c.check((g[(i, j)].d() - inv[i][j]).abs() <= tol, "Matrix<float>::inv", || {
                    format!("{how} of {m:?} at ({i}, {j}): got {:?}, expected {}, condition {cond:.1}", g[(i, j)], inv[i][j])
                });
            }
        }
    }
}
/// complex elements: another commutative field
fn complex<const N: usize>(c: &mut Ctx) {
    let m: Matrix<Complex<Fp>, N, N> = mat_from(|_, _| Complex::new(c.rng.fp(), c.rng.fp()));
    let a = rows_of(&m.into_array_of_arrays());
    c.input(hash_u64s(a.iter().flatten().map(|x| x.re().0 ^ x.im().0.rotate_left(20))));
    let det = det_leibniz(&a);
    c.eq("Matrix<Complex>::det", m.det(), det, || format!("{a:?}"));
    let n = det.re() * det.re() + det.im() * det.im();
    if n.0 != 0 {
        let one = Matrix::<Complex<Fp>, N, N>::one();
        c.op("Matrix<Complex>::inv");
        c.check(m.dot(Matrix::inv(&m)) == one && Matrix::inv(&m).dot(m) == one && Inv::inv(m) == Matrix::inv(&m), "Matrix<Complex>::inv", || format!("{a:?}"));
    }
}

/// sizes where only the determinant and a few cofactors are affordable
fn large<const N: usize>(c: &mut Ctx) {
    let m: Matrix<Fp, N, N> = gen(&mut c.rng);
    let a = rows_of(&m.into_array_of_arrays());
    c.input(hash_u64s(a.iter().flatten().map(|x| x.0)));
    c.sample(|| format!("{N}x{N} over the prime field: {a:?}"));
    let d = || format!("N = {N}, matrix {a:?}");
    c.eq("Matrix::det", m.det(), det_gauss(&a), d);
    for _ in 0..3 {
        let (i, j) = (c.rng.below(N), c.rng.below(N));
        c.eq("Matrix::cofactor", m.cofactor(i, j), cofactor_ref(&a, i, j), || format!("at ({i}, {j}); {}", d()));
    }
}

fn main() {
    let mut s = Suite::new(
        "C09",
        "a case takes a square matrix (dense, sparse, permutation, triangular, rank-deficient, small-entry, symmetric) over a \
         prime field, rings of small order, integers, complex field elements or floats and compares det, every cofactor, adj and inv with Gaussian \
         elimination, permutation expansion and the defining identities; non-trivial: entries (hashed) differ",
    );
    s.section("field_small", 6000, |c| {
        const T: &[fn(&mut Ctx)] = &[field::<1>, field::<2>, field::<3>, field::<4>, field::<5>, field::<3>, field::<4>];
        run_table!(c, T)
    });
    s.section("field_0", 3, field::<0>);
    s.section("field_6", 100, field::<6>);
    s.native("field_7", 16, field::<7>);
    s.native("field_8", 4, field::<8>);
    s.native("field_9", 3, large::<9>);
    s.native("field_10", 1, large::<10>);
    s.section("rings", 4800, |c| {
        const T: &[fn(&mut Ctx)] = &[
            ring::<Zn<2>, 2>, ring::<Zn<2>, 3>, ring::<Zn<2>, 4>, ring::<Zn<2>, 5>, ring::<Zn<3>, 2>, ring::<Zn<3>, 3>,
            ring::<Zn<3>, 4>, ring::<Zn<3>, 5>, ring::<Zn<4>, 3>, ring::<Zn<4>, 4>, ring::<Zn<6>, 3>, ring::<Zn<6>, 4>,
            ring::<Zn<6>, 5>, ring::<Zn<16>, 3>, ring::<Zn<16>, 4>, ring::<Zn<7>, 1>, ring::<Dual<Fp>, 2>, ring::<Dual<Fp>, 3>, ring::<Dual<Fp>, 4>, ring::<Zn<7>, 4>, ring::<Zn<4>, 5>,
        ];
        run_table!(c, T)
    });
    s.section("rings_6", 60, |c| {
        const T: &[fn(&mut Ctx)] = &[ring::<Zn<2>, 6>, ring::<Zn<3>, 6>, ring::<Zn<6>, 6>, ring::<Zn<16>, 6>];
        run_table!(c, T)
    });
    s.section("integers", 800, |c| {
        const T: &[fn(&mut Ctx)] = &[integers::<1>, integers::<2>, integers::<3>, integers::<4>, integers::<5>];
        run_table!(c, T)
    });
    s.section("float_exact", 1200, |c| {
        const T: &[fn(&mut Ctx)] = &[
            float_exact::<f64, 1>, float_exact::<f64, 2>, float_exact::<f64, 3>, float_exact::<f64, 4>, float_exact::<f64, 5>,
            float_exact::<f32, 1>, float_exact::<f32, 2>, float_exact::<f32, 3>, float_exact::<f32, 4>,
        ];
        run_table!(c, T)
    });
    s.section("float_inverse", 1500, |c| {
        const T: &[fn(&mut Ctx)] = &[
            float_inverse::<f64, 1>, float_inverse::<f64, 2>, float_inverse::<f64, 3>, float_inverse::<f64, 4>, float_inverse::<f64, 5>,
            float_inverse::<f32, 2>, float_inverse::<f32, 3>, float_inverse::<f32, 4>,
        ];
        run_table!(c, T)
    });
    s.section("complex", 400, |c| {
        const T: &[fn(&mut Ctx)] = &[complex::<1>, complex::<2>, complex::<3>, complex::<4>];
        run_table!(c, T)
    });
    s.run();
}
