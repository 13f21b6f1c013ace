//! C18: transformed directions and normals point where the geometry says.
use harness::*;
use num_traits::{One, Zero};
use vecmat::complex::Moebius;
use vecmat::traits::Normalize;
use vecmat::transform::{Chain, Directional, Linear, Reorder, Rotation2, Rotation3, Scale, Shift};
use vecmat::{Complex, Matrix, Quaternion, Transform, Vector};

type Jac = Vec<Vec<f64>>;
fn mv(j: &Jac, v: &[f64]) -> Vec<f64> {
    j.iter().map(|r| r.iter().zip(v).map(|(a, b)| a * b).sum()).collect()
}
fn mmul(a: &Jac, b: &Jac) -> Jac {
    a.iter().map(|r| (0..b[0].len()).map(|j| r.iter().zip(b).map(|(x, row)| x * row[j]).sum()).collect()).collect()
}
fn fnorm(a: &Jac) -> f64 {
    a.iter().map(|r| len(r).powi(2)).sum::<f64>().sqrt()
}
fn detf(a: &Jac) -> f64 {
    let n = a.len();
    let mut a = a.clone();
    let mut d = 1.0;
    for c in 0..n {
        let p = (c..n).max_by(|&x, &y| a[x][c].abs().partial_cmp(&a[y][c].abs()).unwrap()).unwrap();
        if a[p][c] == 0.0 {
            return 0.0;
        }
        if p != c {
            a.swap(p, c);
            d = -d;
        }
        d *= a[c][c];
        for r in c + 1..n {
            let f = a[r][c] / a[c][c];
            for k in c..n {
                let t = a[c][k];
                a[r][k] -= f * t;
            }
        }
    }
    d
}
fn dotv(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
/// an orthonormal basis of the complement of n
fn tangents(c: &mut Ctx, n: &[f64]) -> Vec<Vec<f64>> {
    let mut basis = vec![n.iter().map(|x| x / len(n)).collect::<Vec<f64>>()];
    while basis.len() < n.len() {
        let mut t: Vec<f64> = n.iter().map(|_| c.rng.gauss()).collect();
        for _ in 0..2 {
            for b in &basis {
                let p = dotv(&t, b);
                t.iter_mut().zip(b).for_each(|(x, y)| *x -= p * y);
            }
        }
        let l = len(&t);
        if l > 1e-2 {
            basis.push(t.iter().map(|x| x / l).collect());
        }
    }
    basis.split_off(1)
}
/// a direction in T: unit or scaled
fn gdir<T: Fl, const N: usize>(c: &mut Ctx, unit: bool) -> [T; N] {
    let s = if unit { 1.0 } else { 10f64.powi(c.rng.range(-5, 5) as i32) * c.rng.uniform(0.5, 2.0) };
    c.rng.direction::<N>().map(|x| T::f(x * s))
}

/// The judge: `jac` is the true derivative at the point, `amp` how much the
/// rounding of one operation may be amplified.
#[allow(clippy::too_many_arguments)]
fn judge<T: Fl, const N: usize>(
    c: &mut Ctx,
    name: &'static str,
    jac: &Jac,
    amp: f64,
    conformal: bool,
    dirf: &dyn Fn([T; N]) -> [T; N],
    normf: &dyn Fn([T; N]) -> [T; N],
    what: &dyn Fn() -> String,
) {
    let eps = T::eps();
    let jn = fnorm(jac);
    let unit = c.rng.chance(2, 3);
    let v: [T; N] = gdir(c, unit);
    let n: [T; N] = gdir(c, unit);
    let (vd, nd) = (v.map(|x| x.d()), n.map(|x| x.d()));
    c.input(hash_u64s(v.iter().chain(&n).map(|x| x.bits()).chain([hash_str(name)])));
    let d = || format!("{name} ({}): direction {v:?}, normal {n:?}; {}", T::NAME, what());
    c.sample(d);
    let w = mv(jac, &vd);
    let (lw, lv, ln) = (len(&w), len(&vd), len(&nd));
    let got = dirf(v).map(|x| x.d());
    let lg = len(&got);
    c.op(name);
    c.check(lg.is_finite() && lg > 0.0, "direction is finite and not zero", || format!("got {got:?}; {}", d()));
    let tol = eps * 32.0 * amp * (jn * lv / lw);
    let (gu, wu): (Vec<f64>, Vec<f64>) = (got.iter().map(|x| x / lg).collect(), w.iter().map(|x| x / lw).collect());
    if tol < 0.05 {
        c.check(dist(&gu, &wu) <= tol, "direction is a positive multiple of the derivative", || format!("got {got:?}, derivative {w:?}; {}", d()));
    }
    if unit {
        c.check((lg - 1.0).abs() <= eps * 64.0, "unit direction stays unit", || format!("got {got:?} of length {lg}; {}", d()));
    }
    // normal
    let m = normf(n).map(|x| x.d());
    let lm = len(&m);
    c.check(lm.is_finite() && lm > 0.0, "normal is finite and not zero", || format!("got {m:?}; {}", d()));
    if unit {
        c.check((lm - 1.0).abs() <= eps * 64.0, "unit normal stays unit", || format!("got {m:?} of length {lm}; {}", d()));
    }
    for t in tangents(c, &nd) {
        let jt = mv(jac, &t);
        let (s, b) = (dotv(&m, &jt) / lm, eps * 48.0 * amp * jn);
        c.check(s.abs() <= b, "normal is orthogonal to the transformed tangents", || format!("product {s:e} (bound {b:e}) of normal {m:?} and tangent image {jt:?} of {t:?}; {}", d()));
    }
    // the side: J^-T n . J s = n . s, for s on the side of n
    let side = mv(jac, &nd);
    let s = dotv(&m, &side) / lm / ln;
    if N > 0 && eps * 48.0 * amp < 0.05 {
        c.check(s > 0.0, "normal stays on its side", || format!("product {s:e} of normal {m:?} and the image {side:?} of the old one; {}", d()));
    }
    if conformal {
        let a = dirf(n).map(|x| x.d());
        let la = len(&a);
        c.check(dist(&a.map(|x| x / la), &m.map(|x| x / lm)) <= eps * 64.0 * amp, "conformal: both methods agree", || format!("direction {a:?}, normal {m:?}; {}", d()));
    }
}

fn rows<T: Fl, const N: usize>(a: [[T; N]; N]) -> Jac {
    a.iter().map(|r| r.iter().map(|x| x.d()).collect()).collect()
}
fn eye(n: usize, k: f64) -> Jac {
    (0..n).map(|i| (0..n).map(|j| if i == j { k } else { 0.0 }).collect()).collect()
}
/// reflections, shears, permutations, non-uniform scales, generic matrices;
/// with the amplification of a cofactor inverse
fn gmat<T: Fl, const N: usize>(c: &mut Ctx) -> ([[T; N]; N], f64) {
    loop {
        let k = c.rng.below(13);
        let s = if k < 8 && c.rng.chance(1, 3) { 10f64.powi(c.rng.range(-4, 4) as i32) } else { 1.0 };
        let i0 = if N > 0 { c.rng.below(N) } else { 0 };
        let j0 = if N > 0 { c.rng.below(N) } else { 0 };
        let dv: [f64; N] = std::array::from_fn(|_| c.rng.uniform(0.2, 4.0) * if c.rng.chance(1, 2) { -1.0 } else { 1.0 });
        let refl: [f64; N] = c.rng.direction();
        let gm: [[f64; N]; N] = arr2(|_, _| c.rng.gauss());
        let sh = c.rng.uniform(-3.0, 3.0);
        let rot = c.rng.below(N.max(1));
        // P D P^-1 with small integers all along: involutions (not orthogonal),
        // matrices of finite order, defective ones
        let mut cj: [[f64; N]; N] = arr2(|_, _| 0.0);
        let (up, x, y) = (c.rng.chance(1, 4), c.rng.pick(&[-1.0, 1.0, 2.0, 0.5]), c.rng.pick(&[-1.0, 1.0, -2.0]));
        for i in 0..N {
            cj[i][i] = if c.rng.chance(1, 2) { x } else { y };
            if up && i + 1 < N {
                cj[i][i + 1] = 1.0;
            }
        }
        for _ in 0..1 + c.rng.below(3) {
            let (i, j, f) = (c.rng.below(N.max(1)), c.rng.below(N.max(1)), c.rng.pick(&[1.0, -1.0, 2.0]));
            if i != j {
                for t in 0..N {
                    cj[i][t] += f * cj[j][t];
                }
                for row in cj.iter_mut() {
                    row[j] -= f * row[i];
                }
            }
        }
        let a: [[T; N]; N] = arr2(|i, j| {
            let e = if i == j { 1.0 } else { 0.0 };
            T::f(s * match k {
                0 => e * dv[i],
                1 => e - 2.0 * refl[i] * refl[j],
                2 => e + if i == i0 && j == j0 && i0 != j0 { sh } else { 0.0 },
                3 => {
                    if (i + rot) % N == j {
                        dv[i]
                    } else {
                        0.0
                    }
                }
                4 => {
                    if i == j && i == i0 {
                        -1.0
                    } else {
                        e
                    }
                }
                8 | 9 => cj[i][j],
                // symmetric, antisymmetric plus identity, small integers
                10 => gm[i.min(j)][i.max(j)],
                11 => e + if i < j { gm[i][j] } else if i > j { -gm[j][i] } else { 0.0 },
                12 => (gm[i][j] * 1.5).round(),
                5 => e * dv[i] + if j > i { gm[i][j] } else { 0.0 },
                _ => gm[i][j],
            })
        });
        let r = rows(a);
        let amp = fnorm(&r).powi(N as i32) / detf(&r).abs();
        if amp < 2e3 {
            return (a, amp * (1.0 + N as f64));
        }
    }
}

fn linear<T: Fl, const N: usize>(c: &mut Ctx) {
    let (a, amp) = gmat::<T, N>(c);
    let p: [T; N] = std::array::from_fn(|_| c.rng.tame());
    let l = Linear::from_matrix(Matrix::from_array_of_arrays(a));
    let what = || format!("matrix {a:?} at {p:?}");
    judge::<T, N>(
        c,
        "Linear",
        &rows(a),
        amp,
        false,
        &|v| l.apply_dir(p.into(), v.into()).into_array(),
        &|n| l.apply_normal(p.into(), n.into()).into_array(),
        &what,
    );
    // the normal transformation itself: <J^-T n, J t> = <n, t>
    let j = rows(a);
    let nt = rows(l.normal_transform().into_matrix().into_array_of_arrays());
    let (x, y): ([f64; N], [f64; N]) = (c.rng.direction(), c.rng.direction());
    let s = dotv(&mv(&nt, &x), &mv(&j, &y));
    c.op("normal_transform");
    c.check((s - dotv(&x, &y)).abs() <= T::eps() * 48.0 * amp * amp, "normal_transform keeps products", || format!("<{x:?}, {y:?}> becomes {s}; {}", what()));
    // affine maps and the opposite order
    let b: [T; N] = std::array::from_fn(|_| c.rng.tame());
    let sh = Shift::from_vector(b.into());
    let aff = Chain::new(sh, l);
    let what = || format!("shift {b:?} and matrix {a:?} at {p:?}");
    judge::<T, N>(c, "shift after linear", &j, amp, false, &|v| aff.apply_dir(p.into(), v.into()).into_array(), &|n| aff.apply_normal(p.into(), n.into()).into_array(), &what);
    let aff = Chain::new(l, sh);
    judge::<T, N>(c, "linear after shift", &j, amp, false, &|v| aff.apply_dir(p.into(), v.into()).into_array(), &|n| aff.apply_normal(p.into(), n.into()).into_array(), &what);
}

fn scale<T: Fl, const N: usize>(c: &mut Ctx) {
    let m: T = loop {
        let m = match c.rng.below(6) {
            0 => T::f(c.rng.pick(&[1.0, -1.0, 2.0, -2.0, 0.5, -0.5])),
            1 => c.rng.special(),
            2 => c.rng.anybits(),
            3 => T::f(c.rng.gauss() * 10f64.powi(c.rng.range(-30, 30) as i32)),
            _ => T::f(c.rng.gauss()),
        };
        if m != T::zero() && m.is_finite() {
            break m;
        }
    };
    let p: [T; N] = std::array::from_fn(|_| c.rng.tame());
    let b: [T; N] = std::array::from_fn(|_| c.rng.tame());
    let (s, sh) = (Scale::from_mag(m), Shift::from_vector(b.into()));
    // the size of the derivative is irrelevant, its sign is not
    let j = eye(N, if m < T::zero() { -1.0 } else { 1.0 });
    let what = || format!("magnitude {m:?}, shift {b:?}, at {p:?}");
    judge::<T, N>(c, "Scale", &j, 1.0, true, &|v| s.apply_dir(Vector::from(p), v.into()).into_array(), &|n| s.apply_normal(Vector::from(p), n.into()).into_array(), &what);
    let a = Chain::<_, _, Vector<T, N>>::new(sh, s);
    judge::<T, N>(c, "shift after scale", &j, 1.0, true, &|v| a.apply_dir(p.into(), v.into()).into_array(), &|n| a.apply_normal(p.into(), n.into()).into_array(), &what);
    let a = Chain::<_, _, Vector<T, N>>::new(s, sh);
    judge::<T, N>(c, "scale after shift", &j, 1.0, true, &|v| a.apply_dir(p.into(), v.into()).into_array(), &|n| a.apply_normal(p.into(), n.into()).into_array(), &what);
    judge::<T, N>(c, "Shift", &eye(N, 1.0), 1.0, true, &|v| sh.apply_dir(Vector::from(p), v.into()).into_array(), &|n| sh.apply_normal(Vector::from(p), n.into()).into_array(), &what);
}
/// integers: a shift leaves directions and normals alone
fn shift_int<const N: usize>(c: &mut Ctx) {
    let p: [i64; N] = std::array::from_fn(|_| c.rng.range(-1 << 40, 1 << 40));
    let v: [i64; N] = std::array::from_fn(|_| c.rng.int());
    let b = Vector::from(std::array::from_fn::<i64, N, _>(|_| c.rng.range(-1 << 40, 1 << 40)));
    c.input(hash_u64s(v.iter().map(|x| *x as u64)));
    let d = || format!("direction {v:?}");
    let sh = Shift::from_vector(b);
    c.eq("Shift::apply_dir integer", sh.apply_dir(Vector::from(p), Vector::from(v)).into_array(), v, d);
    c.eq("Shift::apply_normal integer", sh.apply_normal(Vector::from(p), Vector::from(v)).into_array(), v, d);
}

fn rotation2<T: Fl>(c: &mut Ctx) {
    let th: T = c.rng.angle();
    let p: [T; 2] = std::array::from_fn(|_| c.rng.tame());
    let b: [T; 2] = std::array::from_fn(|_| c.rng.tame());
    let (r, sh) = (Rotation2::new(th), Shift::from_vector(b.into()));
    let (s, k) = th.d().sin_cos();
    let j = vec![vec![k, -s], vec![s, k]];
    let what = || format!("angle {th:?}, shift {b:?}, at {p:?}");
    let amp = if cfg!(miri) { 8.0 } else { 1.0 };
    judge::<T, 2>(c, "Rotation2", &j, amp, true, &|v| r.apply_dir(p.into(), v.into()).into_array(), &|n| r.apply_normal(p.into(), n.into()).into_array(), &what);
    let a = Chain::<_, _, Vector<T, 2>>::new(sh, r);
    judge::<T, 2>(c, "shift after rotation", &j, amp, true, &|v| a.apply_dir(p.into(), v.into()).into_array(), &|n| a.apply_normal(p.into(), n.into()).into_array(), &what);
    let a = Chain::<_, _, Vector<T, 2>>::new(r, sh);
    judge::<T, 2>(c, "rotation after shift", &j, amp, true, &|v| a.apply_dir(p.into(), v.into()).into_array(), &|n| a.apply_normal(p.into(), n.into()).into_array(), &what);
}
fn rotation3<T: Fl>(c: &mut Ctx) {
    let th: T = c.rng.angle();
    let k: [T; 3] = c.rng.unit_vec();
    let p: [T; 3] = std::array::from_fn(|_| c.rng.tame());
    let b: [T; 3] = std::array::from_fn(|_| c.rng.tame());
    let (r, sh) = (Rotation3::new(k.into(), th), Shift::from_vector(b.into()));
    let kd = k.map(|x| x.d());
    let col = |i: usize| rodrigues(kd, th.d(), std::array::from_fn(|m| if m == i { 1.0 } else { 0.0 }));
    let cols = [col(0), col(1), col(2)];
    let j: Jac = (0..3).map(|i| (0..3).map(|m| cols[m][i]).collect()).collect();
    let what = || format!("axis {k:?}, angle {th:?}, shift {b:?}, at {p:?}");
    let amp = 4.0;
    judge::<T, 3>(c, "Rotation3", &j, amp, true, &|v| r.apply_dir(p.into(), v.into()).into_array(), &|n| r.apply_normal(p.into(), n.into()).into_array(), &what);
    let a = Chain::<_, _, Vector<T, 3>>::new(sh, r);
    judge::<T, 3>(c, "shift after 3D rotation", &j, amp, true, &|v| a.apply_dir(p.into(), v.into()).into_array(), &|n| a.apply_normal(p.into(), n.into()).into_array(), &what);
    let a = Chain::<_, _, Vector<T, 3>>::new(r, sh);
    judge::<T, 3>(c, "3D rotation after shift", &j, amp, true, &|v| a.apply_dir(p.into(), v.into()).into_array(), &|n| a.apply_normal(p.into(), n.into()).into_array(), &what);
}

// ---------------------------------------------------------------- Moebius

type Q = [f64; 4];
fn qinv(a: Q) -> Q {
    let n = dotv(&a, &a);
    [a[0] / n, -a[1] / n, -a[2] / n, -a[3] / n]
}
fn qadd(a: Q, b: Q) -> Q {
    std::array::from_fn(|i| a[i] + b[i])
}
fn qsub(a: Q, b: Q) -> Q {
    std::array::from_fn(|i| a[i] - b[i])
}
fn moebius<T: Fl, const N: usize>(
    c: &mut Ctx,
    name: &'static str,
    f: &dyn Fn(&Moebius<Complex<T>>, [T; N], [T; N]) -> [T; N],
    g: &dyn Fn(&Moebius<Complex<T>>, [T; N], [T; N]) -> [T; N],
) {
    let gz = |c: &mut Ctx| -> Complex<T> { Complex::new(c.rng.tame(), c.rng.tame()) };
    let m: [Complex<T>; 4] = match c.rng.below(6) {
        0 => [Complex::zero(), -Complex::<T>::one(), Complex::one(), Complex::zero()],
        1 => [gz(c), gz(c), Complex::zero(), Complex::one()],
        2 => [gz(c), Complex::zero(), Complex::zero(), gz(c)],
        _ => std::array::from_fn(|_| gz(c)),
    };
    let p: [T; N] = std::array::from_fn(|_| c.rng.tame());
    let emb = |z: Complex<T>| -> Q { [z.re().d(), z.im().d(), 0.0, 0.0] };
    let r = m.map(emb);
    let x: Q = std::array::from_fn(|i| if i < N { p[i].d() } else { 0.0 });
    let (u, q) = (qadd(qmul(r[0], x), r[1]), qadd(qmul(r[2], x), r[3]));
    let (nu, nq) = (len(&r[0]) * len(&x) + len(&r[1]), len(&r[2]) * len(&x) + len(&r[3]));
    let lq = len(&q);
    if !(lq > nq * 1e-2 && lq > 1e-6) {
        return;
    }
    // derivative k v q^-1, with k = a - u q^-1 c
    let qi = qinv(q);
    let k = qsub(r[0], qmul(u, qmul(qi, r[2])));
    let amp = (len(&r[0]) + nu * len(&r[2]) / lq) / len(&k) * (nq / lq) * 2.0;
    if !(amp < 1e4) || len(&k) < 1e-8 {
        return;
    }
    let cols: Vec<Q> = (0..N)
        .map(|i| qmul(k, qmul(std::array::from_fn(|t| if t == i { 1.0 } else { 0.0 }), qi)))
        .collect();
    let j: Jac = (0..N).map(|i| (0..N).map(|t| cols[t][i]).collect()).collect();
    let a = Moebius::new(m[0], m[1], m[2], m[3]);
    let what = || format!("coefficients {m:?} at {p:?}");
    judge::<T, N>(c, name, &j, amp, true, &|v| f(&a, p, v), &|v| g(&a, p, v), &what);
}
fn moebius2<T: Fl>(c: &mut Ctx)
where
    Complex<T>: Normalize,
{
    let z = |a: [T; 2]| Complex::new(a[0], a[1]);
    moebius::<T, 2>(c, "Moebius on complex", &|m, p, v| m.apply_dir(z(p), z(v)).into_array(), &|m, p, v| m.apply_normal(z(p), z(v)).into_array());
}
fn moebius4<T: Fl>(c: &mut Ctx)
where
    Quaternion<T>: Normalize,
{
    let h = |a: [T; 4]| Quaternion::from_array(a);
    moebius::<T, 4>(c, "Moebius on quaternions", &|m, p, v| m.apply_dir(h(p), h(v)).into_array(), &|m, p, v| m.apply_normal(h(p), h(v)).into_array());
}

// -------------------------------------------------------------- user maps

/// A smooth map whose derivative depends on the point, so a chain that
/// evaluates a part at the wrong point is seen: x -> A x + (k.x)^2/2 h
#[derive(Clone, Copy, Debug)]
struct Bend<const N: usize> {
    a: [[f64; N]; N],
    k: [f64; N],
    h: [f64; N],
}
impl<const N: usize> Bend<N> {
    fn gen(c: &mut Ctx) -> Self {
        let (a, _) = gmat::<f64, N>(c);
        let r = fnorm(&rows(a));
        Bend {
            a: a.map(|w| w.map(|x| x / r * 2.0)),
            k: std::array::from_fn(|_| c.rng.gauss()),
            h: std::array::from_fn(|_| c.rng.gauss()),
        }
    }
    fn at(&self, x: &[f64]) -> Vec<f64> {
        let s = dotv(&self.k, x).powi(2) / 2.0;
        let mut y = mv(&rows(self.a), x);
        y.iter_mut().zip(&self.h).for_each(|(a, b)| *a += s * b);
        y
    }
    fn jac(&self, x: &[f64]) -> Jac {
        let s = dotv(&self.k, x);
        (0..N).map(|i| (0..N).map(|j| self.a[i][j] + s * self.h[i] * self.k[j]).collect()).collect()
    }
}
fn cramer(j: &Jac, b: &[f64]) -> Vec<f64> {
    let d = detf(j);
    (0..b.len())
        .map(|k| {
            let mut m = j.clone();
            for (r, x) in m.iter_mut().zip(b) {
                r[k] = *x;
            }
            detf(&m) / d
        })
        .collect()
}
fn tr(j: &Jac) -> Jac {
    (0..j.len()).map(|i| (0..j.len()).map(|k| j[k][i]).collect()).collect()
}
fn vv<const N: usize>(x: Vec<f64>) -> Vector<f64, N> {
    vec_from(|i| x[i])
}
impl<const N: usize> Transform<Vector<f64, N>> for Bend<N> {
    fn identity() -> Self {
        unreachable!()
    }
    fn inv(self) -> Self {
        unreachable!()
    }
    fn apply(&self, pos: Vector<f64, N>) -> Vector<f64, N> {
        vv(self.at(&pos.into_array()))
    }
    fn deriv(&self, pos: Vector<f64, N>, dir: Vector<f64, N>) -> Vector<f64, N> {
        vv(mv(&self.jac(&pos.into_array()), &dir.into_array()))
    }
    fn chain(self, _: Self) -> Self {
        unreachable!()
    }
}
impl<const N: usize> Directional<Vector<f64, N>> for Bend<N> {
    fn apply_dir(&self, pos: Vector<f64, N>, dir: Vector<f64, N>) -> Vector<f64, N> {
        let w = mv(&self.jac(&pos.into_array()), &dir.into_array());
        let l = len(&w);
        vv(w.iter().map(|x| x / l).collect())
    }
    fn apply_normal(&self, pos: Vector<f64, N>, normal: Vector<f64, N>) -> Vector<f64, N> {
        let w = cramer(&tr(&self.jac(&pos.into_array())), &normal.into_array());
        let l = len(&w);
        vv(w.iter().map(|x| x / l).collect())
    }
}
macro_rules! reorders {
    ($($a:ty, $b:ty;)*) => {$(
        impl<const N: usize> Reorder<$b, Vector<f64, N>> for $a {
            fn reorder(self, _: $b) -> ($b, Self) {
                unreachable!()
            }
        }
    )*};
}
reorders! {
    Bend<N>, Bend<N>;
    Bend<N>, Shift<f64, N>; Shift<f64, N>, Bend<N>;
    Bend<N>, Linear<f64, N>; Linear<f64, N>, Bend<N>;
    Bend<N>, Scale<f64>; Scale<f64>, Bend<N>;
    Bend<N>, Chain<Bend<N>, Bend<N>, Vector<f64, N>>;
    Bend<N>, Chain<Shift<f64, N>, Linear<f64, N>, Vector<f64, N>>;
}
impl<const N: usize> Reorder<Bend<N>, Vector<f64, N>> for Chain<Bend<N>, Bend<N>, Vector<f64, N>> {
    fn reorder(self, _: Bend<N>) -> (Bend<N>, Self) {
        unreachable!()
    }
}
impl<const N: usize> Reorder<Bend<N>, Vector<f64, N>> for Chain<Shift<f64, N>, Linear<f64, N>, Vector<f64, N>> {
    fn reorder(self, _: Bend<N>) -> (Bend<N>, Self) {
        unreachable!()
    }
}
fn curved<const N: usize, X: Directional<Vector<f64, N>>>(
    c: &mut Ctx,
    (p, what): (&[f64; N], &dyn Fn() -> String),
    name: &'static str,
    j: Jac,
    parts: &[&Jac],
    x: &X,
) {
    let amp: f64 = parts.iter().map(|j| fnorm(j).powi(N as i32).max(1e-3) / detf(j).abs()).product::<f64>()
        * parts.iter().map(|j| 1.0 + fnorm(j)).product::<f64>();
    // amplification by the curvature of the outer map
    let amp = amp * 1e3 * (1.0 + len(p)).powi(4);
    if !(amp < 1e11) {
        return;
    }
    let pv = Vector::from(*p);
    judge::<f64, N>(c, name, &j, amp, false, &|v| x.apply_dir(pv, v.into()).into_array(), &|n| x.apply_normal(pv, n.into()).into_array(), what);
}
fn bend<const N: usize>(c: &mut Ctx) {
    type V<const N: usize> = Vector<f64, N>;
    let (a, b, e) = (Bend::<N>::gen(c), Bend::<N>::gen(c), Bend::<N>::gen(c));
    let (m, _) = gmat::<f64, N>(c);
    let mr = fnorm(&rows(m));
    let m = m.map(|w| w.map(|x| x / mr * 2.0));
    let l = Linear::from_matrix(Matrix::from_array_of_arrays(m));
    let t: [f64; N] = std::array::from_fn(|_| c.rng.gauss());
    let sh = Shift::from_vector(Vector::from(t));
    let k = c.rng.uniform(0.3, 2.0) * if c.rng.chance(1, 2) { -1.0 } else { 1.0 };
    let sc = Scale::from_mag(k);
    let p: [f64; N] = std::array::from_fn(|_| c.rng.gauss());
    let plus = |x: &[f64]| -> Vec<f64> { x.iter().zip(&t).map(|(a, b)| a + b).collect() };
    let times = |x: &[f64]| -> Vec<f64> { x.iter().map(|a| a * k).collect() };
    let what = || format!("outer {a:?}, inner {b:?}, third {e:?}, matrix {m:?}, shift {t:?}, magnitude {k}, at {p:?}");
    let (jb, jm, i1, ik) = (b.jac(&p), rows(m), eye(N, 1.0), eye(N, k));
    let ab = a.jac(&b.at(&p));
    curved(c, (&p, &what), "user map after user map", mmul(&ab, &jb), &[&ab, &jb], &Chain::<_, _, V<N>>::new(a, b));
    let at = a.jac(&plus(&p));
    curved(c, (&p, &what), "user map after shift", at.clone(), &[&at, &i1], &Chain::<_, _, V<N>>::new(a, sh));
    curved(c, (&p, &what), "shift after user map", jb.clone(), &[&jb, &i1], &Chain::<_, _, V<N>>::new(sh, b));
    let al = a.jac(&mv(&jm, &p));
    curved(c, (&p, &what), "user map after linear", mmul(&al, &jm), &[&al, &jm], &Chain::<_, _, V<N>>::new(a, l));
    curved(c, (&p, &what), "linear after user map", mmul(&jm, &jb), &[&jb, &jm], &Chain::<_, _, V<N>>::new(l, b));
    let ak = a.jac(&times(&p));
    curved(c, (&p, &what), "user map after scale", mmul(&ak, &ik), &[&ak, &ik], &Chain::<_, _, V<N>>::new(a, sc));
    curved(c, (&p, &what), "scale after user map", mmul(&ik, &jb), &[&jb, &ik], &Chain::<_, _, V<N>>::new(sc, b));
    // nested chains
    let eb = e.jac(&a.at(&b.at(&p)));
    curved(c, (&p, &what), "user map after a chain", mmul(&eb, &mmul(&ab, &jb)), &[&eb, &ab, &jb], &Chain::<_, _, V<N>>::new(e, Chain::<_, _, V<N>>::new(a, b)));
    curved(c, (&p, &what), "chain after a user map", mmul(&eb, &mmul(&ab, &jb)), &[&eb, &ab, &jb], &Chain::<_, _, V<N>>::new(Chain::<_, _, V<N>>::new(e, a), b));
    let af = a.jac(&plus(&mv(&jm, &p)));
    curved(c, (&p, &what), "user map after affine", mmul(&af, &jm), &[&af, &jm], &Chain::<_, _, V<N>>::new(a, Chain::<_, _, V<N>>::new(sh, l)));
    curved(c, (&p, &what), "affine after user map", mmul(&jm, &jb), &[&jb, &jm], &Chain::<_, _, V<N>>::new(Chain::<_, _, V<N>>::new(sh, l), b));
}

fn main() {
    let mut s = Suite::new(
        "C18",
        "a case moves directions and normals through a transformation (reflections, shears, negative and non-uniform scales, rotations, \
         Moebius maps, chains, nested chains with user-defined curved maps) at a point and judges them against the true derivative; \
         non-trivial: (transformation, direction, normal) hashed differ",
    );
    s.section("linear_f64", 2000, |c| run_table!(c, [linear::<f64, 1>, linear::<f64, 2>, linear::<f64, 3>, linear::<f64, 4>, linear::<f64, 5>, linear::<f64, 6>] as [fn(&mut Ctx); 6]));
    s.section("linear_f32", 1500, |c| run_table!(c, [linear::<f32, 1>, linear::<f32, 2>, linear::<f32, 3>, linear::<f32, 4>] as [fn(&mut Ctx); 4]));
    s.section("scale_f64", 2000, |c| run_table!(c, [scale::<f64, 1>, scale::<f64, 2>, scale::<f64, 3>, scale::<f64, 5>, scale::<f64, 9>, scale::<f64, 17>] as [fn(&mut Ctx); 6]));
    s.section("scale_f32", 1500, |c| run_table!(c, [scale::<f32, 1>, scale::<f32, 2>, scale::<f32, 3>, scale::<f32, 4>] as [fn(&mut Ctx); 4]));
    s.section("shift_int", 400, |c| run_table!(c, [shift_int::<1>, shift_int::<2>, shift_int::<3>, shift_int::<6>] as [fn(&mut Ctx); 4]));
    s.section("rotation2_f64", 800, rotation2::<f64>);
    s.section("rotation2_f32", 800, rotation2::<f32>);
    s.section("rotation3_f64", 1000, rotation3::<f64>);
    s.section("rotation3_f32", 1000, rotation3::<f32>);
    s.section("moebius_complex_f64", 2000, moebius2::<f64>);
    s.section("moebius_complex_f32", 2000, moebius2::<f32>);
    s.section("moebius_quaternion_f64", 2000, moebius4::<f64>);
    s.section("moebius_quaternion_f32", 2000, moebius4::<f32>);
    s.section("linear_wide", 400, |c| run_table!(c, [linear::<Wide, 2>, linear::<Wide, 3>] as [fn(&mut Ctx); 2]));
    s.section("scale_wide", 400, scale::<Wide, 3>);
    s.section("rotation2_wide", 300, rotation2::<Wide>);
    s.section("rotation3_wide", 300, rotation3::<Wide>);
    s.section("moebius_complex_wide", 400, moebius2::<Wide>);
    s.section("moebius_quaternion_wide", 400, moebius4::<Wide>);
    s.section("curved", 1500, |c| run_table!(c, [bend::<2>, bend::<3>, bend::<4>, bend::<1>, bend::<7>] as [fn(&mut Ctx); 5]));
    s.run();
}
