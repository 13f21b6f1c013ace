//! C20: random distributions have the documented probability law.
//! An online monitor accumulates statistics with known expectations over
//! large samples; nothing is compared with particular sample values.
use harness::*;
#[cfg(feature = "rand")]
fn main() {
    on::main()
}
#[cfg(not(feature = "rand"))]
fn main() {
    Suite::new("C20", "needs the rand feature").run()
}

#[cfg(feature = "rand")]
mod on {
    use super::*;
    use rand_::distributions::Distribution;
    use rand_::{Error, Rng as _, RngCore};
    use std::cell::Cell;
    use std::f64::consts::PI;
    use vecmat::distr::{Invertible, Normal, Uniform, Unit};
    use vecmat::matrix::MatrixDistribution;
    use vecmat::transform::{Affine, Linear, Rotation2, Rotation3, Scale, Shift};
    use vecmat::vector::VectorDistribution;
    use vecmat::{Complex, Matrix, Quaternion, Transform, Vector};

    /// sigmas; a false alarm needs an event of probability below 1e-11
    const LIMIT: f64 = 7.0;
    /// Kolmogorov: P(sqrt(n) D > 4) < 3e-14
    const KS: f64 = 4.0;

    struct Good(Rng);
    impl RngCore for Good {
        fn next_u32(&mut self) -> u32 {
            (self.0.u64() >> 32) as u32
        }
        fn next_u64(&mut self) -> u64 {
            self.0.u64()
        }
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            for ch in dest.chunks_mut(8) {
                let w = self.0.u64().to_le_bytes();
                let n = ch.len();
                ch.copy_from_slice(&w[..n]);
            }
        }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(dest);
            Ok(())
        }
    }
    extern "C" {
        fn erf(x: f64) -> f64;
    }
    fn phi(x: f64) -> f64 {
        0.5 * (1.0 + unsafe { erf(x / std::f64::consts::SQRT_2) })
    }

    fn budget(c: &Ctx, k: usize) -> usize {
        let work = if cfg!(debug_assertions) { 1.6e6 } else { 3.2e7 } * if c.thorough { 6.0 } else { 1.0 };
        // at least enough for the central limit
        ((work / (k * k + 10 * k) as f64) as usize).clamp(8000, 3_000_000)
    }
    /// mean of statistics with known expectation
    struct Acc {
        n: f64,
        names: Vec<String>,
        mu: Vec<f64>,
        s: Vec<f64>,
        q: Vec<f64>,
        /// degenerate statistics may have no variance at all
        k: usize,
    }
    impl Acc {
        fn new() -> Self {
            Acc { n: 0.0, names: vec![], mu: vec![], s: vec![], q: vec![], k: 0 }
        }
        fn begin(&mut self) {
            self.n += 1.0;
            self.k = 0;
        }
        fn put(&mut self, name: impl Fn() -> String, mu: f64, x: f64) {
            if self.k == self.names.len() {
                self.names.push(name());
                self.mu.push(mu);
                self.s.push(0.0);
                self.q.push(0.0);
            }
            let d = x - self.mu[self.k];
            self.s[self.k] += d;
            self.q[self.k] += d * d;
            self.k += 1;
        }
        fn judge(&self, c: &mut Ctx, what: &str) {
            for i in 0..self.names.len() {
                let m = self.s[i] / self.n;
                let sd = (self.q[i] / self.n).sqrt() / self.n.sqrt();
                // rounding of single precision samples
                let z = m.abs() / (sd + 1e-9);
                c.check(z < LIMIT || m.abs() < 2e-7, "expectation", || {
                    format!("{what}: {} is {:.6}, expected {:.6} ({z:.1} sigma over {} samples)", self.names[i], m + self.mu[i], self.mu[i], self.n)
                });
            }
            c.ops("statistics with known expectation", self.names.len() as u64);
        }
    }
    thread_local!(static SINGLE: Cell<bool> = const { Cell::new(false) });
    fn precision<T>() {
        SINGLE.with(|s| s.set(std::mem::size_of::<T>() < 8));
    }
    fn ks(c: &mut Ctx, what: &str, mut v: Vec<f64>, cdf: &dyn Fn(f64) -> f64) {
        c.check(v.iter().all(|x| x.is_finite()), "finite", || what.to_string());
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let n = v.len() as f64;
        let (mut d, mut at) = (0.0f64, 0.0);
        let mut pairs = 0.0;
        let mut i = 0;
        while i < v.len() {
            // ties share one step
            let mut j = i;
            while j + 1 < v.len() && v[j + 1] == v[i] {
                j += 1;
            }
            pairs += ((j + 1 - i) * (j - i)) as f64 / 2.0;
            let p = cdf(v[i]);
            // a step of the empirical law may be rounded sideways in f32
            let e = (p - (j + 1) as f64 / n).abs().max((p - i as f64 / n).abs());
            if e > d {
                d = e;
                at = v[i];
            }
            i = j + 1;
        }
        // a continuous law takes as many values as the precision allows
        // (random bits of the uniform draws and rounding considered)
        let allowed = 30.0 + n * n / 2.0 * if SINGLE.with(|s| s.get()) { 2f64.powi(-19) } else { 2f64.powi(-30) };
        c.check(pairs <= allowed, "granularity", || format!("{what}: {pairs} pairs of equal values among {n} samples"));
        let t = d * n.sqrt();
        c.op("Kolmogorov distances");
        c.check(t < KS, "distribution function", || format!("{what}: Kolmogorov distance {d:.6} at {at:.4} ({t:.1} over {n} samples)"));
    }

    // ------------------------------------------------------------- normal

    fn normal_law(c: &mut Ctx, what: &'static str, k: usize, mut f: impl FnMut(&mut Good) -> Vec<f64>) {
        let mut g = Good(Rng::new(c.rng.u64()));
        let n = budget(c, k);
        let mut a = Acc::new();
        let mut vals: Vec<Vec<f64>> = vec![vec![]; k];
        let keep = n.min(if cfg!(debug_assertions) { 20_000 } else { 300_000 });
        let mut prev: Vec<f64> = vec![];
        let mut prev2: Vec<f64> = vec![];
        let mut h = 0;
        for t in 0..n {
            let x = f(&mut g);
            assert_eq!(x.len(), k);
            h = hash2(h, x[0].to_bits());
            if t >= 2 {
                a.begin();
                for i in 0..k {
                    let v = x[i];
                    a.put(|| format!("mean of component {i}"), 0.0, v);
                    a.put(|| format!("variance of component {i}"), 1.0, v * v);
                    a.put(|| format!("third moment of component {i}"), 0.0, v * v * v);
                    a.put(|| format!("fourth moment of component {i}"), 3.0, v * v * v * v);
                    a.put(|| format!("mean of the fifth power of component {i}, clamped"), 0.0, v.clamp(-2.0, 2.0).powi(5));
                    a.put(|| format!("P(component {i} > 0)"), 0.5, if v > 0.0 { 1.0 } else { 0.0 });
                    for j in 0..i {
                        let w = x[j];
                        a.put(|| format!("covariance of components {i} and {j}"), 0.0, v * w);
                        a.put(|| format!("covariance of squares of components {i} and {j}"), 0.0, (v * v - 1.0) * (w * w - 1.0));
                        a.put(|| format!("mixed moment (2, 1) of components {i} and {j}"), 0.0, (v * v - 1.0) * w);
                        a.put(|| format!("mixed moment (1, 2) of components {i} and {j}"), 0.0, (w * w - 1.0) * v);
                        a.put(|| format!("covariance of signs of components {i} and {j}"), 0.0, v.signum() * w.signum());
                    }
                    for j in 0..k {
                        for (lag, p) in [(1, &prev), (2, &prev2)] {
                            let w = p[j];
                            a.put(|| format!("covariance of component {i} and component {j} of {lag} samples before"), 0.0, v * w);
                            a.put(|| format!("covariance of squares of component {i} and component {j} of {lag} samples before"), 0.0, (v * v - 1.0) * (w * w - 1.0));
                        }
                    }
                }
            }
            if t < keep {
                for i in 0..k {
                    vals[i].push(x[i]);
                }
            }
            prev2 = std::mem::replace(&mut prev, x);
        }
        c.input(h);
        c.sample(|| format!("{what}: {n} samples of {k} components, the last is {prev:?}"));
        c.ops("normal samples", n as u64);
        a.judge(c, what);
        for (i, v) in vals.into_iter().enumerate() {
            ks(c, &format!("{what}, component {i}"), v, &phi);
        }
    }
    fn dd<T: Fl>(v: impl IntoIterator<Item = T>) -> Vec<f64> {
        v.into_iter().map(|x| x.d()).collect()
    }
    fn normals<T: Fl + vecmat::traits::Epsilon>(c: &mut Ctx)
    where
        Normal: Distribution<T>,
    {
        precision::<T>();
        match c.index % 18 {
            0 => normal_law(c, "Normal scalar", 1, |g| vec![g.sample::<T, _>(Normal).d()]),
            1 => normal_law(c, "Normal vector of 2", 2, |g| dd(g.sample::<Vector<T, 2>, _>(Normal).into_array())),
            2 => normal_law(c, "Normal vector of 3", 3, |g| dd(g.sample::<Vector<T, 3>, _>(Normal).into_array())),
            3 => normal_law(c, "Normal vector of 4", 4, |g| dd(g.sample::<Vector<T, 4>, _>(Normal).into_array())),
            4 => normal_law(c, "Normal vector of 7", 7, |g| dd(g.sample::<Vector<T, 7>, _>(Normal).into_array())),
            5 => normal_law(c, "Normal 2x3 matrix", 6, |g| dd(g.sample::<Matrix<T, 2, 3>, _>(Normal).flat())),
            6 => normal_law(c, "Normal 3x3 matrix", 9, |g| dd(g.sample::<Matrix<T, 3, 3>, _>(Normal).flat())),
            7 => normal_law(c, "Normal complex", 2, |g| dd(g.sample::<Complex<T>, _>(Normal).into_array())),
            8 => normal_law(c, "Normal quaternion", 4, |g| dd(g.sample::<Quaternion<T>, _>(Normal).into_array())),
            9 => normal_law(c, "Normal shift", 3, |g| dd(g.sample::<Shift<T, 3>, _>(Normal).into_vector().into_array())),
            10 => normal_law(c, "Normal scale", 1, |g| vec![g.sample::<Scale<T>, _>(Normal).into_mag().d()]),
            11 => normal_law(c, "Normal linear", 4, |g| dd(g.sample::<Linear<T, 2>, _>(Normal).into_matrix().flat())),
            12 => normal_law(c, "Normal affine", 6, |g| {
                let (s, l) = g.sample::<Affine<T, 2>, _>(Normal).split();
                dd([s.into_vector().flat(), l.into_matrix().flat()].concat())
            }),
            13 => normal_law(c, "Normal vector of complex", 4, |g| {
                dd(g.sample::<Vector<Complex<T>, 2>, _>(Normal).into_array().into_iter().flat_map(|z| z.into_array()))
            }),
            14 => normal_law(c, "component distributions over Normal", 6, |g| {
                let v: Vector<T, 2> = g.sample(VectorDistribution::new(Normal));
                let m: Matrix<T, 2, 2> = g.sample(MatrixDistribution::new(Normal));
                dd([v.flat(), m.flat()].concat())
            }),
            15 => normal_law(c, "Normal vector of 12", 12, |g| dd(g.sample::<Vector<T, 12>, _>(Normal).into_array())),
            16 => normal_law(c, "Normal 4x3 matrix", 12, |g| dd(g.sample::<Matrix<T, 4, 3>, _>(Normal).flat())),
            // the shift of an invertible affine map is normal
            _ => normal_law(c, "shift of an invertible affine map", 3, |g| dd(g.sample::<Affine<T, 3>, _>(Invertible).split().0.into_vector().into_array())),
        }
    }

    // --------------------------------------------------------------- unit

    /// law of one coordinate of a uniform point of the unit sphere in R^n
    fn marginal(n: usize, x: f64) -> f64 {
        let x = x.clamp(-1.0, 1.0);
        match n {
            2 => 1.0 - x.acos() / PI,
            3 => (1.0 + x) / 2.0,
            4 => 0.5 + (x.asin() + x * (1.0 - x * x).sqrt()) / PI,
            5 => 0.5 + 0.75 * (x - x.powi(3) / 3.0),
            7 => 0.5 + 15.0 / 16.0 * (x - 2.0 * x.powi(3) / 3.0 + x.powi(5) / 5.0),
            _ => {
                // the density is proportional to (1 - x^2)^((n - 3) / 2)
                let f = |a: f64| -> f64 {
                    let (m, h) = (40, (a + 1.0) / 80.0);
                    let g = |x: f64| (1.0 - x * x).max(0.0).powf((n as f64 - 3.0) / 2.0);
                    (0..m).map(|i| { let l = -1.0 + 2.0 * h * i as f64; (g(l) + 4.0 * g(l + h) + g(l + 2.0 * h)) * h / 3.0 }).sum()
                };
                f(x) / f(1.0)
            }
        }
    }
    fn sphere_law(c: &mut Ctx, what: &'static str, k: usize, mut f: impl FnMut(&mut Good) -> Vec<f64>) {
        let mut g = Good(Rng::new(c.rng.u64()));
        let n = budget(c, k + 2);
        let mut a = Acc::new();
        let keep = n.min(if cfg!(debug_assertions) { 20_000 } else { 300_000 });
        // the coordinate axes and a few other directions
        let mut axes: Vec<Vec<f64>> = (0..k).map(|i| (0..k).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
        for _ in 0..3 {
            let v: Vec<f64> = (0..k).map(|_| c.rng.gauss()).collect();
            let l = len(&v);
            axes.push(v.iter().map(|x| x / l).collect());
        }
        let mut proj: Vec<Vec<f64>> = vec![vec![]; axes.len()];
        let mut prev: Vec<f64> = vec![];
        let kk = k as f64;
        let mut h = 0;
        for t in 0..n {
            let x = f(&mut g);
            h = hash2(h, x[0].to_bits());
            if t > 0 {
                a.begin();
                for i in 0..k {
                    let v = x[i];
                    a.put(|| format!("mean of coordinate {i}"), 0.0, v);
                    a.put(|| format!("mean sign of coordinate {i}"), 0.0, v.signum());
                    if k > 1 {
                        a.put(|| format!("second moment of coordinate {i}"), 1.0 / kk, v * v);
                        a.put(|| format!("third moment of coordinate {i}"), 0.0, v * v * v);
                        a.put(|| format!("fourth moment of coordinate {i}"), 3.0 / kk / (kk + 2.0), v * v * v * v);
                        a.put(|| format!("sixth moment of coordinate {i}"), 15.0 / kk / (kk + 2.0) / (kk + 4.0), v.powi(6));
                    }
                    for j in 0..i {
                        let w = x[j];
                        a.put(|| format!("covariance of coordinates {i} and {j}"), 0.0, v * w);
                        a.put(|| format!("mixed moment (2, 2) of coordinates {i} and {j}"), 1.0 / kk / (kk + 2.0), v * v * w * w);
                        a.put(|| format!("mixed moment (3, 1) of coordinates {i} and {j}"), 0.0, v * v * v * w);
                        a.put(|| format!("mixed moment (1, 3) of coordinates {i} and {j}"), 0.0, v * w * w * w);
                        a.put(|| format!("mixed moment (2, 1) of coordinates {i} and {j}"), 0.0, v * v * w);
                        a.put(|| format!("mixed moment (1, 2) of coordinates {i} and {j}"), 0.0, v * w * w);
                        for l in 0..j {
                            a.put(|| format!("mixed moment (1, 1, 1) of coordinates {i}, {j}, {l}"), 0.0, v * w * x[l]);
                        }
                    }
                    for j in 0..k {
                        let w = prev[j];
                        a.put(|| format!("covariance of coordinate {i} and coordinate {j} of the previous sample"), 0.0, v * w);
                        if k > 1 {
                            a.put(|| format!("covariance of squares of coordinate {i} and coordinate {j} of the previous sample"), 0.0, (v * v - 1.0 / kk) * (w * w - 1.0 / kk));
                        }
                    }
                }
            }
            if t < keep {
                for (p, a) in proj.iter_mut().zip(&axes) {
                    p.push(a.iter().zip(&x).map(|(a, b)| a * b).sum());
                }
            }
            prev = x;
        }
        c.input(h);
        c.sample(|| format!("{what}: {n} samples, the last is {prev:?}"));
        c.ops("sphere samples", n as u64);
        a.judge(c, what);
        if k > 1 {
            for (p, a) in proj.into_iter().zip(&axes) {
                ks(c, &format!("{what}, projection on {a:?}"), p, &|x| marginal(k, x));
            }
        }
    }
    fn units<T: Fl>(c: &mut Ctx)
    where
        Normal: Distribution<T>,
    {
        precision::<T>();
        match c.index % 9 {
            0 => sphere_law(c, "Unit vector of 1", 1, |g| dd(g.sample::<Vector<T, 1>, _>(Unit).into_array())),
            1 => sphere_law(c, "Unit vector of 2", 2, |g| dd(g.sample::<Vector<T, 2>, _>(Unit).into_array())),
            2 => sphere_law(c, "Unit vector of 3", 3, |g| dd(g.sample::<Vector<T, 3>, _>(Unit).into_array())),
            3 => sphere_law(c, "Unit vector of 4", 4, |g| dd(g.sample::<Vector<T, 4>, _>(Unit).into_array())),
            4 => sphere_law(c, "Unit vector of 5", 5, |g| dd(g.sample::<Vector<T, 5>, _>(Unit).into_array())),
            5 => sphere_law(c, "Unit vector of 7", 7, |g| dd(g.sample::<Vector<T, 7>, _>(Unit).into_array())),
            8 => sphere_law(c, "Unit vector of 12", 12, |g| dd(g.sample::<Vector<T, 12>, _>(Unit).into_array())),
            6 => sphere_law(c, "Unit complex", 2, |g| dd(g.sample::<Complex<T>, _>(Unit).into_array())),
            _ => sphere_law(c, "Unit quaternion", 4, |g| dd(g.sample::<Quaternion<T>, _>(Unit).into_array())),
        }
    }

    // ---------------------------------------------------------- rotations

    fn rot2<T: Fl + rand_::distributions::uniform::SampleUniform>(c: &mut Ctx)
    where
        rand_::distributions::Uniform<T>: Distribution<T>,
    {
        precision::<T>();
        match c.index % 3 {
            0 => sphere_law(c, "Uniform 2D rotation as complex number", 2, |g| dd(g.sample::<Rotation2<T>, _>(Uniform).into_complex().into_array())),
            1 => {
                let v: [T; 2] = c.rng.unit_vec();
                sphere_law(c, "image of a vector under a uniform 2D rotation", 2, move |g| {
                    let w = dd(g.sample::<Rotation2<T>, _>(Uniform).apply(v.into()).into_array());
                    let l = len(&w);
                    w.iter().map(|x| x / l).collect()
                })
            }
            _ => {
                let mut g = Good(Rng::new(c.rng.u64()));
                let n = budget(c, 4);
                let mut a = Acc::new();
                let mut ang = vec![];
                let mut last = 0.0;
                for t in 0..n {
                    let z = g.sample::<Rotation2<T>, _>(Uniform).into_complex();
                    let th = z.im().d().atan2(z.re().d()).rem_euclid(2.0 * PI);
                    if t > 0 {
                        a.begin();
                        for k in 1..=12 {
                            a.put(|| format!("mean of cos({k} angle)"), 0.0, (k as f64 * th).cos());
                            a.put(|| format!("mean of sin({k} angle)"), 0.0, (k as f64 * th).sin());
                            a.put(|| format!("mean of cos({k} difference to the previous angle)"), 0.0, (k as f64 * (th - last)).cos());
                        }
                    }
                    last = th;
                    if t < 300_000 {
                        ang.push(th);
                    }
                }
                c.input(last.to_bits());
                c.ops("angle samples", n as u64);
                a.judge(c, "Uniform 2D rotation");
                ks(c, "angle of a uniform 2D rotation", ang, &|x| x / (2.0 * PI));
            }
        }
    }
    fn rot3<T: Fl + rand_::distributions::uniform::SampleUniform>(c: &mut Ctx)
    where
        Normal: Distribution<T>,
        rand_::distributions::Uniform<T>: Distribution<T>,
    {
        precision::<T>();
        match c.index % 5 {
            k @ 0..=2 => {
                // a fixed vector, and a fixed vector turned by the inverse
                let v: [T; 3] = if k == 0 { [T::zero(), T::zero(), T::one()] } else { c.rng.unit_vec() };
                sphere_law(c, "image of a vector under a uniform 3D rotation", 3, move |g| {
                    let r = g.sample::<Rotation3<T>, _>(Uniform);
                    let r = if k == 2 { r.inv() } else { r };
                    let w = dd(r.apply(v.into()).into_array());
                    let l = len(&w);
                    w.iter().map(|x| x / l).collect()
                })
            }
            3 => {
                // as a quaternion up to sign: uniform on the 3-sphere
                sphere_law(c, "quaternion of a uniform 3D rotation with a random sign", 4, |g| {
                    let q = dd(g.sample::<Rotation3<T>, _>(Uniform).into_quaternion().into_array());
                    let s = if g.0.chance(1, 2) { -1.0 } else { 1.0 };
                    q.iter().map(|x| x * s).collect()
                })
            }
            _ => {
                let mut g = Good(Rng::new(c.rng.u64()));
                let n = budget(c, 9);
                let mut a = Acc::new();
                let mut ang = vec![];
                let mut prev = [0.0; 9];
                for t in 0..n {
                    let r = g.sample::<Rotation3<T>, _>(Uniform);
                    let e = |i: usize| {
                        let mut v = [T::zero(); 3];
                        v[i] = T::one();
                        r.apply(v.into()).into_array()
                    };
                    let cols = [e(0), e(1), e(2)];
                    let m: [f64; 9] = std::array::from_fn(|i| cols[i % 3][i / 3].d());
                    if t > 0 {
                        a.begin();
                        let tr = m[0] + m[4] + m[8];
                        for (k, mu) in [(1, 0.0), (2, 1.0), (3, 1.0), (4, 3.0), (5, 6.0), (6, 15.0)] {
                            a.put(|| format!("mean of trace^{k}"), mu, tr.powi(k));
                        }
                        for i in 0..9 {
                            a.put(|| format!("mean of matrix entry {i}"), 0.0, m[i]);
                            for j in 0..i {
                                a.put(|| format!("covariance of matrix entries {i} and {j}"), 0.0, m[i] * m[j]);
                            }
                            a.put(|| format!("second moment of matrix entry {i}"), 1.0 / 3.0, m[i] * m[i]);
                            for j in 0..9 {
                                a.put(|| format!("covariance of matrix entry {i} and previous entry {j}"), 0.0, m[i] * prev[j]);
                            }
                        }
                    }
                    prev = m;
                    if t < 300_000 {
                        let tr: f64 = m[0] + m[4] + m[8];
                        ang.push(((tr - 1.0) / 2.0).clamp(-1.0, 1.0).acos());
                    }
                }
                c.input(prev[0].to_bits());
                c.ops("3D rotation samples", n as u64);
                a.judge(c, "Uniform 3D rotation");
                ks(c, "angle of a uniform 3D rotation", ang, &|x| (x - x.sin()) / PI);
            }
        }
    }

    pub fn main() {
        let mut s = Suite::new(
            "C20",
            "a case draws a large sample of one distribution from a healthy source and compares moments, correlations within and between \
             samples, and distribution functions with those of the documented law; non-trivial: samples (hashed) differ",
        );
        s.native("normal_f64", 18, normals::<f64>);
        s.native("normal_f32", 18, normals::<f32>);
        s.native("unit_f64", 9, units::<f64>);
        s.native("unit_f32", 9, units::<f32>);
        s.native("rotation2_f64", 3, rot2::<f64>);
        s.native("rotation2_f32", 3, rot2::<f32>);
        s.native("rotation3_f64", 5, rot3::<f64>);
        s.native("rotation3_f32", 5, rot3::<f32>);
        s.run();
    }
}
