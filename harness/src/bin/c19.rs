//! C19: random distributions only produce elements with the promised
//! property, whatever the source delivers, and do not loop for ever.
use harness::*;
#[cfg(feature = "rand")]
fn main() {
    on::main()
}
#[cfg(not(feature = "rand"))]
fn main() {
    Suite::new("C19", "needs the rand feature").run()
}

#[cfg(feature = "rand")]
mod on {
    use super::*;
    use num_traits::Zero;
    use rand_::distributions::Distribution;
    use rand_::{Error, Rng as _, RngCore};
    use std::cell::{Cell, RefCell};
    use vecmat::complex::Moebius;
    use vecmat::distr::{Invertible, NonZero, Normal, Uniform, Unit};
    use vecmat::matrix::MatrixDistribution;
    use vecmat::transform::{Affine, Linear, Rotation2, Rotation3, Scale, Shift};
    use vecmat::vector::VectorDistribution;
    use vecmat::{Complex, Matrix, Quaternion, Vector};

    /// A source that follows a hostile script for a while and is healthy
    /// afterwards; it counts draws and refuses to serve for ever.
    #[derive(Clone)]
    pub struct Source {
        pat: Vec<u64>,
        kind: usize,
        prefix: u64,
        pub drawn: u64,
        pub budget: u64,
        rng: Rng,
        desc: &'static str,
    }
    const POISON: [u64; 14] = [
        0,
        u64::MAX,
        0x8000_0000_0000_0000,
        0x7FFF_FFFF_FFFF_FFFF,
        0x8000_0000_8000_0000,
        0x7FFF_FF00_7FFF_FF00,
        0x8000_0080_0000_0000,
        0x8000_0000_0000_0800,
        1,
        0xFFFF_FFFF,
        0xFFFF_FFFF_0000_0000,
        0x4000_0000_4000_0000,
        0xC000_0000_C000_0000,
        0x0000_0100_0000_1000,
    ];
    impl Source {
        pub fn gen(c: &mut Ctx) -> Self {
            let r = &mut c.rng;
            let kind = r.pick(&[0, 1, 2, 3, 3, 4, 5, 6, 7, 7]);
            let n = 1 + r.below(8);
            let pat: Vec<u64> = match kind {
                0 => vec![0],
                1 => vec![u64::MAX],
                2 => (0..n).map(|_| r.pick(&POISON)).collect(),
                // a healthy word, then the one that makes the cosine vanish
                3 => vec![0, 0x8000_0000_0000_0000],
                4 => (0..n).map(|_| r.u64()).collect(),
                _ => vec![],
            };
            let prefix = match r.below(5) {
                0 => 0,
                1 => r.below(8) as u64,
                2 => r.below(64) as u64,
                3 => r.below(500) as u64,
                _ => r.below(3000) as u64 * if c.miri { 0 } else { 1 } + 10,
            };
            let desc = ["all zero", "all ones", "periodic poison", "vanishing cosines", "periodic", "mixed poison", "half poison", "often vanishing cosines"][kind];
            Source { pat, kind, prefix, drawn: 0, budget: 0, rng: Rng::new(r.u64()), desc }
        }
        pub fn healthy(c: &mut Ctx) -> Self {
            Source { pat: vec![], kind: 9, prefix: 0, drawn: 0, budget: 0, rng: Rng::new(c.rng.u64()), desc: "healthy" }
        }
        pub fn show(&self) -> String {
            format!("source: {} for {} words ({:x?})", self.desc, self.prefix, self.pat)
        }
        fn next(&mut self) -> u64 {
            self.drawn += 1;
            if self.budget > 0 && self.drawn > self.prefix + self.budget {
                panic!("endless sampling: {} words drawn, the last {} of them from a healthy source; {}", self.drawn, self.drawn - self.prefix, self.show());
            }
            let h = self.rng.u64();
            if self.drawn > self.prefix {
                return h;
            }
            let k = self.drawn as usize - 1;
            match self.kind {
                3 if k % 2 == 0 => h,
                3 => 0x8000_0000_0000_0000,
                7 if k % 2 == 1 && self.rng.chance(2, 3) => 0x8000_0000_0000_0000,
                7 => h,
                5 => self.rng.pick(&POISON),
                6 => {
                    if self.rng.chance(1, 2) {
                        h
                    } else {
                        self.rng.pick(&POISON)
                    }
                }
                _ => self.pat[k % self.pat.len()],
            }
        }
    }
    impl RngCore for Source {
        fn next_u32(&mut self) -> u32 {
            (self.next() >> 32) as u32
        }
        fn next_u64(&mut self) -> u64 {
            self.next()
        }
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            for ch in dest.chunks_mut(8) {
                let w = self.next().to_le_bytes();
                let n = ch.len();
                ch.copy_from_slice(&w[..n]);
            }
        }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(dest);
            Ok(())
        }
    }

    fn one_of<X, D: Distribution<X>>(how: usize, d: &D, s: &mut Source) -> X {
        match how {
            0 => d.sample(s),
            1 => s.sample(d),
            2 => {
                let r: &mut dyn RngCore = s;
                d.sample(r)
            }
            _ => {
                // not the first sample of the stream
                let _ = d.sample(s);
                d.sample(s)
            }
        }
    }
    /// Sample, through one of the ways a user may call.
    fn draw<X: PartialEq + std::fmt::Debug, D: Distribution<X>>(c: &mut Ctx, d: &D, n: usize) -> (X, Source) {
        let mut s = Source::gen(c);
        // generous: rejection is rare on a healthy source
        s.budget = 20_000 + 400 * n as u64;
        let how = c.rng.below(4);
        let mut t = s.clone();
        let x = one_of(how, d, &mut s);
        if c.rng.chance(1, 4) {
            // the same words again, after whatever was sampled in between
            let y = one_of(if how < 3 { 2 - how } else { how }, d, &mut t);
            c.op("the same source again");
            c.check(x == y && s.drawn == t.drawn, "equal sources give equal samples", || {
                format!("{}: {x:?} after {} words, then {y:?} after {}; {}", std::any::type_name::<X>(), s.drawn, t.drawn, s.show())
            });
        }
        (x, s)
    }

    fn finite<T: Fl>(c: &mut Ctx, op: &'static str, v: &[T], s: &Source) {
        c.op(op);
        c.input(hash_u64s(v.iter().map(|x| x.bits())));
        c.check(v.iter().all(|x| x.is_finite()), "samples are finite", || format!("{op} ({}) gave {v:?}; {}", T::NAME, s.show()));
        // sqrt(-2 ln 2^-53) is below 8.6, so nothing healthy exceeds this
        c.sample(|| format!("{op}: {v:?} from {}", s.show()));
    }
    fn normal<T: Fl, const N: usize>(c: &mut Ctx)
    where
        Normal: Distribution<T>,
    {
        let (x, s) = draw::<T, _>(c, &Normal, 1);
        finite(c, "Normal scalar", &[x], &s);
        let (x, s) = draw::<Vector<T, N>, _>(c, &Normal, N);
        finite(c, "Normal vector", &x.into_array(), &s);
        let (x, s) = draw::<Matrix<T, N, 3>, _>(c, &Normal, 3 * N);
        finite(c, "Normal matrix", &x.flat(), &s);
        let (x, s) = draw::<Complex<T>, _>(c, &Normal, 2);
        finite(c, "Normal complex", &x.into_array(), &s);
        let (x, s) = draw::<Quaternion<T>, _>(c, &Normal, 4);
        finite(c, "Normal quaternion", &x.into_array(), &s);
        let (x, s) = draw::<Shift<T, N>, _>(c, &Normal, N);
        finite(c, "Normal shift", &x.into_vector().into_array(), &s);
        let (x, s) = draw::<Scale<T>, _>(c, &Normal, 1);
        finite(c, "Normal scale", &[x.into_mag()], &s);
        let (x, s) = draw::<Linear<T, N>, _>(c, &Normal, N * N);
        finite(c, "Normal linear", &x.into_matrix().flat(), &s);
        let (x, s) = draw::<Affine<T, N>, _>(c, &Normal, N * N + N);
        let (a, b) = x.split();
        finite(c, "Normal affine", &[a.into_vector().flat(), b.into_matrix().flat()].concat(), &s);
    }
    fn nonzero<T: Fl, const N: usize>(c: &mut Ctx)
    where
        Normal: Distribution<T>,
    {
        fn big<T: Fl>(c: &mut Ctx, op: &'static str, v: &[T], s: &Source) {
            finite(c, op, v, s);
            let l = len(&v.iter().map(|x| x.d()).collect::<Vec<_>>());
            c.check(l > T::eps() * (1.0 - T::eps() * 100.0), "NonZero norm exceeds epsilon", || format!("{op} ({}) gave {v:?} of norm {l:e}; {}", T::NAME, s.show()));
        }
        fn one<T: Fl>(c: &mut Ctx, op: &'static str, v: &[T], s: &Source) {
            finite(c, op, v, s);
            let l = len(&v.iter().map(|x| x.d()).collect::<Vec<_>>());
            c.check((l - 1.0).abs() <= T::eps() * (8.0 + v.len() as f64), "Unit norm is one", || format!("{op} ({}) gave {v:?} of norm {l}; {}", T::NAME, s.show()));
        }
        let (x, s) = draw::<Vector<T, N>, _>(c, &NonZero, N);
        big(c, "NonZero vector", &x.into_array(), &s);
        let (x, s) = draw::<Complex<T>, _>(c, &NonZero, 2);
        big(c, "NonZero complex", &x.into_array(), &s);
        let (x, s) = draw::<Quaternion<T>, _>(c, &NonZero, 4);
        big(c, "NonZero quaternion", &x.into_array(), &s);
        let (x, s) = draw::<Vector<T, N>, _>(c, &Unit, N);
        one(c, "Unit vector", &x.into_array(), &s);
        let (x, s) = draw::<Complex<T>, _>(c, &Unit, 2);
        one(c, "Unit complex", &x.into_array(), &s);
        let (x, s) = draw::<Quaternion<T>, _>(c, &Unit, 4);
        one(c, "Unit quaternion", &x.into_array(), &s);
    }

    fn lu(a: &[f64], n: usize) -> f64 {
        let mut a: Vec<Vec<f64>> = a.chunks(n.max(1)).map(|r| r.to_vec()).collect();
        let mut d = 1.0;
        for k in 0..n {
            let p = (k..n).max_by(|&x, &y| a[x][k].abs().partial_cmp(&a[y][k].abs()).unwrap()).unwrap();
            if a[p][k] == 0.0 {
                return 0.0;
            }
            if p != k {
                a.swap(p, k);
                d = -d;
            }
            d *= a[k][k];
            for r in k + 1..n {
                let f = a[r][k] / a[k][k];
                for j in k..n {
                    let t = a[k][j];
                    a[r][j] -= f * t;
                }
            }
        }
        d
    }
    /// `det` as the crate computes it, plus an independent one that is
    /// trusted up to the rounding of both
    fn invertible_float<T: Fl>(c: &mut Ctx, op: &'static str, m: &[T], n: usize, det: f64, s: &Source) {
        finite(c, op, m, s);
        c.check(det.abs() > T::eps() * (1.0 - 1e-3), "determinant is not epsilon-small", || format!("{op} ({}) gave {m:?} with determinant {det:e}; {}", T::NAME, s.show()));
        let a: Vec<f64> = m.iter().map(|x| x.d()).collect();
        let had: f64 = a.chunks(n.max(1)).map(len).product();
        let own = lu(&a, n);
        let slack = had * T::eps() * 16.0 * (n * n) as f64 * if n > 4 { 8.0 } else { 1.0 };
        c.check(own.abs() + slack > T::eps(), "independent determinant is not epsilon-small", || format!("{op} ({}) gave {m:?} with determinant {own:e}; {}", T::NAME, s.show()));
    }
    /// what "epsilon-small" means: at most the machine epsilon in magnitude
    fn threshold(c: &mut Ctx) {
        use vecmat::traits::Epsilon;
        macro_rules! go {
            ($t:ident) => {{
                let e = $t::EPSILON;
                let r = (c.rng.unit() as $t) * 0.999;
                for (x, small) in [(0.0, true), (e * r, true), (e, true), (e * (1.0 + e), false), (e * (1.001 + 100.0 * r), false), (1.0 + r, false), ($t::MAX, false), ($t::MIN_POSITIVE, true)] {
                    c.op(concat!("is_epsilon ", stringify!($t)));
                    c.input(hash_u64s([x.to_bits() as u64]));
                    c.check(x.is_epsilon() == small && (-x).is_epsilon() == small, "epsilon-small means at most the machine epsilon", || format!("{x:e} / machine epsilon = {}", x / e));
                }
            }};
        }
        go!(f64);
        go!(f32);
    }
    fn invertible<T: Fl + vecmat::traits::Epsilon, const N: usize>(c: &mut Ctx)
    where
        Normal: Distribution<T>,
    {
        let (x, s) = draw::<Matrix<T, N, N>, _>(c, &Invertible, N * N);
        invertible_float(c, "Invertible matrix", &x.flat(), N, x.det().d(), &s);
        let (x, s) = draw::<Linear<T, N>, _>(c, &Invertible, N * N);
        let m = x.into_matrix();
        invertible_float(c, "Invertible linear", &m.flat(), N, m.det().d(), &s);
        let (x, s) = draw::<Affine<T, N>, _>(c, &Invertible, N * N + N);
        let (a, b) = x.split();
        finite(c, "Invertible affine", &a.into_vector().into_array(), &s);
        let m = b.into_matrix();
        invertible_float(c, "Invertible affine", &m.flat(), N, m.det().d(), &s);
        let (x, s) = draw::<Moebius<T>, _>(c, &Invertible, 4);
        invertible_float(c, "Invertible Moebius", &[x.a(), x.b(), x.c(), x.d()], 2, x.det().d(), &s);
        // complex entries: the modulus of the determinant
        let (x, s) = draw::<Moebius<Complex<T>>, _>(c, &Invertible, 8);
        let e = [x.a(), x.b(), x.c(), x.d()].map(|z| [z.re(), z.im()]);
        finite(c, "Invertible complex Moebius", e.as_flattened(), &s);
        let d = x.det().into_array().map(|x| x.d());
        c.check(d[0].abs() + d[1].abs() > T::eps() * (1.0 - 1e-3), "determinant is not epsilon-small", || format!("complex Moebius {x:?} with determinant {d:?}; {}", s.show()));
        let (x, s) = draw::<Matrix<Complex<T>, N, N>, _>(c, &Invertible, 2 * N * N);
        let d = x.det().into_array().map(|x| x.d());
        c.op("Invertible complex matrix");
        c.check(d[0].abs() + d[1].abs() > T::eps() * (1.0 - 1e-3), "determinant is not epsilon-small", || format!("complex matrix {x:?} with determinant {d:?}; {}", s.show()));
    }
    /// exact entries -1, 0, 1: singular draws are common even when healthy
    fn invertible_exact<const N: usize>(c: &mut Ctx) {
        let judge = |c: &mut Ctx, op: &'static str, x: Matrix<Fp, N, N>, s: &Source| {
            c.op(op);
            let f = x.flat();
            c.input(hash_u64s(f.iter().map(|x| x.0)));
            let m: Mat<Fp> = if N == 0 { vec![] } else { f.chunks(N).map(|r| r.to_vec()).collect() };
            c.check(det_gauss(&m).0 != 0, "exact determinant is not zero", || format!("{op} gave {x:?}; {}", s.show()));
        };
        for _ in 0..4 {
            let (x, s) = draw::<Matrix<Fp, N, N>, _>(c, &Invertible, N * N);
            judge(c, "Invertible exact matrix", x, &s);
            let (x, s) = draw::<Linear<Fp, N>, _>(c, &Invertible, N * N);
            judge(c, "Invertible exact linear", x.into_matrix(), &s);
            let (x, s) = draw::<Affine<Fp, N>, _>(c, &Invertible, N * N + N);
            judge(c, "Invertible exact affine", x.split().1.into_matrix(), &s);
            let (x, s) = draw::<Moebius<Fp>, _>(c, &Invertible, 4);
            c.op("Invertible exact Moebius");
            c.check((x.a() * x.d() - x.b() * x.c()).0 != 0, "exact determinant is not zero", || format!("{x:?}; {}", s.show()));
            let (x, s) = draw::<Moebius<Complex<Fp>>, _>(c, &Invertible, 8);
            c.op("Invertible exact complex Moebius");
            let w = |a: Complex<Fp>, b: Complex<Fp>| cmul(a.into_array(), b.into_array());
            let (p, q) = (w(x.a(), x.d()), w(x.b(), x.c()));
            c.check(p != q, "exact determinant is not zero", || format!("{x:?}; {}", s.show()));
            let (x, s) = draw::<Matrix<Complex<Fp>, 3, 3>, _>(c, &Invertible, 18);
            let m: Mat<Complex<Fp>> = x.into_array_of_arrays().iter().map(|r| r.to_vec()).collect();
            c.op("Invertible exact complex matrix");
            c.check(!det_leibniz(&m).is_zero(), "exact determinant is not zero", || format!("{x:?}; {}", s.show()));
        }
    }

    fn rotations<T: Fl + rand_::distributions::uniform::SampleUniform>(c: &mut Ctx)
    where
        Normal: Distribution<T>,
        rand_::distributions::Uniform<T>: Distribution<T>,
    {
        for _ in 0..4 {
            let (x, s) = draw::<Rotation2<T>, _>(c, &Uniform, 1);
            let v = x.into_complex().into_array();
            finite(c, "Uniform 2D rotation", &v, &s);
            let l = len(&v.map(|x| x.d()));
            c.check((l - 1.0).abs() <= T::eps() * 8.0, "uniform rotations are unit", || format!("{v:?} of norm {l}; {}", s.show()));
            let (x, s) = draw::<Rotation3<T>, _>(c, &Uniform, 5);
            let v = x.into_quaternion().into_array();
            finite(c, "Uniform 3D rotation", &v, &s);
            let l = len(&v.map(|x| x.d()));
            c.check((l - 1.0).abs() <= T::eps() * 16.0, "uniform rotations are unit", || format!("{v:?} of norm {l}; {}", s.show()));
        }
    }

    // ------------------------------------------------- component distributions

    /// hands out serial numbers and logs what it gave
    struct Serial {
        n: Cell<u64>,
        words: usize,
        log: RefCell<Vec<u64>>,
    }
    #[derive(Clone, Copy, PartialEq, Debug)]
    struct Ticket {
        id: u64,
        word: u64,
    }
    impl Distribution<Ticket> for Serial {
        fn sample<R: rand_::Rng + ?Sized>(&self, rng: &mut R) -> Ticket {
            let id = self.n.get();
            self.n.set(id + 1);
            let mut w = 0;
            for _ in 0..self.words {
                w = rng.next_u64();
            }
            self.log.borrow_mut().push(w);
            Ticket { id, word: w }
        }
    }
    fn serial(c: &mut Ctx) -> Serial {
        Serial { n: Cell::new(c.rng.below(1000) as u64), words: 1 + c.rng.below(3), log: RefCell::new(vec![]) }
    }
    fn tickets(c: &mut Ctx, op: &'static str, got: Vec<Ticket>, inner: &Serial, first: u64, s: &Source) {
        c.op(op);
        c.input(hash_u64s(got.iter().map(|t| t.word)));
        let log = inner.log.borrow();
        let d = || format!("{op}: {got:?}; {} draws were made; {}", log.len(), s.show());
        let mut ids: Vec<u64> = got.iter().map(|t| t.id).collect();
        ids.sort();
        ids.dedup();
        c.check(ids.len() == got.len(), "every element has its own draw", d);
        for t in &got {
            c.check(t.id >= first && log.get((t.id - first) as usize) == Some(&t.word), "elements are the values drawn", d);
        }
    }
    fn components<const N: usize>(c: &mut Ctx) {
        for hostile in [false, true] {
            let mut s = if hostile { Source::gen(c) } else { Source::healthy(c) };
            let inner = serial(c);
            let first = inner.n.get();
            let d = VectorDistribution::<_, Ticket, N>::new(&inner);
            let x: Vector<Ticket, N> = if c.rng.chance(1, 2) { d.sample(&mut s) } else { s.sample(&d) };
            tickets(c, "VectorDistribution", x.flat(), &inner, first, &s);
            // a second sample through the same distribution: new draws
            let y: Vector<Ticket, N> = s.sample(&d);
            let all: Vec<Ticket> = x.flat().into_iter().chain(y.flat()).collect();
            tickets(c, "VectorDistribution twice", all, &inner, first, &s);
            let inner = serial(c);
            let first = inner.n.get();
            let mut s = if hostile { Source::gen(c) } else { Source::healthy(c) };
            let d = MatrixDistribution::<_, Ticket, N, 3>::new(&inner);
            let x: Matrix<Ticket, N, 3> = if c.rng.chance(1, 2) { d.sample(&mut s) } else { s.sample(&d) };
            tickets(c, "MatrixDistribution", x.flat(), &inner, first, &s);
            let y: Matrix<Ticket, N, 3> = s.sample(&d);
            tickets(c, "MatrixDistribution twice", [x.flat(), y.flat()].concat(), &inner, first, &s);
            let inner = serial(c);
            let first = inner.n.get();
            let mut s = if hostile { Source::gen(c) } else { Source::healthy(c) };
            let d = MatrixDistribution::<_, Ticket, 2, N>::new(inner);
            let x: Matrix<Ticket, 2, N> = d.sample(&mut s);
            tickets(c, "MatrixDistribution wide", x.flat(), &d.inner, first, &s);
        }
        // standard inner distributions stay in their range
        let mut s = Source::gen(c);
        let r = rand_::distributions::Uniform::new(3i32, 17);
        let x: Vector<i32, N> = VectorDistribution::new(r).sample(&mut s);
        c.check(x.into_array().iter().all(|x| (3..17).contains(x)), "range of the inner distribution", || format!("{x:?}"));
        let x: Matrix<i32, 3, N> = MatrixDistribution::new(r).sample(&mut s);
        c.check(x.flat().iter().all(|x| (3..17).contains(x)), "range of the inner distribution", || format!("{x:?}"));
    }
    /// with a healthy source, no value is handed out twice
    fn distinct<const N: usize>(c: &mut Ctx) {
        let mut s = Source::healthy(c);
        let go = |c: &mut Ctx, op: &'static str, v: Vec<f64>| {
            c.op(op);
            let mut b: Vec<u64> = v.iter().map(|x| x.abs().to_bits()).collect();
            b.sort();
            b.dedup();
            c.check(b.len() == v.len(), "components are drawn separately", || format!("{op}: {v:?}"));
        };
        let pair = |a: Vec<f64>, b: Vec<f64>| [a, b].concat();
        let x: [Vector<f64, N>; 2] = [s.sample(Normal), s.sample(Normal)];
        go(c, "Normal vector", pair(x[0].flat(), x[1].flat()));
        let x: [Matrix<f64, N, 2>; 2] = [s.sample(Normal), s.sample(Normal)];
        go(c, "Normal matrix", pair(x[0].flat(), x[1].flat()));
        let x: [Complex<f64>; 2] = [s.sample(Normal), s.sample(Normal)];
        go(c, "Normal complex", pair(x[0].into_array().to_vec(), x[1].into_array().to_vec()));
        let x: [Quaternion<f64>; 2] = [s.sample(Normal), s.sample(Normal)];
        go(c, "Normal quaternion", pair(x[0].into_array().to_vec(), x[1].into_array().to_vec()));
        let x: Affine<f64, N> = s.sample(Normal);
        go(c, "Normal affine", pair(x.split().0.into_vector().flat(), x.split().1.into_matrix().flat()));
        if N > 5 {
            // the determinant of a large matrix takes for ever
            let x: [Matrix<f64, 3, N>; 2] = [s.sample(Normal), s.sample(Normal)];
            go(c, "Normal wide matrix", pair(x[0].flat(), x[1].flat()));
            let x: [Vector<f64, N>; 2] = [s.sample(NonZero), s.sample(Unit)];
            go(c, "NonZero and Unit vector", pair(x[0].flat(), x[1].flat()));
            let x: [Shift<f64, N>; 2] = [s.sample(Normal), s.sample(Normal)];
            go(c, "Normal shift", pair(x[0].into_vector().flat(), x[1].into_vector().flat()));
            return;
        }
        let x: Affine<f64, N> = s.sample(Invertible);
        go(c, "Invertible affine", pair(x.split().0.into_vector().flat(), x.split().1.into_matrix().flat()));
        let x: Moebius<Complex<f64>> = s.sample(Invertible);
        go(c, "Invertible Moebius", [x.a(), x.b(), x.c(), x.d()].iter().flat_map(|z| z.into_array()).collect());
        let x: Quaternion<f64> = s.sample(NonZero);
        go(c, "NonZero quaternion", x.into_array().to_vec());
        if N != 1 {
            let x: Vector<f64, N> = s.sample(NonZero);
            go(c, "NonZero vector", x.flat());
        }
    }

    pub fn main() {
        let mut s = Suite::new(
            "C19",
            "a case samples distributions from a scripted source (zeros, ones, periodic and poisoned words for a prefix, healthy afterwards) \
             and judges the sample and the number of words drawn; non-trivial: samples (hashed) differ",
        );
        type F = fn(&mut Ctx);
        s.section("normal_f64", 400, |c| run_table!(c, [normal::<f64, 0>, normal::<f64, 1>, normal::<f64, 2>, normal::<f64, 3>, normal::<f64, 4>, normal::<f64, 9>, normal::<f64, 16>] as [F; 7]));
        s.section("normal_f32", 400, |c| run_table!(c, [normal::<f32, 1>, normal::<f32, 2>, normal::<f32, 3>, normal::<f32, 5>] as [F; 4]));
        s.section("nonzero_f64", 1600, |c| run_table!(c, [nonzero::<f64, 1>, nonzero::<f64, 2>, nonzero::<f64, 3>, nonzero::<f64, 4>, nonzero::<f64, 7>] as [F; 5]));
        s.section("nonzero_f32", 1600, |c| run_table!(c, [nonzero::<f32, 1>, nonzero::<f32, 2>, nonzero::<f32, 3>, nonzero::<f32, 4>, nonzero::<f32, 16>] as [F; 5]));
        s.section("invertible_f64", 1200, |c| run_table!(c, [invertible::<f64, 1>, invertible::<f64, 2>, invertible::<f64, 3>, invertible::<f64, 4>] as [F; 4]));
        s.section("invertible_f32", 1200, |c| run_table!(c, [invertible::<f32, 1>, invertible::<f32, 2>, invertible::<f32, 3>, invertible::<f32, 4>] as [F; 4]));
        s.section("invertible_exact", 400, |c| run_table!(c, [invertible_exact::<1>, invertible_exact::<2>, invertible_exact::<3>, invertible_exact::<4>] as [F; 4]));
        s.section("threshold", 60, threshold);
        s.section("rotations_f64", 800, rotations::<f64>);
        s.section("rotations_f32", 800, rotations::<f32>);
        s.section("components", 600, |c| run_table!(c, [components::<0>, components::<1>, components::<2>, components::<3>, components::<4>, components::<8>, components::<17>, components::<33>] as [F; 8]));
        s.section("distinct", 600, |c| run_table!(c, [distinct::<1>, distinct::<2>, distinct::<3>, distinct::<4>, distinct::<5>, distinct::<6>, distinct::<8>, distinct::<12>, distinct::<17>, distinct::<33>] as [F; 10]));
        s.run();
    }
}
