//! C06: comparisons and reductions agree with the element-by-element definition.
use harness::*;
use num_traits::Zero;
use std::cmp::Ordering;
use std::fmt::Debug;
use vecmat::{Matrix, Vector};

trait El: Copy + PartialEq + PartialOrd + Debug + Send + 'static {
    const NAME: &'static str;
    fn gen(r: &mut Rng) -> Self;
    fn word(self) -> u64;
}
impl El for f64 {
    const NAME: &'static str = "f64";
    fn gen(r: &mut Rng) -> f64 {
        if r.chance(1, 2) {
            r.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0 + f64::EPSILON, 5e-324, f64::MIN_POSITIVE])
        } else {
            r.hostile()
        }
    }
    fn word(self) -> u64 {
        self.to_bits()
    }
}
impl El for f32 {
    const NAME: &'static str = "f32";
    fn gen(r: &mut Rng) -> f32 {
        if r.chance(1, 2) {
            r.pick(&[0.0, -0.0, 1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1.0 + f32::EPSILON, 1e-45])
        } else {
            r.hostile()
        }
    }
    fn word(self) -> u64 {
        self.to_bits() as u64
    }
}
impl El for i32 {
    const NAME: &'static str = "i32";
    fn gen(r: &mut Rng) -> i32 {
        r.pick(&[0, 1, -1, i32::MIN, i32::MAX, 7, -7, 300, -300, 65536])
    }
    fn word(self) -> u64 {
        self as u64
    }
}
impl El for u8 {
    const NAME: &'static str = "u8";
    fn gen(r: &mut Rng) -> u8 {
        r.pick(&[0, 1, 2, 127, 128, 254, 255])
    }
    fn word(self) -> u64 {
        self as u64
    }
}
impl El for bool {
    const NAME: &'static str = "bool";
    fn gen(r: &mut Rng) -> bool {
        r.chance(1, 2)
    }
    fn word(self) -> u64 {
        self as u64
    }
}
/// A partial order with many incomparable pairs (sets of bits by inclusion)
/// and a value that is not equal to itself. Lawful: `a < b` iff `b > a`, `<=`
/// iff `<` or `==`.
#[derive(Clone, Copy, Debug)]
struct Odd(u8);
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        self.0 != 255 && self.0 == o.0
    }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> {
        if self.0 == 255 || o.0 == 255 {
            None
        } else if self.0 == o.0 {
            Some(Ordering::Equal)
        } else if self.0 & o.0 == self.0 {
            Some(Ordering::Less)
        } else if self.0 & o.0 == o.0 {
            Some(Ordering::Greater)
        } else {
            None
        }
    }
}
impl El for Odd {
    const NAME: &'static str = "sets of bits";
    fn gen(r: &mut Rng) -> Odd {
        match r.below(10) {
            0 => Odd(255),
            _ => Odd(r.below(16) as u8),
        }
    }
    fn word(self) -> u64 {
        self.0 as u64
    }
}
impl El for i128 {
    const NAME: &'static str = "i128";
    fn gen(r: &mut Rng) -> i128 {
        r.pick(&[0, 1, -1, 1 << 64, -1 << 64, (1 << 64) + 1, 1 << 32, i128::MIN, i128::MAX])
    }
    fn word(self) -> u64 {
        hash2(self as u64, (self >> 64) as u64)
    }
}

macro_rules! group {
    ($cmp:ident, $bools:ident, $ext:ident, $sum:ident, $zero:ident, $Ty:ident, $($d:ident),+) => {
        fn $cmp<T: El, $(const $d: usize),+>(c: &mut Ctx) {
            type C<T, $(const $d: usize),+> = $Ty<T, $($d),+>;
            let n = <C<T, $($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            let a: Vec<T> = (0..n).map(|_| T::gen(&mut c.rng)).collect();
            // equal in most positions, or unrelated
            let b: Vec<T> = if c.rng.chance(1, 2) {
                let p = c.rng.below(4);
                a.iter().map(|x| if c.rng.below(8) < p { T::gen(&mut c.rng) } else { *x }).collect()
            } else {
                (0..n).map(|_| T::gen(&mut c.rng)).collect()
            };
            c.input(hash_u64s(a.iter().chain(&b).map(|x| x.word()).chain(dims.iter().map(|x| *x as u64))));
            c.sample(|| format!("{}{dims:?} of {}: {:?} against {:?}", stringify!($Ty), T::NAME, a.iter().take(4).collect::<Vec<_>>(), b.iter().take(4).collect::<Vec<_>>()));
            let va = || <C<T, $($d),+> as Flat>::build(a.clone());
            let vb = || <C<T, $($d),+> as Flat>::build(b.clone());
            macro_rules! cmp { ($name:ident, $op:tt) => {
                let want: Vec<bool> = a.iter().zip(&b).map(|(x, y)| x $op y).collect();
                c.eq(concat!(stringify!($Ty), "::", stringify!($name)), va().$name(vb()).flat(), want, || format!("{} dims {dims:?}, left {a:?} right {b:?}", T::NAME));
            } }
            cmp!(veq, ==);
            cmp!(vne, !=);
            cmp!(vlt, <);
            cmp!(vle, <=);
            cmp!(vgt, >);
            cmp!(vge, >=);
            // equality of containers
            let want = a.iter().zip(&b).all(|(x, y)| x == y);
            c.eq(concat!(stringify!($Ty), "::eq"), va() == vb(), want, || format!("{} dims {dims:?}, left {a:?} right {b:?}", T::NAME));
            c.eq(concat!(stringify!($Ty), "::ne"), va() != vb(), !want, || format!("{} dims {dims:?}, left {a:?} right {b:?}", T::NAME));
            // one and the same object on both sides
            let (x, want) = (va(), a.iter().all(|x| x == x));
            #[allow(clippy::eq_op)]
            c.eq(concat!(stringify!($Ty), "::eq with itself"), (x == x, x != x), (want, !want), || format!("{} dims {dims:?}, {a:?}", T::NAME));
            // a single differing position, everywhere
            if n > 0 {
                let i = c.rng.below(n);
                let mut e = a.clone();
                e[i] = T::gen(&mut c.rng);
                let want = a.iter().zip(&e).all(|(x, y)| x == y);
                let ve = <C<T, $($d),+> as Flat>::build(e.clone());
                c.eq(concat!(stringify!($Ty), "::eq"), va() == ve, want, || format!("{} dims {dims:?}, left {a:?} right {e:?} (position {i} replaced)", T::NAME));
            }
        }

        fn $bools<$(const $d: usize),+>(c: &mut Ctx) {
            let n = <$Ty<bool, $($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            let (ones, zeros) = (vec![true; n], vec![false; n]);
            let mut sets = vec![ones.clone(), zeros.clone(), (0..n).map(|_| c.rng.chance(1, 2)).collect::<Vec<_>>()];
            // exactly one deviating position, each of them
            for i in 0..n {
                let mut a = ones.clone();
                a[i] = false;
                sets.push(a);
                let mut a = zeros.clone();
                a[i] = true;
                sets.push(a);
            }
            for a in sets {
                c.input(hash_u64s(a.iter().map(|x| *x as u64).chain(dims.iter().map(|x| *x as u64))));
                let v = <$Ty<bool, $($d),+> as Flat>::build(a.clone());
                c.eq(concat!(stringify!($Ty), "::any"), v.any(), a.iter().any(|x| *x), || format!("dims {dims:?} {a:?}"));
                c.eq(concat!(stringify!($Ty), "::all"), v.all(), a.iter().all(|x| *x), || format!("dims {dims:?} {a:?}"));
            }
        }

        /// extrema of totally ordered elements, the extreme at every position
        fn $ext<$(const $d: usize),+>(c: &mut Ctx) {
            type C<T, $(const $d: usize),+> = $Ty<T, $($d),+>;
            let n = <C<i64, $($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            let base: Vec<i64> = match c.rng.below(5) {
                0 => vec![c.rng.int(); n],
                1 => (0..n).map(|_| c.rng.range(-2, 2)).collect(),
                2 => (0..n as i64).collect(),
                3 => (0..n as i64).rev().collect(),
                _ => (0..n).map(|_| c.rng.int()).collect(),
            };
            for i in 0..n {
                for e in [None, Some(i64::MAX), Some(i64::MIN)] {
                    let mut a = base.clone();
                    match e {
                        Some(e) => a[i] = e,
                        None if i > 0 => continue,
                        None => {}
                    }
                    c.input(hash_u64s(a.iter().map(|x| *x as u64).chain(dims.iter().map(|x| *x as u64))));
                    let v = <C<i64, $($d),+> as Flat>::build(a.clone());
                    c.eq(concat!(stringify!($Ty), "::max"), v.max(), *a.iter().max().unwrap(), || format!("dims {dims:?} {a:?}"));
                    c.eq(concat!(stringify!($Ty), "::min"), v.min(), *a.iter().min().unwrap(), || format!("dims {dims:?} {a:?}"));
                }
            }
            // totally ordered floats (no NaN), infinities included
            let a: Vec<f64> = (0..n).map(|_| loop { let x: f64 = c.rng.hostile(); if !x.is_nan() { break x } }).collect();
            let v = <C<f64, $($d),+> as Flat>::build(a.clone());
            c.eq(concat!(stringify!($Ty), "::max"), v.max(), a.iter().copied().fold(f64::NEG_INFINITY, f64::max), || format!("dims {dims:?} {a:?}"));
            c.eq(concat!(stringify!($Ty), "::min"), v.min(), a.iter().copied().fold(f64::INFINITY, f64::min), || format!("dims {dims:?} {a:?}"));
            let a: Vec<f32> = (0..n).map(|_| loop { let x: f32 = c.rng.hostile(); if !x.is_nan() { break x } }).collect();
            let v = <C<f32, $($d),+> as Flat>::build(a.clone());
            c.eq(concat!(stringify!($Ty), "::max"), v.max(), a.iter().copied().fold(f32::NEG_INFINITY, f32::max), || format!("dims {dims:?} {a:?}"));
            c.eq(concat!(stringify!($Ty), "::min"), v.min(), a.iter().copied().fold(f32::INFINITY, f32::min), || format!("dims {dims:?} {a:?}"));
        }

        fn $sum<$(const $d: usize),+>(c: &mut Ctx) {
            type C<T, $(const $d: usize),+> = $Ty<T, $($d),+>;
            let n = <C<i64, $($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            // exact sums: prime field, wrapping-free integers, powers of two
            // (each element counted once), and the exact order-free float case
            let a: Vec<Fp> = (0..n).map(|_| c.rng.fp()).collect();
            c.input(hash_u64s(a.iter().map(|x| x.0).chain(dims.iter().map(|x| *x as u64))));
            let want = a.iter().fold(Fp(0), |s, x| s + *x);
            c.eq(concat!(stringify!($Ty), "::sum"), <C<Fp, $($d),+> as Flat>::build(a.clone()).sum(), want, || format!("dims {dims:?} {a:?}"));
            for i in 0..n {
                let mut a = vec![0i64; n];
                a[i] = 1;
                c.eq(concat!(stringify!($Ty), "::sum"), <C<i64, $($d),+> as Flat>::build(a.clone()).sum(), 1, || format!("dims {dims:?} {a:?}"));
            }
            let a: Vec<i64> = (0..n).map(|_| c.rng.range(-1 << 40, 1 << 40)).collect();
            c.eq(concat!(stringify!($Ty), "::sum"), <C<i64, $($d),+> as Flat>::build(a.clone()).sum(), a.iter().sum::<i64>(), || format!("dims {dims:?} {a:?}"));
            let w: Vec<i128> = a.iter().map(|x| (*x as i128) << 60).collect();
            c.eq(concat!(stringify!($Ty), "::sum"), <C<i128, $($d),+> as Flat>::build(w.clone()).sum(), w.iter().sum::<i128>(), || format!("dims {dims:?} {w:?}"));
            c.eq(concat!(stringify!($Ty), "::max"), <C<i128, $($d),+> as Flat>::build(w.clone()).max(), *w.iter().max().unwrap(), || format!("dims {dims:?} {w:?}"));
            c.eq(concat!(stringify!($Ty), "::min"), <C<i128, $($d),+> as Flat>::build(w.clone()).min(), *w.iter().min().unwrap(), || format!("dims {dims:?} {w:?}"));
            let b: Vec<u8> = { let mut left = 255u8; (0..n).map(|_| { let x = c.rng.below(left as usize / 2 + 1) as u8; left -= x; x }).collect() };
            c.eq(concat!(stringify!($Ty), "::sum"), <C<u8, $($d),+> as Flat>::build(b.clone()).sum(), b.iter().sum::<u8>(), || format!("dims {dims:?} {b:?}"));
            c.eq(concat!(stringify!($Ty), "::max"), <C<u8, $($d),+> as Flat>::build(b.clone()).max(), *b.iter().max().unwrap(), || format!("dims {dims:?} {b:?}"));
            c.eq(concat!(stringify!($Ty), "::min"), <C<u8, $($d),+> as Flat>::build(b.clone()).min(), *b.iter().min().unwrap(), || format!("dims {dims:?} {b:?}"));
            let f: Vec<f64> = a.iter().map(|x| *x as f64).collect();
            c.eq(concat!(stringify!($Ty), "::sum"), <C<f64, $($d),+> as Flat>::build(f).sum(), a.iter().sum::<i64>() as f64, || format!("dims {dims:?} {a:?}"));
            // floats: up to rounding of any order of summation
            let f: Vec<f64> = (0..n).map(|_| c.rng.tame()).collect();
            let got = <C<f64, $($d),+> as Flat>::build(f.clone()).sum();
            let (want, mag) = (f.iter().sum::<f64>(), f.iter().map(|x| x.abs()).sum::<f64>());
            c.op(concat!(stringify!($Ty), "::sum"));
            c.check((got - want).abs() <= mag * n as f64 * 2.3e-16, concat!(stringify!($Ty), "::sum"), || format!("got {got}, expected {want}; dims {dims:?} {f:?}"));
        }

        fn $zero<$(const $d: usize),+>(c: &mut Ctx) {
            type C<T, $(const $d: usize),+> = $Ty<T, $($d),+>;
            let n = <C<i64, $($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            let h = c.rng.u64();
            c.input(hash2(h, n as u64));
            let z = C::<i64, $($d),+>::zero();
            c.eq(concat!(stringify!($Ty), "::zero"), z.flat(), vec![0; n], || format!("dims {dims:?}"));
            let z = C::<Fp, $($d),+>::zero();
            c.eq(concat!(stringify!($Ty), "::zero"), z.flat(), vec![Fp(0); n], || format!("dims {dims:?}"));
            c.eq(concat!(stringify!($Ty), "::is_zero"), C::<f64, $($d),+>::zero().is_zero(), true, || format!("dims {dims:?}"));
            for i in 0..n {
                let mut a = vec![0i64; n];
                a[i] = loop { let x = c.rng.int(); if x != 0 { break x } };
                c.eq(concat!(stringify!($Ty), "::is_zero"), <C<i64, $($d),+> as Flat>::build(a.clone()).is_zero(), false, || format!("dims {dims:?} {a:?}"));
                let mut f = vec![0.0f64; n];
                for x in f.iter_mut() { if c.rng.chance(1, 2) { *x = -0.0; } }
                c.eq(concat!(stringify!($Ty), "::is_zero"), <C<f64, $($d),+> as Flat>::build(f.clone()).is_zero(), true, || format!("dims {dims:?} {f:?}"));
                f[i] = c.rng.pick(&[5e-324, -5e-324, 1.0, f64::NAN, f64::INFINITY, f64::EPSILON, -1e-30]);
                c.eq(concat!(stringify!($Ty), "::is_zero"), <C<f64, $($d),+> as Flat>::build(f.clone()).is_zero(), false, || format!("dims {dims:?} {f:?}"));
            }
            // other widths
            macro_rules! width { ($t:ty, $x:expr) => {{
                let mut a = vec![0 as $t; n];
                c.eq(concat!(stringify!($Ty), "::zero"), C::<$t, $($d),+>::zero().flat(), a.clone(), || format!("dims {dims:?}"));
                c.eq(concat!(stringify!($Ty), "::is_zero"), <C<$t, $($d),+> as Flat>::build(a.clone()).is_zero(), true, || format!("dims {dims:?}"));
                if n > 0 {
                    let i = c.rng.below(n);
                    a[i] = $x;
                    c.eq(concat!(stringify!($Ty), "::is_zero"), <C<$t, $($d),+> as Flat>::build(a.clone()).is_zero(), false, || format!("dims {dims:?} {a:?}"));
                }
            }} }
            width!(u8, c.rng.pick(&[1, 128, 255]));
            width!(u32, c.rng.pick(&[1, 256, 1 << 31]));
            width!(i128, c.rng.pick(&[1, -1, 1 << 64, i128::MIN]));
            // non-zero elements that cancel
            if n >= 2 {
                let mut a = vec![0i64; n];
                let i = c.rng.below(n);
                let j = (i + 1) % n;
                a[i] = 5;
                a[j] = -5;
                c.eq(concat!(stringify!($Ty), "::is_zero"), <C<i64, $($d),+> as Flat>::build(a.clone()).is_zero(), false, || format!("dims {dims:?} {a:?}"));
            }
        }
    };
}
group!(vec_cmp, vec_bool, vec_ext, vec_sum, vec_zero, Vector, N);
group!(mat_cmp, mat_bool, mat_ext, mat_sum, mat_zero, Matrix, M, N);

fn main() {
    let mut s = Suite::new(
        "C06",
        "a case compares or reduces containers of one kind, dimension and element type against the scalar definition, \
         with the deciding element put at every position in turn; non-trivial: element data (hashed) differ",
    );
    s.section("vector_compare_f64", 24 * 20, |c| run_table!(c, vdims!(vec_cmp, f64)));
    s.section("matrix_compare_f64", 31 * 20, |c| run_table!(c, mdims!(mat_cmp, f64)));
    s.section("vector_compare_other", 5 * 3 * 40, |c| {
        const T: &[fn(&mut Ctx)] = &[
            vec_cmp::<f32, 3>, vec_cmp::<f32, 17>, vec_cmp::<f32, 4>,
            vec_cmp::<i32, 2>, vec_cmp::<i32, 5>, vec_cmp::<i32, 16>,
            vec_cmp::<u8, 4>, vec_cmp::<u8, 32>, vec_cmp::<bool, 5>,
            vec_cmp::<i128, 3>, vec_cmp::<i128, 4>, vec_cmp::<i128, 9>,
            vec_cmp::<Odd, 1>, vec_cmp::<Odd, 4>, vec_cmp::<Odd, 9>,
        ];
        run_table!(c, T)
    });
    s.section("matrix_compare_other", 10 * 40, |c| {
        const T: &[fn(&mut Ctx)] = &[
            mat_cmp::<f32, 2, 3>, mat_cmp::<f32, 4, 4>, mat_cmp::<i32, 3, 3>, mat_cmp::<u8, 4, 5>, mat_cmp::<bool, 3, 2>,
            mat_cmp::<i128, 2, 2>, mat_cmp::<i128, 3, 4>, mat_cmp::<Odd, 1, 3>, mat_cmp::<Odd, 3, 2>, mat_cmp::<Odd, 2, 2>,
        ];
        run_table!(c, T)
    });
    s.section("vector_any_all", 24 * 2, |c| run_table!(c, vdims!(vec_bool)));
    s.section("matrix_any_all", 31 * 2, |c| run_table!(c, mdims!(mat_bool)));
    s.section("vector_extrema", 21 * 6, |c| run_table!(c, vdims1!(vec_ext)));
    s.section("matrix_extrema", 26 * 6, |c| run_table!(c, mdims1!(mat_ext)));
    s.section("vector_sum", 21 * 20, |c| run_table!(c, vdims1!(vec_sum)));
    s.section("matrix_sum", 26 * 20, |c| run_table!(c, mdims1!(mat_sum)));
    s.section("vector_zero", 24 * 4, |c| run_table!(c, vdims!(vec_zero)));
    s.section("matrix_zero", 31 * 4, |c| run_table!(c, mdims!(mat_zero)));
    s.native("large", 9 * 2, |c| {
        const T: &[fn(&mut Ctx)] = &[vec_cmp::<i32, 263>, mat_cmp::<f64, 16, 17>, vec_ext::<263>, mat_ext::<16, 17>, vec_sum::<263>, mat_sum::<16, 17>, vec_zero::<263>, mat_zero::<2, 135>, vec_bool::<263>];
        run_table!(c, T)
    });
    s.run();
}
