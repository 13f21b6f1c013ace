//! C21: approximate equality holds iff every component is within epsilon.
use harness::*;
#[cfg(feature = "approx")]
fn main() {
    on::main()
}
#[cfg(not(feature = "approx"))]
fn main() {
    Suite::new("C21", "needs the approx feature").run()
}

#[cfg(feature = "approx")]
mod on {
    use super::*;
    use approx_::AbsDiffEq;
    use std::fmt::Debug;
    use vecmat::complex::Moebius;
    use vecmat::transform::{Affine, Chain, Linear, Rotation2, Rotation3, Scale, Shift};
    use vecmat::{Complex, Matrix, Quaternion, Vector};

    /// What the monitor needs from a scalar type.
    pub trait Elem: AbsDiffEq<Epsilon = Self> + Copy + PartialEq + Debug + 'static {
        const NAME: &'static str;
        fn gen(r: &mut Rng) -> Self;
        fn eps(r: &mut Rng) -> Self;
        /// a value whose distance to self is related to e in every way
        fn off(self, e: Self, r: &mut Rng) -> Self;
        /// within e, in the sense of the documentation
        fn near(a: Self, b: Self, e: Self) -> bool;
        fn default() -> Self;
        fn hash(self) -> u64;
    }
    macro_rules! float {
        ($t:ident) => {
            impl Elem for $t {
                const NAME: &'static str = stringify!($t);
                fn gen(r: &mut Rng) -> Self {
                    if r.chance(1, 3) {
                        r.hostile()
                    } else {
                        r.tame()
                    }
                }
                fn eps(r: &mut Rng) -> Self {
                    match r.below(8) {
                        0 => $t::EPSILON,
                        1 => 0.0,
                        2 => r.pick(&[1e-3, 1e-6, 0.125, 1.0, 1e-30, 1e10]),
                        3 => $t::INFINITY,
                        4 => $t::MIN_POSITIVE,
                        5 => r.unit() as $t,
                        _ => 2f64.powi(r.range(-20, 4) as i32) as $t,
                    }
                }
                fn off(self, e: Self, r: &mut Rng) -> Self {
                    let s = if r.chance(1, 2) { 1.0 } else { -1.0 };
                    match r.below(14) {
                        0 => $t::NAN,
                        1 => $t::INFINITY * s,
                        2 => -self,
                        3 => r.nudge(self),
                        4 => self + e * s,
                        5 => r.nudge(self + e * s),
                        6 => self + e * s * 0.5,
                        7 => self + e * s * 1.5,
                        8 => self + e * s * 1000.0,
                        9 => self + s,
                        10 => r.hostile(),
                        11 => self + s * 1e-2,
                        12 => self + e * s * 1.01,
                        _ => self + e * s * 0.99,
                    }
                }
                fn near(a: Self, b: Self, e: Self) -> bool {
                    // the rule of approx for scalars: the difference of equal
                    // infinities is not a number
                    (a - b).abs() <= e
                }
                fn default() -> Self {
                    $t::EPSILON
                }
                fn hash(self) -> u64 {
                    self.bits()
                }
            }
        };
    }
    float!(f32);
    float!(f64);
    macro_rules! int {
        ($t:ident, $lo:expr, $hi:expr) => {
            impl Elem for $t {
                const NAME: &'static str = stringify!($t);
                fn gen(r: &mut Rng) -> Self {
                    r.range($lo, $hi) as $t
                }
                fn eps(r: &mut Rng) -> Self {
                    r.pick(&[0, 1, 2, 5, 20])
                }
                fn off(self, e: Self, r: &mut Rng) -> Self {
                    let e = e as i64;
                    let s = if r.chance(1, 2) { 1 } else { -1 };
                    let d = r.pick(&[e, e + 1, e - 1, 2 * e + 1, 1, 30]);
                    (self as i64 + s * d).clamp($lo, $hi) as $t
                }
                fn near(a: Self, b: Self, e: Self) -> bool {
                    (a as i128 - b as i128).abs() <= e as i128
                }
                fn default() -> Self {
                    0
                }
                fn hash(self) -> u64 {
                    self as u64
                }
            }
        };
    }
    int!(i8, -60, 60);
    int!(i64, -1000, 1000);
    int!(u8, 0, 255);
    int!(u64, 0, 5000);

    /// a floating-point scalar that is not a primitive one
    impl Elem for Wide {
        const NAME: &'static str = "wide";
        fn gen(r: &mut Rng) -> Self {
            Wide::of(<f64 as Elem>::gen(r))
        }
        fn eps(r: &mut Rng) -> Self {
            Wide::of(<f64 as Elem>::eps(r))
        }
        fn off(self, e: Self, r: &mut Rng) -> Self {
            Wide::of(self.get().off(e.get(), r))
        }
        fn near(a: Self, b: Self, e: Self) -> bool {
            f64::near(a.get(), b.get(), e.get())
        }
        fn default() -> Self {
            Wide::of(f64::EPSILON)
        }
        fn hash(self) -> u64 {
            self.bits()
        }
    }

    /// a user scalar with its own notion of nearness and default epsilon:
    /// distance on a circle of 360 degrees
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub struct Deg(i32);
    impl AbsDiffEq for Deg {
        type Epsilon = Deg;
        fn default_epsilon() -> Deg {
            Deg(7)
        }
        fn abs_diff_eq(&self, o: &Deg, e: Deg) -> bool {
            let d = (self.0 - o.0).rem_euclid(360);
            d.min(360 - d) <= e.0
        }
    }
    impl Elem for Deg {
        const NAME: &'static str = "user scalar";
        fn gen(r: &mut Rng) -> Self {
            Deg(r.range(-720, 720) as i32)
        }
        fn eps(r: &mut Rng) -> Self {
            Deg(r.pick(&[0, 1, 7, 90]))
        }
        fn off(self, e: Self, r: &mut Rng) -> Self {
            let s = if r.chance(1, 2) { 1 } else { -1 };
            Deg(self.0 + s * (r.pick(&[e.0, e.0 + 1, e.0 - 1, 8, 7, 1]) + 360 * r.below(2) as i32))
        }
        fn near(a: Self, b: Self, e: Self) -> bool {
            let d = (a.0 as i64 - b.0 as i64).rem_euclid(360);
            d <= e.0 as i64 || 360 - d <= e.0 as i64
        }
        fn default() -> Self {
            Deg(7)
        }
        fn hash(self) -> u64 {
            self.0 as u64
        }
    }

    /// all comparisons of one pair: with epsilon, swapped, negated, through
    /// the macros, of the first value with itself
    struct Seen {
        plain: bool,
        swapped: bool,
        negated: bool,
        with: bool,
        default: bool,
        not_default: bool,
        reflexive: bool,
    }
    fn judge<T: Elem, X: AbsDiffEq<Epsilon = T>>(c: &mut Ctx, name: &'static str, n: usize, build: impl Fn(&[T]) -> X) {
        judge_all::<T>(c, name, n, X::default_epsilon(), &|a, b, e| {
            let (x, y) = (build(a), build(b));
            Seen {
                plain: x.abs_diff_eq(&y, e),
                swapped: y.abs_diff_eq(&x, e),
                negated: x.abs_diff_ne(&y, e),
                with: approx_::abs_diff_eq!(x, y, epsilon = e),
                default: approx_::abs_diff_eq!(x, y),
                not_default: approx_::abs_diff_ne!(x, y),
                reflexive: x.abs_diff_eq(&x, e),
            }
        })
    }
    fn judge_all<T: Elem>(c: &mut Ctx, name: &'static str, n: usize, dflt: T, cmp: &dyn Fn(&[T], &[T], T) -> Seen) {
        c.op(name);
        c.check(dflt == T::default() && dflt == T::default_epsilon(), "default epsilon is the component's", || format!("{name} of {}: {dflt:?}", T::NAME));
        for _ in 0..3 {
            let e = if c.rng.chance(1, 3) { T::default() } else { T::eps(&mut c.rng) };
            let a: Vec<T> = (0..n).map(|_| T::gen(&mut c.rng)).collect();
            let mut b = a.clone();
            let mode = c.rng.below(8);
            match mode {
                0 => {}
                // a single deviation, most of the time
                1..=4 if n > 0 => {
                    let i = c.rng.below(n);
                    b[i] = b[i].off(e, &mut c.rng);
                }
                5 if n > 1 => {
                    let (i, j) = (c.rng.below(n), c.rng.below(n));
                    b.swap(i, j);
                }
                6 => b = a.iter().map(|x| x.off(e, &mut c.rng)).collect(),
                _ => {
                    // all within, perhaps, and one more
                    for x in b.iter_mut() {
                        if c.rng.chance(1, 3) {
                            *x = x.off(e, &mut c.rng);
                        }
                    }
                }
            }
            c.input(hash_u64s(a.iter().chain(&b).map(|x| x.hash()).chain([e.hash(), hash_str(name)])));
            let d = || format!("{name} of {} components ({}): {a:?} and {b:?} with epsilon {e:?}", n, T::NAME);
            c.sample(d);
            let want = a.iter().zip(&b).all(|(x, y)| T::near(*x, *y, e));
            let o = cmp(&a, &b, e);
            c.check(o.plain == want, "equal iff all components are near", || format!("got {}; {}", !want, d()));
            c.check(o.swapped == want, "symmetric", || format!("got {} for the swapped pair; {}", !want, d()));
            c.check(o.negated == !want, "abs_diff_ne is the negation", d);
            c.check(o.with == want, "macro with epsilon", d);
            let want = a.iter().zip(&b).all(|(x, y)| T::near(*x, *y, T::default()));
            c.check(o.default == want, "macro with the default epsilon", || format!("got {}; {}", !want, d()));
            c.check(o.not_default == !want, "negated macro with the default epsilon", || format!("got {}; {}", want, d()));
            let want = a.iter().all(|x| T::near(*x, *x, e));
            c.check(o.reflexive == want, "reflexive without NaN", || format!("got {}; {}", !want, d()));
            // every single position in turn, clearly away
            if c.rng.chance(1, 4) && n <= 40 {
                let a: Vec<T> = a.iter().map(|x| if T::near(*x, *x, T::default()) { *x } else { T::default() }).collect();
                for i in 0..n {
                    let mut b = a.clone();
                    let mut k = 0;
                    while T::near(a[i], b[i], e) && k < 50 {
                        b[i] = a[i].off(e, &mut c.rng);
                        k += 1;
                    }
                    let want = T::near(a[i], b[i], e);
                    let o = cmp(&a, &b, e);
                    c.check(o.plain == want && o.swapped == want, "a deviation in one component decides", || {
                        format!("component {i}: {name} ({}) {a:?} and {b:?} with epsilon {e:?}, expected {want}", T::NAME)
                    });
                }
            }
        }
    }

    fn vector<T: Elem, const N: usize>(c: &mut Ctx) {
        judge(c, "Vector", N, |v: &[T]| Vector::<T, N>::build(v.to_vec()));
        judge(c, "Shift", N, |v: &[T]| Shift::from_vector(Vector::<T, N>::build(v.to_vec())));
    }
    fn matrix<T: Elem, const M: usize, const N: usize>(c: &mut Ctx) {
        judge(c, "Matrix", M * N, |v: &[T]| Matrix::<T, M, N>::build(v.to_vec()));
    }
    fn linear<T: Elem, const N: usize>(c: &mut Ctx) {
        let sh = |v: &[T]| Shift::from_vector(Vector::<T, N>::build(v.to_vec()));
        let li = |v: &[T]| Linear::from_matrix(Matrix::<T, N, N>::build(v.to_vec()));
        judge(c, "Linear", N * N, li);
        judge(c, "Affine", N * N + N, |v: &[T]| Affine::<T, N>::new(sh(&v[..N]), li(&v[N..])));
        judge(c, "Chain of Linear and Shift", N * N + N, |v: &[T]| Chain::<_, _, Vector<T, N>>::new(li(&v[N..]), sh(&v[..N])));
        judge(c, "Chain of Scale and Shift", N + 1, |v: &[T]| Chain::<_, _, Vector<T, N>>::new(Scale::from_mag(v[N]), sh(&v[..N])));
        judge(c, "nested Chain", N * N + 2 * N + 1, |v: &[T]| {
            Chain::<_, _, Vector<T, N>>::new(
                Chain::<_, _, Vector<T, N>>::new(sh(&v[..N]), Scale::from_mag(v[N])),
                Affine::<T, N>::new(sh(&v[N + 1..2 * N + 1]), li(&v[2 * N + 1..])),
            )
        });
        judge(c, "Scale", 1, |v: &[T]| Scale::from_mag(v[0]));
    }
    fn hyper<T: Elem>(c: &mut Ctx) {
        let z = |v: &[T]| Complex::new(v[0], v[1]);
        let q = |v: &[T]| Quaternion::new(v[0], v[1], v[2], v[3]);
        judge(c, "Complex", 2, z);
        judge(c, "Quaternion", 4, q);
        judge(c, "Moebius", 4, |v: &[T]| Moebius::new(v[0], v[1], v[2], v[3]));
        judge(c, "Rotation2", 2, |v: &[T]| Rotation2::from_complex(z(v)));
        judge(c, "Rotation3", 4, |v: &[T]| Rotation3::from_quaternion(q(v)));
        let s2 = |v: &[T]| Shift::from_vector(Vector::<T, 2>::build(v[..2].to_vec()));
        let s3 = |v: &[T]| Shift::from_vector(Vector::<T, 3>::build(v[..3].to_vec()));
        judge(c, "Chain of Shift and Rotation2", 4, |v: &[T]| Chain::<_, _, Vector<T, 2>>::new(s2(v), Rotation2::from_complex(z(&v[2..]))));
        judge(c, "Chain of Rotation2 and Shift", 4, |v: &[T]| Chain::<_, _, Vector<T, 2>>::new(Rotation2::from_complex(z(&v[2..])), s2(v)));
        judge(c, "Chain of Shift and Rotation3", 7, |v: &[T]| Chain::<_, _, Vector<T, 3>>::new(s3(v), Rotation3::from_quaternion(q(&v[3..]))));
        judge(c, "Chain of Rotation3 and Shift", 7, |v: &[T]| Chain::<_, _, Vector<T, 3>>::new(Rotation3::from_quaternion(q(&v[3..])), s3(v)));
        // Moebius maps chained as a value
        judge(c, "Chain of two Moebius maps", 8, |v: &[T]| {
            Chain::<_, _, u8>::new(Moebius::new(v[0], v[1], v[2], v[3]), Moebius::new(v[4], v[5], v[6], v[7]))
        });
    }

    macro_rules! types {
        ($s:ident, $($t:ident: $n:expr;)*) => {$(
            $s.section(concat!("vector_", stringify!($t)), $n, |c| run_table!(c, [vector::<$t, 0>, vector::<$t, 1>, vector::<$t, 2>, vector::<$t, 3>, vector::<$t, 4>, vector::<$t, 5>, vector::<$t, 8>, vector::<$t, 17>, vector::<$t, 33>] as [fn(&mut Ctx); 9]));
            $s.section(concat!("matrix_", stringify!($t)), $n, |c| run_table!(c, [matrix::<$t, 0, 2>, matrix::<$t, 2, 0>, matrix::<$t, 1, 1>, matrix::<$t, 2, 2>, matrix::<$t, 2, 3>, matrix::<$t, 3, 2>, matrix::<$t, 4, 4>, matrix::<$t, 1, 5>, matrix::<$t, 6, 5>] as [fn(&mut Ctx); 9]));
            $s.section(concat!("linear_", stringify!($t)), $n, |c| run_table!(c, [linear::<$t, 0>, linear::<$t, 1>, linear::<$t, 2>, linear::<$t, 3>, linear::<$t, 4>, linear::<$t, 9>] as [fn(&mut Ctx); 6]));
            $s.section(concat!("hyper_", stringify!($t)), $n, hyper::<$t>);
        )*};
    }
    pub fn main() {
        let mut s = Suite::new(
            "C21",
            "a case compares two values that differ in no, one or several components by amounts around epsilon or by NaN and infinities, \
             against a per-component oracle; non-trivial: (values, epsilon) hashed differ",
        );
        types! { s, f64: 900; f32: 900; i64: 300; u8: 300; Deg: 400; }
        if cfg!(debug_assertions) {
            types! { s, i8: 200; u64: 200; Wide: 200; }
        }
        s.native("large", 4 * 40, |c| {
            const T: &[fn(&mut Ctx)] = &[vector::<f64, 263>, matrix::<f64, 2, 135>, matrix::<i64, 16, 17>, linear::<f32, 17>];
            run_table!(c, T)
        });
        s.run();
    }
}
