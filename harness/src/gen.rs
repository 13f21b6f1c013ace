//! Hostile value generators.

use crate::mon::Rng;
use crate::types::*;
use num_traits::{Float, FloatConst, NumCast};
use std::fmt::{Debug, Display};
use vecmat::{Matrix, Vector};

/// The two float types behind one face.
pub trait Fl:
    Float
    + FloatConst
    + NumCast
    + Debug
    + Display
    + Default
    + Send
    + Sync
    + 'static
    + std::iter::Sum
    + std::ops::AddAssign
    + std::ops::SubAssign
    + std::ops::MulAssign
    + std::ops::DivAssign
    + std::ops::RemAssign
    + vecmat::traits::NormL1<Output = Self>
    + vecmat::traits::NormLInf<Output = Self>
    + num_traits::Inv<Output = Self>
    + num_traits::Signed
{
    const NAME: &'static str;
    fn f(x: f64) -> Self;
    fn d(self) -> f64;
    fn bits(self) -> u64;
    fn from_bits64(b: u64) -> Self;
    fn eps() -> f64;
    /// order-preserving integer image, for distances in ulp
    fn lex(self) -> i64;
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    fn f(x: f64) -> f64 {
        x
    }
    fn d(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn from_bits64(b: u64) -> f64 {
        f64::from_bits(b)
    }
    fn eps() -> f64 {
        f64::EPSILON
    }
    fn lex(self) -> i64 {
        let b = self.to_bits() as i64;
        if b < 0 {
            i64::MIN.wrapping_sub(b)
        } else {
            b
        }
    }
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    fn f(x: f64) -> f32 {
        x as f32
    }
    fn d(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_bits64(b: u64) -> f32 {
        f32::from_bits(b as u32)
    }
    fn eps() -> f64 {
        f32::EPSILON as f64
    }
    fn lex(self) -> i64 {
        let b = self.to_bits() as i32;
        (if b < 0 { i32::MIN.wrapping_sub(b) } else { b }) as i64
    }
}

/// distance in units in the last place; 0 for equal, NaN classes, and ±0
pub fn ulps<T: Fl>(a: T, b: T) -> u64 {
    if a.is_nan() || b.is_nan() {
        return if a.is_nan() && b.is_nan() { 0 } else { u64::MAX };
    }
    if a == b {
        return 0;
    }
    if a.is_infinite() || b.is_infinite() {
        // one step beyond the largest finite value counts as near
        return a.lex().abs_diff(b.lex()).max(1);
    }
    a.lex().abs_diff(b.lex())
}
/// bit equality with NaN identified by class
pub fn same<T: Fl>(a: T, b: T) -> bool {
    a.bits() == b.bits() || (a.is_nan() && b.is_nan())
}

impl Rng {
    /// any float: mixture of ordinary, special and extreme values
    pub fn hostile<T: Fl>(&mut self) -> T {
        match self.below(20) {
            0..=5 => T::f(self.uniform(-10.0, 10.0)),
            6 | 7 => T::f(self.range(-9, 9) as f64),
            8 => T::f(self.range(-9, 9) as f64 + 0.5),
            9 => T::f(self.uniform(-1.0, 1.0)),
            10 => self.special(),
            11 => {
                let s = self.special::<T>();
                self.nudge(s)
            }
            12 => T::f(self.range(-64, 64) as f64 * std::f64::consts::PI / 16.0),
            13 => T::f(self.gauss() * 10f64.powi(self.range(-12, 12) as i32)),
            14 => self.anybits(),
            15 => T::f(self.uniform(1e3, 1e9) * if self.chance(1, 2) { -1.0 } else { 1.0 }),
            16 => T::f(self.range(-1 << 40, 1 << 40) as f64),
            17 => T::f(2f64.powi(self.range(-40, 40) as i32)),
            _ => T::f(self.gauss()),
        }
    }
    pub fn anybits<T: Fl>(&mut self) -> T {
        T::from_bits64(self.u64())
    }
    pub fn nudge<T: Fl>(&mut self, x: T) -> T {
        if !x.is_finite() {
            return x;
        }
        let k = self.range(-3, 3);
        if x == T::zero() {
            let t = T::from_bits64(k.unsigned_abs());
            return if k < 0 { -t } else { t };
        }
        let y = T::from_bits64(x.bits().wrapping_add(k as u64));
        if y.is_nan() {
            x
        } else {
            y
        }
    }
    pub fn special<T: Fl>(&mut self) -> T {
        let t = [
            T::zero(),
            -T::zero(),
            T::one(),
            -T::one(),
            T::f(0.5),
            T::f(-0.5),
            T::f(2.0),
            T::epsilon(),
            -T::epsilon(),
            T::min_positive_value(),
            -T::min_positive_value(),
            T::from_bits64(1),
            T::max_value(),
            T::min_value(),
            T::infinity(),
            T::neg_infinity(),
            T::nan(),
            T::PI(),
            T::FRAC_PI_2(),
            -T::PI(),
            T::E(),
            T::max_value().sqrt(),
            T::min_positive_value().sqrt(),
        ];
        self.pick(&t)
    }
    /// finite, of moderate magnitude, with zeros, ties and small integers
    pub fn tame<T: Fl>(&mut self) -> T {
        match self.below(10) {
            0 => T::zero(),
            1 => T::f(self.range(-3, 3) as f64),
            2 => T::f(self.range(-16, 16) as f64 / 4.0),
            3 => T::f(self.gauss() * 1e-3),
            4 => T::f(self.gauss() * 1e3),
            _ => T::f(self.gauss()),
        }
    }
    /// an angle: ordinary, special, negative, beyond a turn, tiny
    pub fn angle<T: Fl>(&mut self) -> T {
        let pi = std::f64::consts::PI;
        match self.below(10) {
            0 => T::f(self.range(-16, 16) as f64 * pi / 4.0),
            1 => T::f(self.range(-24, 24) as f64 * pi / 6.0),
            2 => {
                let a = T::f(self.range(-8, 8) as f64 * pi / 2.0);
                self.nudge(a)
            }
            3 => T::f(self.uniform(-1.0, 1.0) * 10f64.powi(self.range(-9, -1) as i32)),
            4 => T::f(self.uniform(-40.0, 40.0)),
            5 => T::f(self.range(-4, 4) as f64 * pi + self.gauss() * 1e-6),
            _ => T::f(self.uniform(-2.0 * pi, 2.0 * pi)),
        }
    }
    /// direction in D dimensions before normalisation: generic, axis
    /// aligned, on coordinate planes, nearly so, and at threshold values
    pub fn direction<const D: usize>(&mut self) -> [f64; D] {
        loop {
            let mut v = [0.0; D];
            match self.below(10) {
                0 => {
                    let i = self.below(D);
                    v[i] = if self.chance(1, 2) { 1.0 } else { -1.0 };
                }
                1 => {
                    let i = self.below(D);
                    v[i] = if self.chance(1, 2) { 1.0 } else { -1.0 };
                    let s = 10f64.powi(self.range(-18, -1) as i32);
                    for x in v.iter_mut() {
                        *x += s * self.gauss();
                    }
                }
                2 => {
                    let i = self.below(D);
                    for (k, x) in v.iter_mut().enumerate() {
                        *x = if k == i { 0.0 } else { self.gauss() };
                    }
                }
                3 => {
                    let i = self.below(D);
                    let s = 10f64.powi(self.range(-18, -1) as i32);
                    for (k, x) in v.iter_mut().enumerate() {
                        *x = if k == i { s * self.gauss() } else { self.gauss() };
                    }
                }
                4 => {
                    for x in v.iter_mut() {
                        *x = self.range(-2, 2) as f64;
                    }
                }
                5 => {
                    // last component near a likely threshold
                    let t = self.pick(&[0.5, -0.5, 0.0, 0.9, 0.99, 0.999, -0.9, -0.99, 0.7071067811865476]);
                    let t: f64 = t + self.pick(&[0.0, 0.0, 1e-16, -1e-16, 1e-12, -1e-12, 1e-6, -1e-6]);
                    let i = self.below(D);
                    let mut n = 0.0;
                    for (k, x) in v.iter_mut().enumerate() {
                        if k != i {
                            *x = self.gauss();
                            n += *x * *x;
                        }
                    }
                    if n > 0.0 {
                        let s = ((1.0 - t * t) / n).sqrt();
                        for (k, x) in v.iter_mut().enumerate() {
                            if k != i {
                                *x *= s;
                            }
                        }
                    }
                    v[i] = t;
                }
                _ => {
                    for x in v.iter_mut() {
                        *x = self.gauss();
                    }
                }
            }
            // signed zeros as well
            for x in v.iter_mut() {
                if *x == 0.0 && self.chance(1, 4) {
                    *x = -0.0;
                }
            }
            let n: f64 = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            if n > 1e-3 && n.is_finite() {
                for x in v.iter_mut() {
                    *x /= n;
                }
                // second pass removes the last rounding of the first
                let n: f64 = v.iter().map(|x| x * x).sum::<f64>().sqrt();
                for x in v.iter_mut() {
                    *x /= n;
                }
                return v;
            }
        }
    }
    /// unit vector of type T (normalised in T)
    pub fn unit_vec<T: Fl, const D: usize>(&mut self) -> [T; D] {
        self.direction::<D>().map(T::f)
    }
    /// small, zero, extreme and random integers
    pub fn int(&mut self) -> i64 {
        match self.below(12) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => i64::MIN,
            4 => i64::MAX,
            5 | 6 => self.range(-10, 10),
            7 => self.pick(&[127, -128, 255, 32767, -32768, 65535, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64]),
            8 => self.u64() as i64 >> self.below(64),
            _ => self.u64() as i64,
        }
    }
    /// field element, frequently zero, one, or small
    pub fn fp(&mut self) -> Fp {
        match self.below(8) {
            0 => Fp(0),
            1 => Fp::int(self.range(-2, 2)),
            2 => Fp::int(self.range(-20, 20)),
            _ => Fp::random(self),
        }
    }
    pub fn fp_nz(&mut self) -> Fp {
        loop {
            let x = self.fp();
            if x.0 != 0 {
                return x;
            }
        }
    }
    pub fn dense_fp(&mut self) -> Fp {
        Fp::random(self)
    }
    pub fn sym(&mut self) -> Sym {
        Sym(self.u64())
    }
    pub fn text(&mut self, alphabet: &[u8], max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| alphabet[self.below(alphabet.len())] as char).collect()
    }
}

pub fn vec_from<T, const N: usize>(mut f: impl FnMut(usize) -> T) -> Vector<T, N> {
    Vector::from_array(std::array::from_fn(|i| f(i)))
}
pub fn mat_from<T, const M: usize, const N: usize>(
    mut f: impl FnMut(usize, usize) -> T,
) -> Matrix<T, M, N> {
    Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| f(i, j))))
}
pub fn arr2<T, const M: usize, const N: usize>(
    mut f: impl FnMut(usize, usize) -> T,
) -> [[T; N]; M] {
    std::array::from_fn(|i| std::array::from_fn(|j| f(i, j)))
}

/// A structured pattern of non-zero positions: banded, triangular, block,
/// arrow, checkerboard, permutation, elementary, ... The special cases of a
/// shortcut taken for "simple" matrices live here.
pub fn mask(r: &mut Rng, m: usize, n: usize) -> Vec<Vec<bool>> {
    let k = m.max(n);
    let (lo, up) = (r.below(k + 1), r.below(k + 1));
    let (p, q) = (r.below(k.max(1)), r.below(k.max(1)));
    let kind = r.below(12);
    let mut perm: Vec<usize> = (0..k).collect();
    for i in (1..k).rev() {
        perm.swap(i, r.below(i + 1));
    }
    let anti = r.chance(1, 4);
    let mut a: Vec<Vec<bool>> = (0..m)
        .map(|i| {
            (0..n)
                .map(|j| {
                    let j = if anti { n - 1 - j } else { j };
                    match kind {
                        // banded, with the diagonal
                        0 => i <= j + lo && j <= i + up,
                        // triangular with one diagonal removed
                        1 => i <= j && (j == i || j != i + up.max(1)),
                        2 => j <= i && (j == i || i != j + lo.max(1)),
                        // two blocks
                        3 => (i < p) == (j < p),
                        // block triangular
                        4 => i < p || j >= p,
                        // arrow
                        5 => i == j || i == p || j == p,
                        // diagonal and one further entry
                        6 => i == j || (i, j) == (p, q),
                        // checkerboard
                        7 => (i + j) % 2 == p % 2 || i == j,
                        // permutation plus one entry
                        8 => perm[i] == j || (i, j) == (p, q),
                        // two permutations
                        9 => perm[i] == j || i == j,
                        // row or column missing its middle
                        10 => i == j || (i == p) != (j == q),
                        // periodic bands
                        _ => (j + k - i % k) % k.max(1) % (p + 2) == 0,
                    }
                })
                .collect()
        })
        .collect();
    // drop or add a position now and then
    if m > 0 && n > 0 && r.chance(1, 5) {
        let (i, j) = (r.below(m), r.below(n));
        a[i][j] = !a[i][j];
    }
    a
}

/// Give some of the vectors a structure that random ones hardly ever have:
/// equal or opposite components, zeros and ones, one component only, unit length.
pub fn relate<T: Copy + num_traits::Num + std::ops::Neg<Output = T>>(r: &mut Rng, v: &mut [T]) {
    let two = T::one() + T::one();
    let (four, five) = (two + two, two + two + T::one());
    let legs = if five != T::zero() { Some(((two + T::one()) / five, four / five)) } else { None };
    relate_ring(r, v, legs)
}
/// Two legs of a triangle with a hypotenuse of length one, if there is such a thing.
pub fn relate_ring<T: Copy + num_traits::Zero + num_traits::One + std::ops::Neg<Output = T>>(r: &mut Rng, v: &mut [T], legs: Option<(T, T)>) {
    let n = v.len();
    if n == 0 || r.chance(1, 2) {
        return;
    }
    let (i, j) = (r.below(n), r.below(n));
    match r.below(10) {
        0 => v[i] = v[j],
        1 => v[i] = -v[j],
        2 => (v[0], v[1 % n]) = (v[i], v[i]),
        3 => (v[0], v[1 % n]) = (v[i], -v[i]),
        4 => {
            let x = v[i];
            v.fill(x);
        }
        5 => v[if r.chance(1, 2) { 0 } else { n - 1 }] = T::zero(),
        6 => v[i] = if r.chance(1, 2) { T::one() } else { -T::one() },
        7 => {
            let x = if r.chance(1, 2) { T::one() } else { v[i] };
            v.fill(T::zero());
            v[i] = x;
        }
        8 => {
            for x in v.iter_mut() {
                if r.chance(1, 2) {
                    *x = if r.chance(1, 2) { T::zero() } else { T::one() };
                }
            }
        }
        _ => {
            if let (Some((p, q)), true) = (legs, n > 1) {
                v.fill(T::zero());
                v[i] = p;
                v[(i + 1) % n] = q;
            }
        }
    }
}
/// The same for floats, also signs, integers, unit length and wide ranges.
pub fn relate_fl<T: Fl>(r: &mut Rng, v: &mut [T]) {
    if v.is_empty() || r.chance(1, 2) {
        return relate(r, v);
    }
    match r.below(6) {
        0 => v.iter_mut().for_each(|x| *x = -Float::abs(*x)),
        1 => v.iter_mut().for_each(|x| *x = Float::abs(*x)),
        2 | 3 => {
            let l = v.iter().map(|x| x.d() * x.d()).sum::<f64>().sqrt();
            if l.is_normal() {
                v.iter_mut().for_each(|x| *x = T::f(x.d() / l));
            }
        }
        4 => v.iter_mut().for_each(|x| *x = T::f(r.range(-9, 9) as f64)),
        _ => {
            let s = 10f64.powi(r.range(-4, 4) as i32);
            let k = r.below(v.len());
            v[k] = T::f(v[k].d() * s);
        }
    }
}
/// The second of two operands is sometimes made from the first.
pub fn relate_to<T: Copy + std::ops::Neg<Output = T>>(r: &mut Rng, a: &[T], b: &mut [T]) {
    if a.len() != b.len() || r.chance(3, 4) {
        return;
    }
    match r.below(4) {
        0 => b.copy_from_slice(a),
        1 => b.iter_mut().zip(a).for_each(|(y, x)| *y = -*x),
        2 => b.iter_mut().zip(a.iter().rev()).for_each(|(y, x)| *y = *x),
        _ => {
            if !a.is_empty() {
                let k = r.below(a.len());
                b[k] = a[k];
            }
        }
    }
}
