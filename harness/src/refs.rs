//! Shared helpers: flat views of containers and independent references.

use crate::mon::*;
use crate::types::*;
use num_traits::{One, Zero};
use std::ops::*;
use vecmat::{Matrix, Vector};

/// Containers as flat row-major sequences (built only from array
/// conversions, which C03 decides separately).
pub trait Flat: Sized {
    type T;
    const LEN: usize;
    fn build(v: Vec<Self::T>) -> Self;
    fn flat(self) -> Vec<Self::T>;
}
impl<T, const N: usize> Flat for Vector<T, N> {
    type T = T;
    const LEN: usize = N;
    fn build(v: Vec<T>) -> Self {
        let mut it = v.into_iter();
        Vector::from_array(std::array::from_fn(|_| it.next().unwrap()))
    }
    fn flat(self) -> Vec<T> {
        Vec::from(self.into_array())
    }
}
impl<T, const M: usize, const N: usize> Flat for Matrix<T, M, N> {
    type T = T;
    const LEN: usize = M * N;
    fn build(v: Vec<T>) -> Self {
        let mut it = v.into_iter();
        Matrix::from_array_of_arrays(std::array::from_fn(|_| {
            std::array::from_fn(|_| it.next().unwrap())
        }))
    }
    fn flat(self) -> Vec<T> {
        Vec::from(self.into_array_of_arrays()).into_iter().flat_map(Vec::from).collect()
    }
}

/// Tables of instantiations; a case runs entry `index % len`.
// The optimised build instantiates fewer dimensions: it is there for the
// other compilation mode, the wide sweep is the checked build's.
#[macro_export]
macro_rules! vdims {
    ($f:ident $(, $t:ty)*) => {{
        #[cfg(debug_assertions)]
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)* 0>, $f::<$($t,)* 1>, $f::<$($t,)* 2>, $f::<$($t,)* 3>, $f::<$($t,)* 4>, $f::<$($t,)* 5>, $f::<$($t,)* 6>, $f::<$($t,)* 7>, $f::<$($t,)* 8>, $f::<$($t,)* 9>, $f::<$($t,)* 10>, $f::<$($t,)* 11>, $f::<$($t,)* 12>, $f::<$($t,)* 13>, $f::<$($t,)* 14>, $f::<$($t,)* 15>, $f::<$($t,)* 16>, $f::<$($t,)* 17>, $f::<$($t,)* 23>, $f::<$($t,)* 32>, $f::<$($t,)* 33>, $f::<$($t,)* 67>, $f::<$($t,)* 102>, $f::<$($t,)* 128>, ];
        #[cfg(not(debug_assertions))]
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)* 0>, $f::<$($t,)* 1>, $f::<$($t,)* 2>, $f::<$($t,)* 3>, $f::<$($t,)* 4>, $f::<$($t,)* 5>, $f::<$($t,)* 8>, $f::<$($t,)* 17>, $f::<$($t,)* 33>, ];
        T
    }};
}
#[macro_export]
macro_rules! vdims1 {
    ($f:ident $(, $t:ty)*) => {{
        #[cfg(debug_assertions)]
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)* 1>, $f::<$($t,)* 2>, $f::<$($t,)* 3>, $f::<$($t,)* 4>, $f::<$($t,)* 5>, $f::<$($t,)* 6>, $f::<$($t,)* 7>, $f::<$($t,)* 8>, $f::<$($t,)* 9>, $f::<$($t,)* 10>, $f::<$($t,)* 11>, $f::<$($t,)* 12>, $f::<$($t,)* 13>, $f::<$($t,)* 14>, $f::<$($t,)* 15>, $f::<$($t,)* 16>, $f::<$($t,)* 17>, $f::<$($t,)* 23>, $f::<$($t,)* 32>, $f::<$($t,)* 33>, $f::<$($t,)* 67>, ];
        #[cfg(not(debug_assertions))]
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)* 1>, $f::<$($t,)* 2>, $f::<$($t,)* 3>, $f::<$($t,)* 4>, $f::<$($t,)* 5>, $f::<$($t,)* 8>, $f::<$($t,)* 17>, $f::<$($t,)* 33>, ];
        T
    }};
}
#[macro_export]
macro_rules! mdims {
    ($f:ident $(, $t:ty)*) => {{
        #[cfg(debug_assertions)]
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)* 0, 0>, $f::<$($t,)* 0, 1>, $f::<$($t,)* 1, 0>, $f::<$($t,)* 0, 3>, $f::<$($t,)* 3, 0>, $f::<$($t,)* 1, 1>, $f::<$($t,)* 1, 2>, $f::<$($t,)* 1, 3>, $f::<$($t,)* 1, 4>, $f::<$($t,)* 2, 1>, $f::<$($t,)* 2, 2>, $f::<$($t,)* 2, 3>, $f::<$($t,)* 2, 4>, $f::<$($t,)* 3, 1>, $f::<$($t,)* 3, 2>, $f::<$($t,)* 3, 3>, $f::<$($t,)* 3, 4>, $f::<$($t,)* 4, 2>, $f::<$($t,)* 4, 3>, $f::<$($t,)* 4, 4>, $f::<$($t,)* 5, 1>, $f::<$($t,)* 5, 3>, $f::<$($t,)* 5, 5>, $f::<$($t,)* 6, 6>, $f::<$($t,)* 7, 3>, $f::<$($t,)* 3, 8>, $f::<$($t,)* 8, 8>, $f::<$($t,)* 9, 2>, $f::<$($t,)* 1, 17>, $f::<$($t,)* 17, 1>, $f::<$($t,)* 16, 16>, ];
        #[cfg(not(debug_assertions))]
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)* 0, 2>, $f::<$($t,)* 2, 0>, $f::<$($t,)* 1, 1>, $f::<$($t,)* 1, 3>, $f::<$($t,)* 2, 2>, $f::<$($t,)* 3, 2>, $f::<$($t,)* 2, 3>, $f::<$($t,)* 4, 4>, $f::<$($t,)* 5, 3>, $f::<$($t,)* 3, 8>, ];
        T
    }};
}
#[macro_export]
macro_rules! mdims1 {
    ($f:ident $(, $t:ty)*) => {{
        #[cfg(debug_assertions)]
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)* 1, 1>, $f::<$($t,)* 1, 2>, $f::<$($t,)* 1, 3>, $f::<$($t,)* 1, 4>, $f::<$($t,)* 2, 1>, $f::<$($t,)* 2, 2>, $f::<$($t,)* 2, 3>, $f::<$($t,)* 2, 4>, $f::<$($t,)* 3, 1>, $f::<$($t,)* 3, 2>, $f::<$($t,)* 3, 3>, $f::<$($t,)* 3, 4>, $f::<$($t,)* 4, 2>, $f::<$($t,)* 4, 3>, $f::<$($t,)* 4, 4>, $f::<$($t,)* 5, 1>, $f::<$($t,)* 5, 3>, $f::<$($t,)* 5, 5>, $f::<$($t,)* 6, 6>, $f::<$($t,)* 7, 3>, $f::<$($t,)* 3, 8>, $f::<$($t,)* 8, 8>, $f::<$($t,)* 9, 2>, $f::<$($t,)* 1, 17>, $f::<$($t,)* 17, 1>, $f::<$($t,)* 16, 16>, ];
        #[cfg(not(debug_assertions))]
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)* 1, 1>, $f::<$($t,)* 1, 3>, $f::<$($t,)* 2, 2>, $f::<$($t,)* 3, 2>, $f::<$($t,)* 2, 3>, $f::<$($t,)* 4, 4>, $f::<$($t,)* 5, 3>, $f::<$($t,)* 3, 8>, ];
        T
    }};
}
#[macro_export]
macro_rules! vdims_few {
    ($f:ident $(, $t:ty)*) => {{
        #[cfg(debug_assertions)]
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)* 0>, $f::<$($t,)* 1>, $f::<$($t,)* 2>, $f::<$($t,)* 3>, $f::<$($t,)* 4>, $f::<$($t,)* 5>, $f::<$($t,)* 7>, $f::<$($t,)* 8>, $f::<$($t,)* 16>, $f::<$($t,)* 17>, $f::<$($t,)* 33>, ];
        #[cfg(not(debug_assertions))]
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)* 0>, $f::<$($t,)* 1>, $f::<$($t,)* 3>, $f::<$($t,)* 4>, $f::<$($t,)* 9>, ];
        T
    }};
}
#[macro_export]
macro_rules! mdims_few {
    ($f:ident $(, $t:ty)*) => {{
        #[cfg(debug_assertions)]
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)* 0, 0>, $f::<$($t,)* 0, 2>, $f::<$($t,)* 2, 0>, $f::<$($t,)* 1, 1>, $f::<$($t,)* 1, 3>, $f::<$($t,)* 3, 1>, $f::<$($t,)* 2, 2>, $f::<$($t,)* 2, 3>, $f::<$($t,)* 3, 2>, $f::<$($t,)* 3, 3>, $f::<$($t,)* 4, 4>, $f::<$($t,)* 5, 3>, $f::<$($t,)* 3, 6>, $f::<$($t,)* 9, 7>, ];
        #[cfg(not(debug_assertions))]
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)* 2, 0>, $f::<$($t,)* 1, 3>, $f::<$($t,)* 2, 2>, $f::<$($t,)* 3, 2>, $f::<$($t,)* 4, 4>, ];
        T
    }};
}
#[macro_export]
macro_rules! run_table {
    ($c:expr, $t:expr) => {{
        let t = $t;
        t[$c.index as usize % t.len()]($c)
    }};
}

pub fn hash_u64s(it: impl IntoIterator<Item = u64>) -> u64 {
    it.into_iter().fold(0x1234, hash2)
}

// --------------------------------------------------- exact linear algebra

pub type Mat<T> = Vec<Vec<T>>;

pub fn rows_of<T: Clone, const M: usize, const N: usize>(a: &[[T; N]; M]) -> Mat<T> {
    a.iter().map(|r| r.to_vec()).collect()
}
/// determinant by Gaussian elimination over the prime field
pub fn det_gauss(a: &Mat<Fp>) -> Fp {
    let n = a.len();
    let mut a = a.clone();
    let mut d = Fp(1);
    for c in 0..n {
        let Some(p) = (c..n).find(|&r| a[r][c].0 != 0) else {
            return Fp(0);
        };
        if p != c {
            a.swap(p, c);
            d = -d;
        }
        d = d * a[c][c];
        let inv = a[c][c].recip();
        for r in c + 1..n {
            let f = a[r][c] * inv;
            if f.0 != 0 {
                for k in c..n {
                    let t = a[c][k];
                    a[r][k] = a[r][k] - f * t;
                }
            }
        }
    }
    d
}
pub fn minor<T: Clone>(a: &Mat<T>, i: usize, j: usize) -> Mat<T> {
    a.iter()
        .enumerate()
        .filter(|(r, _)| *r != i)
        .map(|(_, row)| row.iter().enumerate().filter(|(c, _)| *c != j).map(|(_, x)| x.clone()).collect())
        .collect()
}
pub fn cofactor_ref(a: &Mat<Fp>, i: usize, j: usize) -> Fp {
    let d = det_gauss(&minor(a, i, j));
    if (i + j) % 2 == 1 {
        -d
    } else {
        d
    }
}
/// determinant by permutation expansion, for any ring (small sizes)
pub fn det_leibniz<T: Copy + Zero + One + Neg<Output = T>>(a: &Mat<T>) -> T {
    fn rec<T: Copy + Zero + One + Neg<Output = T>>(a: &Mat<T>, row: usize, used: &mut Vec<usize>) -> T {
        let n = a.len();
        if row == n {
            let mut inv = 0;
            for i in 0..n {
                for j in i + 1..n {
                    if used[i] > used[j] {
                        inv += 1;
                    }
                }
            }
            return if inv % 2 == 1 { -T::one() } else { T::one() };
        }
        let mut s = T::zero();
        for c in 0..n {
            if !used.contains(&c) {
                used.push(c);
                s = s + a[row][c] * rec(a, row + 1, used);
                used.pop();
            }
        }
        s
    }
    rec(a, 0, &mut Vec::new())
}
pub fn mul_ref<T: Copy + Zero + Mul<Output = T>>(a: &Mat<T>, b: &Mat<T>, inner: usize, cols: usize) -> Mat<T> {
    a.iter()
        .map(|r| {
            (0..cols)
                .map(|j| {
                    let mut s = T::zero();
                    for k in 0..inner {
                        s = s + r[k] * b[k][j];
                    }
                    s
                })
                .collect()
        })
        .collect()
}
pub fn rank_ref(a: &Mat<Fp>) -> usize {
    let (m, n) = (a.len(), a.first().map_or(0, |r| r.len()));
    let mut a = a.clone();
    let mut r = 0;
    for c in 0..n {
        if r == m {
            break;
        }
        let Some(p) = (r..m).find(|&i| a[i][c].0 != 0) else { continue };
        a.swap(p, r);
        let inv = a[r][c].recip();
        for i in r + 1..m {
            let f = a[i][c] * inv;
            for k in c..n {
                let t = a[r][k];
                a[i][k] = a[i][k] - f * t;
            }
        }
        r += 1;
    }
    r
}

// ------------------------------------------------- quaternion reference

/// Hamilton product from the multiplication table of 1, i, j, k
pub fn qmul<T: Copy + Zero + Mul<Output = T> + Sub<Output = T>>(a: [T; 4], b: [T; 4]) -> [T; 4] {
    // (index, sign) of unit[i] * unit[j]
    const TAB: [[(usize, bool); 4]; 4] = [
        [(0, false), (1, false), (2, false), (3, false)],
        [(1, false), (0, true), (3, false), (2, true)],
        [(2, false), (3, true), (0, true), (1, false)],
        [(3, false), (2, false), (1, true), (0, true)],
    ];
    let mut r = [T::zero(); 4];
    for i in 0..4 {
        for j in 0..4 {
            let (k, neg) = TAB[i][j];
            let t = a[i] * b[j];
            r[k] = if neg { r[k] - t } else { r[k] + t };
        }
    }
    r
}
pub fn cmul<T: Copy + Mul<Output = T> + Sub<Output = T> + Add<Output = T>>(a: [T; 2], b: [T; 2]) -> [T; 2] {
    [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
}

// --------------------------------------------------- rotations (f64)

/// Rodrigues' formula
pub fn rodrigues(k: [f64; 3], th: f64, v: [f64; 3]) -> [f64; 3] {
    let (s, c) = th.sin_cos();
    let kv = cross(k, v);
    let d = dot3(k, v) * (1.0 - c);
    std::array::from_fn(|i| v[i] * c + kv[i] * s + k[i] * d)
}
pub fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn dot3(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn len(a: &[f64]) -> f64 {
    a.iter().map(|x| x * x).sum::<f64>().sqrt()
}
pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}

/// inverse by Gauss-Jordan elimination with pivoting
pub fn gauss_inverse(a: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let n = a.len();
    let mut a: Vec<Vec<f64>> = a.iter().enumerate().map(|(i, r)| {
        let mut r = r.clone();
        r.extend((0..n).map(|j| if i == j { 1.0 } else { 0.0 }));
        r
    }).collect();
    for k in 0..n {
        let p = (k..n).max_by(|x, y| a[*x][k].abs().partial_cmp(&a[*y][k].abs()).unwrap())?;
        if a[p][k] == 0.0 {
            return None;
        }
        a.swap(p, k);
        let d = a[k][k];
        a[k].iter_mut().for_each(|x| *x /= d);
        for i in 0..n {
            if i != k {
                let f = a[i][k];
                for j in 0..2 * n {
                    let t = a[k][j];
                    a[i][j] -= f * t;
                }
            }
        }
    }
    Some(a.iter().map(|r| r[n..].to_vec()).collect())
}
