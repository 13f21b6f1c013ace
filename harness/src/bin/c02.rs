//! C02: every view of a container denotes the same contiguous row-major
//! elements; writes through one view are seen through all others and
//! nowhere else; out-of-range indices panic.
use harness::*;
use std::mem::{align_of, size_of};
use vecmat::complex::Moebius;
use vecmat::{Complex, Matrix, Quaternion, Vector};

trait Cell_: Clone + PartialEq + std::fmt::Debug + 'static {
    const NAME: &'static str;
    fn mk(v: u64) -> Self;
}
impl Cell_ for u8 {
    const NAME: &'static str = "u8";
    fn mk(v: u64) -> u8 {
        v as u8
    }
}
impl Cell_ for u64 {
    const NAME: &'static str = "u64";
    fn mk(v: u64) -> u64 {
        v
    }
}
impl Cell_ for u32 {
    const NAME: &'static str = "u32";
    fn mk(v: u64) -> u32 {
        v as u32
    }
}
impl Cell_ for [u64; 2] {
    const NAME: &'static str = "[u64; 2]";
    fn mk(v: u64) -> Self {
        [v, !v]
    }
}
impl Cell_ for [u8; 3] {
    const NAME: &'static str = "[u8; 3]";
    fn mk(v: u64) -> Self {
        [v as u8, (v >> 8) as u8, (v >> 16) as u8]
    }
}
impl Cell_ for (u8, u32) {
    const NAME: &'static str = "(u8, u32)";
    fn mk(v: u64) -> Self {
        (v as u8, (v >> 8) as u32)
    }
}
impl Cell_ for String {
    const NAME: &'static str = "String";
    fn mk(v: u64) -> Self {
        format!("{:x}", v & 0xffff)
    }
}
impl Cell_ for () {
    const NAME: &'static str = "()";
    fn mk(_: u64) {}
}
#[repr(align(32))]
#[derive(Clone, PartialEq, Debug)]
struct Al(u8);
impl Cell_ for Al {
    const NAME: &'static str = "32-byte aligned";
    fn mk(v: u64) -> Self {
        Al(v as u8)
    }
}

struct Model<T> {
    what: &'static str,
    dims: [usize; 2],
    want: Vec<T>,
    last: String,
}
impl<T: Cell_> Model<T> {
    fn see<'a>(&self, c: &mut Ctx, view: &'static str, it: impl IntoIterator<Item = &'a T>) {
        let got: Vec<&T> = it.into_iter().collect();
        c.op(view);
        c.check(got.len() == self.want.len() && got.iter().zip(&self.want).all(|(a, b)| **a == *b), view, || {
            format!("{}<{}>{:?}: view shows {:?}, elements are {:?} (last write: {})", self.what, T::NAME, self.dims, got, self.want, self.last)
        });
    }
    fn at(&self, c: &mut Ctx, view: &'static str, i: usize, got: &T, addr: *const T, base: *const T) {
        c.op(view);
        c.check(*got == self.want[i], view, || {
            format!("{}<{}>{:?}: element {i} shown as {:?}, is {:?} (last write: {})", self.what, T::NAME, self.dims, got, self.want[i], self.last)
        });
        c.check(addr as usize == base as usize + i * size_of::<T>(), "views share one contiguous row-major storage", || {
            format!("{view} {}<{}>{:?}: element {i} at offset {}", self.what, T::NAME, self.dims, addr as usize as i128 - base as usize as i128)
        });
    }
}

fn check_vec<T: Cell_, const N: usize>(c: &mut Ctx, v: &Vector<T, N>, m: &Model<T>) {
    let base = v as *const Vector<T, N> as *const T;
    m.see(c, "Vector::iter", v.iter());
    m.see(c, "&Vector::into_iter", v);
    m.see(c, "Vector::as_array", v.as_array());
    m.see(c, "Vector::AsRef", AsRef::<[T; N]>::as_ref(v));
    m.see(c, "&[T; N]::from(&Vector)", <&[T; N]>::from(v));
    c.check(v.as_ptr() == base, "Vector::as_ptr", || format!("N {N}"));
    c.check(v.iter().len() == N, "Vector::iter().len", || format!("N {N}"));
    for i in 0..N {
        m.at(c, "Vector::index", i, &v[i], &v[i], base);
        let r = unsafe { v.get_unchecked(i) };
        m.at(c, "Vector::get_unchecked", i, r, r, base);
        let p = unsafe { v.as_ptr().add(i) };
        m.at(c, "Vector::as_ptr", i, unsafe { &*p }, p, base);
        let r = v.iter().nth(i).unwrap();
        m.at(c, "Vector::iter().nth", i, r, r, base);
    }
}

fn vectors<T: Cell_, const N: usize>(c: &mut Ctx) {
    c.check(size_of::<Vector<T, N>>() == N * size_of::<T>(), "Vector has no padding", || format!("{} elements of {}", N, T::NAME));
    c.check(align_of::<Vector<T, N>>() == align_of::<T>(), "Vector alignment", || format!("{} elements of {}", N, T::NAME));
    let init: Vec<T> = (0..N).map(|_| T::mk(c.rng.u64())).collect();
    let mut v: Vector<T, N> = <Vector<T, N> as Flat>::build(init.clone());
    let mut m = Model { what: "Vector", dims: [N, 0], want: init, last: "construction".into() };
    c.sample(|| format!("Vector<{}, {N}> {:?}", T::NAME, m.want.iter().take(4).collect::<Vec<_>>()));
    check_vec(c, &v, &m);
    let steps = c.loops(12).max(2);
    for _ in 0..steps {
        let k = c.rng.below(10);
        let x = c.rng.u64();
        c.input(hash_u64s([x, k as u64, N as u64, hash_str(T::NAME)]));
        if N > 0 {
            let i = c.rng.below(N);
            let val = || T::mk(x);
            match k {
                0 => v[i] = val(),
                1 => *v.iter_mut().nth(i).unwrap() = val(),
                2 => v.as_mut_array()[i] = val(),
                3 => AsMut::<[T; N]>::as_mut(&mut v)[i] = val(),
                4 => <&mut [T; N]>::from(&mut v)[i] = val(),
                5 => *(&mut v).into_iter().nth(i).unwrap() = val(),
                6 => unsafe { *v.get_unchecked_mut(i) = val() },
                7 => unsafe { *v.as_mut_ptr().add(i) = val() },
                8 => {
                    // several live views at once, written in another order
                    let vals: Vec<T> = (0..N).map(|j| T::mk(hash2(x, j as u64))).collect();
                    let mut rs: Vec<(usize, &mut T)> = v.iter_mut().enumerate().collect();
                    let s = c.rng.below(N);
                    rs.rotate_left(s);
                    if c.rng.chance(1, 2) {
                        rs.reverse();
                    }
                    for (j, r) in rs {
                        *r = vals[j].clone();
                    }
                    m.want = vals;
                }
                _ => {
                    // write everything through one raw pointer
                    let p = v.as_mut_ptr();
                    for j in 0..N {
                        let t = T::mk(hash2(x, j as u64));
                        unsafe { *p.add(j) = t.clone() };
                        m.want[j] = t;
                    }
                }
            }
            if k < 8 {
                m.want[i] = val();
            }
            m.last = format!("mutable view #{k} at {i}");
        }
        check_vec(c, &v, &m);
    }
    // out of range
    let mut bad = vec![N, N + 1, 2 * N + 1, usize::MAX, usize::MAX / 2 + 1, 1 << 32, 256 + N];
    bad.push(N + c.rng.below(1000));
    bad.push((c.rng.u64() as usize).max(N));
    if c.miri {
        bad.truncate(3);
    }
    for i in bad {
        c.op("Vector::index(out of range)");
        let r = catch(|| v[i].clone());
        c.check(r.is_err(), "Vector::index out of range must panic", || format!("Vector<{}, {N}>[{i}] gave {:?}", T::NAME, r));
        let r = catch(|| v[i] = T::mk(7));
        c.check(r.is_err(), "Vector::index_mut out of range must panic", || format!("Vector<{}, {N}>[{i}] = x returned", T::NAME));
    }
    m.last = "out-of-range accesses".into();
    check_vec(c, &v, &m);
}

macro_rules! named {
    ($f:ident, $n:expr, $($k:expr, $r:ident, $m:ident, $g:ident);*) => {
        fn $f<T: Cell_>(c: &mut Ctx) {
            let init: Vec<T> = (0..$n).map(|_| T::mk(c.rng.u64())).collect();
            let mut v: Vector<T, $n> = <Vector<T, $n> as Flat>::build(init.clone());
            let mut m = Model { what: "Vector", dims: [$n, 0], want: init, last: "construction".into() };
            macro_rules! look { () => {
                check_vec(c, &v, &m);
                let base = v.as_ptr();
                $( m.at(c, concat!("Vector", stringify!($n), "::", stringify!($r)), $k, v.$r(), v.$r(), base);
                   { let q: *const T = v.$m(); let base = v.as_ptr(); m.at(c, concat!("Vector", stringify!($n), "::", stringify!($m)), $k, unsafe { &*q }, q, base); } )*
            } }
            look!();
            $({
                let x = c.rng.u64();
                c.input(hash_u64s([x, $k, $n]));
                *v.$m() = T::mk(x);
                m.want[$k] = T::mk(x);
                m.last = stringify!($m).into();
                look!();
            })*
            // the by-value accessors
            let a: [u64; $n] = std::array::from_fn(|_| c.rng.u64());
            let w = Vector::<u64, $n>::from_array(a);
            $( c.eq(concat!("Vector", stringify!($n), "::", stringify!($g)), w.$g(), a[$k], || format!("{a:?}")); )*
            let b = a.map(|x| u128::from(x) << 64 | u128::from(!x));
            let w = Vector::<u128, $n>::from_array(b);
            $( c.eq(concat!("Vector", stringify!($n), "::", stringify!($g)), w.$g(), b[$k], || format!("{b:?}")); )*
            let b = a.map(|x| x as u8);
            let w = Vector::<u8, $n>::from_array(b);
            $( c.eq(concat!("Vector", stringify!($n), "::", stringify!($g)), w.$g(), b[$k], || format!("{b:?}")); )*
        }
    };
}
named!(named2, 2, 0, x_ref, x_mut, x; 1, y_ref, y_mut, y);
named!(named3, 3, 0, x_ref, x_mut, x; 1, y_ref, y_mut, y; 2, z_ref, z_mut, z);
named!(named4, 4, 0, x_ref, x_mut, x; 1, y_ref, y_mut, y; 2, z_ref, z_mut, z; 3, w_ref, w_mut, w);

fn check_mat<T: Cell_, const M: usize, const N: usize>(c: &mut Ctx, v: &Matrix<T, M, N>, m: &Model<T>) {
    let base = v as *const Matrix<T, M, N> as *const T;
    m.see(c, "Matrix::iter", v.iter());
    m.see(c, "&Matrix::into_iter", v);
    m.see(c, "Matrix::as_array_of_arrays", v.as_array_of_arrays().iter().flatten());
    m.see(c, "Matrix::as_array_of_vectors", v.as_array_of_vectors().iter().flatten());
    m.see(c, "Matrix::as_vector_of_vectors", v.as_vector_of_vectors().iter().flatten());
    m.see(c, "Matrix::AsRef", AsRef::<Vector<Vector<T, N>, M>>::as_ref(v).iter().flatten());
    m.see(c, "&Vector<Vector>::from(&Matrix)", <&Vector<Vector<T, N>, M>>::from(v).iter().flatten());
    m.see(c, "&[[T; N]; M]::from(&Matrix)", <&[[T; N]; M]>::from(v).iter().flatten());
    c.check(v.as_ptr() == base, "Matrix::as_ptr", || format!("{M}x{N}"));
    c.check(v.as_array_of_arrays() as *const _ as usize == base as usize, "Matrix::as_array_of_arrays address", || format!("{M}x{N}"));
    for i in 0..M {
        let row: Vec<&T> = v.row_ref(i).iter().collect();
        c.op("Matrix::row_ref");
        c.check(row.len() == N && row.iter().enumerate().all(|(j, x)| **x == m.want[i * N + j]), "Matrix::row_ref", || format!("{M}x{N} row {i}: {row:?} of {:?}", m.want));
        for j in 0..N {
            let k = i * N + j;
            m.at(c, "Matrix::index", k, &v[(i, j)], &v[(i, j)], base);
            m.at(c, "Matrix::row_ref", k, &v.row_ref(i)[j], &v.row_ref(i)[j], base);
            let r = unsafe { v.get_unchecked(i, j) };
            m.at(c, "Matrix::get_unchecked", k, r, r, base);
            let p = unsafe { v.as_ptr().add(k) };
            m.at(c, "Matrix::as_ptr", k, unsafe { &*p }, p, base);
            let r = &v.as_array_of_arrays()[i][j];
            m.at(c, "Matrix::as_array_of_arrays", k, r, r, base);
        }
    }
}

fn matrices<T: Cell_, const M: usize, const N: usize>(c: &mut Ctx) {
    c.check(size_of::<Matrix<T, M, N>>() == M * N * size_of::<T>(), "Matrix has no padding", || format!("{M}x{N} of {}", T::NAME));
    c.check(align_of::<Matrix<T, M, N>>() == align_of::<T>(), "Matrix alignment", || format!("{M}x{N} of {}", T::NAME));
    let init: Vec<T> = (0..M * N).map(|_| T::mk(c.rng.u64())).collect();
    let mut v: Matrix<T, M, N> = <Matrix<T, M, N> as Flat>::build(init.clone());
    let mut m = Model { what: "Matrix", dims: [M, N], want: init, last: "construction".into() };
    c.sample(|| format!("Matrix<{}, {M}, {N}> {:?}", T::NAME, m.want.iter().take(4).collect::<Vec<_>>()));
    check_mat(c, &v, &m);
    let steps = c.loops(12).max(2);
    for _ in 0..steps {
        let k = c.rng.below(16);
        let x = c.rng.u64();
        c.input(hash_u64s([x, k as u64, M as u64, N as u64, hash_str(T::NAME)]));
        if M * N > 0 {
            let (i, j) = (c.rng.below(M), c.rng.below(N));
            let val = || T::mk(x);
            match k {
                0 => v[(i, j)] = val(),
                1 => *v.iter_mut().nth(i * N + j).unwrap() = val(),
                2 => v.as_mut_array_of_arrays()[i][j] = val(),
                3 => v.as_mut_array_of_vectors()[i][j] = val(),
                4 => v.as_mut_vector_of_vectors()[i][j] = val(),
                5 => AsMut::<Vector<Vector<T, N>, M>>::as_mut(&mut v)[i][j] = val(),
                6 => <&mut [[T; N]; M]>::from(&mut v)[i][j] = val(),
                7 => <&mut Vector<Vector<T, N>, M>>::from(&mut v)[i][j] = val(),
                8 => *(&mut v).into_iter().nth(i * N + j).unwrap() = val(),
                9 => unsafe { *v.get_unchecked_mut(i, j) = val() },
                10 => unsafe { *v.as_mut_ptr().add(i * N + j) = val() },
                11 => v.row_mut(i)[j] = val(),
                12 => *v.row_mut(i).iter_mut().nth(j).unwrap() = val(),
                13 => {
                    let vals: Vec<T> = (0..M * N).map(|q| T::mk(hash2(x, q as u64))).collect();
                    let mut rs: Vec<(usize, &mut T)> = v.iter_mut().enumerate().collect();
                    let s = c.rng.below(M * N);
                    rs.rotate_left(s);
                    if c.rng.chance(1, 2) {
                        rs.reverse();
                    }
                    for (q, r) in rs {
                        *r = vals[q].clone();
                    }
                    m.want = vals;
                }
                14 => {
                    let p = v.as_mut_ptr();
                    for q in 0..M * N {
                        let t = T::mk(hash2(x, q as u64));
                        unsafe { *p.add(q) = t.clone() };
                        m.want[q] = t;
                    }
                }
                _ => {
                    let row: Vec<T> = (0..N).map(|q| T::mk(hash2(x, q as u64))).collect();
                    *v.row_mut(i) = <Vector<T, N> as Flat>::build(row.clone());
                    for (q, t) in row.into_iter().enumerate() {
                        m.want[i * N + q] = t;
                    }
                }
            }
            if k < 13 {
                m.want[i * N + j] = val();
            }
            m.last = format!("mutable view #{k} at ({i}, {j})");
        }
        check_mat(c, &v, &m);
    }
    // out of range, including positions whose flat index is inside
    let mut bad: Vec<(usize, usize)> = vec![(M, 0), (0, N), (0, N + 1), (M, N), (M + 1, 0), (usize::MAX, 0), (0, usize::MAX), (0, M * N), (usize::MAX, usize::MAX), (usize::MAX / 2 + 1, 0)];
    if M > 0 {
        bad.push((M - 1, N));
        bad.push((c.rng.below(M), N + c.rng.below(5)));
        bad.push((0, (usize::MAX / M).saturating_add(1)));
    }
    if N > 0 {
        bad.push((M, N - 1));
        bad.push((M + c.rng.below(5), c.rng.below(N)));
        bad.push(((usize::MAX / N).saturating_add(1), 0));
    }
    if c.miri {
        bad.truncate(4);
    }
    for (i, j) in bad {
        if i < M && j < N {
            continue;
        }
        c.op("Matrix::index(out of range)");
        let r = catch(|| v[(i, j)].clone());
        c.check(r.is_err(), "Matrix::index out of range must panic", || format!("{M}x{N} at ({i}, {j}) gave {r:?}"));
        let r = catch(|| v[(i, j)] = T::mk(7));
        c.check(r.is_err(), "Matrix::index_mut out of range must panic", || format!("{M}x{N} at ({i}, {j})"));
    }
    for i in [M, M + 1, M * N, usize::MAX, M + c.rng.below(9)] {
        if i < M {
            continue;
        }
        c.op("Matrix::row(out of range)");
        let r = catch(|| v.row_ref(i).iter().count());
        c.check(r.is_err(), "Matrix::row_ref out of range must panic", || format!("{M}x{N} row {i}"));
        let r = catch(|| v.row_mut(i).iter().count());
        c.check(r.is_err(), "Matrix::row_mut out of range must panic", || format!("{M}x{N} row {i}"));
    }
    m.last = "out-of-range accesses".into();
    check_mat(c, &v, &m);
}

/// by-value rows and columns
fn rows_cols<T: Cell_ + Copy, const M: usize, const N: usize>(c: &mut Ctx) {
    let a: Vec<T> = (0..M * N).map(|_| T::mk(c.rng.u64())).collect();
    let m: Matrix<T, M, N> = <Matrix<T, M, N> as Flat>::build(a.clone());
    { let h = c.rng.u64(); c.input(h); }
    for i in 0..M {
        c.eq("Matrix::row", m.row(i).flat(), a[i * N..(i + 1) * N].to_vec(), || format!("{M}x{N} row {i} of {a:?}"));
    }
    for j in 0..N {
        c.eq("Matrix::col", m.col(j).flat(), (0..M).map(|i| a[i * N + j]).collect(), || format!("{M}x{N} column {j} of {a:?}"));
    }
    for k in 0..3 {
        let r = catch(|| m.row(M + k).flat());
        c.check(r.is_err(), "Matrix::row out of range must panic", || format!("{M}x{N} row {}", M + k));
        if M > 0 {
            let r = catch(|| m.col(N + k).flat());
            c.check(r.is_err(), "Matrix::col out of range must panic", || format!("{M}x{N} column {}: {r:?}", N + k));
        }
    }
}

fn compound<T: Cell_>(c: &mut Ctx) {
    fn gen<T: Cell_>(c: &mut Ctx, n: usize) -> Vec<T> {
        (0..n).map(|_| T::mk(c.rng.u64())).collect()
    }
    { let h = c.rng.u64(); c.input(h); }
    macro_rules! look { ($m:expr, $v:expr, $name:expr; $($k:expr, $r:ident);*) => {{
        let base = &$v as *const _ as *const T;
        $( $m.at(c, concat!($name, "::", stringify!($r)), $k, $v.$r(), $v.$r(), base); )*
        $( let p = unsafe { base.add($k) }; $m.at(c, concat!($name, " layout"), $k, unsafe { &*p }, p, base); )*
    }} }
    let a = gen::<T>(c, 2);
    c.check(size_of::<Complex<T>>() == 2 * size_of::<T>(), "Complex layout", || T::NAME.into());
    c.check(size_of::<Quaternion<T>>() == 4 * size_of::<T>(), "Quaternion layout", || T::NAME.into());
    let mut z = Complex::from_array([a[0].clone(), a[1].clone()]);
    let mut m = Model { what: "Complex", dims: [2, 0], want: a, last: "construction".into() };
    look!(m, z, "Complex"; 0, re_ref; 1, im_ref);
    macro_rules! put { ($m:expr, $v:ident, $k:expr, $f:ident) => {{ let x = c.rng.u64(); *$v.$f() = T::mk(x); $m.want[$k] = T::mk(x); $m.last = stringify!($f).into(); }} }
    for _ in 0..2 {
        put!(m, z, 1, im_mut);
        look!(m, z, "Complex"; 0, re_ref; 1, im_ref);
        put!(m, z, 0, re_mut);
        look!(m, z, "Complex"; 0, re_ref; 1, im_ref);
    }
    m.see(c, "Complex::into_array", &z.into_array());

    let a = gen::<T>(c, 4);
    let mut q = Quaternion::from_array([a[0].clone(), a[1].clone(), a[2].clone(), a[3].clone()]);
    let mut m = Model { what: "Quaternion", dims: [4, 0], want: a, last: "construction".into() };
    look!(m, q, "Quaternion"; 0, w_ref; 1, x_ref; 2, y_ref; 3, z_ref);
    for _ in 0..2 {
        put!(m, q, 2, y_mut);
        look!(m, q, "Quaternion"; 0, w_ref; 1, x_ref; 2, y_ref; 3, z_ref);
        put!(m, q, 0, w_mut);
        look!(m, q, "Quaternion"; 0, w_ref; 1, x_ref; 2, y_ref; 3, z_ref);
        put!(m, q, 3, z_mut);
        look!(m, q, "Quaternion"; 0, w_ref; 1, x_ref; 2, y_ref; 3, z_ref);
        put!(m, q, 1, x_mut);
        look!(m, q, "Quaternion"; 0, w_ref; 1, x_ref; 2, y_ref; 3, z_ref);
    }
    m.see(c, "Quaternion::into_array", &q.into_array());

    let a = gen::<T>(c, 4);
    let mut h = Moebius::new(a[0].clone(), a[1].clone(), a[2].clone(), a[3].clone());
    let mut m = Model { what: "Moebius", dims: [2, 2], want: a, last: "construction".into() };
    macro_rules! at4 { () => {{
        let base = h.as_matrix().as_ptr();
        m.at(c, "Moebius::a_ref", 0, h.a_ref(), h.a_ref(), base);
        m.at(c, "Moebius::b_ref", 1, h.b_ref(), h.b_ref(), base);
        m.at(c, "Moebius::c_ref", 2, h.c_ref(), h.c_ref(), base);
        m.at(c, "Moebius::d_ref", 3, h.d_ref(), h.d_ref(), base);
        m.see(c, "Moebius::as_matrix", h.as_matrix().iter());
        m.see(c, "Moebius::as_array_of_arrays", h.as_array_of_arrays().iter().flatten());
    }} }
    at4!();
    for _ in 0..2 {
        put!(m, h, 1, b_mut);
        at4!();
        put!(m, h, 3, d_mut);
        at4!();
        put!(m, h, 0, a_mut);
        at4!();
        put!(m, h, 2, c_mut);
        at4!();
        let (i, j, x) = (c.rng.below(2), c.rng.below(2), c.rng.u64());
        h.as_mut_matrix()[(i, j)] = T::mk(x);
        m.want[i * 2 + j] = T::mk(x);
        m.last = "as_mut_matrix".into();
        at4!();
        let (i, j, x) = (c.rng.below(2), c.rng.below(2), c.rng.u64());
        h.as_mut_array_of_arrays()[i][j] = T::mk(x);
        m.want[i * 2 + j] = T::mk(x);
        m.last = "as_mut_array_of_arrays".into();
        at4!();
    }
    m.see(c, "Moebius::into_array", h.into_array().iter().flatten());
}

fn by_value(c: &mut Ctx) {
    let a: [u64; 4] = std::array::from_fn(|_| c.rng.u64());
    c.input(hash_u64s(a));
    let z = Complex::new(a[0], a[1]);
    c.eq("Complex::re", z.re(), a[0], || format!("{a:?}"));
    c.eq("Complex::im", z.im(), a[1], || format!("{a:?}"));
    let q = Quaternion::new(a[0], a[1], a[2], a[3]);
    c.eq("Quaternion::w", q.w(), a[0], || format!("{a:?}"));
    c.eq("Quaternion::x", q.x(), a[1], || format!("{a:?}"));
    c.eq("Quaternion::y", q.y(), a[2], || format!("{a:?}"));
    c.eq("Quaternion::z", q.z(), a[3], || format!("{a:?}"));
    c.eq("Quaternion::xyz", q.xyz().into_array(), [a[1], a[2], a[3]], || format!("{a:?}"));
    let m = Moebius::new(a[0], a[1], a[2], a[3]);
    c.eq("Moebius::abcd", [m.a(), m.b(), m.c(), m.d()], a, || format!("{a:?}"));
}

fn main() {
    let mut s = Suite::new(
        "C02",
        "a case takes one container type, dimension and element layout, performs a random sequence of writes through \
         randomly chosen mutable views and after each write compares every read view (values and addresses) with a \
         flat model, then probes out-of-range indices; non-trivial: (view, value, dimension, element type) hashed",
    );
    macro_rules! v { ($t:ty) => {{
        const T: &[fn(&mut Ctx)] = &[vectors::<$t, 0>, vectors::<$t, 1>, vectors::<$t, 2>, vectors::<$t, 3>, vectors::<$t, 4>, vectors::<$t, 5>, vectors::<$t, 8>, vectors::<$t, 17>, vectors::<$t, 33>];
        T
    }} }
    macro_rules! vs { ($t:ty) => {{
        const T: &[fn(&mut Ctx)] = &[vectors::<$t, 0>, vectors::<$t, 1>, vectors::<$t, 2>, vectors::<$t, 3>, vectors::<$t, 4>, vectors::<$t, 7>];
        T
    }} }
    s.section("vector_u64", 9 * 30, |c| run_table!(c, v!(u64)));
    s.section("vector_string", 6 * 30, |c| run_table!(c, vs!(String)));
    s.section("vector_u8x3", 6 * 30, |c| run_table!(c, vs!([u8; 3])));
    s.section("vector_padded", 6 * 30, |c| run_table!(c, vs!((u8, u32))));
    s.section("vector_aligned", 6 * 30, |c| run_table!(c, vs!(Al)));
    s.section("vector_unit", 6 * 30, |c| run_table!(c, vs!(())));
    macro_rules! m { ($t:ty) => {{
        const T: &[fn(&mut Ctx)] = &[matrices::<$t, 0, 0>, matrices::<$t, 0, 3>, matrices::<$t, 3, 0>, matrices::<$t, 1, 1>, matrices::<$t, 1, 4>, matrices::<$t, 4, 1>, matrices::<$t, 2, 2>, matrices::<$t, 2, 3>, matrices::<$t, 3, 2>, matrices::<$t, 4, 4>, matrices::<$t, 5, 3>, matrices::<$t, 3, 9>];
        T
    }} }
    macro_rules! ms { ($t:ty) => {{
        const T: &[fn(&mut Ctx)] = &[matrices::<$t, 2, 2>, matrices::<$t, 2, 3>, matrices::<$t, 3, 2>, matrices::<$t, 4, 3>];
        T
    }} }
    s.section("matrix_u64", 12 * 30, |c| run_table!(c, m!(u64)));
    s.section("matrix_string", 4 * 30, |c| run_table!(c, ms!(String)));
    s.section("matrix_u8x3", 4 * 30, |c| run_table!(c, ms!([u8; 3])));
    s.section("matrix_padded", 4 * 30, |c| run_table!(c, ms!((u8, u32))));
    s.section("matrix_aligned", 4 * 30, |c| run_table!(c, ms!(Al)));
    s.section("matrix_unit", 4 * 30, |c| run_table!(c, ms!(())));
    s.section("named_components", 18 * 30, |c| {
        const T: &[fn(&mut Ctx)] = &[named2::<u64>, named3::<u64>, named4::<u64>, named2::<String>, named3::<String>, named4::<String>, named2::<[u8; 3]>, named3::<[u8; 3]>, named4::<[u8; 3]>,
            named2::<u8>, named3::<u8>, named4::<u8>, named2::<u32>, named3::<u32>, named4::<u32>, named2::<[u64; 2]>, named3::<[u64; 2]>, named4::<[u64; 2]>];
        run_table!(c, T)
    });
    s.section("rows_columns", 31 * 30, |c| run_table!(c, mdims!(rows_cols, u64)));
    s.section("compound", 6 * 30, |c| {
        const T: &[fn(&mut Ctx)] = &[compound::<u64>, compound::<String>, compound::<[u8; 3]>, compound::<u8>, compound::<u32>, compound::<[u64; 2]>];
        run_table!(c, T)
    });
    s.section("by_value_components", 300, by_value);
    s.native("large", 5, |c| {
        const T: &[fn(&mut Ctx)] = &[vectors::<u64, 135>, vectors::<u8, 263>, matrices::<u64, 2, 263>, matrices::<u8, 263, 2>, rows_cols::<u64, 135, 3>];
        run_table!(c, T)
    });
    s.run();
}
