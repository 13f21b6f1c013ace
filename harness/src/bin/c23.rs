//! C23: results do not depend on the enabled cargo features.
//! The same seeded workload is built once per feature set. Every result is
//! written to a log (VERIF_LOG) as an event; ../../../c23.py replays the
//! eight logs against each other.
//!
//! Event: `section#index n name kind value,value,…`
//!   E exact bits (not-a-number is one value)
//!   U component-wise, at most the given number of units in the last place
//!   N norm-wise, at most the given absolute deviation
use harness::*;
use num_traits::{Inv, One, Zero};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::Mutex;
use vecmat::complex::Moebius;
use vecmat::matrix::FlatIter;
use vecmat::prelude::*;
use vecmat::transform::{Affine, Chain, Directional, Linear, Reorder, Rotation2, Rotation3, Scale, Shift};
use vecmat::vector::GroupIter;
use vecmat::{Complex, Matrix, Quaternion, Vector};

static FILE: Mutex<Option<std::fs::File>> = Mutex::new(None);
thread_local! {
    static LOG: RefCell<(String, usize)> = const { RefCell::new((String::new(), 0)) };
}
fn put(c: &mut Ctx, name: &'static str, kind: &str, vals: &[u64]) {
    c.op(name);
    c.check(true, name, String::new);
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        let n = l.1;
        l.1 += 1;
        write!(l.0, "{}#{}\t{}\t{}\t{}\t", c.section, c.index, n, name.replace(' ', "_"), kind).unwrap();
        for (k, v) in vals.iter().enumerate() {
            write!(l.0, "{}{:x}", if k > 0 { "," } else { "" }, v).unwrap();
        }
        l.0.push('\n');
    });
}
/// The events of this thread since the last call.
#[allow(dead_code)]
pub fn take() -> String {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.1 = 0;
        std::mem::take(&mut l.0)
    })
}
fn flush() {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if let Some(f) = FILE.lock().unwrap().as_mut() {
            f.write_all(l.0.as_bytes()).expect("log");
        }
        l.0.clear();
        l.1 = 0;
    });
}

/// Canonical words of a result.
trait W {
    fn w(self, o: &mut Vec<u64>);
}
macro_rules! words {
    ($($t:ty),*) => { $(impl W for $t { fn w(self, o: &mut Vec<u64>) { o.push(self as u64) } })* };
}
words!(i8, u8, i16, u16, i32, u32, i64, u64, usize, isize, bool);
impl W for f64 {
    fn w(self, o: &mut Vec<u64>) {
        o.push(if self.is_nan() { 0x7ff8 << 48 } else { self.to_bits() })
    }
}
impl W for f32 {
    fn w(self, o: &mut Vec<u64>) {
        o.push(if self.is_nan() { 0x7fc0_0000 } else { self.to_bits() as u64 })
    }
}
impl W for Fp {
    fn w(self, o: &mut Vec<u64>) {
        o.push(self.0)
    }
}
impl W for String {
    fn w(self, o: &mut Vec<u64>) {
        o.push(hash_str(&self))
    }
}
impl<T: W, const N: usize> W for Vector<T, N> {
    fn w(self, o: &mut Vec<u64>) {
        self.flat().into_iter().for_each(|x| x.w(o))
    }
}
impl<T: W, const M: usize, const N: usize> W for Matrix<T, M, N> {
    fn w(self, o: &mut Vec<u64>) {
        self.flat().into_iter().for_each(|x| x.w(o))
    }
}
impl<T: W> W for Complex<T> {
    fn w(self, o: &mut Vec<u64>) {
        self.into_array().w(o)
    }
}
impl<T: W> W for Quaternion<T> {
    fn w(self, o: &mut Vec<u64>) {
        self.into_array().w(o)
    }
}
impl<T: W> W for Moebius<T> {
    fn w(self, o: &mut Vec<u64>) {
        self.into_matrix().w(o)
    }
}
impl<T: W> W for Rotation2<T> {
    fn w(self, o: &mut Vec<u64>) {
        self.into_complex().w(o)
    }
}
impl<T: W> W for Rotation3<T> {
    fn w(self, o: &mut Vec<u64>) {
        self.into_quaternion().w(o)
    }
}
impl<T: W> W for Scale<T> {
    fn w(self, o: &mut Vec<u64>) {
        self.into_mag().w(o)
    }
}
impl<T: W, const N: usize> W for Shift<T, N> {
    fn w(self, o: &mut Vec<u64>) {
        self.into_vector().w(o)
    }
}
impl<T: W, const N: usize> W for Linear<T, N> {
    fn w(self, o: &mut Vec<u64>) {
        self.into_matrix().w(o)
    }
}
impl<A: W, B: W, T> W for Chain<A, B, T>
where
    A: Transform<T>,
    B: Transform<T>,
{
    fn w(self, o: &mut Vec<u64>) {
        let (a, b) = self.split();
        a.w(o);
        b.w(o);
    }
}
impl<T: W, const N: usize> W for [T; N] {
    fn w(self, o: &mut Vec<u64>) {
        self.into_iter().for_each(|x| x.w(o))
    }
}
impl<T: W> W for Vec<T> {
    fn w(self, o: &mut Vec<u64>) {
        o.push(self.len() as u64);
        self.into_iter().for_each(|x| x.w(o))
    }
}
impl<T: W> W for Option<T> {
    fn w(self, o: &mut Vec<u64>) {
        match self {
            None => o.push(u64::MAX),
            Some(x) => x.w(o),
        }
    }
}
impl<A: W, B: W> W for (A, B) {
    fn w(self, o: &mut Vec<u64>) {
        self.0.w(o);
        self.1.w(o);
    }
}

/// exact event; a panic is a result as well
fn ex<R: W>(c: &mut Ctx, name: &'static str, f: impl FnOnce() -> R) {
    let mut o = Vec::new();
    match catch(f) {
        Ok(r) => r.w(&mut o),
        Err(_) => o = vec![0xdead, 0xdead],
    }
    put(c, name, "E", &o);
}
/// exact up to the sign of zero
fn zx<T: Fl>(c: &mut Ctx, name: &'static str, v: Vec<T>) {
    let mut o = Vec::new();
    v.into_iter().for_each(|x| o.push(if x.is_zero() { 0 } else if x.is_nan() { T::nan().d().to_bits() } else { x.bits() }));
    put(c, name, "E", &o);
}
/// component-wise within `k` units in the last place
fn ul<T: Fl>(c: &mut Ctx, name: &'static str, k: u32, v: Vec<T>) {
    let o: Vec<u64> = v.iter().map(|x| x.d().to_bits()).collect();
    let kind = format!("U{}:{}", if T::NAME == "f32" { "s" } else { "d" }, k);
    put(c, name, &kind, &o);
}
/// norm-wise: deviation at most `k` epsilon times `scale`
fn nr<T: Fl>(c: &mut Ctx, name: &'static str, k: f64, scale: f64, v: Vec<T>) {
    let o: Vec<u64> = v.iter().map(|x| x.d().to_bits()).collect();
    put(c, name, &format!("N{:x}", (k * T::eps() * scale).to_bits()), &o);
}
fn mag<T: Fl>(v: &[T]) -> f64 {
    v.iter().map(|x| x.d().abs()).fold(0.0, f64::max)
}

trait Num_: Fl + W {}
impl<T: Fl + W> Num_ for T {}

fn some<T: Fl>(c: &mut Ctx) -> T {
    if c.index % 3 == 0 {
        c.rng.tame()
    } else {
        c.rng.hostile()
    }
}
fn vec<T: Fl, const N: usize>(c: &mut Ctx) -> Vector<T, N> {
    vec_from(|_| some(c))
}
fn mat<T: Fl, const M: usize, const N: usize>(c: &mut Ctx) -> Matrix<T, M, N> {
    mat_from(|_, _| some(c))
}
fn note(c: &mut Ctx, o: impl W, what: &'static str) {
    let mut w = Vec::new();
    o.w(&mut w);
    c.input(hash_u64s(w.iter().copied()));
    c.sample(|| format!("{what}: {:x?}", &w[..w.len().min(6)]));
}

// ------------------------------------------------------- arithmetic

fn vector<T: Num_, const N: usize>(c: &mut Ctx) {
    let (a, b, s) = (vec::<T, N>(c), vec::<T, N>(c), some::<T>(c));
    note(c, a, "vector");
    ex(c, "vec neg", || -a);
    ex(c, "vec +", || a + b);
    ex(c, "vec -", || a - b);
    ex(c, "vec *", || a * b);
    ex(c, "vec /", || a / b);
    ex(c, "vec %", || a % b);
    ex(c, "vec * scalar", || a * s);
    ex(c, "vec / scalar", || a / s);
    ex(c, "vec % scalar", || a % s);
    ex(c, "vec assign", || {
        let mut v = a;
        v += b;
        v -= a * s;
        v *= b;
        v /= s;
        v %= b;
        v *= s;
        v
    });
    ex(c, "vec sum", || a.sum());
    ex(c, "vec dot", || a.dot(b));
    ex(c, "vec outer", || Outer::outer(a, b));
    ex(c, "vec square_length", || a.square_length());
    ul(c, "vec length", 8, catch(|| vec![a.length()]).unwrap_or_default());
    ul(c, "vec normalize", 8, catch(|| Normalize::normalize(a).flat()).unwrap_or_default());
    ex(c, "vec veq", || a.veq(b));
    ex(c, "vec vlt", || (a.vlt(b), a.vle(b)));
    ex(c, "vec vgt", || (a.vgt(b), a.vge(b)));
    ex(c, "vec vne", || a.vne(b));
    ex(c, "vec == zero", || (a == b, a.is_zero()));
    ex(c, "vec norms", || (NormL1::norm_l1(a), NormLInf::norm_l_inf(a)));
    ex(c, "vec Sum", || [a, b, a].into_iter().sum::<Vector<T, N>>());
    ex(c, "vec Product", || [a, b, a].into_iter().product::<Vector<T, N>>());
    ex(c, "vec format", || format!("{a:?}|{b}|{:.3}", a));
    ex(c, "vec fold/scan", || (a.fold(s, |p, q| p * s + q), a.scan(s, |p, q| { *p = *p + q; *p })));
}
fn matrix<T: Num_, const M: usize, const N: usize>(c: &mut Ctx) {
    let (a, b, s) = (mat::<T, M, N>(c), mat::<T, M, N>(c), some::<T>(c));
    let (u, v) = (vec::<T, M>(c), vec::<T, N>(c));
    note(c, a, "matrix");
    ex(c, "mat neg", || -a);
    ex(c, "mat +", || a + b);
    ex(c, "mat -", || a - b);
    ex(c, "mat *", || a * b);
    ex(c, "mat /", || a / b);
    ex(c, "mat %", || a % b);
    ex(c, "mat scalar", || ((a * s, a / s), a % s));
    ex(c, "mat assign", || {
        let mut v = a;
        v += b;
        v -= a * s;
        v *= b;
        v /= s;
        v
    });
    ex(c, "mat sum", || a.sum());
    ex(c, "mat transpose", || a.transpose());
    ex(c, "mat dot vec", || a.dot(v));
    ex(c, "vec dot mat", || u.dot(a));
    ex(c, "mat dot mat", || a.dot(b.transpose()));
    ex(c, "mat cmp", || ((a.veq(b), a.vlt(b)), (a.vle(b), a.vgt(b))));
    ex(c, "mat norms", || (NormL1::norm_l1(a), NormLInf::norm_l_inf(a)));
    ex(c, "mat Sum", || [a, b].into_iter().sum::<Matrix<T, M, N>>());
    ex(c, "mat format", || format!("{a:?}|{b}"));
    ex(c, "mat row col", || (Matrix::<T, M, N>::fill(s), a.map(|x| x * s)));
    ex(c, "mat iter", || (a.iter().copied().collect::<Vec<_>>(), a.into_iter().collect::<Vec<_>>()));
    ex(c, "mat scan", || a.scan(s, |p, q| { *p = *p + q; *p }));
}
fn square<T: Num_, const N: usize>(c: &mut Ctx) {
    let a: Matrix<T, N, N> = if c.rng.chance(1, 3) {
        mat_from(|_, _| T::f(c.rng.range(-2, 2) as f64))
    } else {
        mat(c)
    };
    note(c, a, "square matrix");
    ex(c, "det", || a.det());
    ex(c, "adj", || a.adj());
    ex(c, "inv", || Matrix::inv(&a));
    ex(c, "Inv::inv", || Inv::inv(a));
    ex(c, "cofactor", || (0..N * N).map(|k| a.cofactor(k / N, k % N)).collect::<Vec<_>>());
    ex(c, "identity", || (Matrix::<T, N, N>::one(), Matrix::diagonal(vec_from::<T, N>(|i| a[(i, i)]))));
    ex(c, "mat product", || [a, a].into_iter().product::<Matrix<T, N, N>>());
    let f: Matrix<Fp, N, N> = mat_from(|_, _| c.rng.fp());
    ex(c, "exact det", || f.det());
    ex(c, "exact adj", || f.adj());
    ex(c, "exact inv", || (Matrix::inv(&f), Inv::inv(f)));
}
fn crosses<T: Num_>(c: &mut Ctx) {
    let (a2, b2) = (vec::<T, 2>(c), vec::<T, 2>(c));
    let (a3, b3) = (vec::<T, 3>(c), vec::<T, 3>(c));
    let (a4, b4) = (vec::<T, 4>(c), vec::<T, 4>(c));
    note(c, a3, "cross factors");
    ex(c, "cross 2", || a2.cross(b2));
    ex(c, "cross 3", || a3.cross(b3));
    ex(c, "cross 4", || a4.cross(b4));
}
fn ints(c: &mut Ctx) {
    macro_rules! go {
        ($t:ident) => {{
            let g = |c: &mut Ctx| -> $t { if c.rng.chance(1, 2) { c.rng.range(-6, 6) as $t } else { c.rng.int() as $t } };
            let a: Vector<$t, 5> = vec_from(|_| g(c));
            let b: Vector<$t, 5> = vec_from(|_| g(c));
            let m: Matrix<$t, 2, 3> = mat_from(|_, _| g(c));
            let n: Matrix<$t, 2, 3> = mat_from(|_, _| g(c));
            let s = g(c);
            note(c, a, stringify!($t));
            // overflow must behave alike: it depends on the build mode, not on features
            ex(c, "int +", || a + b);
            ex(c, "int -", || a - b);
            ex(c, "int *", || a * b);
            ex(c, "int /", || a / b);
            ex(c, "int %", || a % b);
            ex(c, "int scalar", || (a / s, a % s));
            ex(c, "int bits", || ((a & b, a | b), (a ^ b, !a)));
            ex(c, "int div_floor", || a.div_floor(b));
            ex(c, "int mod_floor", || a.mod_floor(b));
            ex(c, "int div_mod_floor", || a.div_mod_floor(b));
            ex(c, "int min max", || (a.min(), a.max()));
            ex(c, "int mat bits", || ((m & n, m | n), (m ^ n, !m)));
            ex(c, "int mat div_floor", || m.div_floor(n));
            ex(c, "int mat mod_floor", || m.mod_floor(n));
            ex(c, "int mat div_mod_floor", || m.div_mod_floor(n));
            ex(c, "int mat / %", || (m / n, m % n));
            ex(c, "int format", || format!("{a:?} {m} {m:?}"));
            ex(c, "int dot", || a.dot(b));
            ex(c, "int norms", || (NormL1::norm_l1(a), NormLInf::norm_l_inf(a)));
            ex(c, "int mat norms", || (NormL1::norm_l1(m), NormLInf::norm_l_inf(m)));
        }};
    }
    match c.index % 6 {
        0 => go!(i8),
        1 => go!(i16),
        2 => go!(i32),
        3 => go!(i64),
        4 => go!(isize),
        _ => go!(i32),
    }
    let f = |c: &mut Ctx| c.rng.below(40) as u8;
    let u: Vector<u8, 4> = vec_from(|_| f(c));
    let w: Vector<u8, 4> = vec_from(|_| f(c));
    ex(c, "u8 ops", || ((u - w, u / w), (u.div_floor(w), u % w)));
}
fn containers(c: &mut Ctx) {
    let n = c.rng.below(14);
    let xs: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
    note(c, xs.clone(), "sequence");
    ex(c, "group", || GroupIter::<_, 3>::new(xs.iter().copied()).collect::<Vec<Vector<u64, 3>>>());
    ex(c, "flat", || {
        let parts: Vec<Vec<u64>> = xs.chunks(3).map(|s| s[..(s[0] % 4).min(s.len() as u64) as usize].to_vec()).collect();
        FlatIter::new(parts.into_iter()).map(|f| f.collect::<Vec<_>>())
    });
    ex(c, "try_from_iter", || (Vector::<u64, 6>::try_from_iter(xs.iter().copied()), Matrix::<u64, 2, 4>::try_from_iter(xs.iter().copied())));
    ex(c, "try_from slice", || (Vector::<u64, 6>::try_from(&xs[..]).ok(), Matrix::<u64, 3, 3>::try_from(&xs[..]).ok()));
    let v: Vector<u64, 7> = vec_from(|i| i as u64 * 3);
    ex(c, "zip unzip", || v.zip(v.map(|x| x + 1)).unzip());
    ex(c, "enumerate", || v.enumerate().map(|(i, x)| i as u64 * 100 + x));
    ex(c, "indices", || (Vector::<usize, 9>::indices(), Matrix::<(usize, usize), 3, 2>::indices().map(|(i, j)| i * 10 + j)));
    ex(c, "index panic", || v[7 + (n % 2)]);
    ex(c, "default", || (Vector::<i32, 3>::default(), Matrix::<f64, 2, 2>::default()));
}

// ------------------------------------------------------- functions

fn fval<T: Fl>(c: &mut Ctx) -> T {
    match c.rng.below(8) {
        0 => T::f(c.rng.uniform(-1.0, 1.0)),
        1 => T::f(c.rng.uniform(0.0, 1.0) * 10f64.powi(c.rng.range(-9, -1) as i32)),
        2 => T::f(c.rng.uniform(1.0, 60.0)),
        3 => c.rng.pick(&[T::zero(), -T::zero(), T::one(), -T::one(), T::nan(), T::infinity(), T::neg_infinity(), T::f(0.5)]),
        _ => c.rng.tame(),
    }
}
fn math<T: Num_, const N: usize>(c: &mut Ctx) {
    let a: Vector<T, N> = vec_from(|_| fval(c));
    let b: Vector<T, N> = vec_from(|_| fval(c));
    let d: Vector<T, N> = vec_from(|_| fval(c));
    let m: Matrix<T, 2, N> = mat_from(|_, _| fval(c));
    let m2: Matrix<T, 2, N> = mat_from(|_, _| fval(c));
    let s: T = fval(c);
    let e: Vector<i32, N> = vec_from(|_| c.rng.range(-12, 12) as i32);
    note(c, a, "arguments");
    macro_rules! z { ($($f:ident)*) => { $( zx(c, concat!("vec ", stringify!($f)), a.$f().flat()); zx(c, concat!("mat ", stringify!($f)), m.$f().flat()); )* } }
    macro_rules! u { ($($f:ident $k:expr),*) => { $( ul(c, concat!("vec ", stringify!($f)), $k, a.$f().flat()); ul(c, concat!("mat ", stringify!($f)), $k, m.$f().flat()); )* } }
    z!(abs signum sqrt floor ceil round trunc fract recip);
    u!(cbrt 8, acos 8, asin 8, atan 8, cosh 16, sinh 16, tan 16, tanh 16, log2 8, exp 8, ln 8, sin 8, cos 8, asinh 64, exp2 8, log10 8, exp_m1 16, ln_1p 8);
    // outside the domain libm's acoshf returns numbers where it should not
    let dom = |x: T| if x >= T::one() { x } else { num_traits::Float::abs(x) + T::one() };
    ul(c, "vec acosh", 64, a.map(dom).acosh().flat());
    ul(c, "mat acosh", 64, m.map(dom).acosh().flat());
    // the std implementation loses accuracy near the ends of the domain
    nr(c, "vec atanh", 16.0, 1.0, a.fract().map(|x| x * T::f(0.5)).atanh().flat().into_iter().filter(|x| x.is_finite()).collect());
    nr(c, "mat atanh", 16.0, 1.0, m.fract().map(|x| x * T::f(0.5)).atanh().flat().into_iter().filter(|x| x.is_finite()).collect());
    let (p, q) = a.sin_cos();
    ul(c, "vec sin_cos", 8, p.flat().into_iter().chain(q.flat()).collect());
    let (p, q) = m.sin_cos();
    ul(c, "mat sin_cos", 8, p.flat().into_iter().chain(q.flat()).collect());
    zx(c, "vec vmin", a.vmin(b).flat());
    zx(c, "vec vmax", a.vmax(s).flat());
    zx(c, "mat vmin", m.vmin(b).flat());
    zx(c, "mat vmax", m.vmax(m2).flat());
    zx(c, "vec clamp", a.clamp(b, d).flat());
    zx(c, "mat clamp", m.clamp(b, s).flat());
    let nn = |x: T| if x.is_nan() { T::zero() } else { x };
    zx(c, "vec abs_sub", a.map(nn).abs_sub(b.map(nn)).flat().into_iter().filter(|x| !x.is_nan()).collect());
    // fused: one rounding, in software or hardware
    let fin = |x: T| if x.is_finite() { x } else { T::one() };
    ul(c, "vec mul_add", 2, a.map(fin).mul_add(b.map(fin), d.map(fin)).flat());
    ul(c, "mat mul_add", 2, m.map(fin).mul_add(m2.map(fin), d.map(fin)).flat());
    ul(c, "vec atan2", 8, a.atan2(b).flat());
    ul(c, "mat atan2", 8, m.atan2(b).flat());
    ul(c, "vec hypot", 8, a.hypot(b).flat());
    ul(c, "mat hypot", 8, m.hypot(s).flat());
    ul(c, "vec powf", 64, a.map(<T as num_traits::Float>::abs).powf(b.map(|x| x.max(T::f(-8.0)).min(T::f(8.0)))).flat());
    ul(c, "mat powf", 64, m.map(<T as num_traits::Float>::abs).powf(T::f(1.5)).flat());
    ul(c, "vec log", 64, a.log(T::f(3.0)).flat());
    ul(c, "mat log", 64, m.log(m2).flat());
    // no overflow on the way, where the order of inversion shows
    let mid = |x: T| if x.is_zero() || !x.is_finite() || (num_traits::Float::abs(x) >= T::f(0.01) && num_traits::Float::abs(x) <= T::f(100.0)) { x } else { T::f(-1.5) };
    ul(c, "vec powi", 256, a.map(mid).powi(e).flat());
    ul(c, "mat powi", 256, m.map(mid).powi(3).flat());
}

// --------------------------------------------- complex and quaternions

fn cpx<T: Fl>(c: &mut Ctx) -> Complex<T> {
    Complex::new(some(c), some(c))
}
fn complex<T: Num_>(c: &mut Ctx) {
    let k = c.index;
    let (a, b, s) = (cpx::<T>(c), cpx::<T>(c), some::<T>(c));
    note(c, a, "complex");
    ex(c, "cpx + -", || (a + b, a - b));
    ex(c, "cpx *", || a * b);
    ex(c, "cpx /", || a / b);
    ex(c, "cpx %", || a % b);
    ex(c, "cpx scalar", || ((a + s, a - s), (a * s, a / s)));
    ex(c, "cpx neg conj", || (-a, a.conj()));
    ex(c, "cpx inv", || (a.inv(), Inv::inv(a)));
    ex(c, "cpx norm_sqr", || a.norm_sqr());
    ul(c, "cpx norm", 8, vec![a.norm()]);
    ex(c, "cpx norm_l1", || a.norm_l1());
    ul(c, "cpx normalize", 8, a.normalize().into_array().to_vec());
    ex(c, "cpx assign", || {
        let mut v = a;
        v += b;
        v -= s;
        v *= b;
        v /= s;
        v -= b;
        v *= s;
        v += s;
        v
    });
    ex(c, "cpx Sum", || ([a, b, a].into_iter().sum::<Complex<T>>(), [a, b, a].into_iter().product::<Complex<T>>()));
    ex(c, "cpx dot", || Dot::dot(a, b));
    ex(c, "cpx matrix", || a.into_matrix());
    ex(c, "cpx format", || format!("{a} {a:?}"));
    ex(c, "cpx zero one i", || ((Complex::<T>::zero(), Complex::<T>::one()), Complex::<T>::i()));
    ex(c, "cpx powu", || a.powu(k as u32 % 9));
    ex(c, "cpx powi", || a.powi(k as i32 % 9 - 4));
}
fn complex_fn<T: Num_>(c: &mut Ctx) {
    let k = c.index as usize;
    // away from zeros, poles and branch points; those are C12's matter
    let mut z = || Complex::<T>::new(T::f(c.rng.uniform(0.3, 1.4) * if c.rng.chance(1, 2) { -1.0 } else { 1.0 }), T::f(c.rng.uniform(0.2, 1.2) * if c.rng.chance(1, 2) { -1.0 } else { 1.0 }));
    let (a, b) = (z(), z());
    let t = T::f(c.rng.uniform(1.5, 4.0));
    note(c, a, "complex argument");
    macro_rules! n { ($($f:ident)*) => { $( let v = a.$f().into_array().to_vec(); let s = mag(&v); nr(c, concat!("cpx ", stringify!($f)), 256.0, s + 1.0, v); )* } }
    n!(exp ln sqrt cbrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh finv);
    let mut m = |name: &'static str, w: Complex<T>| {
        let v = w.into_array().to_vec();
        let s = mag(&v);
        nr(c, name, 256.0, s + 1.0, v);
    };
    m("cpx powf", a.powf(t));
    m("cpx powc", a.powc(b));
    m("cpx log", a.log(t));
    m("cpx expf", a.expf(t));
    m("cpx fdiv", a.fdiv(b));
    m("cpx from_polar", Complex::from_polar(t, b.re()));
    ul(c, "cpx arg", 8, vec![a.arg(), a.to_polar().1]);
    ul(c, "cpx to_polar norm", 8, vec![a.to_polar().0]);
    ex(c, "cpx parse", || {
        <Complex<T> as num_traits::Num>::from_str_radix(["1+2i", "-3.5", "i", "2-i", "x", ""][k % 6], 10).ok()
    });
}
fn quat<T: Fl>(c: &mut Ctx) -> Quaternion<T> {
    Quaternion::from_array(std::array::from_fn(|_| some(c)))
}
fn quaternion<T: Num_>(c: &mut Ctx) {
    let (a, b, z, s) = (quat::<T>(c), quat::<T>(c), cpx::<T>(c), some::<T>(c));
    note(c, a, "quaternion");
    ex(c, "quat + -", || (a + b, a - b));
    ex(c, "quat *", || a * b);
    ex(c, "quat /", || a / b);
    ex(c, "quat scalar", || ((a + s, a - s), (a * s, a / s)));
    ex(c, "quat complex", || ((a + z, a - z), (a * z, a / z)));
    ex(c, "quat neg conj", || (-a, a.conj()));
    ex(c, "quat inv", || a.inv());
    ex(c, "quat norm_sqr", || a.norm_sqr());
    ul(c, "quat norm", 8, vec![a.norm()]);
    ul(c, "quat normalize", 8, a.normalize().into_array().to_vec());
    ex(c, "quat assign", || {
        let mut v = a;
        v += b;
        v -= z;
        v *= b;
        v /= s;
        v *= z;
        v
    });
    ex(c, "quat Sum", || ([a, b, a].into_iter().sum::<Quaternion<T>>(), [a, b, a].into_iter().product::<Quaternion<T>>()));
    ex(c, "quat dot", || Dot::dot(a, b));
    ex(c, "quat matrix", || a.into_matrix());
    ex(c, "quat format", || format!("{a} {a:?}"));
    ex(c, "quat units", || ((Quaternion::<T>::i(), Quaternion::<T>::j()), (Quaternion::<T>::k(), Quaternion::<T>::one())));
}
macro_rules! mixed {
    ($name:ident, $t:ident) => {
        fn $name(c: &mut Ctx) {
            let (a, z, w, s) = (quat::<$t>(c), cpx::<$t>(c), cpx::<$t>(c), some::<$t>(c));
            note(c, a, "mixed operands");
            ex(c, "complex quat", || ((z + a, z - a), (z * a, z / a)));
            ex(c, "real quat", || ((s + a, s - a), (s * a, s / a)));
            ex(c, "real complex", || ((s + z, s - z), (s * z, s / z)));
            ex(c, "real vec mat", || (s * Vector::from([s, z.re()])));
            ex(c, "num complex", || {
                let n: num_complex::Complex<$t> = z.into();
                (Complex::from(n), z % w)
            });
        }
    };
}
mixed!(mixed64, f64);
mixed!(mixed32, f32);
fn moebius<T: Num_>(c: &mut Ctx) {
    let m: Moebius<Complex<T>> = Moebius::new(cpx(c), cpx(c), cpx(c), cpx(c));
    let n: Moebius<Complex<T>> = Moebius::new(cpx(c), cpx(c), cpx(c), cpx(c));
    let r: Moebius<T> = Moebius::new(some(c), some(c), some(c), some(c));
    let (z, w, q, v, x) = (cpx::<T>(c), cpx::<T>(c), quat::<T>(c), quat::<T>(c), some::<T>(c));
    note(c, m, "moebius");
    ex(c, "moebius apply", || (m.apply(z), r.apply(x)));
    ex(c, "moebius apply quat", || m.apply(q));
    ex(c, "moebius chain", || m.chain(n));
    ex(c, "moebius inv det", || (m.inv(), m.det()));
    ex(c, "moebius normalize", || Normalize::normalize(m));
    ex(c, "moebius deriv", || m.deriv(z));
    ex(c, "moebius deriv_dir", || m.deriv_dir(q, v));
    ex(c, "moebius Transform", || (<Moebius<Complex<T>> as Transform<Complex<T>>>::deriv(&m, z, w), <Moebius<Complex<T>> as Transform<Complex<T>>>::apply(&m, z)));
    ex(c, "moebius identity", || Moebius::<T>::identity());
}

// ------------------------------------------------------- transforms

fn transforms<T: Num_, const N: usize>(c: &mut Ctx)
where
    Shift<T, N>: Reorder<Scale<T>, Vector<T, N>>,
{
    let lin = |c: &mut Ctx| Linear::<T, N>::from_matrix(mat_from(|i, j| T::f(c.rng.gauss() + if i == j { 3.0 } else { 0.0 })));
    let shift = |c: &mut Ctx| Shift::<T, N>::from_vector(vec_from(|_| c.rng.tame()));
    let scale = |c: &mut Ctx| Scale::from_mag(T::f(c.rng.uniform(0.2, 4.0) * if c.rng.chance(1, 2) { -1.0 } else { 1.0 }));
    let (l, l2, s, s2, k) = (lin(c), lin(c), shift(c), shift(c), scale(c));
    let p: Vector<T, N> = vec_from(|_| c.rng.tame());
    let d: Vector<T, N> = vec_from(|_| T::f(c.rng.gauss()));
    note(c, l, "linear map");
    type V<T, const N: usize> = Vector<T, N>;
    macro_rules! all {
        ($t:expr, $u:expr, $name:literal) => {{
            let (t, u) = ($t, $u);
            ex(c, concat!($name, " apply"), || Transform::<V<T, N>>::apply(&t, p));
            ex(c, concat!($name, " deriv"), || Transform::<V<T, N>>::deriv(&t, p, d));
            ex(c, concat!($name, " inv"), || Transform::<V<T, N>>::inv(t));
            ex(c, concat!($name, " chain"), || Transform::<V<T, N>>::chain(t, u));
            // involves the length, like normalize
            ul(c, concat!($name, " dir"), 8, catch(|| Directional::<V<T, N>>::apply_dir(&t, p, d).flat()).unwrap_or_default());
            // involves the length, like normalize
            ul(c, concat!($name, " normal"), 8, catch(|| Directional::<V<T, N>>::apply_normal(&t, p, d).flat()).unwrap_or_default());
        }};
    }
    all!(s, s2, "Shift");
    all!(l, l2, "Linear");
    all!(k, Scale::from_mag(k.into_mag() + T::one()), "Scale");
    ex(c, "Scale inv", || <Scale<T> as Transform<V<T, N>>>::inv(k));
    let a: Affine<T, N> = Chain::new(s, l);
    all!(a, Chain::new(s2, l2), "Affine");
    let b: Chain<Linear<T, N>, Shift<T, N>, V<T, N>> = Chain::new(l, s);
    ex(c, "Linear-Shift apply", || b.apply(p));
    let e: Chain<Shift<T, N>, Scale<T>, V<T, N>> = Chain::new(s, k);
    all!(e, Chain::new(s2, k), "Shift-Scale");
    ex(c, "normal_transform", || l.normal_transform());
    ex(c, "reorder", || {
        let (x, y) = Reorder::<Scale<T>, V<T, N>>::reorder(s, k);
        (x, y)
    });
}
fn rotations<T: Num_>(c: &mut Ctx) {
    let (t, t2) = (c.rng.angle::<T>(), c.rng.angle::<T>());
    let ax = Vector::<T, 3>::from(c.rng.unit_vec::<T, 3>());
    let z = c.rng.unit_vec::<T, 2>();
    let q = c.rng.unit_vec::<T, 4>();
    let (r, r2) = (Rotation2::from_complex(Complex::from_array(z)), Rotation2::from_complex(Complex::from_array([z[1], -z[0]])));
    let (w, w2) = (Rotation3::from_quaternion(Quaternion::from_array(q)), Rotation3::from_quaternion(Quaternion::from_array([q[2], q[3], -q[0], q[1]])));
    let p2: Vector<T, 2> = vec_from(|_| c.rng.tame());
    let p3: Vector<T, 3> = vec_from(|_| c.rng.tame());
    let d2: Vector<T, 2> = vec_from(|_| T::f(c.rng.gauss()));
    let d3: Vector<T, 3> = vec_from(|_| T::f(c.rng.gauss()));
    let s3 = Shift::from_vector(d3);
    note(c, w, "rotation");
    // a large argument is reduced exactly everywhere: still a few ulp of one
    nr(c, "Rotation2::new", 16.0, 1.0, Rotation2::new(t).into_complex().into_array().to_vec());
    nr(c, "Rotation3::new", 16.0, 1.0, Rotation3::new(ax, t2).into_quaternion().into_array().to_vec());
    ul(c, "Rotation2 angle", 8, vec![r.angle()]);
    nr(c, "Rotation3 angle", 32.0, 4.0, vec![w.angle()]);
    nr(c, "Rotation3 axis", 32.0, 1.0, w.axis().flat());
    ex(c, "Rotation2 ops", || ((r.apply(p2), r.deriv(p2, d2)), (r.inv(), r.chain(r2))));
    ex(c, "Rotation3 ops", || ((w.apply(p3), w.deriv(p3, d3)), (w.inv(), w.chain(w2))));
    ex(c, "Rotation dir", || (r.apply_dir(p2, d2), w.apply_dir(p3, d3)));
    ex(c, "Rotation normal", || (r.apply_normal(p2, d2), w.apply_normal(p3, d3)));
    ex(c, "to_linear", || (r.to_linear(), w.to_linear()));
    ex(c, "Rotation identity", || (<Rotation2<T> as Transform<Vector<T, 2>>>::identity(), <Rotation3<T> as Transform<Vector<T, 3>>>::identity()));
    ex(c, "Rotation reorder", || {
        let (x, y) = Reorder::<Rotation3<T>, Vector<T, 3>>::reorder(s3, w);
        let (u, v) = Reorder::<Shift<T, 3>, Vector<T, 3>>::reorder(w, s3);
        ((x, y), (u, v))
    });
    let dir = Vector::<T, 3>::from(c.rng.unit_vec::<T, 3>());
    let up = Vector::<T, 3>::from(c.rng.unit_vec::<T, 3>());
    nr(c, "Rotation3::look_at_any", 64.0, 1.0, Rotation3::look_at_any(dir).into_quaternion().into_array().to_vec());
    nr(c, "Linear::look_at", 64.0, 1.0 / len(&cross([dir.x().d(), dir.y().d(), dir.z().d()], [up.x().d(), up.y().d(), up.z().d()])).max(1e-30), Linear::look_at(dir, up).into_matrix().flat());
    nr(c, "Linear::look_at_any", 64.0, 1.0, Linear::look_at_any(dir).into_matrix().flat());
}
fn scalars(c: &mut Ctx) {
    let (x, y, f) = (c.rng.hostile::<f64>(), c.rng.hostile::<f64>(), c.rng.hostile::<f32>());
    note(c, (x, y), "scalars");
    ex(c, "scalar norms", || ((NormL1::norm_l1(x), NormL2::norm_l2(x)), (NormL2::norm_l2_sqr(f), NormLInf::norm_l_inf(f))));
    ex(c, "scalar dot conj", || (Dot::dot(x, y), Conj::conj(x)));
    ex(c, "epsilon", || ((x.is_epsilon(), f.is_epsilon()), ((x * f64::EPSILON).is_epsilon(), f64::EPSILON.is_epsilon())));
    let i = c.rng.int() as i32;
    ex(c, "int scalar norms", || ((NormL1::norm_l1(i), NormL2::norm_l2(i)), NormLInf::norm_l_inf(i)));
}

#[cfg(feature = "rand")]
mod random {
    use super::*;
    use rand_::{distributions::Distribution, distributions::Standard, Error, RngCore};
    use vecmat::distr::{Invertible, NonZero, Normal, Uniform, Unit};
    use vecmat::matrix::MatrixDistribution;
    use vecmat::vector::VectorDistribution;
    struct Src(Rng, u64);
    impl RngCore for Src {
        fn next_u32(&mut self) -> u32 {
            self.1 += 1;
            (self.0.u64() >> 32) as u32
        }
        fn next_u64(&mut self) -> u64 {
            self.1 += 1;
            self.0.u64()
        }
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            for b in dest {
                self.1 += 1;
                *b = self.0.u64() as u8
            }
        }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(dest);
            Ok(())
        }
    }
    macro_rules! main {
        ($name:ident, $T:ident) => {
    pub fn $name(c: &mut Ctx) {
        type T = $T;
        let seed = c.rng.u64();
        c.input(seed);
        c.sample(|| format!("source seeded with {seed:#x}"));
        let mut g = Src(Rng::new(seed), 0);
                { let x: T = Distribution::<T>::sample(&Normal, &mut g); out::<T>(c, "sample Normal scalar", vec![x]); }
        { let x: Vector<T, 3> = Distribution::<Vector<T, 3>>::sample(&Normal, &mut g); out::<T>(c, "sample Normal vector", x.flat()); }
        { let x: Vector<T, 4> = Distribution::<Vector<T, 4>>::sample(&NonZero, &mut g); out::<T>(c, "sample NonZero vector", x.flat()); }
        { let x: Vector<T, 3> = Distribution::<Vector<T, 3>>::sample(&Unit, &mut g); out::<T>(c, "sample Unit vector", x.flat()); }
        { let x: Vector<T, 2> = Distribution::<Vector<T, 2>>::sample(&Unit, &mut g); out::<T>(c, "sample Unit vector 2", x.flat()); }
        { let x: Vector<T, 5> = VectorDistribution::<Standard, T, 5>::new(Standard).sample(&mut g); out::<T>(c, "sample each vector", x.flat()); }
        { let x: Matrix<T, 2, 3> = Distribution::<Matrix<T, 2, 3>>::sample(&Normal, &mut g); out::<T>(c, "sample Normal matrix", x.flat()); }
        { let x: Matrix<T, 3, 2> = MatrixDistribution::<Standard, T, 3, 2>::new(Standard).sample(&mut g); out::<T>(c, "sample each matrix", x.flat()); }
        { let x: Complex<T> = Distribution::<Complex<T>>::sample(&Normal, &mut g); out::<T>(c, "sample Normal complex", x.into_array().to_vec()); }
        { let x: Complex<T> = Distribution::<Complex<T>>::sample(&NonZero, &mut g); out::<T>(c, "sample NonZero complex", x.into_array().to_vec()); }
        { let x: Complex<T> = Distribution::<Complex<T>>::sample(&Unit, &mut g); out::<T>(c, "sample Unit complex", x.into_array().to_vec()); }
        { let x: Quaternion<T> = Distribution::<Quaternion<T>>::sample(&Normal, &mut g); out::<T>(c, "sample Normal quaternion", x.into_array().to_vec()); }
        { let x: Quaternion<T> = Distribution::<Quaternion<T>>::sample(&NonZero, &mut g); out::<T>(c, "sample NonZero quaternion", x.into_array().to_vec()); }
        { let x: Quaternion<T> = Distribution::<Quaternion<T>>::sample(&Unit, &mut g); out::<T>(c, "sample Unit quaternion", x.into_array().to_vec()); }
        { let x: Shift<T, 3> = Distribution::<Shift<T, 3>>::sample(&Normal, &mut g); out::<T>(c, "sample Normal shift", x.into_vector().flat()); }
        { let x: Scale<T> = Distribution::<Scale<T>>::sample(&Normal, &mut g); out::<T>(c, "sample Normal scale", vec![x.into_mag()]); }
        { let x: Linear<T, 2> = Distribution::<Linear<T, 2>>::sample(&Normal, &mut g); out::<T>(c, "sample Normal linear", x.into_matrix().flat()); }
        { let x: Rotation2<T> = Distribution::<Rotation2<T>>::sample(&Uniform, &mut g); out::<T>(c, "sample Rotation2", x.into_complex().into_array().to_vec()); }
        { let x: Rotation3<T> = Distribution::<Rotation3<T>>::sample(&Uniform, &mut g); out::<T>(c, "sample Rotation3", x.into_quaternion().into_array().to_vec()); }
        ex(c, "draws so far", || g.1);
        extra(c, &mut g);
        ex(c, "draws", || g.1);
    }
        };
    }
    main!(f64s, f64);
    main!(f32s, f32);
    fn out<T: Fl>(c: &mut Ctx, name: &'static str, v: Vec<T>) {
        let m = mag(&v);
        nr(c, name, 4096.0, 1.0 + m, v);
    }
    fn extra<R: RngCore>(c: &mut Ctx, g: &mut R) {
        macro_rules! s {
            ($name:literal, $t:ty, $d:expr, |$x:ident| $v:expr) => {{
                let $x: $t = $d.sample(g);
                let v: Vec<f64> = $v;
                let m = mag(&v);
                nr(c, $name, 4096.0, 1.0 + m, v);
            }};
        }
        s!("sample Invertible matrix", Matrix<f64, 3, 3>, Invertible, |x| x.flat());
        s!("sample Invertible linear", Linear<f64, 3>, Invertible, |x| x.into_matrix().flat());
        s!("sample Normal affine", Affine<f64, 2>, Normal, |x| x.linear().into_matrix().flat().into_iter().chain(x.shift().into_vector().flat()).collect());
        s!("sample Invertible affine", Affine<f64, 2>, Invertible, |x| x.linear().into_matrix().flat().into_iter().chain(x.shift().into_vector().flat()).collect());
    }
}
#[cfg(feature = "approx")]
fn approximate<T: Num_ + approx_::AbsDiffEq<Epsilon = T>>(c: &mut Ctx) {
    use approx_::{abs_diff_eq, AbsDiffEq};
    let e = c.rng.pick(&[T::f(1e-3), T::f(0.5), T::zero(), T::epsilon()]);
    macro_rules! two {
        ($n:expr, $mk:expr, $name:literal) => {{
            let a: [T; $n] = std::array::from_fn(|_| c.rng.tame());
            let mut b = a;
            let k = c.rng.below($n);
            let f = T::f(c.rng.pick(&[0.0, 0.5, 1.0, 1.5]));
            b[k] = a[k] + e * f;
            let (x, y) = ($mk(a), $mk(b));
            ex(c, $name, || (x.abs_diff_eq(&y, e), abs_diff_eq!(x, y)));
            ex(c, concat!($name, " default"), || default_of(&x));
        }};
    }
    fn default_of<A: AbsDiffEq>(_: &A) -> A::Epsilon {
        A::default_epsilon()
    }
    c.input(c.index);
    c.sample(|| "approximate equality, one component off".into());
    two!(4, |a: [T; 4]| Vector::from(a), "approx vector");
    two!(6, |a: [T; 6]| Matrix::<T, 2, 3>::try_from(&a[..]).ok().unwrap(), "approx matrix");
    two!(2, Complex::from_array, "approx complex");
    two!(4, Quaternion::from_array, "approx quaternion");
    two!(4, |a: [T; 4]| Moebius::new(a[0], a[1], a[2], a[3]), "approx moebius");
    two!(3, |a: [T; 3]| Shift::from_vector(Vector::from(a)), "approx shift");
    two!(1, |a: [T; 1]| Scale::from_mag(a[0]), "approx scale");
    two!(2, |a: [T; 2]| Rotation2::from_complex(Complex::from_array(a)), "approx rotation2");
    two!(4, |a: [T; 4]| Rotation3::from_quaternion(Quaternion::from_array(a)), "approx rotation3");
    two!(4, |a: [T; 4]| Linear::<T, 2>::from_matrix(Matrix::try_from(&a[..]).ok().unwrap()), "approx linear");
    two!(6, |a: [T; 6]| -> Affine<T, 2> { Chain::new(Shift::from_vector(Vector::from([a[4], a[5]])), Linear::from_matrix(Matrix::try_from(&a[..4]).ok().unwrap())) }, "approx affine");
}

/// The workload: section, weight, cases.
pub fn table() -> Vec<(&'static str, u64, Vec<fn(&mut Ctx)>)> {
    let mut s: Vec<(&'static str, u64, Vec<fn(&mut Ctx)>)> = Vec::new();
    macro_rules! sec {
        ($name:literal, $n:expr, [$($f:expr),+ $(,)?]) => { s.push(($name, $n, vec![$($f),+])) };
    }
    sec!("vector", 1600, [vector::<f64, 3>, vector::<f32, 4>, vector::<f64, 1>, vector::<f32, 2>, vector::<f64, 7>, vector::<f32, 0>]);
    sec!("matrix", 1200, [matrix::<f64, 2, 3>, matrix::<f32, 3, 3>, matrix::<f64, 4, 1>, matrix::<f32, 1, 4>, matrix::<f64, 0, 2>]);
    sec!("square", 1200, [square::<f64, 3>, square::<f32, 4>, square::<f64, 2>, square::<f64, 1>, square::<f64, 5>]);
    sec!("cross", 600, [crosses::<f64>, crosses::<f32>]);
    sec!("ints", 1200, [ints]);
    sec!("containers", 800, [containers]);
    sec!("math", 3000, [math::<f64, 3>, math::<f32, 2>]);
    sec!("complex", 1600, [complex::<f64>, complex::<f32>]);
    sec!("complex_fn", 1600, [complex_fn::<f64>, complex_fn::<f32>]);
    sec!("quaternion", 1600, [quaternion::<f64>, quaternion::<f32>]);
    sec!("mixed", 800, [mixed64, mixed32]);
    sec!("moebius", 1200, [moebius::<f64>, moebius::<f32>]);
    sec!("transforms", 1600, [transforms::<f64, 3>, transforms::<f32, 2>, transforms::<f64, 4>]);
    sec!("rotations", 3000, [rotations::<f64>, rotations::<f32>]);
    sec!("scalars", 1200, [scalars]);
    #[cfg(feature = "rand")]
    sec!("rand_samples", 2400, [random::f64s, random::f32s]);
    #[cfg(feature = "approx")]
    sec!("approx_eq", 1600, [approximate::<f64>, approximate::<f32>]);
    s
}

#[allow(dead_code)]
fn main() {
    if let Ok(p) = std::env::var("VERIF_LOG") {
        *FILE.lock().unwrap() = Some(std::fs::File::create(p).expect("create log"));
    }
    let mut s = Suite::new(
        "C23",
        "a distinct input is the operand set of one case; every result of the case is one logged event, compared between the builds with different cargo features",
    );
    for (name, n, fs) in table() {
        s.section(name, n, move |c| {
            fs[c.index as usize % fs.len()](c);
            flush();
        });
    }
    s.run()
}
