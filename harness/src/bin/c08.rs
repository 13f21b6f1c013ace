//! C08: vector and matrix products follow their algebraic definitions.
use harness::*;
use num_traits::{One, Zero};
use std::fmt::Debug;
use std::ops::*;
use vecmat::traits::{Dot, Outer};
use vecmat::{Matrix, Vector};

/// an exact ring for the oracle
trait Ring: Copy + PartialEq + Debug + Send + Zero + One + Neg<Output = Self> + Sub<Output = Self> + 'static {
    const NAME: &'static str;
    const COMMUTES: bool;
    fn gen(r: &mut Rng, sparse: bool) -> Self;
    fn word(&self) -> u64;
}
impl Ring for Fp {
    const NAME: &'static str = "prime field";
    const COMMUTES: bool = true;
    fn gen(r: &mut Rng, sparse: bool) -> Fp {
        if sparse && r.chance(1, 2) {
            Fp(0)
        } else {
            r.fp()
        }
    }
    fn word(&self) -> u64 {
        self.0
    }
}
impl Ring for Nc {
    const NAME: &'static str = "non-commutative ring";
    const COMMUTES: bool = false;
    fn gen(r: &mut Rng, sparse: bool) -> Nc {
        if sparse && r.chance(1, 2) {
            Nc::zero()
        } else {
            Nc::random(r)
        }
    }
    fn word(&self) -> u64 {
        hash_u64s(self.0.iter().map(|x| x.0))
    }
}
/// a handful of elements, zero divisors among them
macro_rules! small_ring {
    ($($m:expr)*) => {$(
        impl Ring for Zn<$m> {
            const NAME: &'static str = <Zn<$m> as Exact>::RING;
            const COMMUTES: bool = true;
            fn gen(r: &mut Rng, sparse: bool) -> Self {
                if sparse && r.chance(1, 2) {
                    Zn(0)
                } else {
                    Zn::random(r)
                }
            }
            fn word(&self) -> u64 {
                self.0 as u64
            }
        }
    )*};
}
small_ring!(2 3 4 6);
impl Ring for Dual<Fp> {
    const NAME: &'static str = <Dual<Fp> as Exact>::RING;
    const COMMUTES: bool = true;
    fn gen(r: &mut Rng, sparse: bool) -> Self {
        if sparse && r.chance(1, 2) {
            Dual::zero()
        } else {
            Exact::any(r)
        }
    }
    fn word(&self) -> u64 {
        self.bits()
    }
}
/// integers small enough that no product of the tests overflows
impl Ring for i64 {
    const NAME: &'static str = "i64";
    const COMMUTES: bool = true;
    fn gen(r: &mut Rng, sparse: bool) -> i64 {
        if sparse && r.chance(1, 2) {
            0
        } else {
            r.range(-2000, 2000)
        }
    }
    fn word(&self) -> u64 {
        *self as u64
    }
}
/// floats holding small integers: every operation is exact
impl Ring for f64 {
    const NAME: &'static str = "f64 (exact integers)";
    const COMMUTES: bool = true;
    fn gen(r: &mut Rng, sparse: bool) -> f64 {
        <i64 as Ring>::gen(r, sparse) as f64
    }
    fn word(&self) -> u64 {
        self.to_bits()
    }
}
impl Ring for f32 {
    const NAME: &'static str = "f32 (exact integers)";
    const COMMUTES: bool = true;
    fn gen(r: &mut Rng, _: bool) -> f32 {
        r.range(-9, 9) as f32
    }
    fn word(&self) -> u64 {
        self.to_bits() as u64
    }
}

fn rm<T: Ring, const M: usize, const N: usize>(c: &mut Ctx) -> Matrix<T, M, N> {
    let sparse = c.rng.chance(1, 4);
    if c.rng.chance(1, 4) {
        // a structured zero pattern
        let w = mask(&mut c.rng, M, N);
        return mat_from(|i, j| if w[i][j] { T::gen(&mut c.rng, false) } else { T::zero() });
    }
    if c.rng.chance(1, 8) {
        // few values: repeated rows, equal neighbours, idempotents, involutions
        let k = [T::zero(), T::one(), -T::one(), T::gen(&mut c.rng, false)];
        let (m, how) = (c.rng.below(3) + 2, c.rng.below(3));
        let d: Vec<T> = (0..M + N).map(|_| k[c.rng.below(m)]).collect();
        return mat_from(|i, j| match how {
            0 => d[i],
            1 => d[i + N - 1 - j],
            _ => k[c.rng.below(m)],
        });
    }
    mat_from(|_, _| T::gen(&mut c.rng, sparse))
}
fn rv<T: Ring, const N: usize>(c: &mut Ctx) -> Vector<T, N> {
    let sparse = c.rng.chance(1, 4);
    vec_from(|_| T::gen(&mut c.rng, sparse))
}
fn rows<T: Ring, const M: usize, const N: usize>(m: &Matrix<T, M, N>) -> Mat<T> {
    rows_of(&m.into_array_of_arrays())
}
fn sum<T: Ring>(it: impl Iterator<Item = T>) -> T {
    it.fold(T::zero(), |a, b| a + b)
}

fn vectors<T: Ring, const N: usize>(c: &mut Ctx) {
    let (u, v): (Vector<T, N>, Vector<T, N>) = (rv(c), rv(c));
    let (a, b) = (u.into_array(), v.into_array());
    c.input(hash_u64s(a.iter().chain(&b).map(|x| x.word())));
    c.sample(|| format!("{} vectors of {N} over {}", "products of", T::NAME));
    let d = || format!("over {}: {a:?} . {b:?}", T::NAME);
    c.eq("Vector::dot(Vector)", u.dot(v), sum((0..N).map(|i| a[i] * b[i])), d);
    c.eq("Vector::square_length", u.square_length(), sum((0..N).map(|i| a[i] * a[i])), d);
    // basis vectors pick single elements out
    let i = c.rng.below(N);
    let e = vec_from::<T, N>(|k| if k == i { T::one() } else { T::zero() });
    c.eq("Vector::dot(basis)", u.dot(e), a[i], d);
    c.eq("Vector::dot(basis)", e.dot(v), b[i], d);
    // bilinearity on both sides
    let w: Vector<T, N> = rv(c);
    c.eq("dot is additive", (u + w).dot(v), u.dot(v) + w.dot(v), d);
    c.eq("dot is additive", u.dot(v + w), u.dot(v) + u.dot(w), d);
    if T::COMMUTES {
        c.eq("dot is symmetric", u.dot(v), v.dot(u), d);
    }
}

fn products<T: Ring, const L: usize, const M: usize, const N: usize>(c: &mut Ctx) {
    let a: Matrix<T, L, M> = rm(c);
    let b: Matrix<T, M, N> = rm(c);
    let v: Vector<T, M> = rv(c);
    let (ra, rb) = (rows(&a), rows(&b));
    c.input(hash_u64s(ra.iter().chain(&rb).flatten().map(|x| x.word())));
    c.sample(|| format!("{L}x{M} times {M}x{N} over {}", T::NAME));
    let d = || format!("over {}, {L}x{M} {ra:?} and {M}x{N} {rb:?}", T::NAME);
    let ab = a.dot(b);
    c.eq("Matrix::dot(Matrix)", rows(&ab), mul_ref(&ra, &rb, M, N), d);
    // matrix-vector and vector-matrix
    let vv = v.into_array();
    let want: Vec<T> = ra.iter().map(|r| sum((0..M).map(|k| r[k] * vv[k]))).collect();
    c.eq("Matrix::dot(Vector)", a.dot(v).flat(), want, || format!("{} vector {vv:?}", d()));
    let want: Vec<T> = (0..N).map(|j| sum((0..M).map(|k| vv[k] * rb[k][j]))).collect();
    c.eq("Vector::dot(Matrix)", v.dot(b).flat(), want, || format!("{} vector {vv:?}", d()));
    // outer product
    let x: Vector<T, L> = rv(c);
    let (xa, o) = (x.into_array(), rows(&x.outer(v)));
    let want: Mat<T> = (0..L).map(|i| (0..M).map(|j| xa[i] * vv[j]).collect()).collect();
    c.eq("Vector::outer", o, want, || format!("over {} {xa:?} and {vv:?}", T::NAME));
    // transposition
    let t = a.transpose();
    let want: Mat<T> = (0..M).map(|j| (0..L).map(|i| ra[i][j]).collect()).collect();
    c.eq("Matrix::transpose", rows(&t), want, d);
    c.check(t.transpose() == a, "transpose is an involution", d);
    if T::COMMUTES && L > 0 && N > 0 {
        c.check(ab.transpose() == b.transpose().dot(a.transpose()), "(AB)^T = B^T A^T", d);
    }
    // neutral identity, on both sides
    let (il, ir) = (Matrix::<T, M, M>::one(), Matrix::<T, M, M>::one());
    c.check(il.dot(b) == b && a.dot(ir) == a, "identity is neutral", d);
    // distributivity
    let b2: Matrix<T, M, N> = rm(c);
    let a2: Matrix<T, L, M> = rm(c);
    c.check(a.dot(b + b2) == ab + a.dot(b2), "product distributes", d);
    c.check((a + a2).dot(b) == ab + a2.dot(b), "product distributes", d);
    // (AB)x = A(Bx), y(AB) = (yA)B
    if N > 0 && L > 0 {
        let x: Vector<T, N> = rv(c);
        c.check(ab.dot(x) == a.dot(b.dot(x)), "product is composition", d);
        let y: Vector<T, L> = rv(c);
        c.check(y.dot(ab) == y.dot(a).dot(b), "product is composition", d);
    }
}
fn assoc<T: Ring, const K: usize, const L: usize, const M: usize, const N: usize>(c: &mut Ctx) {
    let (x, y, z): (Matrix<T, K, L>, Matrix<T, L, M>, Matrix<T, M, N>) = (rm(c), rm(c), rm(c));
    c.input(hash_u64s(rows(&x).iter().flatten().map(|x| x.word())));
    c.op("associativity");
    c.check(x.dot(y).dot(z) == x.dot(y.dot(z)), "product associates", || format!("{}: {x:?} {y:?} {z:?}", T::NAME));
}

fn squares<T: Ring, const N: usize>(c: &mut Ctx) {
    let v: Vector<T, N> = rv(c);
    let a = v.into_array();
    c.input(hash_u64s(a.iter().map(|x| x.word())));
    let want: Mat<T> = (0..N).map(|i| (0..N).map(|j| if i == j { a[i] } else { T::zero() }).collect()).collect();
    c.eq("Matrix::diagonal", rows(&Matrix::diagonal(v)), want, || format!("{a:?}"));
    let want: Mat<T> = (0..N).map(|i| (0..N).map(|j| if i == j { T::one() } else { T::zero() }).collect()).collect();
    c.eq("Matrix::one", rows(&Matrix::<T, N, N>::one()), want, || format!("N = {N}"));
    c.eq("Matrix::is_one", Matrix::<T, N, N>::one().is_one(), true, || format!("N = {N}"));
    if N > 0 {
        // one position off
        let mut m = Matrix::<T, N, N>::one();
        let (i, j) = (c.rng.below(N), c.rng.below(N));
        let e = loop {
            let e = T::gen(&mut c.rng, false);
            if !e.is_zero() && e != m[(i, j)] {
                break e;
            }
        };
        m[(i, j)] = e;
        c.eq("Matrix::is_one", m.is_one(), false, || format!("identity with ({i}, {j}) replaced by {e:?}"));
        let w: Vector<T, N> = rv(c);
        c.eq("diagonal acts element-wise", Matrix::diagonal(v).dot(w).flat(), (0..N).map(|i| a[i] * w[i]).collect(), || format!("{a:?}"));
    }
}

fn transpose_owned<const M: usize, const N: usize>(c: &mut Ctx) {
    let a: Vec<String> = (0..M * N).map(|k| format!("{k}:{:x}", c.rng.u64())).collect();
    c.input(hash_u64s(a.iter().map(|s| hash_str(s))));
    let t = <Matrix<String, M, N> as Flat>::build(a.clone()).transpose();
    let want: Vec<String> = (0..M * N).map(|k| a[(k % M) * N + k / M].clone()).collect();
    c.eq("Matrix::transpose(String)", t.clone().flat(), want, || format!("{M}x{N} {a:?}"));
    c.eq("Matrix::transpose(String)", t.transpose().flat(), a, || format!("{M}x{N} twice"));
}

fn cross<T: Ring>(c: &mut Ctx) {
    let (a, b): (Vector<T, 4>, Vector<T, 4>) = (rv(c), rv(c));
    let (mut p, mut q) = (a.into_array(), b.into_array());
    relate_ring(&mut c.rng, &mut p, None);
    relate_ring(&mut c.rng, &mut q, None);
    relate_to(&mut c.rng, &p, &mut q);
    let (a, b) = (Vector::from(p), Vector::from(q));
    c.input(hash_u64s(p.iter().chain(&q).map(|x| x.word())));
    let d = || format!("over {}: {p:?} x {q:?}", T::NAME);
    let w2 = p[0] * q[1] - p[1] * q[0];
    let w3 = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], w2];
    c.eq("Vector2::cross", Vector::from([p[0], p[1]]).cross(Vector::from([q[0], q[1]])), w2, d);
    let (a3, b3) = (Vector::from([p[0], p[1], p[2]]), Vector::from([q[0], q[1], q[2]]));
    c.eq("Vector3::cross", a3.cross(b3).into_array(), w3, d);
    c.eq("Vector4::cross", a.cross(b).into_array(), [w3[0], w3[1], w3[2], T::zero()], d);
    if T::COMMUTES {
        c.eq("cross is orthogonal", (a3.cross(b3).dot(a3), a3.cross(b3).dot(b3)), (T::zero(), T::zero()), d);
        c.eq("cross is antisymmetric", a3.cross(b3), -(b3.cross(a3)), d);
    }
}

/// floats up to rounding: every component of every product
fn float<T: Fl + Dot<Output = T>, const L: usize, const M: usize, const N: usize>(c: &mut Ctx) {
    let [ea, mut eb, mut ev] = [L * M, M * N, M].map(|n| {
        let mut e: Vec<T> = (0..n).map(|_| c.rng.tame()).collect();
        relate_fl(&mut c.rng, &mut e);
        e
    });
    relate_to(&mut c.rng, &ea, &mut eb);
    if L > 0 {
        relate_to(&mut c.rng, &ea[..M], &mut ev);
    }
    let a = <Matrix<T, L, M> as Flat>::build(ea);
    let b = <Matrix<T, M, N> as Flat>::build(eb);
    let v = <Vector<T, M> as Flat>::build(ev);
    c.input(hash_u64s(a.flat().iter().chain(&b.flat()).map(|x| x.bits())));
    let u = T::eps() * (M + 1) as f64;
    let near = |c: &mut Ctx, op: &'static str, got: T, terms: Vec<(T, T)>| {
        let want: f64 = terms.iter().map(|(x, y)| x.d() * y.d()).sum();
        let mag: f64 = terms.iter().map(|(x, y)| (x.d() * y.d()).abs()).sum();
        c.op(op);
        c.check((got.d() - want).abs() <= u * mag + 1e-300, op, || format!("{} got {got:?} expected {want}, terms {terms:?}", T::NAME));
    };
    let ab = a.dot(b);
    for i in 0..L {
        for j in 0..N {
            near(c, "Matrix::dot(Matrix) float", ab[(i, j)], (0..M).map(|k| (a[(i, k)], b[(k, j)])).collect());
        }
        near(c, "Matrix::dot(Vector) float", a.dot(v)[i], (0..M).map(|k| (a[(i, k)], v[k])).collect());
        near(c, "Vector::dot float", a.row(i).dot(v), (0..M).map(|k| (a[(i, k)], v[k])).collect());
    }
    for j in 0..N {
        near(c, "Vector::dot(Matrix) float", v.dot(b)[j], (0..M).map(|k| (v[k], b[(k, j)])).collect());
    }
    near(c, "Vector::square_length float", v.square_length(), (0..M).map(|k| (v[k], v[k])).collect());
    near(c, "Vector::length float", v.length() * v.length(), (0..M).map(|k| (v[k], v[k])).collect());
    let (mut p, mut q): ([T; 4], [T; 4]) = (std::array::from_fn(|_| c.rng.tame()), std::array::from_fn(|_| c.rng.tame()));
    let n = c.rng.pick(&[2, 3, 3, 4]);
    relate_fl(&mut c.rng, &mut p[..n]);
    relate_fl(&mut c.rng, &mut q[..n]);
    relate_to(&mut c.rng, &p[..n], &mut q[..n]);
    near(c, "Vector2::cross float", Vector::from([p[0], p[1]]).cross(Vector::from([q[0], q[1]])), vec![(p[0], q[1]), (-p[1], q[0])]);
    let r4 = Vector::from(p).cross(Vector::from(q));
    let r = Vector::from([p[0], p[1], p[2]]).cross(Vector::from([q[0], q[1], q[2]]));
    near(c, "Vector4::cross float", r4[3], vec![]);
    for i in 0..3 {
        let (y, z) = ((i + 1) % 3, (i + 2) % 3);
        near(c, "Vector3::cross float", r[i], vec![(p[y], q[z]), (-p[z], q[y])]);
        near(c, "Vector4::cross float", r4[i], vec![(p[y], q[z]), (-p[z], q[y])]);
    }
}

macro_rules! scalar_dot {
    ($c:ident, $($t:ident)*) => {$({
        let (a, b) = (($c.rng.u64() % 12) as $t, ($c.rng.u64() % 10) as $t);
        $c.eq(concat!(stringify!($t), "::dot"), a.dot(b), a * b, || format!("{a} . {b}"));
    })*};
}
fn scalars(c: &mut Ctx) {
    let h = c.rng.u64();
    c.input(h);
    scalar_dot!(c, u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64);
    let (a, b): (f64, f64) = (c.rng.hostile(), c.rng.hostile());
    c.op("f64::dot");
    c.check(same(a.dot(b), a * b), "f64::dot", || format!("{a} . {b}"));
    let (a, b): (i32, i32) = (c.rng.range(-40000, 40000) as i32, c.rng.range(-40000, 40000) as i32);
    c.eq("i32::dot", a.dot(b), a * b, || format!("{a} . {b}"));
}

macro_rules! shapes {
    ($f:ident, $t:ty) => {{
        #[cfg(debug_assertions)]
        const T: &[fn(&mut Ctx)] = &[
            $f::<$t, 1, 1, 1>, $f::<$t, 2, 2, 2>, $f::<$t, 3, 3, 3>, $f::<$t, 4, 4, 4>, $f::<$t, 2, 3, 4>, $f::<$t, 4, 3, 2>,
            $f::<$t, 1, 4, 1>, $f::<$t, 4, 1, 4>, $f::<$t, 3, 2, 3>, $f::<$t, 0, 2, 3>, $f::<$t, 3, 2, 0>, $f::<$t, 5, 6, 7>,
            $f::<$t, 2, 17, 1>, $f::<$t, 8, 8, 8>, $f::<$t, 1, 33, 2>, $f::<$t, 6, 1, 2>, $f::<$t, 16, 16, 16>,
        ];
        #[cfg(not(debug_assertions))]
        const T: &[fn(&mut Ctx)] = &[$f::<$t, 2, 2, 2>, $f::<$t, 3, 3, 3>, $f::<$t, 4, 4, 4>, $f::<$t, 2, 3, 4>, $f::<$t, 5, 2, 1>, $f::<$t, 3, 9, 3>];
        T
    }};
}
macro_rules! shapes_few {
    ($f:ident, $t:ty) => {{
        const T: &[fn(&mut Ctx)] = &[$f::<$t, 2, 2, 2>, $f::<$t, 3, 3, 3>, $f::<$t, 4, 4, 4>, $f::<$t, 3, 4, 2>, $f::<$t, 1, 7, 5>];
        T
    }};
}

fn main() {
    let mut s = Suite::new(
        "C08",
        "a case multiplies random (also sparse) vectors and matrices of one shape over one ring and compares every component \
         with the textbook sum and the ring laws; non-trivial: element data (hashed) differ",
    );
    s.section("products_field", 17 * 30, |c| run_table!(c, shapes!(products, Fp)));
    s.section("products_noncommutative", 17 * 30, |c| run_table!(c, shapes!(products, Nc)));
    s.section("products_i64", 5 * 40, |c| run_table!(c, shapes_few!(products, i64)));
    s.section("products_f64", 5 * 40, |c| run_table!(c, shapes_few!(products, f64)));
    s.section("products_f32", 5 * 40, |c| run_table!(c, shapes_few!(products, f32)));
    s.section("products_small_rings", 22 * 30, |c| {
        const T: &[fn(&mut Ctx)] = &[
            products::<Zn<2>, 2, 2, 2>, products::<Zn<2>, 3, 3, 3>, products::<Zn<2>, 4, 4, 4>, products::<Zn<3>, 2, 3, 4>,
            products::<Zn<3>, 3, 3, 3>, products::<Zn<3>, 1, 2, 1>, products::<Zn<4>, 2, 2, 2>, products::<Zn<4>, 3, 5, 2>,
            products::<Zn<6>, 2, 2, 3>, products::<Zn<6>, 3, 3, 3>, squares::<Zn<3>, 3>, squares::<Zn<6>, 2>, squares::<Zn<6>, 4>,
            assoc::<Zn<2>, 2, 2, 2, 2>, assoc::<Zn<3>, 3, 3, 3, 3>, assoc::<Zn<4>, 3, 2, 4, 3>, assoc::<Zn<6>, 4, 4, 4, 4>,
            products::<Dual<Fp>, 3, 3, 3>, vectors::<Dual<Fp>, 4>,
            cross::<Zn<2>>, cross::<Zn<3>>, cross::<Zn<6>>,
        ];
        run_table!(c, T)
    });
    s.section("vectors_small_rings", 10 * 60, |c| {
        const T: &[fn(&mut Ctx)] = &[
            vectors::<Zn<2>, 2>, vectors::<Zn<2>, 3>, vectors::<Zn<2>, 5>, vectors::<Zn<3>, 2>, vectors::<Zn<3>, 4>,
            vectors::<Zn<4>, 3>, vectors::<Zn<4>, 9>, vectors::<Zn<6>, 2>, vectors::<Zn<6>, 3>, vectors::<Zn<6>, 12>,
        ];
        run_table!(c, T)
    });
    s.section("associativity", 400, |c| {
        const T: &[fn(&mut Ctx)] = &[
            assoc::<Fp, 2, 3, 4, 5>, assoc::<Fp, 3, 3, 3, 3>, assoc::<Fp, 4, 4, 4, 4>, assoc::<Fp, 1, 6, 1, 6>,
            assoc::<Nc, 2, 2, 2, 2>, assoc::<Nc, 3, 1, 4, 2>, assoc::<Nc, 3, 3, 3, 3>, assoc::<Nc, 4, 4, 4, 4>,
        ];
        run_table!(c, T)
    });
    s.section("vectors_field", 21 * 30, |c| run_table!(c, vdims1!(vectors, Fp)));
    s.section("vectors_noncommutative", 21 * 30, |c| run_table!(c, vdims1!(vectors, Nc)));
    s.section("vectors_other", 5 * 40, |c| {
        const T: &[fn(&mut Ctx)] = &[vectors::<i64, 3>, vectors::<f64, 2>, vectors::<f64, 4>, vectors::<f32, 3>, vectors::<i64, 8>];
        run_table!(c, T)
    });
    s.section("square", 12 * 20, |c| {
        const T: &[fn(&mut Ctx)] = &[
            squares::<Fp, 0>, squares::<Fp, 1>, squares::<Fp, 2>, squares::<Fp, 3>, squares::<Fp, 4>, squares::<Fp, 5>, squares::<Fp, 8>,
            squares::<Fp, 17>, squares::<Nc, 2>, squares::<Nc, 4>, squares::<f64, 3>, squares::<i64, 6>,
        ];
        run_table!(c, T)
    });
    s.section("transpose_owned", 31 * 10, |c| run_table!(c, mdims!(transpose_owned)));
    s.section("cross", 1500, |c| {
        const T: &[fn(&mut Ctx)] = &[cross::<Fp>, cross::<Nc>, cross::<i64>, cross::<f64>, cross::<f32>];
        run_table!(c, T)
    });
    s.section("floats", 1200, |c| {
        const T: &[fn(&mut Ctx)] = &[
            float::<f64, 2, 2, 2>, float::<f64, 3, 3, 3>, float::<f64, 4, 4, 4>, float::<f64, 2, 17, 3>,
            float::<f32, 3, 3, 3>, float::<f32, 4, 4, 4>, float::<f32, 1, 33, 2>,
        ];
        run_table!(c, T)
    });
    s.section("scalars", 300, scalars);
    s.native("large", 8 * 2, |c| {
        const T: &[fn(&mut Ctx)] = &[vectors::<Fp, 135>, vectors::<Nc, 263>, products::<Fp, 1, 263, 1>, products::<Nc, 2, 135, 2>, products::<Fp, 135, 1, 2>, products::<Fp, 2, 3, 135>, squares::<Fp, 33>, transpose_owned::<2, 263>];
        run_table!(c, T)
    });
    s.run();
}
