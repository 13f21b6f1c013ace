//! C15: transformations form groups; chain, inverse, reorder and deriv
//! agree with apply. Reference: every one of these is an affine map,
//! represented independently as a dense matrix and an offset.
use harness::*;
use num_traits::{Inv, Num, One, Zero};
use std::fmt::Debug;
use std::ops::*;
use vecmat::transform::{Affine, Chain, Linear, Reorder, Rotation2, Rotation3, Scale, Shift};
use vecmat::{Complex, Quaternion, Transform, Vector};

trait S: Neg<Output = Self> + Num + Inv<Output = Self> + Copy + Debug + 'static {
    fn word(&self) -> u64;
}
impl S for Fp {
    fn word(&self) -> u64 {
        self.0
    }
}
impl<F: Exact> S for Dual<F> {
    fn word(&self) -> u64 {
        self.v.bits()
    }
}
impl S for f64 {
    fn word(&self) -> u64 {
        self.to_bits()
    }
}
impl S for f32 {
    fn word(&self) -> u64 {
        self.to_bits() as u64
    }
}
trait Base: S {
    fn any(r: &mut Rng) -> Self;
    fn nz(r: &mut Rng) -> Self;
    fn unit2(r: &mut Rng) -> [Self; 2];
    fn unit4(r: &mut Rng) -> [Self; 4];
    fn invertible(r: &mut Rng, n: usize) -> Vec<Self>;
}
impl Base for Fp {
    fn any(r: &mut Rng) -> Fp {
        r.fp()
    }
    fn nz(r: &mut Rng) -> Fp {
        r.fp_nz()
    }
    fn unit2(r: &mut Rng) -> [Fp; 2] {
        // -1 is not a square in this field, so 1 + t^2 never vanishes
        match r.below(6) {
            0 => r.pick(&[[1, 0], [-1, 0], [0, 1], [0, -1]]).map(Fp::int),
            _ => {
                let t = r.fp();
                let k = (Fp(1) + t * t).recip();
                [(Fp(1) - t * t) * k, (t + t) * k]
            }
        }
    }
    fn unit4(r: &mut Rng) -> [Fp; 4] {
        if r.chance(1, 6) {
            let mut q = [Fp(0); 4];
            q[r.below(4)] = Fp::int(if r.chance(1, 2) { 1 } else { -1 });
            return q;
        }
        loop {
            let p: [Fp; 4] = std::array::from_fn(|_| r.fp());
            let n = p.iter().fold(Fp(0), |s, x| s + *x * *x);
            if n.0 != 0 {
                let k = n.recip();
                return qmul(p, p).map(|x| x * k);
            }
        }
    }
    fn invertible(r: &mut Rng, n: usize) -> Vec<Fp> {
        loop {
            let mode = r.below(6);
            let w = mask(r, n, n);
            let v: Vec<Fp> = (0..n * n)
                .map(|k| match mode {
                    4 | 5 if !w[k / n][k % n] => Fp(0),
                    4 | 5 => r.fp_nz(),
                    0 if k % n < k / n => Fp(0),
                    1 if r.chance(1, 2) => Fp(0),
                    2 => Fp::int(r.range(-2, 2)),
                    _ => r.fp(),
                })
                .collect();
            if det_gauss(&v.chunks(n.max(1)).map(|r| r.to_vec()).collect()).0 != 0 {
                return v;
            }
        }
    }
}
macro_rules! small {
    ($($m:expr),*) => {$(
        impl S for Zn<$m> {
            fn word(&self) -> u64 {
                self.0 as u64
            }
        }
        impl Base for Zn<$m> {
            fn any(r: &mut Rng) -> Self {
                Zn::random(r)
            }
            fn nz(r: &mut Rng) -> Self {
                Exact::any_nz(r)
            }
            fn unit2(r: &mut Rng) -> [Self; 2] {
                loop {
                    let p = [Zn::random(r), Zn::random(r)];
                    if p[0] * p[0] + p[1] * p[1] == Zn::one() {
                        return p;
                    }
                }
            }
            fn unit4(r: &mut Rng) -> [Self; 4] {
                loop {
                    let p: [Self; 4] = std::array::from_fn(|_| Zn::random(r));
                    if p.iter().fold(Zn::zero(), |s: Self, x| s + *x * *x) == Zn::one() {
                        return p;
                    }
                }
            }
            fn invertible(r: &mut Rng, n: usize) -> Vec<Self> {
                loop {
                    let w = mask(r, n, n);
                    let full = r.chance(1, 2);
                    let v: Vec<Self> = (0..n * n).map(|k| if full || w[k / n][k % n] { Zn::random(r) } else { Zn::zero() }).collect();
                    if det_leibniz(&v.chunks(n.max(1)).map(|r| r.to_vec()).collect::<Mat<Self>>()).is_unit() {
                        return v;
                    }
                }
            }
        }
    )*};
}
small!(2, 3, 5, 7);
impl Base for Dual<Fp> {
    fn any(r: &mut Rng) -> Self {
        Exact::any(r)
    }
    fn nz(r: &mut Rng) -> Self {
        Exact::any_nz(r)
    }
    fn unit2(r: &mut Rng) -> [Self; 2] {
        let t: Self = Exact::any(r);
        let k = (Dual::one() + t * t).inv();
        [(Dual::one() - t * t) * k, (t + t) * k]
    }
    fn unit4(r: &mut Rng) -> [Self; 4] {
        loop {
            let p: [Self; 4] = std::array::from_fn(|_| Exact::any(r));
            let n = p.iter().fold(Dual::zero(), |s: Self, x| s + *x * *x);
            if n.unit() {
                let k = n.inv();
                return qmul(p, p).map(|x| x * k);
            }
        }
    }
    fn invertible(r: &mut Rng, n: usize) -> Vec<Self> {
        loop {
            let v: Vec<Self> = (0..n * n).map(|_| Exact::any(r)).collect();
            if det_leibniz(&v.chunks(n.max(1)).map(|r| r.to_vec()).collect::<Mat<Self>>()).unit() {
                return v;
            }
        }
    }
}
impl Base for f64 {
    fn any(r: &mut Rng) -> f64 {
        if r.chance(1, 8) {
            r.range(-2, 2) as f64
        } else {
            r.gauss()
        }
    }
    fn nz(r: &mut Rng) -> f64 {
        let x = 2f64.powf(r.uniform(-2.0, 2.0));
        if r.chance(1, 2) {
            -x
        } else {
            x
        }
    }
    fn unit2(r: &mut Rng) -> [f64; 2] {
        r.direction()
    }
    fn unit4(r: &mut Rng) -> [f64; 4] {
        r.direction()
    }
    /// product of reflections and a diagonal: condition number at most 16;
    /// or a structured zero pattern of about that condition
    fn invertible(r: &mut Rng, n: usize) -> Vec<f64> {
        if n > 0 && r.chance(1, 3) {
            for _ in 0..20 {
                let w = mask(r, n, n);
                let a: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if w[i][j] { <f64 as Base>::nz(r) } else { 0.0 }).collect()).collect();
                if let Some(b) = gauss_inverse(&a) {
                    let f = |a: &[Vec<f64>]| a.iter().flatten().map(|x| x * x).sum::<f64>().sqrt();
                    if f(&a) * f(&b) < 24.0 && f(&b) < 8.0 {
                        return a.concat();
                    }
                }
            }
        }
        let mut m = vec![0.0; n * n];
        for i in 0..n {
            m[i * n + i] = <f64 as Base>::nz(r);
        }
        for _ in 0..2 {
            let h: Vec<f64> = (0..n).map(|_| r.gauss()).collect();
            let k = 2.0 / h.iter().map(|x| x * x).sum::<f64>();
            if !k.is_finite() {
                continue;
            }
            for side in 0..2 {
                for j in 0..n {
                    let at = |i: usize| if side == 0 { i * n + j } else { j * n + i };
                    let d: f64 = (0..n).map(|i| h[i] * m[at(i)]).sum::<f64>() * k;
                    for i in 0..n {
                        m[at(i)] -= d * h[i];
                    }
                }
            }
        }
        m
    }
}

type Aff<B> = (Vec<Vec<B>>, Vec<B>);
fn ap<B: S>(a: &Aff<B>, x: &[B]) -> Vec<B> {
    dir(a, x).iter().zip(&a.1).map(|(u, v)| *u + *v).collect()
}
fn dir<B: S>(a: &Aff<B>, x: &[B]) -> Vec<B> {
    a.0.iter().map(|r| r.iter().zip(x).fold(B::zero(), |s, (u, v)| s + *u * *v)).collect()
}
fn eye<B: S>(n: usize) -> Vec<Vec<B>> {
    (0..n).map(|i| (0..n).map(|j| if i == j { B::one() } else { B::zero() }).collect()).collect()
}
fn after<B: S>(a: &Aff<B>, b: &Aff<B>) -> Aff<B> {
    let n = a.1.len();
    let m = (0..n).map(|i| (0..n).map(|j| (0..n).fold(B::zero(), |s, k| s + a.0[i][k] * b.0[k][j])).collect()).collect();
    (m, ap(a, &b.1))
}

trait Kind<const N: usize> {
    type Tr<T: S>: Transform<Vector<T, N>> + Copy + Debug;
    const NAME: &'static str;
    /// composing needs the linear part to be invertible
    const STRICT: bool = false;
    fn params<B: Base>(r: &mut Rng, inv: bool) -> Vec<B>;
    fn build<T: S>(p: &[T]) -> Self::Tr<T>;
    fn aff<B: S>(p: &[B]) -> Aff<B>;
}
fn vv<T: Copy, const N: usize>(p: &[T]) -> Vector<T, N> {
    Vector::from_array(std::array::from_fn(|i| p[i]))
}

struct KShift;
impl<const N: usize> Kind<N> for KShift {
    type Tr<T: S> = Shift<T, N>;
    const NAME: &'static str = "Shift";
    fn params<B: Base>(r: &mut Rng, _: bool) -> Vec<B> {
        (0..N).map(|_| B::any(r)).collect()
    }
    fn build<T: S>(p: &[T]) -> Shift<T, N> {
        Shift::from_vector(vv(p))
    }
    fn aff<B: S>(p: &[B]) -> Aff<B> {
        (eye(N), p.to_vec())
    }
}
struct KScale;
impl<const N: usize> Kind<N> for KScale {
    type Tr<T: S> = Scale<T>;
    const NAME: &'static str = "Scale";
    fn params<B: Base>(r: &mut Rng, inv: bool) -> Vec<B> {
        vec![if inv { B::nz(r) } else { B::any(r) }]
    }
    fn build<T: S>(p: &[T]) -> Scale<T> {
        Scale::from_mag(p[0])
    }
    fn aff<B: S>(p: &[B]) -> Aff<B> {
        (eye::<B>(N).into_iter().map(|r| r.into_iter().map(|x| x * p[0]).collect()).collect(), vec![B::zero(); N])
    }
}
struct KLinear;
impl<const N: usize> Kind<N> for KLinear {
    type Tr<T: S> = Linear<T, N>;
    const NAME: &'static str = "Linear";
    fn params<B: Base>(r: &mut Rng, inv: bool) -> Vec<B> {
        if inv {
            B::invertible(r, N)
        } else {
            (0..N * N).map(|_| B::any(r)).collect()
        }
    }
    fn build<T: S>(p: &[T]) -> Linear<T, N> {
        Linear::from_matrix(mat_from(|i, j| p[i * N + j]))
    }
    fn aff<B: S>(p: &[B]) -> Aff<B> {
        (p.chunks(N.max(1)).map(|r| r.to_vec()).collect(), vec![B::zero(); N])
    }
}
struct KRot2;
impl Kind<2> for KRot2 {
    type Tr<T: S> = Rotation2<T>;
    const NAME: &'static str = "Rotation2";
    fn params<B: Base>(r: &mut Rng, _: bool) -> Vec<B> {
        B::unit2(r).to_vec()
    }
    fn build<T: S>(p: &[T]) -> Rotation2<T> {
        Rotation2::from_complex(Complex::new(p[0], p[1]))
    }
    fn aff<B: S>(p: &[B]) -> Aff<B> {
        (vec![vec![p[0], -p[1]], vec![p[1], p[0]]], vec![B::zero(); 2])
    }
}
struct KRot3;
impl Kind<3> for KRot3 {
    type Tr<T: S> = Rotation3<T>;
    const NAME: &'static str = "Rotation3";
    fn params<B: Base>(r: &mut Rng, _: bool) -> Vec<B> {
        B::unit4(r).to_vec()
    }
    fn build<T: S>(p: &[T]) -> Rotation3<T> {
        Rotation3::from_quaternion(Quaternion::new(p[0], p[1], p[2], p[3]))
    }
    fn aff<B: S>(p: &[B]) -> Aff<B> {
        // columns: images of the basis under v -> q v q*
        let q = [p[0], p[1], p[2], p[3]];
        let cj = [p[0], -p[1], -p[2], -p[3]];
        let cols: Vec<[B; 4]> = (1..4)
            .map(|k| {
                let mut e = [B::zero(); 4];
                e[k] = B::one();
                qmul(qmul(q, e), cj)
            })
            .collect();
        ((1..4).map(|i| (0..3).map(|j| cols[j][i]).collect()).collect(), vec![B::zero(); 3])
    }
}
/// a shift applied after (`Out`) or before (`In`) another transformation
macro_rules! chained {
    ($out:ident, $inn:ident, $k:ident, $tr:ty, $n:expr, [$($gen:tt)*]) => {
        struct $out;
        impl<$($gen)*> Kind<$n> for $out {
            type Tr<T: S> = Chain<Shift<T, $n>, <$k as Kind<$n>>::Tr<T>, Vector<T, $n>>;
            const NAME: &'static str = concat!("Chain<Shift, ", stringify!($k), ">");
            fn params<B: Base>(r: &mut Rng, inv: bool) -> Vec<B> {
                let mut p: Vec<B> = <KShift as Kind<$n>>::params(r, inv);
                p.extend(<$k as Kind<$n>>::params::<B>(r, inv));
                p
            }
            fn build<T: S>(p: &[T]) -> Self::Tr<T> {
                let (s, k) = p.split_at($n);
                Chain::new(<KShift as Kind<$n>>::build(s), <$k as Kind<$n>>::build(k))
            }
            fn aff<B: S>(p: &[B]) -> Aff<B> {
                let (s, k) = p.split_at($n);
                after(&<KShift as Kind<$n>>::aff(s), &<$k as Kind<$n>>::aff(k))
            }
        }
        struct $inn;
        impl<$($gen)*> Kind<$n> for $inn {
            type Tr<T: S> = Chain<<$k as Kind<$n>>::Tr<T>, Shift<T, $n>, Vector<T, $n>>;
            const NAME: &'static str = concat!("Chain<", stringify!($k), ", Shift>");
            const STRICT: bool = true;
            fn params<B: Base>(r: &mut Rng, inv: bool) -> Vec<B> {
                <$out as Kind<$n>>::params(r, inv)
            }
            fn build<T: S>(p: &[T]) -> Self::Tr<T> {
                let (s, k) = p.split_at($n);
                Chain::from((<$k as Kind<$n>>::build(k), <KShift as Kind<$n>>::build(s)))
            }
            fn aff<B: S>(p: &[B]) -> Aff<B> {
                let (s, k) = p.split_at($n);
                after(&<$k as Kind<$n>>::aff(k), &<KShift as Kind<$n>>::aff(s))
            }
        }
    };
}
chained!(OutScale, InScale, KScale, Scale<T>, N, [const N: usize]);
chained!(OutLinear, InLinear, KLinear, Linear<T, N>, N, [const N: usize]);
chained!(OutRot2, InRot2, KRot2, Rotation2<T>, 2, []);
chained!(OutRot3, InRot3, KRot3, Rotation3<T>, 3, []);

/// A user's pair of groups with a derivative that depends on the point:
/// shears (x, y) -> (x, y + a + b x + c x^2) and diagonal scalings. A chain
/// that evaluates a part at the wrong place, or in the wrong order, is seen.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Shear<T>([T; 3]);
#[derive(Clone, Copy, Debug, PartialEq)]
struct Diag<T>([T; 2]);
impl<T: S> Transform<Vector<T, 2>> for Shear<T> {
    fn identity() -> Self {
        Shear([T::zero(); 3])
    }
    fn inv(self) -> Self {
        Shear(self.0.map(|x| -x))
    }
    fn apply(&self, p: Vector<T, 2>) -> Vector<T, 2> {
        let [a, b, c] = self.0;
        Vector::from([p[0], p[1] + a + b * p[0] + c * p[0] * p[0]])
    }
    fn deriv(&self, p: Vector<T, 2>, d: Vector<T, 2>) -> Vector<T, 2> {
        let [_, b, c] = self.0;
        Vector::from([d[0], d[1] + (b + (c + c) * p[0]) * d[0]])
    }
    fn chain(self, o: Self) -> Self {
        Shear(std::array::from_fn(|i| self.0[i] + o.0[i]))
    }
}
impl<T: S> Transform<Vector<T, 2>> for Diag<T> {
    fn identity() -> Self {
        Diag([T::one(); 2])
    }
    fn inv(self) -> Self {
        Diag(self.0.map(|x| T::one() / x))
    }
    fn apply(&self, p: Vector<T, 2>) -> Vector<T, 2> {
        Vector::from([self.0[0] * p[0], self.0[1] * p[1]])
    }
    fn deriv(&self, _: Vector<T, 2>, d: Vector<T, 2>) -> Vector<T, 2> {
        self.apply(d)
    }
    fn chain(self, o: Self) -> Self {
        Diag(std::array::from_fn(|i| self.0[i] * o.0[i]))
    }
}
impl<T: S> Reorder<Diag<T>, Vector<T, 2>> for Shear<T> {
    fn reorder(self, d: Diag<T>) -> (Diag<T>, Self) {
        // S(D(x)) = D(S'(x))
        let ([s, t], [a, b, c]) = (d.0, self.0);
        (d, Shear([a / t, b * s / t, c * s * s / t]))
    }
}
impl<T: S> Reorder<Shear<T>, Vector<T, 2>> for Diag<T> {
    fn reorder(self, o: Shear<T>) -> (Shear<T>, Self) {
        // D(S(x)) = S'(D(x))
        let ([s, t], [a, b, c]) = (self.0, o.0);
        (Shear([a * t, b * t / s, c * t / (s * s)]), self)
    }
}
fn custom(c: &mut Ctx) {
    type V = Vector<Fp, 2>;
    let sp: [[Fp; 3]; 3] = std::array::from_fn(|_| std::array::from_fn(|_| c.rng.fp()));
    let dp: [[Fp; 2]; 3] = std::array::from_fn(|_| std::array::from_fn(|_| c.rng.fp_nz()));
    let (x, v): (V, V) = (vec_from(|_| c.rng.fp()), vec_from(|_| c.rng.fp()));
    c.input(hash_u64s(sp.iter().flatten().chain(dp.iter().flatten()).chain(&x.into_array()).map(|w| w.0)));
    let d = || format!("user shears {sp:?}, diagonal maps {dp:?}, x = {x:?}, v = {v:?}");
    let (sh, di) = (sp.map(Shear), dp.map(Diag));
    fn chk<A, B>(c: &mut Ctx, a: [A; 3], b: [B; 3], x: V, v: V, d: &dyn Fn() -> String)
    where
        A: Transform<V> + Reorder<B, V> + Copy + Debug,
        B: Transform<V> + Reorder<A, V> + Copy + Debug,
    {
        let t: [Chain<A, B, V>; 3] = std::array::from_fn(|i| Chain::new(a[i], b[i]));
        let f = |i: usize, x: V| a[i].apply(b[i].apply(x));
        let df = |i: usize, x: V, v: V| a[i].deriv(b[i].apply(x), b[i].deriv(x, v));
        let id = Chain::<A, B, V>::identity();
        c.eq("user chain: identity", id.apply(x), x, d);
        c.eq("user chain: apply", t[0].apply(x), f(0, x), d);
        c.eq("user chain: deriv", t[0].deriv(x, v), df(0, x, v), d);
        let ab = t[0].chain(t[1]);
        c.eq("user chain: chain", ab.apply(x), f(0, f(1, x)), d);
        c.eq("user chain: derivative of a chain", ab.deriv(x, v), df(0, f(1, x), df(1, x, v)), d);
        let all = f(0, f(1, f(2, x)));
        c.eq("user chain: associates", ab.chain(t[2]).apply(x), all, d);
        c.eq("user chain: associates", t[0].chain(t[1].chain(t[2])).apply(x), all, d);
        c.eq("user chain: inv", t[0].inv().apply(f(0, x)), x, d);
        c.eq("user chain: inv", f(0, t[0].inv().apply(x)), x, d);
        c.eq("user chain: inverse of a chain", ab.inv().apply(f(0, f(1, x))), x, d);
        c.eq("user chain: derivative of inv", t[0].inv().deriv(f(0, x), df(0, x, v)), v, d);
        c.eq("user chain: neutral", (id.chain(t[0]).apply(x), t[0].chain(id).apply(x)), (f(0, x), f(0, x)), d);
    }
    chk(c, sh, di, x, v, &d);
    chk(c, di, sh, x, v, &d);
}

fn point<B: Base, const N: usize>(r: &mut Rng) -> Vec<B> {
    let mut v: Vec<B> = (0..N).map(|_| B::any(r)).collect();
    relate(r, &mut v);
    v
}
fn out<T: Copy, const N: usize>(v: Vector<T, N>) -> Vec<T> {
    v.into_array().to_vec()
}

/// group laws and derivatives, exactly
fn laws<F: Base + Exact, K: Kind<N>, const N: usize>(c: &mut Ctx) {
    let inv = K::STRICT || c.rng.chance(2, 3);
    let ps: [Vec<F>; 3] = std::array::from_fn(|_| K::params(&mut c.rng, inv));
    let (x, v): (Vec<F>, Vec<F>) = (point::<F, N>(&mut c.rng), point::<F, N>(&mut c.rng));
    c.input(hash_u64s(ps.iter().flatten().chain(&x).chain(&v).map(|w| w.word()).chain([hash_str(K::NAME), N as u64])));
    c.sample(|| format!("{} in dimension {N}: {:?} at {x:?} along {v:?}", K::NAME, ps[0]));
    let d = || format!("over {}: {} in dimension {N}: A = {:?}, B = {:?}, C = {:?}, x = {x:?}, v = {v:?}", F::RING, K::NAME, ps[0], ps[1], ps[2]);
    let [a, b, e] = [0, 1, 2].map(|i| K::build(&ps[i][..]));
    let [ra, rb, rc] = [0, 1, 2].map(|i| K::aff(&ps[i]));
    let (px, pv): (Vector<F, N>, Vector<F, N>) = (vv(&x), vv(&v));
    let id = <K::Tr<F> as Transform<Vector<F, N>>>::identity();
    c.eq("identity maps a point to itself", out(id.apply(px)), x.clone(), d);
    c.eq("derivative of the identity", out(id.deriv(px, pv)), v.clone(), d);
    c.eq("apply", out(a.apply(px)), ap(&ra, &x), d);
    c.eq("deriv", out(a.deriv(px, pv)), dir(&ra, &v), d);
    // derivative of the code itself
    let dual = K::build::<Dual<F>>(&ps[0].iter().map(|w| Dual::con(*w)).collect::<Vec<_>>());
    let y = dual.apply(Vector::from_array(std::array::from_fn(|i| Dual::new(x[i], v[i]))));
    c.eq("deriv is the derivative of apply", out(a.deriv(px, pv)), y.into_array().map(|t| t.d).to_vec(), d);
    let rab = after(&ra, &rb);
    let ab = a.chain(b);
    c.eq("chain is composition", out(ab.apply(px)), ap(&rab, &x), d);
    c.eq("chain is composition", out(ab.apply(px)), out(a.apply(b.apply(px))), d);
    c.eq("derivative of a chain", out(ab.deriv(px, pv)), dir(&rab, &v), d);
    let rabc = after(&rab, &rc);
    c.eq("chain associates", out(ab.chain(e).apply(px)), ap(&rabc, &x), d);
    c.eq("chain associates", out(a.chain(b.chain(e)).apply(px)), ap(&rabc, &x), d);
    c.eq("identity is neutral", out(a.chain(id).apply(px)), ap(&ra, &x), d);
    c.eq("identity is neutral", out(id.chain(a).apply(px)), ap(&ra, &x), d);
    if inv {
        let i = a.inv();
        let im = ap(&ra, &x);
        c.eq("inv maps back", out(i.apply(vv(&im))), x.clone(), d);
        c.eq("A undoes inv(A)", ap(&ra, &out(i.apply(px))), x.clone(), d);
        c.eq("derivative of inv", out(i.deriv(vv(&im), vv(&dir(&ra, &v)))), v.clone(), d);
        c.eq("inv(A) A is the identity", out(i.chain(a).apply(px)), x.clone(), d);
        c.eq("A inv(A) is the identity", out(a.chain(i).apply(px)), x.clone(), d);
        c.eq("double inverse", out(i.inv().apply(px)), ap(&ra, &x), d);
        c.eq("inverse of a chain", out(ab.inv().apply(vv(&ap(&rab, &x)))), x.clone(), d);
        c.eq("inverse of the identity", out(id.inv().apply(px)), x.clone(), d);
    }
}
/// a long word in two generators and their inverses
fn word<F: Base + Exact, K: Kind<N>, const N: usize>(c: &mut Ctx) {
    let ps: [Vec<F>; 3] = std::array::from_fn(|_| K::params(&mut c.rng, true));
    let x: Vec<F> = point::<F, N>(&mut c.rng);
    let v: Vec<F> = point::<F, N>(&mut c.rng);
    c.input(hash_u64s(ps.iter().flatten().chain(&x).map(|w| w.word()).chain([hash_str(K::NAME), N as u64])));
    let mut total = <K::Tr<F> as Transform<Vector<F, N>>>::identity();
    let (mut im, mut dv) = (x.clone(), v.clone());
    let mut log = String::new();
    let n = 4 + c.rng.below(12);
    // (generator, forward); undone in the second half
    let mut steps = Vec::new();
    for _ in 0..n {
        let g = c.rng.below(3);
        let t = K::build(&ps[g][..]);
        let r = K::aff(&ps[g]);
        steps.push(g);
        log.push((b'a' + g as u8) as char);
        total = t.chain(total);
        im = ap(&r, &im);
        dv = dir(&r, &dv);
        let px = vv::<F, N>(&x);
        c.eq("word", out(total.apply(px)), im.clone(), || format!("over {}: {} {N}: {ps:?}, word {log}", F::RING, K::NAME));
        c.eq("derivative of a word", out(total.deriv(px, vv(&v))), dv.clone(), || format!("over {}: {} {N}: {ps:?}, word {log}", F::RING, K::NAME));
    }
    // inverse of the whole, and step by step
    c.eq("inverse of a word", out(total.inv().apply(vv(&im))), x.clone(), || format!("over {}: {} {N}: {ps:?}, word {log}", F::RING, K::NAME));
    let mut back = total;
    for g in steps.iter().rev() {
        back = K::build(&ps[*g][..]).inv().chain(back);
    }
    c.eq("word undone", out(back.apply(vv(&x))), x.clone(), || format!("over {}: {} {N}: {ps:?}, word {log}", F::RING, K::NAME));
}
/// A(B(x)) = B'(A'(x)) for a shift and another kind, both ways
fn reorder<F: Base + Exact, K: Kind<N>, const N: usize>(c: &mut Ctx)
where
    K::Tr<F>: Reorder<Shift<F, N>, Vector<F, N>>,
    Shift<F, N>: Reorder<K::Tr<F>, Vector<F, N>>,
{
    let p: Vec<F> = K::params(&mut c.rng, true);
    let s: Vec<F> = point::<F, N>(&mut c.rng);
    let x: Vec<F> = point::<F, N>(&mut c.rng);
    c.input(hash_u64s(p.iter().chain(&s).chain(&x).map(|w| w.word()).chain([hash_str(K::NAME), N as u64])));
    let d = || format!("over {}: {} {p:?} and a shift by {s:?} in dimension {N} at {x:?}", F::RING, K::NAME);
    let (k, sh) = (K::build(&p[..]), Shift::from_vector(vv::<F, N>(&s)));
    let (rk, rs) = (K::aff(&p), <KShift as Kind<N>>::aff(&s));
    let px = vv::<F, N>(&x);
    // shift outside
    let (k2, s2) = sh.reorder(k);
    c.eq("reorder shift with the other", out(k2.apply(s2.apply(px))), ap(&after(&rs, &rk), &x), d);
    // shift inside
    let (s3, k3) = k.reorder(sh);
    c.eq("reorder the other with a shift", out(s3.apply(k3.apply(px))), ap(&after(&rk, &rs), &x), d);
    // and back again
    let (s4, k4) = k2.reorder(s2);
    c.eq("reorder twice", out(s4.apply(k4.apply(px))), ap(&after(&rs, &rk), &x), d);
    // reordering onto a singular transformation from the left needs no inverse
    let q: Vec<F> = K::params(&mut c.rng, false);
    let (s5, k5) = K::build(&q[..]).reorder(sh);
    c.eq("reorder the other with a shift", out(s5.apply(k5.apply(px))), ap(&after(&K::aff(&q), &rs), &x), || format!("{q:?}; {}", d()));
}

fn chain_parts<const N: usize>(c: &mut Ctx) {
    let s: Vec<Fp> = point::<Fp, N>(&mut c.rng);
    let m: Vec<Fp> = <KLinear as Kind<N>>::params(&mut c.rng, false);
    let (s2, m2): (Vec<Fp>, Vec<Fp>) = (point::<Fp, N>(&mut c.rng), <KLinear as Kind<N>>::params(&mut c.rng, false));
    c.input(hash_u64s(s.iter().chain(&m).map(|w| w.word()).chain([N as u64])));
    let d = || format!("affine map in dimension {N}: {m:?} and {s:?}");
    let (sh, li) = (<KShift as Kind<N>>::build(&s[..]), <KLinear as Kind<N>>::build(&m[..]));
    let (sh2, li2) = (<KShift as Kind<N>>::build(&s2[..]), <KLinear as Kind<N>>::build(&m2[..]));
    let mut a: Affine<Fp, N> = Affine::new(sh, li);
    c.eq("Chain::split", a.split(), (sh, li), d);
    c.eq("Chain::from((outer, inner))", Affine::from((sh, li)), a, d);
    c.eq("(outer, inner)::from(Chain)", <(Shift<Fp, N>, Linear<Fp, N>)>::from(a), (sh, li), d);
    c.eq("Chain::outer/inner", (*a.outer(), *a.inner()), (sh, li), d);
    c.eq("Affine::shift/linear", (a.shift(), a.linear()), (sh, li), d);
    let b = Affine::new(sh2, li2);
    c.eq("Chain::eq", a == b, sh == sh2 && li == li2, || format!("{a:?} {b:?}"));
    *a.outer_mut() = sh2;
    c.eq("Chain::outer_mut", a.split(), (sh2, li), d);
    *a.inner_mut() = li2;
    c.eq("Chain::inner_mut", a.split(), (sh2, li2), d);
    c.eq("Shift conversions", (sh.into_vector(), Vector::from(sh), Shift::from(sh.into_vector())), (vv(&s), vv(&s), sh), d);
    c.eq("Linear conversions", (li.into_matrix(), Linear::from(li.into_matrix())), (mat_from(|i, j| m[i * N + j]), li), d);
    let g = c.rng.fp();
    c.eq("Scale conversions", (Scale::from_mag(g).into_mag(), Scale::from(g)), (g, Scale::from_mag(g)), d);
    let u = Fp::unit2(&mut c.rng);
    let z = Complex::new(u[0], u[1]);
    c.eq("Rotation2 conversions", (Rotation2::from_complex(z).into_complex(), Complex::from(Rotation2::from(z))), (z, z), d);
    let q = Quaternion::from_array(Fp::unit4(&mut c.rng));
    c.eq("Rotation3 conversions", (Rotation3::from_quaternion(q).into_quaternion(), Quaternion::from(Rotation3::from(q))), (q, q), d);
}

/// the same laws over floats, with tolerances for condition numbers <= 16
fn float_laws<T: Fl + S, K: Kind<N>, const N: usize>(c: &mut Ctx) {
    let ps: [Vec<f64>; 2] = std::array::from_fn(|_| K::params::<f64>(&mut c.rng, true));
    // parameters as T sees them
    let pt: Vec<Vec<T>> = ps.iter().map(|p| p.iter().map(|x| T::f(*x)).collect()).collect();
    let ps: Vec<Vec<f64>> = pt.iter().map(|p| p.iter().map(|x| x.d()).collect()).collect();
    let s = 10f64.powi(c.rng.range(-6, 6) as i32);
    let mut xt: Vec<T> = (0..N).map(|_| T::f(<f64 as Base>::any(&mut c.rng) * s)).collect();
    let mut vt: Vec<T> = (0..N).map(|_| T::f(<f64 as Base>::any(&mut c.rng))).collect();
    relate_fl(&mut c.rng, &mut xt);
    relate_fl(&mut c.rng, &mut vt);
    relate_to(&mut c.rng, &xt, &mut vt);
    let (x, v): (Vec<f64>, Vec<f64>) = (xt.iter().map(|a| a.d()).collect(), vt.iter().map(|a| a.d()).collect());
    c.input(hash_u64s(xt.iter().chain(pt.iter().flatten()).map(|w| w.word()).chain([hash_str(K::NAME), N as u64])));
    let d = || format!("{} over {} in dimension {N}: A = {:?}, B = {:?}, x = {x:?}, v = {v:?}", K::NAME, T::NAME, ps[0], ps[1]);
    let (a, b) = (K::build(&pt[0][..]), K::build(&pt[1][..]));
    let (ra, rb) = (K::aff(&ps[0]), K::aff(&ps[1]));
    let near = |c: &mut Ctx, op: &'static str, got: Vector<T, N>, want: Vec<f64>, mag: f64| {
        let g: Vec<f64> = got.into_array().iter().map(|a| a.d()).collect();
        c.op(op);
        c.check(dist(&g, &want) <= mag * T::eps() * 1000.0 + 1e-30, op, || format!("got {g:?}, expected {want:?}; {}", d()));
    };
    let fro = |a: &Aff<f64>| a.0.iter().map(|r| len(r)).fold(0.0, |s: f64, y| s.hypot(y));
    let (na, nb) = (fro(&ra) + 1.0, fro(&rb) + 1.0);
    let (lx, lv) = (len(&x), len(&v));
    let (sa, sb) = (len(&ra.1), len(&rb.1));
    let (px, pv) = (vv::<T, N>(&xt), vv::<T, N>(&vt));
    near(c, "apply over floats", a.apply(px), ap(&ra, &x), (na * lx + sa) * 0.05 * N as f64);
    near(c, "deriv over floats", a.deriv(px, pv), dir(&ra, &v), na * lv * 0.05 * N as f64);
    let rab = after(&ra, &rb);
    near(c, "chain over floats", a.chain(b).apply(px), ap(&rab, &x), (na * (nb * lx + sb) + sa) * 30.0);
    near(c, "derivative of a chain over floats", a.chain(b).deriv(px, pv), dir(&rab, &v), na * nb * lv * 30.0);
    let i = a.inv();
    near(c, "inv over floats", i.apply(a.apply(px)), x.clone(), (na * lx + sa) * 200.0);
    near(c, "A after inv over floats", a.apply(i.apply(px)), x.clone(), (na * na * lx + na * sa) * 200.0);
    let id = <K::Tr<T> as Transform<Vector<T, N>>>::identity();
    near(c, "identity over floats", id.apply(px), x.clone(), 0.0);
}

macro_rules! kinds {
    ($f:ident [$($pre:ty),*]) => {{
        const T: &[fn(&mut Ctx)] = &[
            $f::<$($pre,)* KShift, 1>, $f::<$($pre,)* KShift, 2>, $f::<$($pre,)* KShift, 3>, $f::<$($pre,)* KShift, 9>,
            $f::<$($pre,)* KScale, 1>, $f::<$($pre,)* KScale, 2>, $f::<$($pre,)* KScale, 3>, $f::<$($pre,)* KScale, 7>, $f::<$($pre,)* KScale, 17>,
            $f::<$($pre,)* KLinear, 1>, $f::<$($pre,)* KLinear, 2>, $f::<$($pre,)* KLinear, 3>, $f::<$($pre,)* KLinear, 4>, $f::<$($pre,)* KLinear, 5>,
            $f::<$($pre,)* KRot2, 2>, $f::<$($pre,)* KRot3, 3>,
            $f::<$($pre,)* OutScale, 1>, $f::<$($pre,)* OutScale, 2>, $f::<$($pre,)* OutScale, 3>, $f::<$($pre,)* OutScale, 6>,
            $f::<$($pre,)* InScale, 1>, $f::<$($pre,)* InScale, 2>, $f::<$($pre,)* InScale, 3>, $f::<$($pre,)* InScale, 5>,
            $f::<$($pre,)* OutLinear, 1>, $f::<$($pre,)* OutLinear, 2>, $f::<$($pre,)* OutLinear, 3>, $f::<$($pre,)* OutLinear, 4>, $f::<$($pre,)* OutLinear, 5>,
            $f::<$($pre,)* InLinear, 1>, $f::<$($pre,)* InLinear, 2>, $f::<$($pre,)* InLinear, 3>, $f::<$($pre,)* InLinear, 4>, $f::<$($pre,)* InLinear, 5>,
            $f::<$($pre,)* OutRot2, 2>, $f::<$($pre,)* InRot2, 2>, $f::<$($pre,)* OutRot3, 3>, $f::<$($pre,)* InRot3, 3>,
        ];
        T
    }};
}
macro_rules! re {
    ($f:ty) => {{
        const T: &[fn(&mut Ctx)] = &[
    reorder::<$f, KScale, 1>,
    reorder::<$f, KScale, 2>,
    reorder::<$f, KScale, 3>,
    reorder::<$f, KScale, 6>,
    reorder::<$f, KLinear, 1>,
    reorder::<$f, KLinear, 2>,
    reorder::<$f, KLinear, 3>,
    reorder::<$f, KLinear, 4>,
    reorder::<$f, KRot2, 2>,
    reorder::<$f, KRot3, 3>,
];
        T
    }};
}

fn main() {
    let mut s = Suite::new(
        "C15",
        "a case composes, inverts, reorders and differentiates random transformations of one kind and dimension and compares the \
         images of a point with an independent affine representation; non-trivial: parameters and points (hashed) differ",
    );
    s.section("laws", 12000, |c| run_table!(c, kinds!(laws[Fp])));
    s.section("words", 2500, |c| run_table!(c, kinds!(word[Fp])));
    s.section("reorder", 3000, |c| run_table!(c, re!(Fp)));
    // so few values that self-inverse, commuting, equal or vanishing things are frequent
    s.section("laws_mod_2", 800, |c| run_table!(c, kinds!(laws[Zn<2>])));
    s.section("laws_mod_3", 3000, |c| run_table!(c, kinds!(laws[Zn<3>])));
    s.section("laws_mod_5", 1500, |c| run_table!(c, kinds!(laws[Zn<5>])));
    s.section("laws_mod_7", 1500, |c| run_table!(c, kinds!(laws[Zn<7>])));
    s.section("laws_dual", 1500, |c| run_table!(c, kinds!(laws[Dual<Fp>])));
    s.section("words_mod_3", 600, |c| run_table!(c, kinds!(word[Zn<3>])));
    s.section("reorder_mod_3", 1000, |c| run_table!(c, re!(Zn<3>)));
    s.section("custom", 1500, custom);
    s.section("parts", 800, |c| run_table!(c, [chain_parts::<1>, chain_parts::<2>, chain_parts::<3>, chain_parts::<4>, chain_parts::<5>]));
    s.section("floats_f64", 6000, |c| run_table!(c, kinds!(float_laws[f64])));
    s.section("floats_f32", 4000, |c| run_table!(c, kinds!(float_laws[f32])));
    s.run();
}
