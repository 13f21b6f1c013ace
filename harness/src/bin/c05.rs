//! C05: element-wise operators equal the scalar operator on each element.
use harness::*;
use num_integer::{self as int, Integer};
use num_traits::{One, Zero};
use std::fmt::Debug;
use std::num::Wrapping;
use vecmat::{Matrix, Vector};

fn same_vec<T: PartialEq + Debug>(c: &mut Ctx, op: &'static str, got: Vec<T>, want: Vec<T>, a: &dyn Debug, b: &dyn Debug, n: &dyn Debug) {
    c.eq(op, got, want, || format!("dims {:?}, left {:?}, right {:?}", n, a, b));
}

macro_rules! sym_ops {
    ($f:ident, $Ty:ident, $($d:ident),+) => {
        fn $f<$(const $d: usize),+>(c: &mut Ctx) {
            type C<$(const $d: usize),+> = $Ty<Sym, $($d),+>;
            let n = <C<$($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            let distinct = !c.rng.chance(1, 4);
            let pool = [c.rng.sym(), c.rng.sym(), Sym::zero(), Sym::one()];
            let mut gen = |c: &mut Ctx| if distinct { c.rng.sym() } else { c.rng.pick(&pool) };
            let a: Vec<Sym> = (0..n).map(|_| gen(c)).collect();
            let b: Vec<Sym> = (0..n).map(|_| gen(c)).collect();
            let s = c.rng.sym();
            c.input(hash_u64s(a.iter().chain(&b).map(|x| x.0).chain(dims.iter().map(|x| *x as u64))));
            c.sample(|| format!("{}{:?} of symbolic terms, left {:?}", stringify!($Ty), dims, a.iter().take(3).collect::<Vec<_>>()));
            let va = <C<$($d),+> as Flat>::build(a.clone());
            let vb = <C<$($d),+> as Flat>::build(b.clone());
            macro_rules! bin { ($name:expr, $op:tt, $opa:tt) => {
                let want: Vec<Sym> = a.iter().zip(&b).map(|(x, y)| *x $op *y).collect();
                same_vec(c, concat!(stringify!($Ty), $name), (va $op vb).flat(), want.clone(), &a, &b, &dims);
                let mut m = va;
                m $opa vb;
                same_vec(c, concat!(stringify!($Ty), $name, "_assign"), m.flat(), want, &a, &b, &dims);
            } }
            bin!("::add", +, +=);
            bin!("::sub", -, -=);
            bin!("::mul", *, *=);
            bin!("::div", /, /=);
            bin!("::rem", %, %=);
            bin!("::bitand", &, &=);
            bin!("::bitor", |, |=);
            bin!("::bitxor", ^, ^=);
            macro_rules! sca { ($name:expr, $op:tt, $opa:tt) => {
                let want: Vec<Sym> = a.iter().map(|x| *x $op s).collect();
                same_vec(c, concat!(stringify!($Ty), $name, "(scalar)"), (va $op s).flat(), want.clone(), &a, &s, &dims);
                let mut m = va;
                m $opa s;
                same_vec(c, concat!(stringify!($Ty), $name, "_assign(scalar)"), m.flat(), want, &a, &s, &dims);
            } }
            sca!("::mul", *, *=);
            sca!("::div", /, /=);
            sca!("::rem", %, %=);
            same_vec(c, concat!(stringify!($Ty), "::neg"), (-va).flat(), a.iter().map(|x| -*x).collect(), &a, &(), &dims);
            same_vec(c, concat!(stringify!($Ty), "::not"), (!va).flat(), a.iter().map(|x| !*x).collect(), &a, &(), &dims);
            let df: Vec<Sym> = a.iter().zip(&b).map(|(x, y)| x.div_floor(y)).collect();
            let mf: Vec<Sym> = a.iter().zip(&b).map(|(x, y)| x.mod_floor(y)).collect();
            same_vec(c, concat!(stringify!($Ty), "::div_floor"), va.div_floor(vb).flat(), df.clone(), &a, &b, &dims);
            same_vec(c, concat!(stringify!($Ty), "::mod_floor"), va.mod_floor(vb).flat(), mf.clone(), &a, &b, &dims);
            let (q, r) = va.div_mod_floor(vb);
            same_vec(c, concat!(stringify!($Ty), "::div_mod_floor.0"), q.flat(), df, &a, &b, &dims);
            same_vec(c, concat!(stringify!($Ty), "::div_mod_floor.1"), r.flat(), mf, &a, &b, &dims);
        }
    };
}
sym_ops!(sym_vec, Vector, N);
sym_ops!(sym_mat, Matrix, M, N);

/// The same operators on a non-Copy, heap-owning element.
macro_rules! big_ops {
    ($f:ident, $Ty:ident, $($d:ident),+) => {
        fn $f<$(const $d: usize),+>(c: &mut Ctx) {
            type C<$(const $d: usize),+> = $Ty<Tracked, $($d),+>;
            ledger_reset();
            let n = <C<$($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            let a: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
            let b: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
            c.input(hash_u64s(a.iter().chain(&b).copied()));
            let mk = |x: &Vec<u64>| <C<$($d),+> as Flat>::build(x.iter().map(|v| Tracked::new(*v)).collect());
            let vals = |x: Vec<Tracked>| -> Vec<u64> { x.iter().map(|t| t.val()).collect() };
            macro_rules! bin { ($name:expr, $op:tt, $opa:tt) => {
                let want: Vec<u64> = a.iter().zip(&b).map(|(x, y)| (Tracked::new(*x) $op Tracked::new(*y)).val()).collect();
                same_vec(c, concat!(stringify!($Ty), $name, "(non-Copy)"), vals((mk(&a) $op mk(&b)).flat()), want.clone(), &a, &b, &dims);
                let mut m = mk(&a);
                m $opa mk(&b);
                same_vec(c, concat!(stringify!($Ty), $name, "_assign(non-Copy)"), vals(m.flat()), want, &a, &b, &dims);
            } }
            bin!("::add", +, +=);
            bin!("::sub", -, -=);
            bin!("::mul", *, *=);
            bin!("::div", /, /=);
            bin!("::rem", %, %=);
            bin!("::bitand", &, &=);
            bin!("::bitor", |, |=);
            bin!("::bitxor", ^, ^=);
            let neg: Vec<u64> = a.iter().map(|x| (-Tracked::new(*x)).val()).collect();
            same_vec(c, concat!(stringify!($Ty), "::neg(non-Copy)"), vals((-mk(&a)).flat()), neg, &a, &(), &dims);
            let not: Vec<u64> = a.iter().map(|x| (!Tracked::new(*x)).val()).collect();
            same_vec(c, concat!(stringify!($Ty), "::not(non-Copy)"), vals((!mk(&a)).flat()), not, &a, &(), &dims);
            let (q, r) = mk(&a).div_mod_floor(mk(&b));
            let wq: Vec<u64> = a.iter().zip(&b).map(|(x, y)| Tracked::new(*x).div_floor(&Tracked::new(*y)).val()).collect();
            let wr: Vec<u64> = a.iter().zip(&b).map(|(x, y)| Tracked::new(*x).mod_floor(&Tracked::new(*y)).val()).collect();
            same_vec(c, concat!(stringify!($Ty), "::div_mod_floor.0(non-Copy)"), vals(q.flat()), wq, &a, &b, &dims);
            same_vec(c, concat!(stringify!($Ty), "::div_mod_floor.1(non-Copy)"), vals(r.flat()), wr, &a, &b, &dims);
        }
    };
}
big_ops!(big_vec, Vector, N);
big_ops!(big_mat, Matrix, M, N);

/// Element type behaviour the primitive sections are generic over.
trait Prim: Copy + Debug + Send + 'static {
    fn gen(r: &mut Rng) -> Self;
    fn same(a: Self, b: Self) -> bool;
    fn word(self) -> u64;
}
macro_rules! prim_int { ($($t:ident),*) => {$(
    impl Prim for $t {
        fn gen(r: &mut Rng) -> $t {
            match r.below(8) {
                0 => 0,
                1 => 1,
                2 => <$t>::MIN,
                3 => <$t>::MAX,
                4 => (0 as $t).wrapping_sub(1),
                5 => r.range(-12, 12) as $t,
                _ => r.int() as $t,
            }
        }
        fn same(a: $t, b: $t) -> bool { a == b }
        fn word(self) -> u64 { self as u64 }
    }
)*} }
prim_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, i128);
macro_rules! prim_float { ($($t:ident),*) => {$(
    impl Prim for $t {
        fn gen(r: &mut Rng) -> $t { r.hostile() }
        fn same(a: $t, b: $t) -> bool { same(a, b) }
        fn word(self) -> u64 { self.bits() }
    }
)*} }
prim_float!(f32, f64);

fn agree<T: Prim>(c: &mut Ctx, op: &'static str, got: Result<Vec<T>, String>, want: Vec<Result<T, String>>, a: &[T], b: &[T], dims: &[usize]) {
    c.op(op);
    let should_panic = want.iter().any(|w| w.is_err());
    match got {
        Err(m) => c.check(should_panic, op, || format!("panicked ({m}) although no scalar operation does; dims {dims:?} left {a:?} right {b:?}")),
        Ok(g) => {
            c.check(!should_panic, op, || format!("did not panic although a scalar operation does; dims {dims:?} left {a:?} right {b:?}"));
            c.check(g.len() == want.len() && g.iter().zip(&want).all(|(x, w)| T::same(*x, *w.as_ref().unwrap())), op, || {
                format!("got {g:?} expected {want:?}; dims {dims:?} left {a:?} right {b:?}")
            });
        }
    }
}

macro_rules! prim_ops {
    ($f:ident, $Ty:ident, [$($extra:tt)*], $($d:ident),+) => {
        fn $f<T: Prim $($extra)*, $(const $d: usize),+>(c: &mut Ctx)
        {
            let n = <$Ty<T, $($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            // mostly harmless operands, so that long vectors do not always panic
            let tame = c.rng.chance(2, 3);
            let bad = if n == 0 { 0 } else { c.rng.below(n) };
            let gen = |c: &mut Ctx| -> Vec<T> { let base: Vec<T> = (0..3).map(|_| T::gen(&mut c.rng)).collect(); (0..n).map(|i| if tame && i != bad { c.rng.pick(&base) } else { T::gen(&mut c.rng) }).collect() };
            let a = gen(c);
            let b = gen(c);
            let s = T::gen(&mut c.rng);
            let sv = vec![s; n];
            c.input(hash_u64s(a.iter().chain(&b).map(|x| x.word()).chain(dims.iter().map(|x| *x as u64))));
            c.sample(|| format!("{}{:?} of {}: left {:?} right {:?}", stringify!($Ty), dims, std::any::type_name::<T>(), a, b));
            let va = <$Ty<T, $($d),+> as Flat>::build(a.clone());
            let vb = <$Ty<T, $($d),+> as Flat>::build(b.clone());
            macro_rules! bin { ($name:expr, $op:tt, $opa:tt) => {
                let want = || a.iter().zip(&b).map(|(x, y)| catch(|| *x $op *y)).collect::<Vec<_>>();
                let w = want();
                agree(c, concat!(stringify!($Ty), $name), catch(|| (va $op vb).flat()), w.clone(), &a, &b, &dims);
                agree(c, concat!(stringify!($Ty), $name, "_assign"), catch(|| { let mut m = va; m $opa vb; m.flat() }), w, &a, &b, &dims);
            } }
            bin!("::add", +, +=);
            bin!("::sub", -, -=);
            bin!("::mul", *, *=);
            bin!("::div", /, /=);
            bin!("::rem", %, %=);
            macro_rules! sca { ($name:expr, $op:tt, $opa:tt) => {
                let w = a.iter().map(|x| catch(|| *x $op s)).collect::<Vec<_>>();
                agree(c, concat!(stringify!($Ty), $name, "(scalar)"), catch(|| (va $op s).flat()), w.clone(), &a, &sv, &dims);
                agree(c, concat!(stringify!($Ty), $name, "_assign(scalar)"), catch(|| { let mut m = va; m $opa s; m.flat() }), w, &a, &sv, &dims);
            } }
            sca!("::mul", *, *=);
            sca!("::div", /, /=);
            sca!("::rem", %, %=);
        }
    };
}
prim_ops!(prim_vec, Vector, [+ std::ops::Add<Output = T> + std::ops::Sub<Output = T> + std::ops::Mul<Output = T> + std::ops::Div<Output = T> + std::ops::Rem<Output = T> + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign + std::ops::DivAssign + std::ops::RemAssign], N);
prim_ops!(prim_mat, Matrix, [+ std::ops::Add<Output = T> + std::ops::Sub<Output = T> + std::ops::Mul<Output = T> + std::ops::Div<Output = T> + std::ops::Rem<Output = T> + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign + std::ops::DivAssign + std::ops::RemAssign], M, N);

macro_rules! int_ops {
    ($f:ident, $Ty:ident, $($d:ident),+) => {
        fn $f<T: Prim + Integer + std::ops::BitAnd<Output = T> + std::ops::BitOr<Output = T> + std::ops::BitXor<Output = T> + std::ops::Not<Output = T> + std::ops::BitAndAssign + std::ops::BitOrAssign + std::ops::BitXorAssign, $(const $d: usize),+>(c: &mut Ctx)
        {
            let n = <$Ty<T, $($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            let a: Vec<T> = (0..n).map(|_| T::gen(&mut c.rng)).collect();
            let nz = c.rng.chance(3, 4);
            let b: Vec<T> = (0..n).map(|_| loop { let x = T::gen(&mut c.rng); if !nz || !x.is_zero() { break x } }).collect();
            c.input(hash_u64s(a.iter().chain(&b).map(|x| x.word())));
            let va = <$Ty<T, $($d),+> as Flat>::build(a.clone());
            let vb = <$Ty<T, $($d),+> as Flat>::build(b.clone());
            let df = a.iter().zip(&b).map(|(x, y)| catch(|| int::div_floor(*x, *y))).collect::<Vec<_>>();
            let mf = a.iter().zip(&b).map(|(x, y)| catch(|| int::mod_floor(*x, *y))).collect::<Vec<_>>();
            let dm = a.iter().zip(&b).map(|(x, y)| catch(|| int::div_mod_floor(*x, *y))).collect::<Vec<_>>();
            agree(c, concat!(stringify!($Ty), "::div_floor"), catch(|| va.div_floor(vb).flat()), df, &a, &b, &dims);
            agree(c, concat!(stringify!($Ty), "::mod_floor"), catch(|| va.mod_floor(vb).flat()), mf, &a, &b, &dims);
            let r = catch(|| va.div_mod_floor(vb));
            let (q, m) = match r { Ok((q, m)) => (Ok(q.flat()), Ok(m.flat())), Err(e) => (Err(e.clone()), Err(e)) };
            agree(c, concat!(stringify!($Ty), "::div_mod_floor.0"), q, dm.iter().map(|x| x.clone().map(|y| y.0)).collect(), &a, &b, &dims);
            agree(c, concat!(stringify!($Ty), "::div_mod_floor.1"), m, dm.iter().map(|x| x.clone().map(|y| y.1)).collect(), &a, &b, &dims);
            macro_rules! bit { ($name:expr, $op:tt, $opa:tt) => {
                let w = a.iter().zip(&b).map(|(x, y)| Ok(*x $op *y)).collect::<Vec<_>>();
                agree(c, concat!(stringify!($Ty), $name), catch(|| (va $op vb).flat()), w.clone(), &a, &b, &dims);
                agree(c, concat!(stringify!($Ty), $name, "_assign"), catch(|| { let mut m = va; m $opa vb; m.flat() }), w, &a, &b, &dims);
            } }
            bit!("::bitand", &, &=);
            bit!("::bitor", |, |=);
            bit!("::bitxor", ^, ^=);
            agree(c, concat!(stringify!($Ty), "::not"), catch(|| (!va).flat()), a.iter().map(|x| Ok(!*x)).collect(), &a, &b, &dims);
        }
    };
}
int_ops!(int_vec, Vector, N);
int_ops!(int_mat, Matrix, M, N);

macro_rules! neg_ops {
    ($f:ident, $Ty:ident, $($d:ident),+) => {
        fn $f<T: Prim + std::ops::Neg<Output = T>, $(const $d: usize),+>(c: &mut Ctx) {
            let n = <$Ty<T, $($d),+> as Flat>::LEN;
            let a: Vec<T> = (0..n).map(|_| T::gen(&mut c.rng)).collect();
            c.input(hash_u64s(a.iter().map(|x| x.word())));
            let va = <$Ty<T, $($d),+> as Flat>::build(a.clone());
            agree(c, concat!(stringify!($Ty), "::neg"), catch(|| (-va).flat()), a.iter().map(|x| catch(|| -*x)).collect(), &a, &a, &[$($d),+]);
        }
    };
}
neg_ops!(neg_vec, Vector, N);
neg_ops!(neg_mat, Matrix, M, N);

macro_rules! rev {
    ($($t:ident),*) => {
        fn reverse_mul<const N: usize>(c: &mut Ctx) {
            $({
                let a: Vec<$t> = (0..N).map(|_| <$t as Prim>::gen(&mut c.rng)).collect();
                let s = <$t as Prim>::gen(&mut c.rng);
                c.input(hash_u64s(a.iter().map(|x| x.word())));
                let va = <Vector<$t, N> as Flat>::build(a.clone());
                agree(c, concat!(stringify!($t), "*Vector"), catch(|| (s * va).flat()), a.iter().map(|x| catch(|| s * *x)).collect(), &a, &vec![s; N], &[N]);
            })*
        }
    }
}
rev!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64);

macro_rules! bool_ops {
    ($f:ident, $Ty:ident, $($d:ident),+) => {
        fn $f<$(const $d: usize),+>(c: &mut Ctx) {
            let n = <$Ty<bool, $($d),+> as Flat>::LEN;
            let a: Vec<bool> = (0..n).map(|_| c.rng.chance(1, 2)).collect();
            let b: Vec<bool> = (0..n).map(|_| c.rng.chance(1, 2)).collect();
            c.input(hash_u64s(a.iter().chain(&b).map(|x| *x as u64)));
            let va = <$Ty<bool, $($d),+> as Flat>::build(a.clone());
            let vb = <$Ty<bool, $($d),+> as Flat>::build(b.clone());
            same_vec(c, concat!(stringify!($Ty), "<bool>::and"), (va & vb).flat(), a.iter().zip(&b).map(|(x, y)| *x && *y).collect(), &a, &b, &[$($d),+]);
            same_vec(c, concat!(stringify!($Ty), "<bool>::or"), (va | vb).flat(), a.iter().zip(&b).map(|(x, y)| *x || *y).collect(), &a, &b, &[$($d),+]);
            same_vec(c, concat!(stringify!($Ty), "<bool>::xor"), (va ^ vb).flat(), a.iter().zip(&b).map(|(x, y)| *x != *y).collect(), &a, &b, &[$($d),+]);
            same_vec(c, concat!(stringify!($Ty), "<bool>::not"), (!va).flat(), a.iter().map(|x| !*x).collect(), &a, &b, &[$($d),+]);
        }
    };
}
bool_ops!(bool_vec, Vector, N);
bool_ops!(bool_mat, Matrix, M, N);

macro_rules! sum_ops {
    ($f:ident, $Ty:ident, $($d:ident),+) => {
        fn $f<$(const $d: usize),+>(c: &mut Ctx) {
            let n = <$Ty<Fp, $($d),+> as Flat>::LEN;
            let k = match c.rng.below(6) { 0 => 0, 1 => 1, 2 => 2, _ => c.rng.below(40) };
            let dims = [$($d),+];
            macro_rules! one { ($t:ty, $gen:expr, $name:expr) => {{
                let mut gen: Box<dyn FnMut(&mut Rng) -> $t> = Box::new($gen);
                let xs: Vec<Vec<$t>> = (0..k).map(|_| (0..n).map(|_| gen(&mut c.rng)).collect()).collect();
                let mut ws: Vec<$t> = (0..n).map(|_| Zero::zero()).collect();
                let mut wp: Vec<$t> = (0..n).map(|_| One::one()).collect();
                for x in &xs {
                    for i in 0..n {
                        ws[i] = ws[i] + x[i];
                        wp[i] = wp[i] * x[i];
                    }
                }
                let mk = || xs.iter().map(|x| <$Ty<$t, $($d),+> as Flat>::build(x.clone()));
                same_vec(c, concat!(stringify!($Ty), "::Sum<", $name, ">"), mk().sum::<$Ty<$t, $($d),+>>().flat(), ws, &k, &(), &dims);
                same_vec(c, concat!(stringify!($Ty), "::Product<", $name, ">"), mk().product::<$Ty<$t, $($d),+>>().flat(), wp, &k, &(), &dims);
                // a borrowed iterator is consumed entirely and only once
                let mut it = mk().take(k / 2);
                let _ = (&mut it).sum::<$Ty<$t, $($d),+>>();
                c.check(it.next().is_none(), concat!(stringify!($Ty), "::Sum consumption"), || format!("items left; dims {dims:?}"));
            }} }
            { let h = c.rng.u64(); c.input(hash2(h, k as u64)) };
            one!(Fp, |r| r.fp(), "Fp");
            one!(Nc, |r| Nc::random(r), "Nc");
            one!(Wrapping<i32>, |r| Wrapping(r.int() as i32), "Wrapping<i32>");
        }
    };
}
sum_ops!(sum_vec, Vector, N);
sum_ops!(sum_mat, Matrix, M, N);

/// A distinct, order-sensitive accumulator (f64): element-wise left fold.
fn sum_float<const M: usize, const N: usize>(c: &mut Ctx) {
    let k = c.rng.below(20);
    let xs: Vec<Vec<f64>> = (0..k).map(|_| (0..M * N).map(|_| c.rng.gauss()).collect()).collect();
    c.input(hash_u64s(xs.iter().flatten().map(|x| x.to_bits())));
    let got = xs.iter().map(|x| <Matrix<f64, M, N> as Flat>::build(x.clone())).sum::<Matrix<f64, M, N>>().flat();
    let gotp = xs.iter().map(|x| <Matrix<f64, M, N> as Flat>::build(x.clone())).product::<Matrix<f64, M, N>>().flat();
    c.op("Matrix::Sum<f64>");
    for i in 0..M * N {
        let s: f64 = xs.iter().map(|x| x[i]).sum();
        let b: f64 = xs.iter().map(|x| x[i].abs()).sum::<f64>() + 1e-300;
        c.check((got[i] - s).abs() <= 1e-13 * b, "Matrix::Sum<f64>", || format!("element {i}: {} vs {s}", got[i]));
        let p: f64 = xs.iter().map(|x| x[i]).product();
        c.check((gotp[i] - p).abs() <= 1e-12 * p.abs() + 1e-300, "Matrix::Product<f64>", || format!("element {i}: {} vs {p}", gotp[i]));
    }
}

fn main() {
    let mut s = Suite::new(
        "C05",
        "a case instantiates one dimension and element type (symbolic terms, tracked heap values, integers of every \
         width, floats, booleans, exact ring elements), draws two operand containers and a scalar from a hostile \
         generator and compares every operator form with the scalar operator at each position; non-trivial: the \
         operands' contents (hashed) differ from every other case",
    );
    s.section("symbolic_vector", 27 * 6, |c| run_table!(c, vdims!(sym_vec)));
    s.section("symbolic_matrix", 39 * 5, |c| run_table!(c, mdims!(sym_mat)));
    s.section("noncopy_vector", 27 * 2, |c| {
        const T: &[fn(&mut Ctx)] = &[big_vec::<0>, big_vec::<1>, big_vec::<3>, big_vec::<8>, big_vec::<17>];
        run_table!(c, T)
    });
    s.section("noncopy_matrix", 14 * 6, |c| {
        const T: &[fn(&mut Ctx)] = &[big_mat::<2, 0>, big_mat::<1, 3>, big_mat::<3, 2>, big_mat::<4, 5>];
        run_table!(c, T)
    });
    macro_rules! prims { ($($t:ident),*) => {$(
        s.section(concat!("arith_", stringify!($t)), 6 * 220, |c| {
            const T: &[fn(&mut Ctx)] = &[prim_vec::<$t, 1>, prim_vec::<$t, 3>, prim_vec::<$t, 4>, prim_vec::<$t, 9>, prim_mat::<$t, 2, 2>, prim_mat::<$t, 3, 2>];
            run_table!(c, T)
        });
    )*} }
    prims!(i8, u64, i32, f32, f64);
    macro_rules! ints { ($($t:ident),*) => {$(
        s.section(concat!("integer_", stringify!($t)), 4 * 220, |c| {
            const T: &[fn(&mut Ctx)] = &[int_vec::<$t, 2>, int_vec::<$t, 3>, int_vec::<$t, 7>, int_mat::<$t, 2, 3>];
            run_table!(c, T)
        });
    )*} }
    ints!(i8, u8, i32, i64);
    s.section("wide_integers", 8 * 200, |c| {
        const T: &[fn(&mut Ctx)] = &[prim_vec::<i128, 3>, prim_vec::<u128, 5>, prim_mat::<u128, 2, 3>, prim_mat::<i128, 3, 2>, int_vec::<u128, 2>, int_vec::<i128, 5>, int_mat::<i128, 2, 2>, int_mat::<u128, 3, 2>];
        run_table!(c, T)
    });
    s.section("neg_i8", 11 * 100, |c| run_table!(c, vdims_few!(neg_vec, i8)));
    s.section("neg_i64", 11 * 100, |c| run_table!(c, vdims_few!(neg_vec, i64)));
    s.section("neg_f64", 11 * 100, |c| run_table!(c, vdims_few!(neg_vec, f64)));
    s.section("neg_matrix", 11 * 50, |c| {
        const T: &[fn(&mut Ctx)] = &[neg_mat::<i8, 2, 2>, neg_mat::<f32, 3, 2>, neg_mat::<i64, 1, 4>, neg_mat::<f64, 4, 3>];
        run_table!(c, T)
    });
    s.section("scalar_times_vector", 27 * 60, |c| run_table!(c, vdims!(reverse_mul)));
    s.section("bool_vector", 27 * 20, |c| run_table!(c, vdims!(bool_vec)));
    s.section("bool_matrix", 39 * 20, |c| run_table!(c, mdims!(bool_mat)));
    s.section("sum_product_vector", 27 * 8, |c| run_table!(c, vdims!(sum_vec)));
    s.section("sum_product_matrix", 39 * 8, |c| run_table!(c, mdims_few!(sum_mat)));
    s.section("sum_product_float", 14 * 30, |c| run_table!(c, mdims_few!(sum_float)));
    s.native("large", 8 * 2, |c| {
        const T: &[fn(&mut Ctx)] = &[sym_vec::<263>, sym_mat::<2, 135>, sym_mat::<135, 2>, prim_vec::<i32, 263>, int_vec::<i32, 263>, prim_mat::<f64, 16, 17>, sum_vec::<263>, sum_mat::<16, 17>];
        run_table!(c, T)
    });
    s.run();
}
