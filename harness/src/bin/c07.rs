//! C07: element-wise float functions with broadcasting match the scalar function.
use harness::*;
use num_traits::Float;
use vecmat::{Matrix, Vector};

/// Rust leaves the precision of library functions open and Miri varies it on
/// purpose; natively the same function on the same value gives the same bits.
fn near<T: Fl>(c: &Ctx, g: T, w: T, slack: u64) -> bool {
    if same(g, w) {
        return true;
    }
    if cfg!(miri) || c.miri {
        let d = (g.d() - w.d()).abs();
        return ulps(g, w) <= 64 || d <= w.d().abs() * 1e-5;
    }
    slack > 0 && ulps(g, w) <= slack
}
fn cmp<T: Fl>(c: &mut Ctx, op: &'static str, dims: &[usize], got: Vec<T>, want: Vec<T>, slack: u64, args: &[&[T]]) {
    c.op(op);
    c.check(got.len() == want.len(), op, || "wrong number of elements".into());
    for i in 0..got.len() {
        let (g, w) = (got[i], want[i]);
        c.check(near(c, g, w, slack), op, || {
            format!("{} element {i}: got {g:?}, the scalar function gives {w:?} for {:?}; dims {dims:?}", T::NAME, args.iter().map(|a| a[i]).collect::<Vec<_>>())
        });
    }
}

/// a value for functions of restricted domain as well as for all
fn val<T: Fl>(c: &mut Ctx) -> T {
    match c.rng.below(8) {
        0 => T::f(c.rng.uniform(-1.0, 1.0)),
        1 => T::f(c.rng.uniform(0.0, 1.0) * 10f64.powi(c.rng.range(-20, -1) as i32)),
        2 => T::f(c.rng.uniform(1.0, 100.0)),
        _ => c.rng.hostile(),
    }
}

macro_rules! group {
    ($unary:ident, $binary:ident, $Ty:ident, [$($d:ident),+], $last:ident, [$($more:tt)*]) => {
        fn $unary<T: Fl, $(const $d: usize),+>(c: &mut Ctx) {
            type C<T, $(const $d: usize),+> = $Ty<T, $($d),+>;
            let n = <C<T, $($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            let mut a: Vec<T> = (0..n).map(|_| val(c)).collect();
            relate_fl(&mut c.rng, &mut a);
            c.input(hash_u64s(a.iter().map(|x| x.bits()).chain(dims.iter().map(|x| *x as u64))));
            c.sample(|| format!("{}{dims:?} of {}: {:?}", stringify!($Ty), T::NAME, a.iter().take(4).collect::<Vec<_>>()));
            let v = <C<T, $($d),+> as Flat>::build(a.clone());
            macro_rules! un { ($f:ident) => { un!($f, 0) }; ($f:ident, $slack:expr) => {
                cmp(c, concat!(stringify!($Ty), "::", stringify!($f)), &dims, v.$f().flat(), a.iter().map(|x| <T as Float>::$f(*x)).collect(), $slack, &[&a]);
            } }
            un!(abs); un!(signum); un!(cbrt); un!(sqrt); un!(acos); un!(asin); un!(atan); un!(cosh); un!(sinh);
            un!(tan); un!(tanh); un!(log2); un!(exp); un!(ln); un!(sin); un!(cos); un!(asinh); un!(acosh); un!(atanh);
            un!(floor); un!(ceil); un!(round); un!(trunc); un!(fract); un!(recip); un!(exp2); un!(log10); un!(exp_m1); un!(ln_1p);
            let (s, k) = v.sin_cos();
            cmp(c, concat!(stringify!($Ty), "::sin_cos.0"), &dims, s.flat(), a.iter().map(|x| <T as Float>::sin(*x)).collect(), 1, &[&a]);
            cmp(c, concat!(stringify!($Ty), "::sin_cos.1"), &dims, k.flat(), a.iter().map(|x| <T as Float>::cos(*x)).collect(), 1, &[&a]);
        }
        fn $binary<T: Fl, $(const $d: usize),+>(c: &mut Ctx) {
            type C<T, $(const $d: usize),+> = $Ty<T, $($d),+>;
            let n = <C<T, $($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            let row = *dims.last().unwrap();
            let mut a: Vec<T> = (0..n).map(|_| val(c)).collect();
            relate_fl(&mut c.rng, &mut a);
            let v = <C<T, $($d),+> as Flat>::build(a.clone());
            let (mut x1, mut x2): (Vec<T>, Vec<T>) = (0..n).map(|_| (val::<T>(c), val::<T>(c))).unzip();
            relate_fl(&mut c.rng, &mut x1);
            relate_to(&mut c.rng, &a, &mut x1);
            relate_fl(&mut c.rng, &mut x2);
            relate_to(&mut c.rng, &x1, &mut x2);
            let (s1, s2): (T, T) = (val(c), val(c));
            let (mut r1, mut r2): (Vec<T>, Vec<T>) = (0..row).map(|_| (val::<T>(c), val::<T>(c))).unzip();
            relate_fl(&mut c.rng, &mut r1);
            relate_fl(&mut c.rng, &mut r2);
            let e: Vec<i32> = (0..n).map(|_| c.rng.pick(&[0, 1, -1, 2, -2, 3, 5, 7, -9, 17, 100, -100, 1000, i32::MAX, i32::MIN])).collect();
            let es = e.first().copied().unwrap_or(3);
            let er: Vec<i32> = (0..row).map(|_| c.rng.range(-12, 12) as i32).collect();
            c.input(hash_u64s(a.iter().chain(&x1).chain(&x2).map(|x| x.bits())));
            let rep = |r: &[T]| -> Vec<T> { (0..n).map(|i| r[i % row]).collect() };
            // every argument form, as (argument, its element-by-element equivalent)
            let scal1 = vec![s1; n];
            let full1 = <C<T, $($d),+> as Flat>::build(x1.clone());
            let rowv1 = <Vector<T, $last> as Flat>::build(r1.clone());
            let rep1 = rep(&r1);
            macro_rules! forms { ($f:ident, $sc:expr) => {
                let mut one = |c: &mut Ctx, form: &'static str, got: Vec<T>, args: &[T]| {
                    let want: Vec<T> = a.iter().zip(args).map(|(x, y)| $sc(*x, *y)).collect();
                    // which of two zeros an extremum returns is open
                    let got: Vec<T> = got.iter().zip(&want).map(|(g, w)| if ["vmin", "vmax"].contains(&stringify!($f)) && *g == *w { *w } else { *g }).collect();
                    cmp(c, form, &dims, got, want, 0, &[&a, args]);
                };
                one(c, concat!(stringify!($Ty), "::", stringify!($f), "(scalar)"), v.$f(s1).flat(), &scal1);
                one(c, concat!(stringify!($Ty), "::", stringify!($f), "(same)"), v.$f(full1).flat(), &x1);
                group!(@row $($more)*, one(c, concat!(stringify!($Ty), "::", stringify!($f), "(row)"), v.$f(rowv1).flat(), &rep1););
                let _ = (&rowv1 as &dyn std::fmt::Debug, &rep1);
            } }
            forms!(abs_sub, <T as Float>::abs_sub);
            forms!(vmin, <T as Float>::min);
            forms!(vmax, <T as Float>::max);
            forms!(atan2, <T as Float>::atan2);
            forms!(hypot, <T as Float>::hypot);
            forms!(powf, <T as Float>::powf);
            forms!(log, <T as Float>::log);
            // integer powers
            let want: Vec<T> = a.iter().zip(&e).map(|(x, k)| <T as Float>::powi(*x, *k)).collect();
            cmp(c, concat!(stringify!($Ty), "::powi(same)"), &dims, v.powi(<C<i32, $($d),+> as Flat>::build(e.clone())).flat(), want, 4, &[&a]);
            let want: Vec<T> = a.iter().map(|x| <T as Float>::powi(*x, es)).collect();
            cmp(c, concat!(stringify!($Ty), "::powi(scalar)"), &dims, v.powi(es).flat(), want, 4, &[&a]);
            let want: Vec<T> = a.iter().enumerate().map(|(i, x)| <T as Float>::powi(*x, er[i % row])).collect();
            let er = <Vector<i32, $last> as Flat>::build(er);
            group!(@row $($more)*, cmp(c, concat!(stringify!($Ty), "::powi(row)"), &dims, v.powi(er).flat(), want, 4, &[&a]););
            let _ = er;
            // ternary methods, every combination of forms
            let full2 = <C<T, $($d),+> as Flat>::build(x2.clone());
            let rowv2 = <Vector<T, $last> as Flat>::build(r2.clone());
            let (scal2, rep2) = (vec![s2; n], rep(&r2));
            macro_rules! three { ($name:expr, $p:expr, $q:expr, $pl:expr, $ql:expr) => {{
                let (pl, ql): (&[T], &[T]) = ($pl, $ql);
                let want: Vec<T> = (0..n).map(|i| <T as Float>::mul_add(a[i], pl[i], ql[i])).collect();
                cmp(c, concat!(stringify!($Ty), "::mul_add", $name), &dims, v.mul_add($p, $q).flat(), want, 0, &[&a, pl, ql]);
                // clamp is defined for proper bounds
                if (0..n).all(|i| pl[i] <= ql[i]) {
                    let want: Vec<T> = (0..n).map(|i| <T as Float>::min(<T as Float>::max(a[i], pl[i]), ql[i])).collect();
                    let got: Vec<T> = v.clamp($p, $q).flat().iter().zip(&want).map(|(g, w)| if *g == *w { *w } else { *g }).collect();
                    cmp(c, concat!(stringify!($Ty), "::clamp", $name), &dims, got, want, 0, &[&a, pl, ql]);
                } else if (0..n).all(|i| ql[i] <= pl[i]) {
                    let want: Vec<T> = (0..n).map(|i| <T as Float>::min(<T as Float>::max(a[i], ql[i]), pl[i])).collect();
                    let got: Vec<T> = v.clamp($q, $p).flat().iter().zip(&want).map(|(g, w)| if *g == *w { *w } else { *g }).collect();
                    cmp(c, concat!(stringify!($Ty), "::clamp", $name), &dims, got, want, 0, &[&a, ql, pl]);
                }
            }} }
            three!("(scalar,scalar)", s1, s2, &scal1, &scal2);
            three!("(scalar,same)", s1, full2, &scal1, &x2);
            three!("(same,scalar)", full1, s2, &x1, &scal2);
            three!("(same,same)", full1, full2, &x1, &x2);
            group!(@row $($more)*, three!("(row,row)", rowv1, rowv2, &rep1, &rep2););
            group!(@row $($more)*, three!("(row,scalar)", rowv1, s2, &rep1, &scal2););
            group!(@row $($more)*, three!("(same,row)", full1, rowv2, &x1, &rep2););
            let _ = (&rowv2 as &dyn std::fmt::Debug, &rep2);
            // clamp with bounds ordered at each position
            let (lo, hi): (Vec<T>, Vec<T>) = (0..n).map(|_| loop {
                let (p, q): (T, T) = (val(c), val(c));
                if p <= q { break (p, q) }
                if q <= p { break (q, p) }
            }).unzip();
            let want: Vec<T> = (0..n).map(|i| <T as Float>::min(<T as Float>::max(a[i], lo[i]), hi[i])).collect();
            let got = v.clamp(<C<T, $($d),+> as Flat>::build(lo.clone()), <C<T, $($d),+> as Flat>::build(hi.clone()));
            let got: Vec<T> = got.flat().iter().zip(&want).map(|(g, w)| if *g == *w { *w } else { *g }).collect();
            cmp(c, concat!(stringify!($Ty), "::clamp(ordered)"), &dims, got, want, 0, &[&a, &lo, &hi]);
        }
    };
    (@row yes, $($e:tt)*) => { $($e)* };
    (@row no, $($e:tt)*) => { };
}
group!(vec_un, vec_bin, Vector, [N], N, [no]);
group!(mat_un, mat_bin, Matrix, [M, N], N, [yes]);

macro_rules! tab {
    ($f:ident, $t:ty, $({$($d:expr),+}),*; rel $({$($r:expr),+}),*) => {{
        #[cfg(debug_assertions)]
        const T: &[fn(&mut Ctx)] = &[$($f::<$t, $($d),+>),*];
        #[cfg(not(debug_assertions))]
        const T: &[fn(&mut Ctx)] = &[$($f::<$t, $($r),+>),*];
        T
    }};
}

fn main() {
    let mut s = Suite::new(
        "C07",
        "a case applies every unary, binary and ternary float method of one container type, dimension and scalar type, in \
         every broadcasting form, to hostile values and compares each element with the scalar function; non-trivial: \
         element bits (hashed) differ",
    );
    s.section("vector_unary_f64", 8 * 120, |c| run_table!(c, tab!(vec_un, f64, {0}, {1}, {2}, {3}, {4}, {5}, {8}, {17}; rel {1}, {3}, {4}, {9})));
    s.section("vector_unary_f32", 4 * 120, |c| run_table!(c, tab!(vec_un, f32, {1}, {3}, {4}, {16}; rel {2}, {4}, {16})));
    s.section("matrix_unary_f64", 9 * 120, |c| run_table!(c, tab!(mat_un, f64, {1, 1}, {2, 3}, {3, 2}, {3, 3}, {4, 4}, {0, 2}, {5, 8}, {6, 5}, {3, 17}; rel {2, 2}, {3, 2}, {4, 4})));
    s.section("matrix_unary_f32", 3 * 120, |c| run_table!(c, tab!(mat_un, f32, {2, 2}, {3, 4}, {4, 1}; rel {2, 3}, {4, 4})));
    s.section("vector_binary_f64", 8 * 120, |c| run_table!(c, tab!(vec_bin, f64, {0}, {1}, {2}, {3}, {4}, {5}, {8}, {17}; rel {1}, {3}, {4}, {9})));
    s.section("vector_binary_f32", 4 * 120, |c| run_table!(c, tab!(vec_bin, f32, {1}, {3}, {4}, {16}; rel {2}, {4}, {16})));
    s.section("matrix_binary_f64", 9 * 120, |c| run_table!(c, tab!(mat_bin, f64, {1, 1}, {2, 3}, {3, 2}, {3, 3}, {4, 4}, {2, 1}, {5, 8}, {6, 5}, {3, 17}; rel {2, 2}, {3, 2}, {4, 4})));
    s.section("matrix_binary_f32", 3 * 120, |c| run_table!(c, tab!(mat_bin, f32, {2, 2}, {3, 4}, {4, 1}; rel {2, 3}, {4, 4})));
    s.section("vector_unary_wide", 2 * 60, |c| run_table!(c, tab!(vec_un, Wide, {2}, {3}; rel {3})));
    s.section("matrix_unary_wide", 1 * 60, |c| run_table!(c, tab!(mat_un, Wide, {2, 3}; rel {2, 2})));
    s.section("vector_binary_wide", 2 * 60, |c| run_table!(c, tab!(vec_bin, Wide, {2}, {3}; rel {3})));
    s.section("matrix_binary_wide", 1 * 60, |c| run_table!(c, tab!(mat_bin, Wide, {2, 3}; rel {2, 2})));
    s.native("large", 4 * 4, |c| {
        const T: &[fn(&mut Ctx)] = &[vec_un::<f64, 263>, vec_bin::<f64, 263>, mat_un::<f32, 2, 135>, mat_bin::<f64, 135, 2>];
        run_table!(c, T)
    });
    s.run();
}
