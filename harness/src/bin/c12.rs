//! C12: complex functions, polar form and parsing equal their definitions.
use harness::*;
use num_complex::Complex as NumComplex;
use num_traits::{Float, Num};
use std::fmt::Debug;
use std::ops::Neg;
use vecmat::{Complex};

/// a complex number: generic, on the axes, on branch cuts from both sides
/// (signed zeros), at branch points, huge, tiny, infinite, NaN
fn point<T: Fl>(r: &mut Rng) -> [T; 2] {
    let z = |r: &mut Rng| if r.chance(1, 2) { T::zero() } else { -T::zero() };
    match r.below(16) {
        0 => [r.hostile(), z(r)],
        1 => [z(r), r.hostile()],
        2 => [T::f(r.uniform(-4.0, 4.0)), z(r)],
        3 => [z(r), T::f(r.uniform(-4.0, 4.0))],
        4 => {
            let b = r.pick(&[[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0], [0.0, -1.0], [0.0, 0.0]]);
            let e = 10f64.powi(r.range(-16, -1) as i32);
            [T::f(b[0] + e * r.gauss()), T::f(b[1] + e * r.gauss())]
        }
        5 => {
            let b = r.pick(&[[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0], [0.0, -1.0]]);
            [T::f(b[0]) * if b[0] == 0.0 && r.chance(1, 2) { -T::one() } else { T::one() }, if b[1] == 0.0 { z(r) } else { T::f(b[1]) }]
        }
        6 => [z(r), z(r)],
        7 => [r.hostile(), r.hostile()],
        8 => [r.special(), r.special()],
        9 => {
            let (a, m) = (r.angle::<f64>(), 10f64.powi(r.range(-30, 30) as i32));
            [T::f(a.cos() * m), T::f(a.sin() * m)]
        }
        10 => [T::f(r.uniform(-1.0, 1.0) * 1e-9), T::f(r.uniform(-4.0, 4.0))],
        11 => [T::f(r.uniform(-750.0, 750.0)), T::f(r.uniform(-10.0, 10.0))],
        12 => [T::f(r.range(-5, 5) as f64), T::f(r.range(-5, 5) as f64)],
        _ => [T::f(r.gauss() * 2.0), T::f(r.gauss() * 2.0)],
    }
}

/// the same number up to a few roundings, relative to its modulus; special
/// values agree component by component (the sign of a zero is left open)
fn agrees<T: Fl>(g: [T; 2], w: [T; 2], tol: f64) -> bool {
    if same(g[0], w[0]) && same(g[1], w[1]) {
        return true;
    }
    for k in 0..2 {
        if g[k].is_nan() != w[k].is_nan() || g[k].is_infinite() != w[k].is_infinite() {
            return false;
        }
        if g[k].is_infinite() && g[k] != w[k] {
            return false;
        }
    }
    let fin: Vec<usize> = (0..2).filter(|k| w[*k].is_finite()).collect();
    let m = fin.iter().map(|k| w[*k].d().abs()).fold(0.0, f64::max);
    fin.iter().all(|k| (g[*k].d() - w[*k].d()).abs() <= tol * m + T::min_positive_value().d() * T::eps() * 4.0)
}

fn functions<T: Fl>(c: &mut Ctx) {
    let (p, q): ([T; 2], [T; 2]) = (point(&mut c.rng), point(&mut c.rng));
    let s: T = if c.rng.chance(1, 3) { T::f(c.rng.range(-4, 4) as f64) } else { c.rng.hostile() };
    c.input(hash_u64s(p.iter().chain(&q).chain([&s]).map(|x| x.bits())));
    c.sample(|| format!("{}: z = {p:?}, w = {q:?}, s = {s:?}", T::NAME));
    let (z, w) = (Complex::from_array(p), Complex::from_array(q));
    let (nz, nw) = (NumComplex::new(p[0], p[1]), NumComplex::new(q[0], q[1]));
    let tol = if cfg!(miri) || c.miri { 1e-4 } else { 64.0 * T::eps() };
    macro_rules! f { ($op:expr, $got:expr, $want:expr) => {{
        let (g, r) = ($got.into_array(), $want);
        c.op($op);
        c.check(agrees(g, [r.re, r.im], tol), $op, || {
            format!("{} z = {p:?}, w = {q:?}, s = {s:?}: got {g:?}, the principal value is {:?}", T::NAME, [r.re, r.im])
        });
    }} }
    f!("exp", z.exp(), nz.exp());
    f!("ln", z.ln(), nz.ln());
    f!("sqrt", z.sqrt(), nz.sqrt());
    f!("cbrt", z.cbrt(), nz.cbrt());
    f!("powf", z.powf(s), nz.powf(s));
    f!("powc", z.powc(w), nz.powc(nw));
    f!("expf", z.expf(s), nz.expf(s));
    f!("log", z.log(s), nz.log(s));
    f!("sin", z.sin(), nz.sin());
    f!("cos", z.cos(), nz.cos());
    f!("tan", z.tan(), nz.tan());
    f!("asin", z.asin(), nz.asin());
    f!("acos", z.acos(), nz.acos());
    f!("atan", z.atan(), nz.atan());
    f!("sinh", z.sinh(), nz.sinh());
    f!("cosh", z.cosh(), nz.cosh());
    f!("tanh", z.tanh(), nz.tanh());
    f!("asinh", z.asinh(), nz.asinh());
    f!("acosh", z.acosh(), nz.acosh());
    f!("atanh", z.atanh(), nz.atanh());
    f!("finv", z.finv(), nz.finv());
    f!("fdiv", z.fdiv(w), nz.fdiv(nw));
}

/// definitions that do not go through another implementation
fn definitions<T: Fl>(c: &mut Ctx) {
    let (a, m) = (c.rng.uniform(-3.14, 3.14), 10f64.powf(c.rng.uniform(-3.0, 3.0)));
    let p = match c.rng.below(4) {
        // exactly on the negative real axis, above and below
        0 => [T::f(-m), if c.rng.chance(1, 2) { T::zero() } else { -T::zero() }],
        _ => [T::f(m * a.cos()), T::f(m * a.sin())],
    };
    c.input(hash_u64s(p.map(|x| x.bits())));
    let z = Complex::from_array(p);
    let pd = p.map(|x| x.d());
    let r = pd[0].hypot(pd[1]);
    let th = pd[1].atan2(pd[0]);
    let eps = if cfg!(miri) || c.miri { 1e-5 } else { T::eps() };
    let near = |c: &mut Ctx, op: &'static str, g: Complex<T>, w: [f64; 2], tol: f64| {
        let g = g.into_array().map(|x| x.d());
        c.op(op);
        c.check((g[0] - w[0]).hypot(g[1] - w[1]) <= tol * eps, op, || format!("{} of {p:?}: got {g:?}, definition gives {w:?}", T::NAME));
    };
    let pol = |m: f64, t: f64| [m * t.cos(), m * t.sin()];
    near(c, "ln by definition", z.ln(), [r.ln(), th], 16.0 * (r.ln().abs() + 4.0));
    near(c, "sqrt by definition", z.sqrt(), pol(r.sqrt(), th / 2.0), 32.0 * r.sqrt());
    near(c, "cbrt by definition", z.cbrt(), pol(r.cbrt(), th / 3.0), 32.0 * r.cbrt());
    let e = c.rng.uniform(-2.0, 2.0);
    let e = T::f(e);
    near(c, "powf by definition", z.powf(e), pol(r.powf(e.d()), th * e.d()), 64.0 * r.powf(e.d()) * (1.0 + (r.ln() * e.d()).abs()));
    let b = T::f(c.rng.uniform(1.5, 9.0));
    near(c, "log by definition", z.log(b), [r.ln() / b.d().ln(), th / b.d().ln()], 64.0 * (r.ln().abs() + 4.0) / b.d().ln());
    // functions of a small argument (nothing overflows)
    let q = [T::f(c.rng.uniform(-3.0, 3.0)), T::f(c.rng.uniform(-3.0, 3.0))];
    let (x, y) = (q[0].d(), q[1].d());
    let w = Complex::from_array(q);
    near(c, "exp by definition", w.exp(), pol(x.exp(), y), 32.0 * x.exp());
    near(c, "expf by definition", w.expf(b), pol(b.d().powf(x), y * b.d().ln()), 64.0 * b.d().powf(x) * 4.0);
    near(c, "sin by definition", w.sin(), [x.sin() * y.cosh(), x.cos() * y.sinh()], 64.0 * y.cosh());
    near(c, "cos by definition", w.cos(), [x.cos() * y.cosh(), -x.sin() * y.sinh()], 64.0 * y.cosh());
    near(c, "sinh by definition", w.sinh(), [x.sinh() * y.cos(), x.cosh() * y.sin()], 64.0 * x.cosh());
    near(c, "cosh by definition", w.cosh(), [x.cosh() * y.cos(), x.sinh() * y.sin()], 64.0 * x.cosh());
    let (t, u) = ((2.0 * x).cos() + (2.0 * y).cosh(), (2.0 * x).cosh() + (2.0 * y).cos());
    if t > 0.1 {
        near(c, "tan by definition", w.tan(), [(2.0 * x).sin() / t, (2.0 * y).sinh() / t], 2000.0);
    }
    if u > 0.1 {
        near(c, "tanh by definition", w.tanh(), [(2.0 * x).sinh() / u, (2.0 * y).sin() / u], 2000.0);
    }
    // inverse functions on their principal strips
    let back = |c: &mut Ctx, op: &'static str, f: Complex<T>, strip: bool| {
        let g = f.into_array().map(|x| x.d());
        c.op(op);
        c.check(strip && (g[0] - x).hypot(g[1] - y) <= 3e3 * eps * (1.0 + x.hypot(y)), op, || format!("{} of {q:?}: got {g:?}", T::NAME));
    };
    let near_branch = (x.hypot(y - 1.0) < 0.2) || (x.hypot(y + 1.0) < 0.2) || ((x - 1.0).hypot(y) < 0.2) || ((x + 1.0).hypot(y) < 0.2);
    if !near_branch {
        let half = std::f64::consts::FRAC_PI_2 + 1e-5;
        let a = w.asin();
        back(c, "sin(asin z) = z", a.sin(), a.re().d().abs() <= half);
        let a = w.acos();
        back(c, "cos(acos z) = z", a.cos(), a.re().d() >= -1e-5 && a.re().d() <= 2.0 * half);
        let a = w.atan();
        back(c, "tan(atan z) = z", a.tan(), a.re().d().abs() <= half);
        let a = w.asinh();
        back(c, "sinh(asinh z) = z", a.sinh(), a.im().d().abs() <= half);
        let a = w.acosh();
        back(c, "cosh(acosh z) = z", a.cosh(), a.re().d() >= -1e-5);
        let a = w.atanh();
        back(c, "tanh(atanh z) = z", a.tanh(), a.im().d().abs() <= half);
    }
    if r > 1e-2 {
        let n = r * r;
        near(c, "finv by definition", z.finv(), [pd[0] / n, -pd[1] / n], 16.0 / r);
        let f = [(x * pd[0] + y * pd[1]) / n, (y * pd[0] - x * pd[1]) / n];
        near(c, "fdiv by definition", w.fdiv(z), f, 32.0 * x.hypot(y) / r);
    }
}

fn polar<T: Fl>(c: &mut Ctx) {
    let p: [T; 2] = match c.rng.below(3) {
        0 => point(&mut c.rng),
        1 => [T::f(c.rng.range(-3, 3) as f64), T::f(c.rng.range(-3, 3) as f64)],
        _ => {
            let m = 10f64.powi(c.rng.range(-15, 15) as i32);
            [T::f(c.rng.gauss() * m), T::f(c.rng.gauss() * m)]
        }
    };
    c.input(hash_u64s(p.map(|x| x.bits())));
    let z = Complex::from_array(p);
    let (r, th) = z.to_polar();
    let pi = T::PI();
    c.op("Complex::to_polar");
    c.check(same(r, z.norm()) && same(th, z.arg()) || ulps(r, z.norm()) <= 2 && ulps(th, z.arg()) <= 2 || cfg!(miri), "Complex::to_polar", || format!("{p:?}: {r:?}, {th:?}"));
    c.op("Complex::arg");
    let want = <T as Float>::atan2(p[1], p[0]);
    c.check(ulps(z.arg(), want) <= 2 || cfg!(miri), "Complex::arg", || format!("{p:?}: {:?}, expected {want:?}", z.arg()));
    if !p[0].is_nan() && !p[1].is_nan() {
        c.check(z.arg() >= -pi && z.arg() <= pi, "Complex::arg is in [-pi, pi]", || format!("{p:?}: {:?}", z.arg()));
    }
    // where the squares neither overflow nor underflow
    let m = p[0].d().abs() + p[1].d().abs();
    let lo = T::min_positive_value().d().sqrt() / T::eps();
    if m < T::max_value().d().sqrt() / 2.0 && (m == 0.0 || m > lo) {
        let want = p[0].d().hypot(p[1].d());
        c.op("Complex::norm");
        c.check((r.d() - want).abs() <= want * T::eps() * 4.0, "Complex::norm", || format!("{p:?}: {r:?}, expected {want}"));
        let b = Complex::from_polar(r, th).into_array();
        let tol = if cfg!(miri) { 1e-5 } else { 8.0 * T::eps() };
        c.op("Complex::from_polar");
        c.check((b[0].d() - p[0].d()).hypot(b[1].d() - p[1].d()) <= want * tol, "from_polar(norm, arg) = z", || format!("{p:?} -> ({r:?}, {th:?}) -> {b:?}"));
    }
    // arbitrary polar pairs, any angle
    let (mut r, mut a): (T, T) = (c.rng.tame(), c.rng.angle());
    match c.rng.below(8) {
        0 => r = T::f(c.rng.range(-2, 2) as f64),
        1 => a = T::f(c.rng.range(-4, 4) as f64),
        2 => r = a,
        _ => {}
    }
    let b = Complex::from_polar(r, a).into_array();
    let w = [r.d() * a.d().cos(), r.d() * a.d().sin()];
    let tol = if cfg!(miri) { 1e-5 } else { 8.0 * T::eps() };
    c.op("Complex::from_polar");
    c.check((b[0].d() - w[0]).hypot(b[1].d() - w[1]) <= r.d().abs() * tol, "Complex::from_polar", || format!("({r:?}, {a:?}) -> {b:?}, expected {w:?}"));
}

// ---------------------------------------------------------------- parsing

fn number(r: &mut Rng, radix: u32) -> String {
    let digits = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJ";
    let mut s = String::new();
    let dr = if r.chance(1, 12) { 36 } else { radix.clamp(2, 36) } as usize;
    let mut dig = |r: &mut Rng, s: &mut String, n: usize| {
        for _ in 0..n {
            s.push(digits[r.below(dr)] as char);
        }
    };
    let n = r.below(4);
    dig(r, &mut s, n);
    if r.chance(1, 3) {
        s.push('.');
        let n = r.below(4);
        dig(r, &mut s, n);
    }
    if r.chance(1, 5) {
        s.push(r.pick(&['e', 'E', 'p', '@']));
        s.push_str(r.pick(&["", "+", "-"]));
        let n = 1 + r.below(2);
        dig(r, &mut s, n);
    }
    if r.chance(1, 20) {
        s = r.pick(&["inf", "nan", "infinity", "NaN", "-inf", "1e400", "99999999999999999999", "128", "-129", "0x1f", "1_000"]).to_string();
    }
    s
}
fn text(r: &mut Rng, radix: u32) -> String {
    let sp = |r: &mut Rng| r.pick(&["", "", "", "", " ", "  ", "\t"]);
    let sg = |r: &mut Rng| r.pick(&["", "", "+", "-", "--", "+-"]);
    let un = |r: &mut Rng| r.pick(&["i", "i", "j", "j", "", "I", "ii", "ij", "k"]);
    let mut s = match r.below(8) {
        0 => format!("{}{}", sg(r), number(r, radix)),
        1 => format!("{}{}{}", sg(r), number(r, radix), un(r)),
        2 => format!("{}{}{}{}{}{}{}", sg(r), number(r, radix), un(r), sp(r), sg(r), sp(r), number(r, radix)),
        3 => r.text(b"0123456789+-ij.eE ", 8),
        4 => format!("{}{}{}{}{}", sg(r), number(r, radix), r.pick(&["+", "-"]), number(r, radix), r.pick(&["i", "j"])),
        _ => format!("{}{}{}{}{}{}{}{}", sg(r), number(r, radix), sp(r), r.pick(&["+", "-", "+", "-", ""]), sp(r), sg(r), number(r, radix), un(r)),
    };
    if r.chance(1, 6) && !s.is_empty() {
        // one mutation
        let k = r.below(s.len());
        if s.is_char_boundary(k) && s.is_char_boundary(k + 1) {
            match r.below(3) {
                0 => {
                    s.remove(k);
                }
                1 => s.insert(k, r.pick(&['+', '-', 'i', 'j', ' ', '.', 'e', '0', 'é'])),
                _ => {
                    let ch = s.remove(k);
                    s.insert(k, ch);
                    s.insert(k, ch);
                }
            }
        }
    }
    s
}
fn parsing<T>(c: &mut Ctx)
where
    T: Num + Neg<Output = T> + Copy + Debug + 'static,
    T::FromStrRadixErr: Debug,
{
    for _ in 0..c.loops(8) {
        let radix = match c.rng.below(4) {
            0 => c.rng.below(40) as u32,
            1 => c.rng.pick(&[2, 8, 16, 18, 19, 36, 37, 0, 1]),
            _ => 10,
        };
        let s = text(&mut c.rng, radix);
        c.input(hash2(hash_str(&s), radix as u64));
        c.sample(|| format!("parse {s:?} in radix {radix}"));
        c.op("Complex::from_str_radix");
        let want = catch(|| NumComplex::<T>::from_str_radix(&s, radix));
        let got = catch(|| Complex::<T>::from_str_radix(&s, radix));
        let d = || format!("{s:?} in radix {radix} as {}: got {got:?}, num_complex gives {want:?}", std::any::type_name::<T>());
        match (&got, &want) {
            (Ok(Ok(g)), Ok(Ok(w))) => {
                let g = g.into_array();
                let eq = |a: T, b: T| a == b || (a != a && b != b);
                c.check(eq(g[0], w.re) && eq(g[1], w.im), "parsed value", d);
            }
            (Ok(Err(_)), Ok(Err(_))) => {}
            // an impossible radix: both refuse, by error or panic
            (Err(_), Err(_)) => {}
            (Ok(Err(_)), Err(_)) => {}
            _ => c.fail("accepted or rejected differently", d()),
        }
    }
}

fn main() {
    let mut s = Suite::new(
        "C12",
        "a case evaluates every complex function at generic points, on both sides of branch cuts, at branch points, zeros and \
         infinities, against num_complex and against real-function definitions; polar round trips; generated and mutated \
         texts in radices 0..40 parsed by both; non-trivial: arguments or texts (hashed) differ",
    );
    s.section("functions_f64", 40_000, functions::<f64>);
    s.section("functions_f32", 20_000, functions::<f32>);
    s.section("definitions_f64", 20_000, definitions::<f64>);
    s.section("definitions_f32", 8_000, definitions::<f32>);
    s.section("polar_f64", 20_000, polar::<f64>);
    s.section("polar_f32", 10_000, polar::<f32>);
    s.section("functions_wide", 4_000, functions::<Wide>);
    s.section("definitions_wide", 2_000, definitions::<Wide>);
    s.section("polar_wide", 2_000, polar::<Wide>);
    s.section("parse_f64", 3_000, parsing::<f64>);
    s.section("parse_f32", 1_000, parsing::<f32>);
    s.section("parse_int", 3_000, |c| {
        const T: &[fn(&mut Ctx)] = &[parsing::<i8>, parsing::<i32>, parsing::<i64>];
        run_table!(c, T)
    });
    s.run();
}
