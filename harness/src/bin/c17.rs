//! C17: look-at constructors return proper rotations with the requested axes.
use harness::*;
use vecmat::transform::{Linear, Rotation3};
use vecmat::{Transform, Vector};

fn f<T: Fl, const N: usize>(v: Vector<T, N>) -> [f64; N] {
    v.into_array().map(|x| x.d())
}
/// unit directions: generic ones plus poles, equator, thresholds and their
/// immediate neighbours
fn unit<T: Fl>(c: &mut Ctx) -> [T; 3] {
    let t = |r: &mut Rng| -> f64 {
        let s = r.pick(&[0.0, 0.5, 0.25, 0.1, 0.75, 0.9, 0.99, 0.999, 0.9999, 0.99999, 0.8660254037844386, 0.7071067811865476, 1.0, 1e-3, 1e-6, 1e-8, 1e-12, 1e-15, 1e-30]);
        let s: f64 = if r.chance(1, 2) { -s } else { s };
        match r.below(3) {
            0 => s,
            1 => s + r.gauss() * T::eps(),
            _ => s + r.gauss() * 10f64.powi(-(r.below(16) as i32)) * 1e-2,
        }
    };
    let v: [f64; 3] = match c.rng.below(5) {
        // a threshold in z
        0 | 1 => {
            let z = t(&mut c.rng).clamp(-1.0, 1.0);
            let p = match c.rng.below(4) {
                0 => c.rng.range(-4, 4) as f64 * std::f64::consts::FRAC_PI_2,
                1 => c.rng.range(-4, 4) as f64 * std::f64::consts::FRAC_PI_4,
                _ => c.rng.uniform(-3.2, 3.2),
            };
            let s = (1.0 - z * z).sqrt();
            [s * p.cos(), s * p.sin(), z]
        }
        // near a pole: the transverse part is what is given
        2 => {
            let (x, y) = (t(&mut c.rng) * 0.5, t(&mut c.rng) * 0.5);
            let z = (1.0 - x * x - y * y).max(0.0).sqrt();
            [x, y, if c.rng.chance(1, 2) { -z } else { z }]
        }
        _ => c.rng.direction(),
    };
    let n = len(&v);
    let mut u = v.map(|x| T::f(x / n));
    // exact poles and axes, with signed zeros
    if c.rng.chance(1, 12) {
        let i = c.rng.below(3);
        u = [T::zero(); 3].map(|x| if c.rng.chance(1, 2) { -x } else { x });
        u[i] = if c.rng.chance(1, 2) { T::one() } else { -T::one() };
    }
    // an exact threshold in z
    if c.rng.chance(1, 10) {
        let z = T::f(c.rng.pick(&[0.5, -0.5, 0.0, -0.0, 0.25, 0.75]));
        let z = if c.rng.chance(1, 2) { c.rng.nudge(z) } else { z };
        let h = u[0].hypot(u[1]);
        if h > T::zero() {
            let s = (T::one() - z * z).sqrt();
            u = [u[0] / h * s, u[1] / h * s, z];
        }
    }
    u
}

fn proper<T: Fl>(c: &mut Ctx, op: &'static str, m: [[f64; 3]; 3], k: f64, d: &dyn Fn() -> String) {
    c.op(op);
    let tol = T::eps() * k;
    let id: Vec<f64> = (0..9).map(|i| dot3(m[i / 3], m[i % 3])).collect();
    c.check(dist(&id, &[1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0]) <= tol, "orthonormal", || format!("{m:?}; {}", d()));
    let det = dot3(cross(m[0], m[1]), m[2]);
    c.check((det - 1.0).abs() <= tol, "determinant one", || format!("determinant {det} of {m:?}; {}", d()));
}
fn same3<T: Fl>(c: &mut Ctx, op: &'static str, got: [f64; 3], want: [f64; 3], k: f64, d: &dyn Fn() -> String) {
    c.op(op);
    c.check(dist(&got, &want) <= T::eps() * k, op, || format!("got {got:?}, expected {want:?}; {}", d()));
}
fn mat<T: Fl>(m: Linear<T, 3>) -> [[f64; 3]; 3] {
    m.into_matrix().into_array_of_arrays().map(|r| r.map(|x| x.d()))
}
fn columns<T: Fl>(r: &Rotation3<T>) -> [[f64; 3]; 3] {
    let e = |i: usize| {
        let mut v = [T::zero(); 3];
        v[i] = T::one();
        f(r.apply(Vector::from(v)))
    };
    [e(0), e(1), e(2)]
}

fn any<T: Fl>(c: &mut Ctx) {
    let u: [T; 3] = unit(c);
    c.input(hash_u64s(u.iter().map(|x| x.bits())));
    let ud = u.map(|x| x.d());
    let d = || format!("direction {u:?} ({})", T::NAME);
    c.sample(d);
    let dir = Vector::from(u);
    let back = Vector::from([T::zero(), T::zero(), -T::one()]);
    let r = Rotation3::look_at_any(dir);
    same3::<T>(c, "Rotation3::look_at_any maps -z to the direction", f(r.apply(back)), ud, 48.0, &d);
    proper::<T>(c, "Rotation3::look_at_any is a rotation", columns(&r), 64.0, &d);
    let n2 = r.into_quaternion().into_array().iter().map(|x| x.d() * x.d()).sum::<f64>();
    c.check((n2 - 1.0).abs() <= T::eps() * 32.0, "unit quaternion", || format!("{n2}; {}", d()));
    same3::<T>(c, "to_linear agrees", f(r.to_linear().apply(back)), ud, 64.0, &d);
    let m = Linear::look_at_any(dir);
    same3::<T>(c, "Linear::look_at_any maps -z to the direction", f(m.apply(back)), ud, 48.0, &d);
    proper::<T>(c, "Linear::look_at_any is a rotation", mat(m), 64.0, &d);
}

fn look<T: Fl>(c: &mut Ctx) {
    let u: [T; 3] = unit(c);
    let ud = u.map(|x| x.d());
    let lim = if T::NAME == "f32" { 12 } else { 80 };
    let s = if c.rng.chance(1, 2) { 1.0 } else { 10f64.powi(c.rng.range(-lim, lim) as i32) };
    let up: [T; 3] = match c.rng.below(5) {
        0 => [0.0, 1.0, 0.0].map(|x| T::f(x * s)),
        1 => {
            let i = c.rng.below(3);
            let g = if c.rng.chance(1, 2) { s } else { -s };
            std::array::from_fn(|k| if k == i { T::f(g) } else { T::zero() })
        }
        // close to the direction or to its opposite
        2 => {
            let e = 10f64.powi(-(c.rng.below(4) as i32));
            let g = if c.rng.chance(1, 2) { s } else { -s };
            let w: [f64; 3] = c.rng.direction();
            std::array::from_fn(|k| T::f((ud[k] + e * w[k]) * g))
        }
        // orthogonal to it
        3 => {
            let w: [f64; 3] = c.rng.direction();
            cross(ud, w).map(|x| T::f(x * s))
        }
        _ => c.rng.direction::<3>().map(|x| T::f(x * s)),
    };
    let wd = up.map(|x| x.d());
    let lw = len(&wd);
    let sin = len(&cross(ud, wd.map(|x| x / lw)));
    if !(sin > 1e-4) {
        return;
    }
    // neither the squares of up x dir nor those of up may leave the range of T
    let (lo, hi) = if T::NAME == "f32" { (1e-14, 1e16) } else { (1e-140, 1e145) };
    if !(lw * sin > lo && lw < hi) {
        return;
    }
    c.input(hash_u64s(u.iter().chain(&up).map(|x| x.bits())));
    let d = || format!("direction {u:?} and up {up:?} ({})", T::NAME);
    let m = Linear::look_at(Vector::from(u), Vector::from(up));
    let k = 24.0 + 24.0 / sin;
    let p = dot3(ud, wd.map(|x| x / lw)) / dot3(ud, ud);
    let o: [f64; 3] = std::array::from_fn(|i| wd[i] / lw - p * ud[i]);
    let lo = len(&o);
    let z = Vector::from([T::zero(), T::zero(), -T::one()]);
    let y = Vector::from([T::zero(), T::one(), T::zero()]);
    let x = Vector::from([T::one(), T::zero(), T::zero()]);
    same3::<T>(c, "Linear::look_at maps -z to the direction", f(m.apply(z)), ud, 16.0, &d);
    same3::<T>(c, "Linear::look_at maps y to up", f(m.apply(y)), o.map(|t| t / lo), k, &d);
    same3::<T>(c, "Linear::look_at maps x to the right", f(m.apply(x)), cross(ud, o.map(|t| t / lo)), k, &d);
    proper::<T>(c, "Linear::look_at is a rotation", mat(m), k, &d);
}

/// every direction with components from a small grid, systematically
fn grid<T: Fl>(c: &mut Ctx) {
    let g = [-1.0, -0.5, -0.25, -1e-9, -0.0, 0.0, 1e-9, 0.25, 0.5, 1.0];
    let i = c.index as usize;
    let v = [g[i % 10], g[i / 10 % 10], g[i / 100 % 10]];
    let n = len(&v);
    if n < 0.1 {
        return;
    }
    let u = v.map(|x| T::f(x / n));
    let ud = u.map(|x| x.d());
    c.input(hash_u64s(u.iter().map(|x| x.bits())));
    let d = || format!("grid direction {u:?} ({})", T::NAME);
    let z = Vector::from([T::zero(), T::zero(), -T::one()]);
    let r = Rotation3::look_at_any(Vector::from(u));
    same3::<T>(c, "Rotation3::look_at_any maps -z to the direction", f(r.apply(z)), ud, 48.0, &d);
    proper::<T>(c, "Rotation3::look_at_any is a rotation", columns(&r), 64.0, &d);
    let m = Linear::look_at_any(Vector::from(u));
    same3::<T>(c, "Linear::look_at_any maps -z to the direction", f(m.apply(z)), ud, 48.0, &d);
    proper::<T>(c, "Linear::look_at_any is a rotation", mat(m), 64.0, &d);
}

fn main() {
    let mut s = Suite::new(
        "C17",
        "a case builds look-at rotations for a direction (generic, at the poles, the equator and thresholds, and their neighbours) \
         and up vectors of any size and angle; non-trivial: directions (hashed) differ",
    );
    s.section("grid_f64", 1000, grid::<f64>);
    s.section("grid_f32", 1000, grid::<f32>);
    s.section("any_f64", 12000, any::<f64>);
    s.section("any_f32", 12000, any::<f32>);
    s.section("look_f64", 8000, look::<f64>);
    s.section("look_f32", 8000, look::<f32>);
    s.section("any_wide", 2000, any::<Wide>);
    s.section("look_wide", 2000, look::<Wide>);
    s.run();
}
