//! C16: rotations are rigid and agree with their angle, axis and matrix.
use harness::*;
use vecmat::transform::{Linear, Rotation2, Rotation3};
use vecmat::{Complex, Quaternion, Transform, Vector};

fn wide_angle<T: Fl>(r: &mut Rng) -> T {
    match r.below(8) {
        // many turns
        0 => T::f(r.gauss() * 1e4),
        1 => T::f(r.range(-1000, 1000) as f64),
        2 => {
            let t: T = r.special();
            if t.is_finite() && t.abs() < T::f(1e6) {
                t
            } else {
                T::zero()
            }
        }
        _ => r.angle(),
    }
}
fn some_point<T: Fl, const N: usize>(r: &mut Rng) -> [T; N] {
    let lim = if T::NAME == "f32" { 12 } else { 100 };
    let s = if r.chance(1, 2) { 1.0 } else { 10f64.powi(r.range(-lim, lim) as i32) };
    match r.below(4) {
        0 => r.direction::<N>().map(|x| T::f(x * s)),
        1 => std::array::from_fn(|_| T::f(r.range(-2, 2) as f64 * s)),
        _ => std::array::from_fn(|_| T::f(r.gauss() * s)),
    }
}
fn f<T: Fl, const N: usize>(v: Vector<T, N>) -> [f64; N] {
    v.into_array().map(|x| x.d())
}
/// sine and cosine in f64 of the exact T value; interpreters may add noise
fn slack(c: &Ctx) -> f64 {
    if cfg!(miri) || c.miri {
        64.0
    } else {
        1.0
    }
}
macro_rules! near {
    ($c:expr, $t:ty, $op:expr, $got:expr, $want:expr, $mag:expr, $k:expr, $d:expr) => {{
        let (g, w) = ($got, $want);
        let sl = slack($c);
        $c.op($op);
        $c.check(dist(&g, &w) <= $mag * <$t>::eps() * $k * sl + <$t>::min_positive_value().d() * 16.0, $op, || format!("got {g:?}, expected {w:?}; {}", $d()));
    }};
}

fn rot2<T: Fl>(c: &mut Ctx) {
    let (a, b): (T, T) = (wide_angle(&mut c.rng), wide_angle(&mut c.rng));
    let v: [T; 2] = some_point(&mut c.rng);
    let u: [T; 2] = some_point(&mut c.rng);
    c.input(hash_u64s([a.bits(), b.bits(), v[0].bits(), v[1].bits()]));
    let d = || format!("Rotation2<{}> by {a:?} (and {b:?}) of {v:?}", T::NAME);
    c.sample(d);
    let r = Rotation2::<T>::new(a);
    let s = Rotation2::<T>::new(b);
    let (vd, ud) = (v.map(|x| x.d()), u.map(|x| x.d()));
    let turn = |t: f64, v: [f64; 2]| [v[0] * t.cos() - v[1] * t.sin(), v[0] * t.sin() + v[1] * t.cos()];
    let (ad, bd) = (a.d(), b.d());
    let (lv, lu) = (len(&vd), len(&ud));
    let p = Vector::from(v);
    near!(c, T, "rotates by the angle, counter-clockwise", f(r.apply(p)), turn(ad, vd), lv, 8.0, d);
    near!(c, T, "preserves length", [len(&f(r.apply(p)))], [lv], lv, 8.0, d);
    let (ru, rv) = (f(r.apply(Vector::from(u))), f(r.apply(p)));
    near!(c, T, "preserves inner products", [ru[0] / lu.max(1e-300) * rv[0] + ru[1] / lu.max(1e-300) * rv[1]], [ud[0] / lu.max(1e-300) * vd[0] + ud[1] / lu.max(1e-300) * vd[1]], lv, 16.0, d);
    near!(c, T, "preserves orientation", [ru[0] / lu.max(1e-300) * rv[1] - ru[1] / lu.max(1e-300) * rv[0]], [ud[0] / lu.max(1e-300) * vd[1] - ud[1] / lu.max(1e-300) * vd[0]], lv, 16.0, d);
    // accessor
    let back = r.angle();
    c.check(back.is_finite() && back.abs() <= T::PI() * T::f(2.0), "angle is an angle", || format!("{back:?}; {}", d()));
    near!(c, T, "angle rebuilds the rotation", turn(back.d(), vd), turn(ad, vd), lv, 16.0, d);
    near!(c, T, "angle rebuilds the rotation", f(Rotation2::<T>::new(back).apply(p)), turn(ad, vd), lv, 16.0, d);
    // small angles are not rounded away
    if ad.abs() < 1.0 && ad.abs() > T::min_positive_value().d() {
        near!(c, T, "angle of a small rotation", [back.d()], [ad], ad.abs(), 16.0, d);
    }
    let m: Linear<T, 2> = r.to_linear();
    near!(c, T, "to_linear has the same action", f(m.apply(p)), turn(ad, vd), lv, 8.0, d);
    let k = m.into_matrix().into_array_of_arrays();
    near!(c, T, "to_linear", [k[0][0].d(), k[0][1].d(), k[1][0].d(), k[1][1].d()], [ad.cos(), -ad.sin(), ad.sin(), ad.cos()], 1.0, 4.0, d);
    let two = |t: f64, u: f64, v| turn(t, turn(u, v));
    near!(c, T, "composition adds angles", f(r.chain(s).apply(p)), two(ad, bd, vd), lv, 16.0, d);
    near!(c, T, "composition adds angles", turn(r.chain(s).angle().d(), vd), two(ad, bd, vd), lv, 24.0, d);
    near!(c, T, "to_linear of a composition", f(r.chain(s).to_linear().apply(p)), two(ad, bd, vd), lv, 16.0, d);
    near!(c, T, "inv rotates back", f(r.inv().apply(r.apply(p))), vd, lv, 16.0, d);
    near!(c, T, "inv rotates by the opposite angle", f(r.inv().apply(p)), turn(-ad, vd), lv, 8.0, d);
    near!(c, T, "deriv rotates the direction", f(r.deriv(Vector::from(u), p)), turn(ad, vd), lv, 8.0, d);
    near!(c, T, "identity is the rotation by zero", f(Rotation2::<T>::identity().apply(p)), vd, lv, 1.0, d);
    // from any unit complex number
    let z: [T; 2] = c.rng.unit_vec();
    let zd = z.map(|x| x.d());
    let q = Rotation2::from_complex(Complex::from_array(z));
    let e = || format!("unit complex {z:?}; {}", d());
    near!(c, T, "from a unit complex number", f(q.apply(p)), cmul(zd, vd), lv, 8.0, e);
    near!(c, T, "angle rebuilds the rotation", turn(q.angle().d(), vd), cmul(zd, vd), lv, 16.0, e);
    near!(c, T, "to_linear has the same action", f(q.to_linear().apply(p)), cmul(zd, vd), lv, 8.0, e);
}

fn rot3<T: Fl>(c: &mut Ctx) {
    let axis: [T; 3] = c.rng.unit_vec();
    let (a, b): (T, T) = (wide_angle(&mut c.rng), wide_angle(&mut c.rng));
    let (v, u): ([T; 3], [T; 3]) = (some_point(&mut c.rng), some_point(&mut c.rng));
    c.input(hash_u64s(axis.iter().chain(&v).chain([&a, &b]).map(|x| x.bits())));
    let d = || format!("Rotation3<{}> about {axis:?} by {a:?} (and {b:?}) of {v:?}", T::NAME);
    c.sample(d);
    let kd = axis.map(|x| x.d());
    let (vd, ud) = (v.map(|x| x.d()), u.map(|x| x.d()));
    let (ad, bd) = (a.d(), b.d());
    let (lv, lu) = (len(&vd), len(&ud).max(1e-300));
    let (ka, p) = (Vector::from(axis), Vector::from(v));
    let r = Rotation3::<T>::new(ka, a);
    let want = rodrigues(kd, ad, vd);
    near!(c, T, "rotates by the angle, right-handed", f(r.apply(p)), want, lv, 24.0, d);
    near!(c, T, "preserves length", [len(&f(r.apply(p)))], [lv], lv, 24.0, d);
    let un = ud.map(|x| x / lu);
    let (ru, rv) = (f(r.apply(Vector::from(u))).map(|x| x / lu), f(r.apply(p)));
    near!(c, T, "preserves inner products", [dot3(ru, rv)], [dot3(un, vd)], lv, 48.0, d);
    near!(c, T, "preserves orientation", cross(ru, rv), rodrigues(kd, ad, cross(un, vd)), lv, 64.0, d);
    near!(c, T, "leaves the axis fixed", f(r.apply(ka)), kd, 1.0, 24.0, d);
    let q = r.into_quaternion().into_array().map(|x| x.d());
    check_accessors(c, r, q, vd, want, &d);
    if ad.abs() < 1.0 && ad.abs() > T::min_positive_value().sqrt().d() * 16.0 {
        near!(c, T, "angle of a small rotation", [r.angle().d()], [ad.abs()], ad.abs(), 24.0, d);
    }
    // composition about the same axis adds angles
    let s = Rotation3::<T>::new(ka, b);
    let two = rodrigues(kd, ad, rodrigues(kd, bd, vd));
    near!(c, T, "composition adds angles", f(r.chain(s).apply(p)), two, lv, 64.0, d);
    near!(c, T, "to_linear of a composition", f(r.chain(s).to_linear().apply(p)), two, lv, 64.0, d);
    near!(c, T, "inv rotates back", f(r.inv().apply(r.apply(p))), vd, lv, 48.0, d);
    near!(c, T, "inv rotates by the opposite angle", f(r.inv().apply(p)), rodrigues(kd, -ad, vd), lv, 24.0, d);
    near!(c, T, "deriv rotates the direction", f(r.deriv(Vector::from(u), p)), want, lv, 24.0, d);
    near!(c, T, "identity leaves points alone", f(Rotation3::<T>::identity().apply(p)), vd, lv, 1.0, d);
    // about another axis: composition is in the documented order
    let axis2: [T; 3] = c.rng.unit_vec();
    let t = Rotation3::<T>::new(Vector::from(axis2), b);
    let both = rodrigues(kd, ad, rodrigues(axis2.map(|x| x.d()), bd, vd));
    near!(c, T, "composition of different axes", f(r.chain(t).apply(p)), both, lv, 64.0, || format!("second axis {axis2:?}; {}", d()));
    let q = r.chain(t).into_quaternion().into_array().map(|x| x.d());
    check_accessors(c, r.chain(t), q, vd, both, &d);
}

/// axis, angle and matrix of a rotation whose action on `v` is known
fn check_accessors<T: Fl>(c: &mut Ctx, r: Rotation3<T>, q: [f64; 4], v: [f64; 3], want: [f64; 3], d: &dyn Fn() -> String) {
    let lv = len(&v);
    let p = Vector::from(v.map(T::f));
    let im = len(&q[1..]);
    let ang = r.angle();
    c.check(ang.is_finite() && ang.abs() <= T::PI() * T::f(2.0) * (T::one() + T::epsilon() * T::f(4.0)), "angle is an angle", || format!("{ang:?}; {}", d()));
    // an axis exists unless the vector part is zero (or its square is)
    if im > T::min_positive_value().sqrt().d() * 16.0 {
        let ax = f(r.axis());
        near!(c, T, "axis is a unit vector", [len(&ax)], [1.0], 1.0, 8.0, d);
        near!(c, T, "axis is fixed", f(r.apply(Vector::from(ax.map(T::f)))), ax, 1.0, 32.0, d);
        near!(c, T, "axis and angle rebuild the rotation", rodrigues(ax, ang.d(), v), want, lv, 96.0, d);
        near!(c, T, "axis and angle rebuild the rotation", f(Rotation3::new(r.axis(), ang).apply(p)), want, lv, 96.0, d);
    } else {
        near!(c, T, "angle of the identity", [ang.d().sin(), ang.d().cos()], [0.0, 1.0], 1.0, 8.0, d);
    }
    let m: Linear<T, 3> = r.to_linear();
    near!(c, T, "to_linear has the same action", f(m.apply(p)), want, lv, 64.0, d);
    let a = m.into_matrix().into_array_of_arrays().map(|r| r.map(|x| x.d()));
    let id: Vec<f64> = (0..9).map(|k| dot3(a[k / 3], a[k % 3])).collect();
    near!(c, T, "to_linear is orthogonal", id, [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0], 1.0, 96.0, d);
    near!(c, T, "to_linear has determinant one", [dot3(cross(a[0], a[1]), a[2])], [1.0], 1.0, 96.0, d);
}

/// rotations given by any unit quaternion, both signs of every part
fn unit_quaternion<T: Fl>(c: &mut Ctx) {
    let q: [T; 4] = c.rng.unit_vec();
    let v: [T; 3] = some_point(&mut c.rng);
    c.input(hash_u64s(q.iter().chain(&v).map(|x| x.bits())));
    let d = || format!("Rotation3<{}> of the unit quaternion {q:?} on {v:?}", T::NAME);
    let (qd, vd) = (q.map(|x| x.d()), v.map(|x| x.d()));
    let r = Rotation3::from_quaternion(Quaternion::from_array(q));
    let im = qmul(qmul(qd, [0.0, vd[0], vd[1], vd[2]]), [qd[0], -qd[1], -qd[2], -qd[3]]);
    let want = [im[1], im[2], im[3]];
    let lv = len(&vd);
    near!(c, T, "from a unit quaternion", f(r.apply(Vector::from(v))), want, lv, 24.0, d);
    check_accessors(c, r, qd, vd, want, &d);
    let back = qmul(qmul([qd[0], -qd[1], -qd[2], -qd[3]], [0.0, vd[0], vd[1], vd[2]]), qd);
    near!(c, T, "inv rotates back", f(r.inv().apply(Vector::from(v))), [back[1], back[2], back[3]], lv, 24.0, d);
    // q and -q are the same rotation
    let n = Rotation3::from_quaternion(-Quaternion::from_array(q));
    near!(c, T, "opposite quaternions rotate alike", f(n.apply(Vector::from(v))), want, lv, 24.0, d);
    check_accessors(c, n, qd.map(|x| -x), vd, want, &d);
}

/// many small turns about one axis add up
fn many<T: Fl>(c: &mut Ctx) {
    let axis: [T; 3] = c.rng.unit_vec();
    let v: [T; 3] = some_point(&mut c.rng);
    let n = 2 + c.rng.below(30);
    let (mut sum, mut tot) = (0.0, 0.0f64);
    let mut r = Rotation3::<T>::identity();
    let mut s = Rotation2::<T>::identity();
    for _ in 0..n {
        let a: T = wide_angle(&mut c.rng);
        sum += a.d();
        tot += a.d().abs();
        r = Rotation3::<T>::new(Vector::from(axis), a).chain(r);
        s = s.chain(Rotation2::<T>::new(a));
    }
    c.input(hash_u64s(axis.iter().chain(&v).map(|x| x.bits())));
    let d = || format!("{} turns of {} about {axis:?} totalling {sum}", n, T::NAME);
    let vd = v.map(|x| x.d());
    // the f64 sum of the angles is itself rounded
    let extra = 1.0 + tot * f64::EPSILON * n as f64 / T::eps();
    near!(c, T, "many turns add up", f(r.apply(Vector::from(v))), rodrigues(axis.map(|x| x.d()), sum, vd), len(&vd), (n as f64 + extra) * 24.0, d);
    let w = [vd[0], vd[1]];
    let got = f(s.apply(Vector::from([v[0], v[1]])));
    near!(c, T, "many turns add up", got, [w[0] * sum.cos() - w[1] * sum.sin(), w[0] * sum.sin() + w[1] * sum.cos()], len(&w), (n as f64 + extra) * 24.0, d);
}

/// the planar matrix form is exact over any field
fn exact<F: Exact>(c: &mut Ctx) {
    let t: F = loop {
        let t = F::any(&mut c.rng);
        if (F::one() + t * t).unit() {
            break t;
        }
    };
    let k = (F::one() + t * t).inv();
    let (re, im) = ((F::one() - t * t) * k, (t + t) * k);
    let v: [F; 2] = std::array::from_fn(|_| F::any(&mut c.rng));
    c.input(hash_u64s([t, v[0], v[1]].map(|x| x.bits())));
    let r = Rotation2::from_complex(Complex::new(re, im));
    let d = || format!("unit ({re:?}, {im:?}) on {v:?} over the {}", F::RING);
    let one = |i: usize| if i == 0 { [F::one(), F::zero()] } else { [F::zero(), F::one()] };
    c.eq("Rotation2 over a field", r.apply(Vector::from(v)).into_array(), cmul([re, im], v), d);
    c.eq("to_linear over a field", r.to_linear().apply(Vector::from(v)).into_array(), cmul([re, im], v), d);
    for i in 0..2 {
        c.eq("to_linear over a field", r.to_linear().apply(Vector::from(one(i))).into_array(), cmul([re, im], one(i)), d);
    }
    c.eq("to_linear over a field", r.to_linear().into_matrix().det(), F::one(), d);
    c.eq("inv over a field", r.inv().apply(r.apply(Vector::from(v))).into_array(), v, d);
    c.eq("deriv over a field", r.deriv(Vector::from(one(0)), Vector::from(v)).into_array(), cmul([re, im], v), d);
}

fn main() {
    let mut s = Suite::new(
        "C16",
        "a case builds rotations from random axes and angles (special, tiny, negative, many turns) or unit numbers and compares the \
         action on random points with the trigonometric formulas; non-trivial: axes, angles and points (hashed) differ",
    );
    s.section("plane_f64", 6000, rot2::<f64>);
    s.section("plane_f32", 4000, rot2::<f32>);
    s.section("space_f64", 6000, rot3::<f64>);
    s.section("space_f32", 4000, rot3::<f32>);
    s.section("unit_quaternion_f64", 4000, unit_quaternion::<f64>);
    s.section("unit_quaternion_f32", 3000, unit_quaternion::<f32>);
    s.section("many_f64", 1000, many::<f64>);
    s.section("many_f32", 1000, many::<f32>);
    s.section("plane_wide", 1000, rot2::<Wide>);
    s.section("space_wide", 1000, rot3::<Wide>);
    s.section("unit_quaternion_wide", 1000, unit_quaternion::<Wide>);
    s.section("exact", 1000, exact::<Fp>);
    s.section("exact_small", 1000, |c| run_table!(c, [exact::<Zn<2>>, exact::<Zn<3>>, exact::<Zn<7>>, exact::<Zn<5>>] as [fn(&mut Ctx); 4]));
    s.run();
}
