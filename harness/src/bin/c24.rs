//! C24: values are plain data and operations are pure.
//! The workload of C23 (its results as a text of events) is run in several
//! histories and from several threads at once; every run of one task must give
//! the same events.
use harness::*;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::{Arc, Barrier};
use vecmat::complex::Moebius;
use vecmat::vector::GroupIter;
use vecmat::transform::{Affine, Chain, Linear, Rotation2, Rotation3, Scale, Shift};
use vecmat::{Complex, Matrix, Quaternion, Vector};

#[path = "c23.rs"]
mod work;

// ------------------------------------------------------------- purity

#[derive(Clone, Copy, Debug)]
struct Task {
    f: fn(&mut Ctx),
    section: &'static str,
    seed: u64,
    alter: u64,
    index: u64,
}
fn perform(c: &mut Ctx, t: &Task) -> String {
    let mut s = c.scratch(Rng::altered(t.seed, t.alter), t.index);
    s.section = t.section;
    let _ = work::take();
    (t.f)(&mut s);
    let events = work::take();
    s.section = c.section;
    c.absorb(s);
    events
}
fn agree(c: &mut Ctx, how: &'static str, t: &Task, a: &str, b: &str) {
    c.op(how);
    if c.miri {
        // the interpreter adds noise to floats, of the operands too; it judges data races
        return;
    }
    let (mut x, mut y) = (a.lines(), b.lines());
    loop {
        let (p, q) = (x.next(), y.next());
        if p.is_none() && q.is_none() {
            return;
        }
        c.check(p == q, how, || format!("one operation, the same operands, two results: {:?} and {:?} ({}, seed {:#x}, draw {} altered)", p, q, t.section, t.seed, t.alter));
    }
}
fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
}
fn tasks(c: &mut Ctx, kinds: usize, each: usize) -> Vec<Task> {
    let table = work::table();
    let mut out = Vec::new();
    for _ in 0..kinds {
        let (section, _, fs) = &table[c.rng.below(table.len())];
        // one kind of case, so that it meets operands which are almost the same
        let which = c.rng.below(fs.len());
        let seeds = [c.rng.u64(), c.rng.u64()];
        let index = c.rng.below(64) as u64;
        for k in 0..each {
            let (seed, alter) = match k {
                0 => (seeds[0], 0),
                1 => (seeds[1], 0),
                _ => (seeds[0], c.rng.below(24) as u64 + 1),
            };
            out.push(Task { f: fs[which], section, seed, alter, index });
        }
    }
    out
}
fn histories(c: &mut Ctx) {
    let mut ts = tasks(c, 2, 6);
    c.sample(|| format!("{ts:?}"));
    let first: Vec<String> = ts.iter().map(|t| perform(c, t)).collect();
    let mut order: Vec<usize> = (0..ts.len()).chain(0..ts.len()).collect();
    shuffle(&mut c.rng, &mut order);
    for i in order {
        let again = perform(c, &ts[i]);
        agree(c, "same result in another history", &ts[i], &first[i], &again);
    }
    // a new thread has no history of its own
    let k = c.rng.below(ts.len());
    let t = ts.swap_remove(k);
    let mut s = c.scratch(Rng::new(0), c.index);
    let (s, e) = std::thread::spawn(move || {
        let e = perform(&mut s, &t);
        (s, e)
    })
    .join()
    .expect("task");
    c.absorb(s);
    agree(c, "same result in a new thread", &t, &first[k], &e);
}
fn threads(c: &mut Ctx) {
    let ts = Arc::new(if c.miri { tasks(c, 1, 2) } else { tasks(c, 3, 5) });
    let first: Vec<String> = ts.iter().map(|t| perform(c, t)).collect();
    let n = if c.miri { 2 } else { 4 };
    let gate = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let (ts, gate) = (ts.clone(), gate.clone());
            let seed = c.rng.u64();
            let mut s = c.scratch(Rng::new(seed), c.index);
            std::thread::spawn(move || {
                let mut order: Vec<usize> = (0..ts.len()).collect();
                shuffle(&mut s.rng, &mut order);
                gate.wait();
                let got: Vec<(usize, String)> = order.into_iter().map(|i| (i, perform(&mut s, &ts[i]))).collect();
                (s, got)
            })
        })
        .collect();
    for h in hs {
        let (s, got) = h.join().expect("task");
        c.absorb(s);
        for (i, e) in got {
            agree(c, "same result beside other threads", &ts[i], &first[i], &e);
        }
    }
}
/// one value, read from several threads at once
fn shared(c: &mut Ctx) {
    let a: Arc<Vec<f64>> = Arc::new((0..16).map(|_| c.rng.tame()).collect());
    c.input(hash_u64s(a.iter().map(|x| x.to_bits())));
    let m = Arc::new(Matrix::<f64, 4, 4>::init({
        let mut k = 0;
        let a = a.clone();
        move || {
            k += 1;
            a[k - 1]
        }
    }));
    let n = if c.miri { 2 } else { 4 };
    let gate = Arc::new(Barrier::new(n));
    let look = |m: &Matrix<f64, 4, 4>| -> Vec<u64> {
        let mut o: Vec<u64> = m.iter().map(|x| x.to_bits()).collect();
        o.push(m.det().to_bits());
        o.extend(m.adj().transpose().iter().map(|x| x.to_bits()));
        o.push(hash_str(&format!("{m:?}")));
        o
    };
    let want = look(&m);
    c.op("one value shared by threads");
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let (m, gate) = (m.clone(), gate.clone());
            std::thread::spawn(move || {
                gate.wait();
                (0..3).map(|_| look(&m)).collect::<Vec<_>>()
            })
        })
        .collect();
    for h in hs {
        for got in h.join().expect("reader") {
            c.check(got == want, "one value shared by threads", || format!("{m:?}: a reader saw {got:x?}, the owner {want:x?}"));
        }
    }
}

// ------------------------------------------------- clones and equality

/// A value with components of type E.
trait Comp<E>: Clone + PartialEq {
    const N: usize;
    const NAME: &'static str;
    fn of(e: Vec<E>) -> Self;
    fn parts(self) -> Vec<E>;
}
// for the components in use only: others need not be comparable
macro_rules! comp {
    ($name:literal, $n:expr, $t:ident [$E:ty $(, $k:literal)?] |$e:ident| $of:expr, |$s:ident| $parts:expr) => {
        impl Comp<$E> for $t<$E $(, $k)?> {
            const N: usize = $n;
            const NAME: &'static str = $name;
            fn of(e: Vec<$E>) -> Self {
                let mut it = e.into_iter();
                #[allow(unused_mut)]
                let mut $e = || it.next().unwrap();
                $of
            }
            fn parts(self) -> Vec<$E> {
                let $s = self;
                $parts
            }
        }
    };
}
fn m2<E>(mut e: impl FnMut() -> E) -> Matrix<E, 2, 2> {
    Matrix::from([[e(), e()], [e(), e()]])
}
fn l2<E>(m: Matrix<E, 2, 2>) -> Vec<E> {
    m.into_iter().collect()
}
macro_rules! comps {
    ($($E:ty),*) => {$(
        comp!("Vector", 3, Vector[$E, 3] |e| Vector::from([e(), e(), e()]), |s| s.into_iter().collect());
        comp!("Matrix", 6, Matrix2x3[$E] |e| Matrix::from([[e(), e(), e()], [e(), e(), e()]]), |s| s.into_iter().collect());
        comp!("Complex", 2, Complex[$E] |e| Complex::from([e(), e()]), |s| s.into_array().into_iter().collect());
        comp!("Quaternion", 4, Quaternion[$E] |e| Quaternion::from([e(), e(), e(), e()]), |s| s.into_array().into_iter().collect());
        comp!("Moebius", 4, Moebius[$E] |e| Moebius::new(e(), e(), e(), e()), |s| l2(s.into_matrix()));
    )*};
}
macro_rules! comps_transform {
    ($($E:ty),*) => {$(
        comp!("Shift", 2, Shift[$E, 2] |e| Shift::from_vector(Vector::from([e(), e()])), |s| s.into_vector().into_iter().collect());
        comp!("Scale", 1, Scale[$E] |e| Scale::from_mag(e()), |s| vec![s.into_mag()]);
        comp!("Linear", 4, Linear[$E, 2] |e| Linear::from_matrix(m2(e)), |s| l2(s.into_matrix()));
        comp!("Rotation2", 2, Rotation2[$E] |e| Rotation2::from_complex(Complex::from([e(), e()])), |s| s.into_complex().into_array().into_iter().collect());
        comp!("Rotation3", 4, Rotation3[$E] |e| Rotation3::from_quaternion(Quaternion::from([e(), e(), e(), e()])), |s| s.into_quaternion().into_array().into_iter().collect());
    )*};
}
type Matrix2x3<T> = Matrix<T, 2, 3>;
comps!(f64, f32, i32, String);
comps_transform!(f64, f32, i32);
macro_rules! comp_chain {
    ($name:literal, $n:expr, $p:ident, $e:ident, $t:ty, $of:expr, $parts:expr) => {
        impl Comp<$e> for $t {
            const N: usize = $n;
            const NAME: &'static str = $name;
            fn of(e: Vec<$e>) -> Self {
                let mut it = e.into_iter();
                let of: fn(&mut dyn FnMut() -> $e) -> Self = $of;
                of(&mut || it.next().unwrap())
            }
            fn parts(self) -> Vec<$e> {
                let (a, b) = self.split();
                let parts: fn(_, _) -> Vec<$e> = $parts;
                parts(a, b)
            }
        }
    };
}
macro_rules! chains {
    ($($t:ident),*) => {$(
        comp_chain!("Affine", 6, P, $t, Affine<$t, 2>,
            |e| Chain::new(Shift::from_vector(Vector::from([e(), e()])), Linear::from_matrix(m2(e))),
            |a: Shift<$t, 2>, b: Linear<$t, 2>| a.into_vector().into_iter().chain(b.into_matrix()).collect());
        comp_chain!("scale after shift", 4, P, $t, Chain<Scale<$t>, Shift<$t, 3>, Vector<$t, 3>>,
            |e| Chain::new(Scale::from_mag(e()), Shift::from_vector(Vector::from([e(), e(), e()]))),
            |a: Scale<$t>, b: Shift<$t, 3>| std::iter::once(a.into_mag()).chain(b.into_vector()).collect());
    )*};
}
chains!(f64, f32, i32);

fn clone_eq<T: Comp<E>, E: Clone + PartialEq + std::fmt::Debug>(c: &mut Ctx, draw: fn(&mut Rng) -> E, word: fn(&E) -> u64) {
    let mut e: Vec<E> = (0..T::N).map(|_| draw(&mut c.rng)).collect();
    let words = |v: &[E]| -> Vec<u64> { v.iter().map(word).collect() };
    c.input(hash_u64s(words(&e).into_iter().chain([hash_str(T::NAME)])));
    let a = T::of(e.clone());
    let d = |x: &[E]| format!("{} {x:?}", T::NAME);
    // a clone has the components of the original
    c.op("Clone::clone");
    let k = a.clone();
    let got = k.clone().parts();
    c.check(words(&got) == words(&e), "Clone::clone", || format!("{} became {got:?}", d(&e)));
    let mut other = T::of((0..T::N).map(|_| draw(&mut c.rng)).collect());
    other.clone_from(&a);
    let got = other.parts();
    c.check(words(&got) == words(&e), "Clone::clone_from", || format!("{} became {got:?}", d(&e)));
    // equal exactly if all components are
    let all = |x: &[E], y: &[E]| x.iter().zip(y).all(|(p, q)| p == q);
    let eq = |c: &mut Ctx, x: &T, xe: &[E], y: &T, ye: &[E]| {
        let want = all(xe, ye);
        c.op("==");
        c.check((x == y) == want, "==", || format!("{} == {ye:?} must be {want}", d(xe)));
        c.check((x != y) != want, "!=", || format!("{} != {ye:?} must be {}", d(xe), !want));
    };
    eq(c, &a, &e, &k, &e);
    eq(c, &a, &e, &a, &e);
    let before = e.clone();
    for i in 0..T::N {
        let keep = e[i].clone();
        e[i] = draw(&mut c.rng);
        let b = T::of(e.clone());
        eq(c, &a, &before, &b, &e);
        eq(c, &b, &e, &a, &before);
        e[i] = keep;
    }
    let i = c.rng.below(T::N);
    let j = c.rng.below(T::N);
    e.swap(i, j);
    let b = T::of(e.clone());
    eq(c, &a, &before, &b, &e);
    let got = a.parts();
    c.check(words(&got) == words(&before), "the original is as before", || format!("{} became {got:?}", d(&before)));
}
fn hostile<T: Fl>(r: &mut Rng) -> T {
    match r.below(5) {
        0 => T::nan(),
        1 => T::zero(),
        2 => -T::zero(),
        3 => T::one(),
        _ => r.hostile(),
    }
}
fn small(r: &mut Rng) -> i32 {
    if r.chance(1, 2) { r.range(-1, 1) as i32 } else { r.int() as i32 }
}
fn text(r: &mut Rng) -> String {
    "ab".repeat(r.below(3)) + if r.chance(1, 2) { "" } else { "c" }
}
fn equality(c: &mut Ctx) {
    macro_rules! all { ($E:ty, $draw:expr, $word:expr; $($t:ty),*) => {{
        const T: &[fn(&mut Ctx)] = &[$(|c| clone_eq::<$t, $E>(c, $draw, $word)),*];
        for f in T { f(c); }
    }} }
    macro_rules! basic { ($E:ty, $draw:expr, $word:expr) => { all!($E, $draw, $word; Vector<$E, 3>, Matrix<$E, 2, 3>, Complex<$E>, Quaternion<$E>, Moebius<$E>) } }
    macro_rules! more { ($E:ty, $draw:expr, $word:expr) => {{
        all!($E, $draw, $word; Shift<$E, 2>, Scale<$E>, Linear<$E, 2>, Rotation2<$E>, Rotation3<$E>, Affine<$E, 2>, Chain<Scale<$E>, Shift<$E, 3>, Vector<$E, 3>>)
    }} }
    match c.index % 4 {
        0 => {
            basic!(f64, hostile, |x| x.to_bits());
            more!(f64, hostile, |x| x.to_bits());
        }
        1 => {
            basic!(f32, hostile, |x| x.to_bits() as u64);
            more!(f32, hostile, |x| x.to_bits() as u64);
        }
        2 => {
            basic!(i32, small, |x| *x as u64);
            more!(i32, small, |x| *x as u64);
        }
        _ => basic!(String, text, |x| hash_str(x)),
    }
}

/// clones of containers that own memory do not share it
fn independent(c: &mut Ctx) {
    let a: Vector<Vec<u64>, 4> = vec_from(|_| (0..c.rng.below(5)).map(|_| c.rng.u64()).collect());
    let m: Matrix<Vec<u64>, 2, 3> = mat_from(|_, _| (0..c.rng.below(5)).map(|_| c.rng.u64()).collect());
    c.input(hash_u64s(a.iter().chain(m.iter()).flatten().copied()));
    let (ra, rm): (Vec<_>, Vec<_>) = (a.iter().cloned().collect(), m.iter().cloned().collect());
    let (mut b, mut n) = (a.clone(), m.clone());
    b.iter_mut().for_each(|x| x.push(1));
    n.iter_mut().for_each(|x| x.insert(0, 2));
    let d = || format!("{ra:?} {rm:?}");
    c.op("clones are independent");
    c.check(a.iter().eq(ra.iter()) && m.iter().eq(rm.iter()), "clones are independent", d);
    let ok = b.iter().zip(&ra).all(|(x, y)| x[..y.len()] == y[..] && x.len() == y.len() + 1 && x[y.len()] == 1);
    c.check(ok && n.iter().zip(&rm).all(|(x, y)| x[1..] == y[..] && x[0] == 2), "clones are independent", d);
    // small elements that own something
    let small: Vec<u64> = (0..6).map(|_| c.rng.u64()).collect();
    let p: Vector<Box<u64>, 6> = vec_from(|i| Box::new(small[i]));
    let mut q = p.clone();
    q.iter_mut().for_each(|x| **x = !**x);
    c.check((0..6).all(|i| *p[i] == small[i] && *q[i] == !small[i]), "clones are independent", || format!("{small:x?}: {p:x?} and {q:x?}"));
    let token = Rc::new(());
    let t: Matrix<Rc<()>, 2, 2> = mat_from(|_, _| token.clone());
    let u = t.clone();
    c.check(Rc::strong_count(&token) == 9, "clones are independent", || format!("a 2x2 matrix and its clone hold {} references instead of 8", Rc::strong_count(&token) - 1));
    drop((t, u));
    c.check(Rc::strong_count(&token) == 1, "clones are independent", || format!("{} references are left", Rc::strong_count(&token) - 1));
    drop((a, m));
    let ok = b.iter().zip(&ra).all(|(x, y)| x[..y.len()] == y[..]);
    c.check(ok && n.iter().zip(&rm).all(|(x, y)| x[1..] == y[..]), "clones outlive the original", d);
}

// -------------------------------------------------------- auto traits

macro_rules! has {
    ($t:ty: $tr:path) => {{
        struct Probe<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            fn has(&self) -> bool {
                false
            }
        }
        impl<T> No for Probe<T> {}
        #[allow(dead_code)]
        impl<T: $tr> Probe<T> {
            fn has(&self) -> bool {
                true
            }
        }
        Probe::<$t>(std::marker::PhantomData).has()
    }};
}
fn auto_traits(c: &mut Ctx) {
    c.input(1);
    macro_rules! four {
        ($e:ty; $send:literal, $sync:literal, $copy:literal, $clone:literal; $($name:literal $t:ty),* $(,)?) => {$(
            let got = (has!($t: Send), has!($t: Sync), has!($t: Copy), has!($t: Clone));
            c.op($name);
            c.check(got == ($send, $sync, $copy, $clone), $name, || format!("{} of {}: (Send, Sync, Copy, Clone) is {got:?}, for the element it is {:?}", $name, stringify!($e), ($send, $sync, $copy, $clone)));
        )*};
    }
    macro_rules! elem {
        ($e:ty; $($f:literal),*) => {
            four!($e; $($f),*;
                "element" $e, "Vector" Vector<$e, 3>, "Matrix" Matrix<$e, 2, 3>, "Complex" Complex<$e>, "Quaternion" Quaternion<$e>, "Moebius" Moebius<$e>,
                "Shift" Shift<$e, 2>, "Scale" Scale<$e>, "Linear" Linear<$e, 2>, "Rotation2" Rotation2<$e>, "Rotation3" Rotation3<$e>,
                "Chain" Chain<Scale<$e>, Shift<$e, 2>, Vector<$e, 2>>, "Affine" Affine<$e, 2>)
        };
    }
    struct NoClone;
    elem!(f64; true, true, true, true);
    elem!(String; true, true, false, true);
    elem!(NoClone; true, true, false, false);
    elem!(Cell<u8>; true, false, false, true);
    elem!(Rc<u8>; false, false, false, true);
    elem!(&'static Cell<u8>; false, false, true, true);
    elem!(std::sync::MutexGuard<'static, u8>; false, true, false, false);
    // iterators follow their elements where threads are concerned
    macro_rules! two {
        ($e:ty; $send:literal, $sync:literal; $($name:literal $t:ty),* $(,)?) => {$(
            let got = (has!($t: Send), has!($t: Sync));
            c.op($name);
            // whether an iterator offers them is open, where its elements allow them
            c.check(got.0 <= $send && got.1 <= $sync, $name, || format!("{} of {}: (Send, Sync) is {got:?}, at most {:?} is sound", $name, stringify!($e), ($send, $sync)));
        )*};
    }
    macro_rules! iters {
        ($e:ty; $send:literal, $sync:literal) => {
            two!($e; $send, $sync;
                "Vector::into_iter" <Vector<$e, 3> as IntoIterator>::IntoIter,
                "Matrix::into_iter" <Matrix<$e, 2, 3> as IntoIterator>::IntoIter)
        };
    }
    iters!(f64; true, true);
    iters!(String; true, true);
    iters!(Rc<u8>; false, false);
    iters!(Cell<u8>; true, false);
    iters!(std::sync::MutexGuard<'static, u8>; false, true);
    macro_rules! refs {
        ($e:ty; $send:literal, $sync:literal; $sendm:literal, $syncm:literal) => {
            two!($e; $send, $sync;
                "Vector::iter" <&'static Vector<$e, 3> as IntoIterator>::IntoIter,
                "Matrix::iter" <&'static Matrix<$e, 2, 3> as IntoIterator>::IntoIter);
            two!($e; $sendm, $syncm;
                "Vector::iter_mut" <&'static mut Vector<$e, 3> as IntoIterator>::IntoIter,
                "Matrix::iter_mut" <&'static mut Matrix<$e, 2, 3> as IntoIterator>::IntoIter);
        };
    }
    refs!(f64; true, true; true, true);
    refs!(Rc<u8>; false, false; false, false);
    refs!(Cell<u8>; false, false; true, false);
    refs!(std::sync::MutexGuard<'static, u8>; true, true; false, true);
    // the source counts as well as the elements
    struct Source<T>(T);
    impl<T> Iterator for Source<T> {
        type Item = u8;
        fn next(&mut self) -> Option<u8> {
            None
        }
    }
    two!(u8; true, true; "GroupIter" GroupIter<Source<u8>, 2>);
    two!(Rc<u8>; false, false; "GroupIter" GroupIter<Source<Rc<u8>>, 2>);
    two!(Cell<u8>; true, false; "GroupIter" GroupIter<Source<Cell<u8>>, 2>);
    two!(std::sync::MutexGuard<'static, u8>; false, true; "GroupIter" GroupIter<Source<std::sync::MutexGuard<'static, u8>>, 2>);
}

fn main() {
    let mut s = Suite::new(
        "C24",
        "a case runs one set of operations on almost the same operands in several orders, repeatedly, and from several threads at \
         once, and compares every result; non-trivial: the operand sets (hashed) differ. Further cases clone and compare values \
         that differ in one component, and observe the thread-safety traits of every type",
    );
    s.native("histories", 220, histories);
    s.section("threads", 120, threads);
    s.section("shared", 120, shared);
    s.native("equality", 1600, equality);
    s.section("independent", 400, independent);
    s.section("auto_traits", 4, auto_traits);
    s.run();
}
