//! C01: every element is dropped or handed back exactly once; no
//! uninitialised, freed or out-of-bounds memory is touched, also when user
//! code panics half-way.
use harness::*;
use num_traits::{One, Zero};
use std::iter::Sum;
use vecmat::traits::Dot;
use vecmat::transform::{Chain, Linear, Shift};
use vecmat::vector::GroupIter;
use vecmat::{Complex, Matrix, Quaternion, Vector};

/// Element flavours: heap-owning, zero-sized, over-aligned.
trait Elem: Sized + Clone + Default + PartialEq + 'static {
    const NAME: &'static str;
    fn mk(v: u64) -> Self;
    fn look(&self) -> u64;
    fn alive() -> i64;
}
impl Elem for Tracked {
    const NAME: &'static str = "heap";
    fn mk(v: u64) -> Self {
        Tracked::new(v)
    }
    fn look(&self) -> u64 {
        self.val()
    }
    fn alive() -> i64 {
        ledger_live().len() as i64
    }
}
impl Elem for Zst {
    const NAME: &'static str = "zero-sized";
    fn mk(_: u64) -> Self {
        Zst::new()
    }
    fn look(&self) -> u64 {
        0
    }
    fn alive() -> i64 {
        ZST_ALIVE.with(|c| c.get())
    }
}
#[repr(align(64))]
#[derive(Clone, Default, PartialEq)]
struct Wide(u8, Tracked);
impl Elem for Wide {
    const NAME: &'static str = "over-aligned";
    fn mk(v: u64) -> Self {
        Wide(v as u8, Tracked::new(v))
    }
    fn look(&self) -> u64 {
        self.1.val()
    }
    fn alive() -> i64 {
        Tracked::alive()
    }
}

/// Run one operation cleanly, then again with panics injected at user-code
/// events (closure calls, clones, operators, destructors, iterator steps).
fn drive<E: Elem>(c: &mut Ctx, name: &'static str, dims: &[usize], f: &dyn Fn(&mut Rng)) {
    let seed = c.rng.u64();
    let reset = || {
        ledger_reset();
        ZST_ALIVE.with(|x| x.set(0));
        ZST_DROPS.with(|x| x.set(0));
    };
    c.op(name);
    c.input(hash_u64s([seed, hash_str(name)].into_iter().chain(dims.iter().map(|d| *d as u64))));
    reset();
    let mut d = Doing { name, kind: E::NAME, ..Doing::NOTHING };
    for (x, y) in d.dims.iter_mut().zip(dims) {
        *x = *y;
    }
    doing(d);
    const MANY: u64 = 1 << 40;
    set_fuse(Some(MANY));
    let r = catch(|| f(&mut Rng::new(seed)));
    let left = LEDGER.with(|l| l.borrow().fuse.unwrap_or(MANY));
    let ticks = MANY - left;
    set_fuse(None);
    if let Err(m) = r {
        c.fail(name, format!("panicked: {m}; {} elements, dims {dims:?}", E::NAME));
    }
    let live = E::alive();
    if trapped() {
        return;
    }
    c.check(live == 0, "ownership: elements left alive or lost after the operation", || {
        format!("{name}: {live} {} elements neither dropped nor returned; dims {dims:?}", E::NAME)
    });
    // injected panics
    let want = if c.thorough { 40 } else { 10 };
    let want = c.loops(want).max(2).min(ticks as usize);
    for k in 0..want {
        let at = if ticks as usize <= want { k as u64 } else { c.rng.below(ticks as usize) as u64 };
        reset();
        doing(Doing { event: at, ..d });
        set_fuse(Some(at));
        let r = catch(|| f(&mut Rng::new(seed)));
        let blown = fuse_blown();
        set_fuse(None);
        c.op("injected panic");
        if trapped() {
            return;
        }
        if blown {
            c.check(r.is_err(), "a panic of user code was swallowed", || format!("{name}, event {at}"));
        }
        c.check(E::alive() >= 0, "ownership: balance negative after a panic", || format!("{name}, event {at}: {}", E::alive()));
    }
    doing(Doing::NOTHING);
}

/// iterator whose steps are user-code events
struct Steps<I>(I);
impl<I: Iterator> Iterator for Steps<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick();
        self.0.next()
    }
}
/// the same with an honest size hint, which an implementation may use
struct Sized_<I>(I);
impl<I: Iterator> Iterator for Sized_<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
/// a hostile but safe iterator: wrong size hint, and not fused
struct Liar<I>(I, usize, bool);
impl<I: Iterator> Iterator for Liar<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.2 {
            (self.1, Some(self.1))
        } else {
            (0, Some(0))
        }
    }
}

fn vec_of<E: Elem, const N: usize>(r: &mut Rng) -> Vector<E, N> {
    let s = r.u64();
    Vector::from_array(std::array::from_fn(|i| E::mk(s ^ i as u64)))
}
fn mat_of<E: Elem, const M: usize, const N: usize>(r: &mut Rng) -> Matrix<E, M, N> {
    let s = r.u64();
    Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| E::mk(s ^ (i * 1000 + j) as u64))))
}
fn peek<'a, E: Elem>(it: impl IntoIterator<Item = &'a E>) {
    for x in it {
        x.look();
    }
}
fn used<E: Elem>(x: E) -> u64 {
    tick();
    x.look()
}

fn vectors<E: Elem, const N: usize>(c: &mut Ctx) {
    let d = &[N];
    macro_rules! op { ($n:expr, $f:expr) => { drive::<E>(c, concat!("Vector::", $n), d, &$f) } }
    c.sample(|| format!("Vector<{}, {}>: every operation cleanly, then with injected panics", E::NAME, N));
    op!("init", |_r| {
        let mut k = 0;
        let v = Vector::<E, N>::init(|| { tick(); k += 1; E::mk(k) });
        peek(v.iter());
        // results are kept or dropped by the caller
        let _ = v;
    });
    op!("default/new", |_r| { peek(Vector::<E, N>::default().iter()); peek(Vector::<E, N>::new().iter()); });
    op!("array round trip", |r| { let a: [E; N] = vec_of::<E, N>(r).into_array(); peek(&a); let v = Vector::from(a); let a: [E; N] = v.into(); peek(&a); });
    op!("clone/eq", |r| { let v = vec_of::<E, N>(r); let w = v.clone(); let _ = v == w; peek(v.iter()); peek(w.iter()); });
    op!("try_from_iter(exact)", |_r| { let v = Vector::<E, N>::try_from_iter(Steps((0..N as u64).map(E::mk))).unwrap(); peek(v.iter()); });
    op!("try_from_iter(short)", |r| {
        let k = if N == 0 { 0 } else { r.below(N) } as u64;
        let mut it = Steps((0..k).map(E::mk));
        let v = Vector::<E, N>::try_from_iter(&mut it);
        if let Some(v) = v { peek(v.iter()) }
    });
    op!("try_from_iter(short, sized)", |r| {
        let k = if N == 0 { 0 } else { r.below(N) } as u64;
        if let Some(v) = Vector::<E, N>::try_from_iter(Sized_((0..k).map(E::mk))) { peek(v.iter()) }
    });
    op!("try_from_iter(long, borrowed)", |r| {
        let k = (N + 1 + r.below(4)) as u64;
        let mut it = Sized_((0..k).map(E::mk));
        let v = Vector::<E, N>::try_from_iter(&mut it);
        if let Some(v) = &v { peek(v.iter()) }
        for x in it { x.look(); }
    });
    op!("try_from_iter(lying size hint)", |r| {
        let k = r.below(N + 3) as u64;
        let up = r.chance(1, 2);
        if let Some(v) = Vector::<E, N>::try_from_iter(Liar((0..k).map(E::mk), N, up)) { peek(v.iter()) }
    });
    op!("try_from_iter(lends unfused)", |r| {
        // yields None once and then items again
        let hole = r.below(N + 1) as u64;
        let mut k = 0;
        let it = std::iter::from_fn(move || { tick(); k += 1; if k - 1 == hole { None } else { Some(E::mk(k)) } });
        if let Some(v) = Vector::<E, N>::try_from_iter(it) { peek(v.iter()) }
    });
    op!("for_each", |r| vec_of::<E, N>(r).for_each(|x| { used(x); }));
    op!("map", |r| { let v = vec_of::<E, N>(r).map(|x| { let u = used(x); E::mk(u ^ 1) }); peek(v.iter()); });
    op!("map(drop all)", |r| { let v = vec_of::<E, N>(r).map(used); let _ = v; });
    op!("map(to wider)", |r| { let v = vec_of::<E, N>(r).map(|x| { tick(); (x, Tracked::new(9)) }); for (a, b) in v.iter() { a.look(); b.val(); } drop(v); });
    op!("zip", |r| { let v = vec_of::<E, N>(r).zip(vec_of::<Tracked, N>(r)); for (a, b) in v.iter() { a.look(); b.val(); } drop(v); });
    op!("unzip", |r| { let (a, b) = vec_of::<E, N>(r).zip(vec_of::<E, N>(r)).unzip(); peek(a.iter()); drop(a); peek(b.iter()); });
    op!("unzip(mixed)", |r| { let (a, b) = vec_of::<E, N>(r).map(|x| (x, 7u8)).unzip(); peek(a.iter()); let _ = b; });
    op!("enumerate", |r| { let v = vec_of::<E, N>(r).enumerate(); for (_, a) in v.iter() { a.look(); } });
    op!("fold", |r| { vec_of::<E, N>(r).fold(E::mk(0), |a, x| { tick(); a.look(); x }).look(); });
    op!("scan", |r| { let v = vec_of::<E, N>(r).scan(E::mk(0), |s, x| { tick(); std::mem::replace(s, x) }); peek(v.iter()); });
    op!("into_iter(partly consumed)", |r| {
        let k = r.below(N + 1);
        let mut it = vec_of::<E, N>(r).into_iter();
        for _ in 0..k { if r.chance(1, 2) { it.next().map(used); } else { it.next_back().map(used); } }
    });
    op!("into_iter(collect)", |r| { let v: Vec<E> = vec_of::<E, N>(r).into_iter().collect(); peek(&v); });
    op!("iter_mut(replace)", |r| { let mut v = vec_of::<E, N>(r); for x in v.iter_mut() { tick(); *x = E::mk(3); } for x in &mut v { tick(); *x = E::mk(4); } peek(&v); });
    op!("index(replace)", |r| { let mut v = vec_of::<E, N>(r); for _ in 0..N { let i = r.below(N); v[i] = E::mk(1); let j = r.below(N); let t = std::mem::replace(&mut v[j], E::mk(2)); used(t); } peek(v.iter()); });
    op!("as_mut_array(swap)", |r| { let mut v = vec_of::<E, N>(r); if N > 1 { v.as_mut_array().swap(0, N - 1); v.as_mut().reverse(); } peek(v.as_array()); });
    op!("GroupIter", |r| {
        if N == 0 { return; }
        let k = r.below(3 * N + 2) as u64;
        let mut g = GroupIter::<_, N>::new(Steps((0..k).map(E::mk)));
        let stop = r.below(4);
        let mut n = 0;
        while let Some(v) = g.next() { peek(v.iter()); n += 1; if n == stop { break; } }
    });
    op!("Vector of vectors", |r| { let v = Vector::<Vector<E, N>, 3>::init(|| { tick(); vec_of::<E, N>(r) }); for w in v.into_iter() { peek(w.iter()); } });
    op!("veq/vne", |r| { let v = vec_of::<E, N>(r); let w = v.clone(); let _ = v.clone().veq(w.clone()); let _ = v.vne(w); });
    op!("Shift", |r| { let s = Shift::from(vec_of::<E, N>(r)); let t = s.clone(); let v: Vector<E, N> = s.into(); peek(v.iter()); peek(t.into_vector().iter()); });
    if N > 0 {
        op!("fold_first", |r| { vec_of::<E, N>(r).fold_first(|a, x| { tick(); a.look(); x }).look(); });
    }
    #[cfg(feature = "rand")]
    op!("VectorDistribution", |r| {
        let v: Vector<E, N> = sample_with(r, vecmat::vector::VectorDistribution::<Maker, E, N>::new(Maker));
        peek(v.iter());
    });
}

#[cfg(feature = "rand")]
struct Maker;
#[cfg(feature = "rand")]
impl<E: Elem> rand_::distributions::Distribution<E> for Maker {
    fn sample<R: rand_::Rng + ?Sized>(&self, rng: &mut R) -> E {
        tick();
        E::mk(rng.next_u64())
    }
}
#[cfg(feature = "rand")]
struct Src(u64);
#[cfg(feature = "rand")]
impl rand_::RngCore for Src {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = mix(self.0);
        self.0
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b {
            *x = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_::Error> {
        Ok(self.fill_bytes(b))
    }
}
#[cfg(feature = "rand")]
fn sample_with<T, D: rand_::distributions::Distribution<T>>(r: &mut Rng, d: D) -> T {
    d.sample(&mut Src(r.u64()))
}

fn vector_ops<const N: usize>(c: &mut Ctx) {
    type E = Tracked;
    let d = &[N];
    macro_rules! op { ($n:expr, $f:expr) => { drive::<E>(c, concat!("Vector::", $n), d, &$f) } }
    macro_rules! bin { ($n:literal, $o:tt, $oa:tt) => {
        op!($n, |r| { let v = vec_of::<E, N>(r) $o vec_of::<E, N>(r); peek(v.iter()); });
        op!(concat!($n, "_assign"), |r| { let mut v = vec_of::<E, N>(r); let w = vec_of::<E, N>(r); v $oa w; peek(v.iter()); });
    } }
    bin!("add", +, +=);
    bin!("sub", -, -=);
    bin!("mul", *, *=);
    bin!("div", /, /=);
    bin!("rem", %, %=);
    bin!("bitand", &, &=);
    bin!("bitor", |, |=);
    bin!("bitxor", ^, ^=);
    op!("neg", |r| peek((-vec_of::<E, N>(r)).iter()));
    op!("not", |r| peek((!vec_of::<E, N>(r)).iter()));
    op!("vlt..vge", |r| { let (v, w) = (vec_of::<E, N>(r), vec_of::<E, N>(r)); let _ = v.clone().vlt(w.clone()); let _ = v.clone().vle(w.clone()); let _ = v.clone().vgt(w.clone()); let _ = v.vge(w); });
    op!("div_floor..", |r| { let (v, w) = (vec_of::<E, N>(r), vec_of::<E, N>(r)); peek(v.clone().div_floor(w.clone()).iter()); peek(v.clone().mod_floor(w.clone()).iter()); let (a, b) = v.div_mod_floor(w); peek(a.iter()); peek(b.iter()); });
    op!("zero/is_zero", |r| { let z = Vector::<E, N>::zero(); let _ = z.is_zero(); let _ = vec_of::<E, N>(r).is_zero(); });
    op!("Sum", |r| { let k = r.below(4); peek(<Vector<E, N> as std::iter::Sum>::sum(Steps((0..k).map(|_| vec_of::<E, N>(&mut Rng::new(k as u64))))).iter()) });
    op!("Product", |r| { let k = r.below(4); peek(<Vector<E, N> as std::iter::Product>::product(Steps((0..k).map(|_| vec_of::<E, N>(&mut Rng::new(k as u64))))).iter()) });
    op!("format", |r| { let v = vec_of::<E, N>(r); let _ = format!("{v} {v:?}"); });
    if N > 0 {
        op!("sum", |r| { vec_of::<E, N>(r).sum().val(); });
        op!("max", |r| { vec_of::<E, N>(r).max().val(); });
        op!("min", |r| { vec_of::<E, N>(r).min().val(); });
        op!("dot", |r| { vec_of::<E, N>(r).dot(vec_of::<E, N>(r)).val(); });
    }
}

fn matrices<E: Elem, const M: usize, const N: usize>(c: &mut Ctx) {
    let d = &[M, N];
    macro_rules! op { ($n:expr, $f:expr) => { drive::<E>(c, concat!("Matrix::", $n), d, &$f) } }
    let all = |m: &Matrix<E, M, N>| {
        let mut n = 0;
        for x in m.iter() {
            x.look();
            n += 1;
        }
        assert_eq!(n, M * N);
    };
    c.sample(|| format!("Matrix<{}, {}, {}>: every operation cleanly, then with injected panics", E::NAME, M, N));
    op!("init", |_r| { let mut k = 0; all(&Matrix::<E, M, N>::init(|| { tick(); k += 1; E::mk(k) })); });
    op!("default/new", |_r| { all(&Matrix::<E, M, N>::default()); all(&Matrix::<E, M, N>::new()); });
    op!("array round trip", |r| {
        let a: [[E; N]; M] = mat_of::<E, M, N>(r).into_array_of_arrays();
        let m = Matrix::from(a);
        let a: [Vector<E, N>; M] = m.into();
        let m = Matrix::from(a);
        let v: Vector<Vector<E, N>, M> = m.into();
        let m = Matrix::from(v);
        let a: [[E; N]; M] = m.into();
        let m = Matrix::from_array_of_arrays(a);
        let m = Matrix::from_array_of_vectors(m.into_array_of_vectors());
        all(&Matrix::from_vector_of_vectors(m.into_vector_of_vectors()));
    });
    op!("clone/eq", |r| { let v = mat_of::<E, M, N>(r); let w = v.clone(); let _ = v == w; all(&v); all(&w); });
    op!("try_from_iter(exact)", |_r| if let Some(m) = Matrix::<E, M, N>::try_from_iter(Steps((0..(M * N) as u64).map(E::mk))) { all(&m) });
    op!("try_from_iter(any length, borrowed)", |r| {
        let k = r.below(M * N + N + 3) as u64;
        let mut it = Steps((0..k).map(E::mk));
        if let Some(m) = Matrix::<E, M, N>::try_from_iter(&mut it) { all(&m) }
        for x in it { used(x); }
    });
    op!("try_from_iter(lying size hint)", |r| {
        let k = r.below(M * N + 3) as u64;
        let up = r.chance(1, 2);
        if let Some(m) = Matrix::<E, M, N>::try_from_iter(Liar((0..k).map(E::mk), M * N, up)) { all(&m) }
    });
    op!("try_from_iter_of_vectors", |r| {
        let k = r.below(M + 3);
        let s = r.u64();
        let mut it = Steps((0..k).map(|i| vec_of::<E, N>(&mut Rng::new(s ^ i as u64))));
        if let Some(m) = Matrix::<E, M, N>::try_from_iter_of_vectors(&mut it) { all(&m) }
        for x in it { peek(x.iter()); }
    });
    op!("for_each", |r| mat_of::<E, M, N>(r).for_each(|x| { used(x); }));
    op!("map", |r| all(&mat_of::<E, M, N>(r).map(|x| { let u = used(x); E::mk(u ^ 1) })));
    op!("map(drop all)", |r| { let _ = mat_of::<E, M, N>(r).map(used); });
    op!("zip", |r| { let v = mat_of::<E, M, N>(r).zip(mat_of::<Tracked, M, N>(r)); for (a, b) in v.iter() { a.look(); b.val(); } });
    op!("unzip", |r| { let (a, b) = mat_of::<E, M, N>(r).zip(mat_of::<E, M, N>(r)).unzip(); all(&a); drop(a); all(&b); });
    op!("fold", |r| { mat_of::<E, M, N>(r).fold(E::mk(0), |a, x| { tick(); a.look(); x }).look(); });
    op!("scan", |r| all(&mat_of::<E, M, N>(r).scan(E::mk(0), |s, x| { tick(); std::mem::replace(s, x) })));
    op!("transpose", |r| {
        let t = mat_of::<E, M, N>(r).transpose();
        for x in t.iter() { x.look(); }
        let b = t.transpose();
        all(&b);
    });
    op!("into_iter(partly consumed)", |r| {
        let k = r.below(M * N + 1);
        let mut it = mat_of::<E, M, N>(r).into_iter();
        for _ in 0..k { it.next().map(used); }
    });
    op!("into_iter(past the end)", |r| {
        let mut it = mat_of::<E, M, N>(r).into_iter();
        let mut n = 0;
        for _ in 0..M * N + 3 { if let Some(x) = it.next() { used(x); n += 1; } }
        assert_eq!(n, M * N);
    });
    op!("iter_mut(replace)", |r| {
        let mut m = mat_of::<E, M, N>(r);
        for x in m.iter_mut() { tick(); *x = E::mk(3); }
        for x in &mut m { tick(); *x = E::mk(4); }
        for x in &m { x.look(); }
    });
    op!("index(replace)", |r| {
        let mut m = mat_of::<E, M, N>(r);
        for _ in 0..M * N {
            let (i, j) = (r.below(M), r.below(N));
            m[(i, j)] = E::mk(1);
            let i = r.below(M);
            let row = std::mem::replace(m.row_mut(i), vec_of::<E, N>(r));
            peek(row.iter());
            peek(m.row_ref(r.below(M)).iter());
        }
        all(&m);
    });
    op!("as_mut_array_of_arrays(swap)", |r| {
        let mut m = mat_of::<E, M, N>(r);
        if M > 1 { m.as_mut_array_of_arrays().swap(0, M - 1); m.as_mut_array_of_vectors().swap(0, 1); m.as_mut_vector_of_vectors().as_mut_array().reverse(); }
        for x in m.as_array_of_arrays() { peek(x); }
        for x in m.as_array_of_vectors() { peek(x.iter()); }
    });
    op!("veq/vne", |r| { let v = mat_of::<E, M, N>(r); let w = v.clone(); let _ = v.clone().veq(w.clone()); let _ = v.vne(w); });
    if M > 0 && N > 0 {
        op!("fold_first", |r| { mat_of::<E, M, N>(r).fold_first(|a, x| { tick(); a.look(); x }).look(); });
        op!("FlatIter", |r| {
            let k = r.below(4);
            let s = r.u64();
            let rows = (0..k).map(|i| { tick(); (0..Rng::new(s ^ i as u64).below(4)).map(|j| E::mk(j as u64)).collect::<Vec<E>>() });
            if let Some(mut f) = vecmat::matrix::FlatIter::new(rows) { let stop = r.below(8); let mut n = 0; while let Some(x) = f.next() { used(x); n += 1; if n == stop { break; } } }
        });
    }
    #[cfg(feature = "rand")]
    op!("MatrixDistribution", |r| {
        let v: Matrix<E, M, N> = sample_with(r, vecmat::matrix::MatrixDistribution::<Maker, E, M, N>::new(Maker));
        all(&v);
    });
}

fn matrix_ops<const M: usize, const N: usize>(c: &mut Ctx) {
    type E = Tracked;
    let d = &[M, N];
    macro_rules! op { ($n:expr, $f:expr) => { drive::<E>(c, concat!("Matrix::", $n), d, &$f) } }
    macro_rules! bin { ($n:literal, $o:tt, $oa:tt) => {
        op!($n, |r| { let v = mat_of::<E, M, N>(r) $o mat_of::<E, M, N>(r); peek(v.iter()); });
        op!(concat!($n, "_assign"), |r| { let mut v = mat_of::<E, M, N>(r); let w = mat_of::<E, M, N>(r); v $oa w; peek(v.iter()); });
    } }
    bin!("add", +, +=);
    bin!("sub", -, -=);
    bin!("mul", *, *=);
    bin!("div", /, /=);
    bin!("rem", %, %=);
    bin!("bitand", &, &=);
    bin!("bitor", |, |=);
    bin!("bitxor", ^, ^=);
    op!("neg", |r| peek((-mat_of::<E, M, N>(r)).iter()));
    op!("not", |r| peek((!mat_of::<E, M, N>(r)).iter()));
    op!("vlt..vge", |r| { let (v, w) = (mat_of::<E, M, N>(r), mat_of::<E, M, N>(r)); let _ = v.clone().vlt(w.clone()); let _ = v.clone().vle(w.clone()); let _ = v.clone().vgt(w.clone()); let _ = v.vge(w); });
    op!("div_floor..", |r| { let (v, w) = (mat_of::<E, M, N>(r), mat_of::<E, M, N>(r)); peek(v.clone().div_floor(w.clone()).iter()); peek(v.clone().mod_floor(w.clone()).iter()); let (a, b) = v.div_mod_floor(w); peek(a.iter()); peek(b.iter()); });
    op!("zero/is_zero", |r| { let z = Matrix::<E, M, N>::zero(); let _ = z.is_zero(); let _ = mat_of::<E, M, N>(r).is_zero(); });
    op!("Sum/Product", |r| {
        let k = r.below(4);
        peek(<Matrix<E, M, N> as std::iter::Sum>::sum(Steps((0..k).map(|_| mat_of::<E, M, N>(&mut Rng::new(k as u64))))).iter());
        peek(<Matrix<E, M, N> as std::iter::Product>::product(Steps((0..k).map(|_| mat_of::<E, M, N>(&mut Rng::new(k as u64))))).iter());
    });
    op!("format", |r| { let v = mat_of::<E, M, N>(r); let _ = format!("{v} {v:?}"); });
    if M * N > 0 {
        op!("sum/min/max", |r| { mat_of::<E, M, N>(r).sum().val(); mat_of::<E, M, N>(r).min().val(); mat_of::<E, M, N>(r).max().val(); });
    }
}

fn square<const N: usize>(c: &mut Ctx) {
    type E = Tracked;
    let d = &[N, N];
    macro_rules! op { ($n:expr, $f:expr) => { drive::<E>(c, concat!("Matrix::", $n), d, &$f) } }
    op!("diagonal", |r| peek(Matrix::<E, N, N>::diagonal(vec_of::<E, N>(r)).iter()));
    op!("one", |_r| peek(<Matrix<E, N, N> as One>::one().iter()));
    op!("Linear/Chain", |r| {
        let l = Linear::from(mat_of::<E, N, N>(r));
        let s = Shift::from(vec_of::<E, N>(r));
        let mut ch: Chain<_, _, Vector<E, N>> = Chain::new(s, l);
        peek(ch.inner().clone().into_matrix().iter());
        let old = std::mem::replace(ch.outer_mut(), Shift::from(vec_of::<E, N>(r)));
        peek(old.into_vector().iter());
        let old = std::mem::replace(ch.inner_mut(), Linear::from(mat_of::<E, N, N>(r)));
        let m: Matrix<E, N, N> = old.into();
        peek(m.iter());
        let (a, b) = ch.split();
        peek(a.into_vector().iter());
        peek(b.into_matrix().iter());
    });
}

fn small(c: &mut Ctx) {
    fn go<E: Elem>(c: &mut Ctx) {
        macro_rules! op { ($n:expr, $f:expr) => { drive::<E>(c, $n, &[], &$f) } }
        op!("tuples", |r| {
            let t: (E, E) = vec_of::<E, 2>(r).into();
            let v: Vector<E, 2> = t.into();
            peek(v.iter());
            let t: (E, E, E) = vec_of::<E, 3>(r).into_tuple();
            peek(Vector::<E, 3>::from_tuple(t).iter());
            let t: (E, E, E, E) = vec_of::<E, 4>(r).into();
            peek(Vector::<E, 4>::from(t).iter());
        });
        op!("accessors", |r| {
            let mut v = vec_of::<E, 4>(r);
            std::mem::swap(v.x_mut(), &mut E::mk(1));
            *v.y_mut() = E::mk(2);
            *v.z_mut() = E::mk(3);
            *v.w_mut() = E::mk(4);
            peek([v.x_ref(), v.y_ref(), v.z_ref(), v.w_ref()]);
        });
        op!("Complex", |r| {
            let z = Complex::from(vec_of::<E, 2>(r));
            let mut w = z.clone();
            let _ = z == w;
            *w.re_mut() = E::mk(1);
            *w.im_mut() = E::mk(2);
            peek([w.re_ref(), w.im_ref()]);
            let n = w.into_num();
            let w = Complex::from_num(n);
            let t: (E, E) = w.into();
            let w = Complex::from(t);
            let a: [E; 2] = w.into_array();
            let w = Complex::from(a);
            peek(w.into_vector().iter());
            peek(Complex::new(E::mk(1), E::mk(2)).into_array().iter());
            let _ = Complex::<E>::default();
            drop(z);
        });
        op!("Quaternion", |r| {
            let q = Quaternion::from(vec_of::<E, 4>(r));
            let mut w = q.clone();
            let _ = q == w;
            *w.w_mut() = E::mk(1);
            *w.x_mut() = E::mk(1);
            *w.y_mut() = E::mk(1);
            *w.z_mut() = E::mk(2);
            peek([w.w_ref(), w.x_ref(), w.y_ref(), w.z_ref()]);
            let (s, v) = w.into_scalar_and_vector3();
            let w = Quaternion::from_scalar_and_vector3(s, v);
            let t: (E, E, E, E) = w.into();
            let w = Quaternion::from(t);
            let sv: (E, Vector<E, 3>) = w.into();
            let w = Quaternion::from(sv);
            let a: [E; 4] = w.into_array();
            peek(Quaternion::from(a).into_vector().iter());
            let _ = Quaternion::<E>::default();
        });
        op!("Moebius", |r| {
            let mut m = vecmat::complex::Moebius::from(mat_of::<E, 2, 2>(r));
            *m.a_mut() = E::mk(1);
            *m.d_mut() = E::mk(1);
            *m.b_mut() = E::mk(1);
            *m.c_mut() = E::mk(1);
            peek([m.a_ref(), m.b_ref(), m.c_ref(), m.d_ref()]);
            let n = m.clone();
            let t = m.into_tuple();
            let m = vecmat::complex::Moebius::from_tuple(t);
            let a: [[E; 2]; 2] = m.into();
            let m = vecmat::complex::Moebius::from(a);
            peek(m.into_matrix().iter());
            peek(n.as_matrix().iter());
        });
    }
    go::<Tracked>(c);
    go::<Zst>(c);
    go::<Wide>(c);
    type E = Tracked;
    let q = |r: &mut Rng| Quaternion::from(vec_of::<E, 4>(r));
    let z = |r: &mut Rng| Complex::from(vec_of::<E, 2>(r));
    macro_rules! op { ($n:expr, $f:expr) => { drive::<E>(c, $n, &[], &$f) } }
    op!("Complex arithmetic", |r| {
        peek((z(r) + z(r)).into_array().iter());
        peek((z(r) - z(r)).into_array().iter());
        peek((z(r) + E::mk(1)).into_array().iter());
        peek((z(r) - E::mk(1)).into_array().iter());
        peek((-z(r)).into_array().iter());
        peek(z(r).conj().into_array().iter());
        let mut w = z(r);
        w += z(r);
        w -= z(r);
        w += E::mk(1);
        w -= E::mk(1);
        peek(w.into_array().iter());
        let _ = Complex::<E>::zero().is_zero();
        peek(Complex::<E>::i().into_array().iter());
        z(r).dot(z(r)).val();
        let _ = format!("{} {:?}", z(r), z(r));
        peek(Complex::<E>::sum((0..3).map(|_| Complex::new(E::mk(1), E::mk(2)))).into_array().iter());
    });
    op!("Quaternion arithmetic", |r| {
        peek((q(r) + q(r)).into_array().iter());
        peek((q(r) - q(r)).into_array().iter());
        peek((q(r) + E::mk(1)).into_array().iter());
        peek((q(r) - E::mk(1)).into_array().iter());
        peek((q(r) + z(r)).into_array().iter());
        peek((q(r) - z(r)).into_array().iter());
        peek((-q(r)).into_array().iter());
        peek(q(r).conj().into_array().iter());
        let mut w = q(r);
        w += q(r);
        w -= q(r);
        w += z(r);
        w -= z(r);
        w += E::mk(1);
        w -= E::mk(1);
        peek(w.into_array().iter());
        let _ = Quaternion::<E>::zero().is_zero();
        peek(Quaternion::<E>::i().into_array().iter());
        peek(Quaternion::<E>::j().into_array().iter());
        peek(Quaternion::<E>::k().into_array().iter());
        q(r).dot(q(r)).val();
        let _ = format!("{} {:?}", q(r), q(r));
        peek(Quaternion::<E>::sum((0..3).map(|_| Quaternion::new(E::mk(1), E::mk(2), E::mk(3), E::mk(4)))).into_array().iter());
    });
    op!("Vector cross-type", |r| {
        // a vector of vectors of complex numbers
        let v = Vector::<Complex<E>, 3>::init(|| z(r));
        let w = Vector::<Complex<E>, 3>::init(|| z(r));
        let s = v + w;
        let t = -s;
        t.sum().into_array().iter().for_each(|x| { x.val(); });
        let m = Matrix::<Quaternion<E>, 2, 3>::init(|| q(r)).transpose();
        m.fold_first(|a, b| a + b).into_array().iter().for_each(|x| { x.val(); });
    });
}

fn main() {
    let mut s = Suite::new(
        "C01",
        "one case = every operation of one container type/dimension/element flavour on tracked elements, first \
         cleanly (all elements must be accounted for) and then with panics injected at user-code events; \
         non-trivial: operation, dimension and values (hashed) are distinct",
    );
    macro_rules! v { ($f:ident $(, $t:ty)?) => {{
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)? 0>, $f::<$($t,)? 1>, $f::<$($t,)? 2>, $f::<$($t,)? 3>, $f::<$($t,)? 4>, $f::<$($t,)? 5>, $f::<$($t,)? 8>, $f::<$($t,)? 17>, $f::<$($t,)? 33>];
        T
    }} }
    macro_rules! m { ($f:ident $(, $t:ty)?) => {{
        const T: &[fn(&mut Ctx)] = &[$f::<$($t,)? 2, 0>, $f::<$($t,)? 0, 2>, $f::<$($t,)? 1, 1>, $f::<$($t,)? 1, 3>, $f::<$($t,)? 3, 1>, $f::<$($t,)? 2, 2>, $f::<$($t,)? 2, 3>, $f::<$($t,)? 4, 3>, $f::<$($t,)? 5, 5>, $f::<$($t,)? 3, 9>];
        T
    }} }
    s.section("vector_heap", 9 * 24, |c| run_table!(c, v!(vectors, Tracked)));
    s.section("vector_zero_sized", 9 * 12, |c| run_table!(c, v!(vectors, Zst)));
    s.section("vector_over_aligned", 4 * 16, |c| {
        const T: &[fn(&mut Ctx)] = &[vectors::<Wide, 1>, vectors::<Wide, 2>, vectors::<Wide, 3>, vectors::<Wide, 7>];
        run_table!(c, T)
    });
    s.section("vector_operators", 9 * 16, |c| run_table!(c, v!(vector_ops)));
    s.section("matrix_heap", 10 * 24, |c| run_table!(c, m!(matrices, Tracked)));
    s.section("matrix_zero_sized", 3 * 16, |c| {
        const T: &[fn(&mut Ctx)] = &[matrices::<Zst, 2, 3>, matrices::<Zst, 3, 1>, matrices::<Zst, 0, 2>];
        run_table!(c, T)
    });
    s.section("matrix_over_aligned", 3 * 16, |c| {
        const T: &[fn(&mut Ctx)] = &[matrices::<Wide, 2, 3>, matrices::<Wide, 3, 3>, matrices::<Wide, 1, 4>];
        run_table!(c, T)
    });
    s.section("matrix_operators", 6 * 16, |c| {
        const T: &[fn(&mut Ctx)] = &[matrix_ops::<2, 3>, matrix_ops::<3, 2>, matrix_ops::<0, 2>, matrix_ops::<1, 4>, matrix_ops::<4, 4>, matrix_ops::<2, 0>];
        run_table!(c, T)
    });
    s.section("square", 5 * 16, |c| {
        const T: &[fn(&mut Ctx)] = &[square::<0>, square::<1>, square::<2>, square::<3>, square::<5>];
        run_table!(c, T)
    });
    s.section("complex_quaternion_transform", 100, small);
    s.native("large", 8 * 4, |c| {
        const T: &[fn(&mut Ctx)] = &[
            vectors::<Tracked, 64>, vectors::<Zst, 263>, vector_ops::<65>, matrices::<Tracked, 17, 3>,
            matrices::<Tracked, 2, 33>, matrices::<Zst, 16, 16>, matrix_ops::<9, 9>, square::<8>,
        ];
        run_table!(c, T)
    });
    s.run();
}
