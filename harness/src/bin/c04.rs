//! C04: iteration and combinators visit each element once, in row-major
//! order, and put every result where it was computed.
use harness::*;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use vecmat::{Matrix, Vector};

trait El: Clone + PartialEq + Debug + Send + 'static {
    const NAME: &'static str;
    fn mk(v: u64) -> Self;
    fn id(&self) -> u64;
}
impl El for u64 {
    const NAME: &'static str = "u64";
    fn mk(v: u64) -> u64 {
        v
    }
    fn id(&self) -> u64 {
        *self
    }
}
/// a non-Copy element
impl El for String {
    const NAME: &'static str = "String";
    fn mk(v: u64) -> String {
        format!("{v}")
    }
    fn id(&self) -> u64 {
        self.parse().unwrap()
    }
}

/// One iterator, used through every way a caller may consume it: the
/// sequence of items and the size hints must match the reference.
fn consume<I: Iterator>(c: &mut Ctx, op: &'static str, dims: &[usize], want: &[u64], mut make: impl FnMut() -> I, id: impl Fn(I::Item) -> u64) {
    let n = want.len();
    let d = |how: &str| format!("{op} {how}, dims {dims:?}, elements {want:?}");
    // plain loop with hints checked at every step, and after the end
    let mut it = make();
    let mut log = Vec::new();
    loop {
        let (lo, hi) = it.size_hint();
        let left = n.saturating_sub(log.len());
        c.check(lo <= left && hi.map_or(true, |h| left <= h), "size_hint is wrong", || {
            format!("hint ({lo}, {hi:?}) with {left} items left; {}", d("by next"))
        });
        match it.next() {
            Some(x) => log.push(id(x)),
            None => break,
        }
        if log.len() > n + 3 {
            break;
        }
    }
    c.eq(op, log, want.to_vec(), || d("by next"));
    for _ in 0..3 {
        c.check(it.next().is_none(), op, || format!("an item was produced after the end; {}", d("by next")));
    }
    // internal iteration
    let mut log = Vec::new();
    make().for_each(|x| log.push(id(x)));
    c.eq(op, log, want.to_vec(), || d("for_each"));
    let log: Vec<u64> = make().fold(Vec::new(), |mut l, x| {
        l.push(id(x));
        l
    });
    c.eq(op, log, want.to_vec(), || d("fold"));
    c.eq(op, make().count(), n, || d("count"));
    c.eq(op, make().last().map(&id), want.last().copied(), || d("last"));
    // jumps
    let k = c.rng.below(n + 2);
    let mut it = make();
    c.eq(op, it.nth(k).map(&id), want.get(k).copied(), || d(&format!("nth({k})")));
    let rest: Vec<u64> = it.map(&id).collect();
    c.eq(op, rest, want.get(k + 1..).unwrap_or(&[]).to_vec(), || d(&format!("items after nth({k})")));
    let s = 1 + c.rng.below(n + 1);
    let got: Vec<u64> = make().step_by(s).map(&id).collect();
    c.eq(op, got, want.iter().copied().step_by(s).collect(), || d(&format!("step_by({s})")));
    // partial then internal
    let k = c.rng.below(n + 1);
    let mut it = make();
    let mut log = Vec::new();
    for _ in 0..k {
        log.extend(it.next().map(&id));
    }
    let log = it.fold(log, |mut l, x| {
        l.push(id(x));
        l
    });
    c.eq(op, log, want.to_vec(), || d(&format!("{k} x next, then fold")));
    iter_laws(c, op, dims, want, &mut make, &id);
    // interrupted
    let stop = c.rng.below(n + 1);
    let mut it = make();
    let mut log = Vec::new();
    let _ = it.try_for_each(|x| {
        log.push(id(x));
        if log.len() > stop {
            Err(())
        } else {
            Ok(())
        }
    });
    log.extend(it.map(&id));
    c.eq(op, log, want.to_vec(), || d(&format!("try_for_each broken off after {stop}, then the rest")));
}

macro_rules! visit {
    ($iters:ident, $combine:ident, $copies:ident, $Ty:ident, $($d:ident),+) => {
        fn $iters<T: El, $(const $d: usize),+>(c: &mut Ctx) {
            type C<T, $(const $d: usize),+> = $Ty<T, $($d),+>;
            let n = <C<T, $($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            let a: Vec<u64> = (0..n as u64).map(|i| (c.rng.u64() & 0xffff_0000) | i).collect();
            c.input(hash_u64s(a.iter().copied().chain(dims.iter().map(|x| *x as u64))));
            c.sample(|| format!("{}<{}>{dims:?} iterated", stringify!($Ty), T::NAME));
            let mk = |x: &[u64]| <C<T, $($d),+> as Flat>::build(x.iter().map(|v| T::mk(*v)).collect());
            let v = mk(&a);
            consume(c, concat!(stringify!($Ty), "::iter"), &dims, &a, || v.iter(), |x| x.id());
            consume(c, concat!("IntoIterator for &", stringify!($Ty)), &dims, &a, || (&v).into_iter(), |x| x.id());
            consume(c, concat!("IntoIterator for ", stringify!($Ty)), &dims, &a, || mk(&a).into_iter(), |x| x.id());
            // mutable iteration: order, and the write lands where it was seen
            let mut m = mk(&a);
            let mut log = Vec::new();
            for (k, x) in m.iter_mut().enumerate() {
                log.push(x.id());
                *x = T::mk(7_000_000_000 + k as u64);
            }
            c.eq(concat!(stringify!($Ty), "::iter_mut"), log, a.clone(), || format!("dims {dims:?}"));
            let after: Vec<u64> = m.flat().iter().map(|x| x.id()).collect();
            c.eq(concat!(stringify!($Ty), "::iter_mut writes"), after, (0..n as u64).map(|k| 7_000_000_000 + k).collect(), || format!("dims {dims:?}"));
            let mut m = mk(&a);
            let mut log = Vec::new();
            // several exclusive references alive at the same time
            let refs: Vec<&mut T> = (&mut m).into_iter().collect();
            let cnt = refs.len();
            for (k, x) in refs.into_iter().enumerate() {
                log.push(x.id());
                *x = T::mk(a[k.min(n - 1)] ^ 0x5555);
            }
            c.eq(concat!("IntoIterator for &mut ", stringify!($Ty)), (cnt, log), (n, a.clone()), || format!("dims {dims:?}"));
            let after: Vec<u64> = m.flat().iter().map(|x| x.id()).collect();
            c.eq(concat!("IntoIterator for &mut ", stringify!($Ty), " writes"), after, a.iter().map(|k| k ^ 0x5555).collect(), || format!("dims {dims:?}"));
            // jumps in mutable iteration
            if n > 0 {
                let mut m = mk(&a);
                let k = c.rng.below(n);
                if let Some(x) = m.iter_mut().nth(k) {
                    *x = T::mk(9);
                }
                let mut want = a.clone();
                want[k] = 9;
                let after: Vec<u64> = m.flat().iter().map(|x| x.id()).collect();
                c.eq(concat!(stringify!($Ty), "::iter_mut nth"), after, want, || format!("nth({k}), dims {dims:?}"));
            }
        }

        fn $combine<T: El, $(const $d: usize),+>(c: &mut Ctx) {
            type C<T, $(const $d: usize),+> = $Ty<T, $($d),+>;
            let n = <C<T, $($d),+> as Flat>::LEN;
            let dims = [$($d),+];
            let dup = c.rng.chance(1, 4);
            let mut g = |i: usize| if dup { c.rng.below(3) as u64 } else { (c.rng.u64() & 0xffff_0000) | i as u64 };
            let a: Vec<u64> = (0..n).map(&mut g).collect();
            let b: Vec<u64> = (0..n).map(&mut g).collect();
            c.input(hash_u64s(a.iter().chain(&b).copied().chain(dims.iter().map(|x| *x as u64))));
            let mk = |x: &[u64]| <C<T, $($d),+> as Flat>::build(x.iter().map(|v| T::mk(*v)).collect());
            let d = || format!("dims {dims:?}, elements {a:?}");
            macro_rules! n { ($x:expr) => { concat!(stringify!($Ty), $x) } }
            // init: one call per element, in order
            let mut k = 0u64;
            let v = C::<T, $($d),+>::init(|| { k += 1; T::mk(k - 1) });
            c.eq(n!("::init calls"), k, n as u64, d);
            c.eq(n!("::init"), v.flat().iter().map(|x| x.id()).collect::<Vec<_>>(), (0..n as u64).collect(), d);
            // for_each
            let mut log = Vec::new();
            mk(&a).for_each(|x| log.push(x.id()));
            c.eq(n!("::for_each"), log, a.clone(), d);
            // map with a stateful closure: call order and result position
            let mut log = Vec::new();
            let r = mk(&a).map(|x| { log.push(x.id()); (log.len() as u64, x.id()) });
            c.eq(n!("::map call order"), log, a.clone(), d);
            c.eq(n!("::map"), r.flat(), a.iter().enumerate().map(|(i, x)| (i as u64 + 1, *x)).collect::<Vec<_>>(), d);
            // to other types, including zero-sized and larger ones
            let r = mk(&a).map(|x| [x.id(); 9]);
            c.eq(n!("::map to [u64; 9]"), r.flat(), a.iter().map(|x| [*x; 9]).collect::<Vec<_>>(), d);
            let cnt = Cell::new(0);
            let r = mk(&a).map(|_| cnt.set(cnt.get() + 1));
            c.eq(n!("::map to ()"), (r.flat().len(), cnt.get()), (n, n), d);
            // zip, unzip, enumerate
            let z = mk(&a).zip(mk(&b)).flat();
            c.eq(n!("::zip"), z.iter().map(|(x, y)| (x.id(), y.id())).collect::<Vec<_>>(), a.iter().copied().zip(b.iter().copied()).collect(), d);
            let z = mk(&a).zip(<C<u8, $($d),+> as Flat>::build(b.iter().map(|x| *x as u8).collect())).flat();
            c.eq(n!("::zip(u8)"), z.iter().map(|(x, y)| (x.id(), *y)).collect::<Vec<_>>(), a.iter().copied().zip(b.iter().map(|x| *x as u8)).collect(), d);
            let p = <C<(T, u8), $($d),+> as Flat>::build(a.iter().zip(&b).map(|(x, y)| (T::mk(*x), *y as u8)).collect());
            let (x, y) = p.unzip();
            c.eq(n!("::unzip"), (x.flat().iter().map(|x| x.id()).collect::<Vec<_>>(), y.flat()), (a.clone(), b.iter().map(|x| *x as u8).collect()), d);
            let p = <C<((), T), $($d),+> as Flat>::build(a.iter().map(|x| ((), T::mk(*x))).collect());
            let (x, y) = p.unzip();
            c.eq(n!("::unzip"), (x.flat().len(), y.flat().iter().map(|x| x.id()).collect::<Vec<_>>()), (n, a.clone()), d);
            // fold: the accumulator records the whole history
            let r = mk(&a).fold(vec![u64::MAX], |mut s, x| { s.push(x.id()); s });
            let mut want = vec![u64::MAX];
            want.extend(&a);
            c.eq(n!("::fold"), r, want, d);
            let log = RefCell::new(Vec::new());
            let r = mk(&a).fold(3u64, |s, x| { log.borrow_mut().push((s, x.id())); hash2(s, x.id()) });
            let mut acc = 3u64;
            let mut want = Vec::new();
            for x in &a { want.push((acc, *x)); acc = hash2(acc, *x); }
            c.eq(n!("::fold call order"), log.into_inner(), want, d);
            c.eq(n!("::fold"), r, acc, d);
            // fold_first
            if n > 0 {
                let mut log = Vec::new();
                let r = mk(&a).fold_first(|s, x| { log.push((s.id(), x.id())); T::mk(hash2(s.id(), x.id())) });
                let mut acc = a[0];
                let mut want = Vec::new();
                for x in &a[1..] { want.push((acc, *x)); acc = hash2(acc, *x); }
                c.eq(n!("::fold_first call order"), log, want, d);
                c.eq(n!("::fold_first"), r.id(), acc, d);
            }
            // scan: one state through everything, results in place
            let mut log = Vec::new();
            let r = mk(&a).scan(5u64, |s, x| { log.push((*s, x.id())); *s = hash2(*s, x.id()); (*s, x.id()) });
            let mut acc = 5u64;
            let (mut wl, mut wr) = (Vec::new(), Vec::new());
            for x in &a { wl.push((acc, *x)); acc = hash2(acc, *x); wr.push((acc, *x)); }
            c.eq(n!("::scan call order"), log, wl, d);
            c.eq(n!("::scan"), r.flat(), wr, d);
            // scan with a non-Copy state
            let r = mk(&a).scan(Vec::new(), |s: &mut Vec<u64>, x| { s.push(x.id()); s.clone() });
            c.eq(n!("::scan"), r.flat(), (0..n).map(|i| a[..=i].to_vec()).collect::<Vec<_>>(), d);
        }

        /// constructors of Copy elements that repeat one value
        fn $copies<$(const $d: usize),+>(c: &mut Ctx) {
            let n = <$Ty<u64, $($d),+> as Flat>::LEN;
            let x = c.rng.u64();
            c.input(x);
            c.eq(concat!(stringify!($Ty), "::fill"), $Ty::<u64, $($d),+>::fill(x).flat(), vec![x; n], || format!("{:?}", [$($d),+]));
        }
    };
}
visit!(vec_iters, vec_combine, vec_fill, Vector, N);
visit!(mat_iters, mat_combine, mat_fill, Matrix, M, N);

fn vec_indices<const N: usize>(c: &mut Ctx) {
    let h = c.rng.u64();
    c.input(h);
    c.eq("Vector::indices", Vector::<usize, N>::indices().flat(), (0..N).collect(), || format!("N = {N}"));
    let a: Vec<String> = (0..N).map(|i| format!("{}", i as u64 ^ h)).collect();
    let e = <Vector<String, N> as Flat>::build(a.clone()).enumerate().flat();
    c.eq("Vector::enumerate", e, a.into_iter().enumerate().collect::<Vec<_>>(), || format!("N = {N}"));
}
fn mat_indices<const M: usize, const N: usize>(c: &mut Ctx) {
    let h = c.rng.u64();
    c.input(h);
    let want: Vec<(usize, usize)> = (0..M).flat_map(|i| (0..N).map(move |j| (i, j))).collect();
    let m = Matrix::<(usize, usize), M, N>::indices();
    for i in 0..M {
        for j in 0..N {
            c.check(m[(i, j)] == (i, j), "Matrix::indices", || format!("at ({i}, {j}): {:?}; dims {M}x{N}", m[(i, j)]));
        }
    }
    c.eq("Matrix::indices", m.flat(), want, || format!("dims {M}x{N}"));
    let x = c.rng.u64();
    c.eq("Matrix::fill_ref", Matrix::<u64, M, N>::fill_ref(&x).flat(), vec![x; M * N], || format!("{M}x{N}"));
}

/// Folding a long pipeline: the combinators composed give what the same
/// pipeline over a plain sequence gives.
fn pipeline<const M: usize, const N: usize>(c: &mut Ctx) {
    let a: Vec<u64> = (0..M * N).map(|_| c.rng.u64()).collect();
    c.input(hash_u64s(a.iter().copied()));
    let m = <Matrix<u64, M, N> as Flat>::build(a.clone());
    let got = Matrix::<(usize, usize), M, N>::indices()
        .zip(m)
        .map(|((i, j), x)| hash2(hash2(i as u64, j as u64), x))
        .scan(1u64, |s, x| {
            *s = hash2(*s, x);
            (*s, x)
        })
        .unzip();
    let mut s = 1u64;
    let (mut w0, mut w1) = (vec![], vec![]);
    for (k, x) in a.iter().enumerate() {
        let x = hash2(hash2((k / N) as u64, (k % N) as u64), *x);
        s = hash2(s, x);
        w0.push(s);
        w1.push(x);
    }
    c.eq("Matrix pipeline", (got.0.flat(), got.1.flat()), (w0, w1), || format!("dims {M}x{N}, {a:?}"));
}

fn main() {
    let mut s = Suite::new(
        "C04",
        "a case drives one container type, dimension and element type through every iterator (stepped, folded, jumped, \
         interrupted, over-run) and every combinator with logging stateful closures, and compares the event log and the \
         result positions with the reference sequence; non-trivial: element data (hashed) and dimension differ",
    );
    s.section("vector_iterators", 24 * 12, |c| run_table!(c, vdims!(vec_iters, u64)));
    s.section("vector_iterators_string", 3 * 12, |c| {
        const T: &[fn(&mut Ctx)] = &[vec_iters::<String, 0>, vec_iters::<String, 3>, vec_iters::<String, 7>];
        run_table!(c, T)
    });
    s.section("matrix_iterators", 31 * 12, |c| run_table!(c, mdims!(mat_iters, u64)));
    s.section("matrix_iterators_string", 3 * 12, |c| {
        const T: &[fn(&mut Ctx)] = &[mat_iters::<String, 0, 2>, mat_iters::<String, 2, 3>, mat_iters::<String, 3, 1>];
        run_table!(c, T)
    });
    s.section("vector_combinators", 24 * 12, |c| run_table!(c, vdims!(vec_combine, u64)));
    s.section("vector_combinators_string", 3 * 12, |c| {
        const T: &[fn(&mut Ctx)] = &[vec_combine::<String, 1>, vec_combine::<String, 4>, vec_combine::<String, 9>];
        run_table!(c, T)
    });
    s.section("matrix_combinators", 31 * 12, |c| run_table!(c, mdims!(mat_combine, u64)));
    s.section("matrix_combinators_string", 3 * 12, |c| {
        const T: &[fn(&mut Ctx)] = &[mat_combine::<String, 2, 0>, mat_combine::<String, 3, 2>, mat_combine::<String, 4, 4>];
        run_table!(c, T)
    });
    s.section("vector_fill", 24 * 4, |c| run_table!(c, vdims!(vec_fill)));
    s.section("matrix_fill", 31 * 4, |c| run_table!(c, mdims!(mat_fill)));
    s.section("vector_indices", 24 * 4, |c| run_table!(c, vdims!(vec_indices)));
    s.section("matrix_indices", 31 * 4, |c| run_table!(c, mdims!(mat_indices)));
    s.section("pipelines", 26 * 12, |c| run_table!(c, mdims1!(pipeline)));
    s.native("large", 32, |c| {
        const T: &[fn(&mut Ctx)] = &[vec_iters::<u64, 263>, mat_iters::<u64, 2, 263>, mat_iters::<u64, 263, 2>, vec_combine::<u64, 263>, mat_combine::<u64, 2, 263>, mat_combine::<u64, 263, 2>, vec_fill::<263>, mat_fill::<16, 17>, vec_indices::<263>, mat_indices::<263, 2>, mat_indices::<2, 263>, mat_indices::<33, 9>, mat_indices::<7, 5>, mat_indices::<9, 5>, mat_indices::<5, 7>, mat_indices::<6, 5>];
        run_table!(c, T)
    });
    s.run();
}
