//! C03: construction and conversion keep every element in place, slices and
//! iterators are accepted by exact length, grouping and flattening are exact.
use harness::*;
use num_complex::Complex as NumComplex;
use std::cell::Cell;
use std::convert::TryFrom;
use std::fmt::Debug;
use vecmat::complex::Moebius;
use vecmat::matrix::FlatIter;
use vecmat::transform::*;
use vecmat::vector::GroupIter;
use vecmat::{Complex, Matrix, Quaternion, Vector};

trait El: Clone + PartialEq + Debug + Send + 'static {
    const NAME: &'static str;
    fn mk(v: u64) -> Self;
}
impl El for u64 {
    const NAME: &'static str = "u64";
    fn mk(v: u64) -> u64 {
        v
    }
}
impl El for u8 {
    const NAME: &'static str = "u8";
    fn mk(v: u64) -> u8 {
        v as u8
    }
}
impl El for String {
    const NAME: &'static str = "String";
    fn mk(v: u64) -> String {
        format!("{v:x}")
    }
}

/// independent reading, by index
fn seen<T: El, const N: usize>(v: &Vector<T, N>) -> Vec<T> {
    (0..N).map(|i| v[i].clone()).collect()
}
fn seen2<T: El, const M: usize, const N: usize>(m: &Matrix<T, M, N>) -> Vec<T> {
    (0..M * N).map(|k| m[(k / N, k % N)].clone()).collect()
}
fn gen<T: El>(c: &mut Ctx, n: usize) -> Vec<T> {
    let small = c.rng.chance(1, 5);
    (0..n).map(|_| T::mk(if small { c.rng.below(3) as u64 } else { c.rng.u64() })).collect()
}
fn arr<T: El, const N: usize>(a: &[T]) -> [T; N] {
    std::array::from_fn(|i| a[i].clone())
}
fn arrs<T: El, const M: usize, const N: usize>(a: &[T]) -> [[T; N]; M] {
    std::array::from_fn(|i| std::array::from_fn(|j| a[i * N + j].clone()))
}

/// counts the items taken from a source
struct Count<'a, I>(I, &'a Cell<usize>);
impl<'a, I: Iterator> Iterator for Count<'a, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let r = self.0.next();
        if r.is_some() {
            self.1.set(self.1.get() + 1);
        }
        r
    }
}
/// the same with an exact size hint, which implementations may exploit
struct CountHint<'a, I>(I, &'a Cell<usize>);
impl<'a, I: Iterator> Iterator for CountHint<'a, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let r = self.0.next();
        if r.is_some() {
            self.1.set(self.1.get() + 1);
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

fn lengths(c: &mut Ctx, n: usize) -> Vec<usize> {
    let mut l = vec![n, n + 1, 0, n.saturating_sub(1), 2 * n, 2 * n + 1, n + 2 + c.rng.below(5), c.rng.below(n + 1)];
    if n < 6 {
        l.extend(0..2 * n + 3);
    }
    l
}

fn vector<T: El, const N: usize>(c: &mut Ctx) {
    let a: Vec<T> = gen(c, N);
    c.input(hash_u64s(a.iter().map(|x| hash_str(&format!("{x:?}"))).chain([N as u64])));
    c.sample(|| format!("Vector<{}, {N}> from {:?}", T::NAME, a.iter().take(4).collect::<Vec<_>>()));
    let d = || format!("Vector<{}, {N}> from {a:?}", T::NAME);
    c.eq("Vector::from_array", seen(&Vector::from_array(arr::<T, N>(&a))), a.clone(), d);
    c.eq("Vector::from([T; N])", seen(&Vector::from(arr::<T, N>(&a))), a.clone(), d);
    let v = Vector::<T, N>::from(arr::<T, N>(&a));
    c.eq("Vector::clone", seen(&v.clone()), a.clone(), d);
    c.eq("Vector::into_array", v.clone().into_array().to_vec(), a.clone(), d);
    c.eq("<[T; N]>::from(Vector)", <[T; N]>::from(v.clone()).to_vec(), a.clone(), d);
    c.eq("Vector::into_iter", v.clone().into_iter().collect::<Vec<_>>(), a.clone(), d);
    let mut k = 0;
    let w = Vector::<T, N>::init(|| {
        k += 1;
        a[k - 1].clone()
    });
    c.eq("Vector::init", seen(&w), a.clone(), d);
    c.eq("Vector == after round trip", w == Vector::from_array(v.clone().into_array()), true, d);
    // iterators: exact consumption
    for l in lengths(c, N) {
        let src: Vec<T> = gen(c, l);
        for hint in [false, true] {
            let n = Cell::new(0);
            let mut it: Box<dyn Iterator<Item = T>> =
                if hint { Box::new(CountHint(src.iter().cloned(), &n)) } else { Box::new(Count(src.iter().cloned(), &n)) };
            let r = Vector::<T, N>::try_from_iter(&mut it);
            let taken = n.get();
            c.op("Vector::try_from_iter");
            let ctx = || format!("Vector<{}, {N}>::try_from_iter over {l} items (size hint: {hint})", T::NAME);
            if l >= N {
                c.check(r.as_ref().map(seen) == Some(src[..N].to_vec()), "Vector::try_from_iter keeps the first N items", || format!("{}: {:?} from {src:?}", ctx(), r));
                c.check(taken == N, "Vector::try_from_iter takes exactly N items", || format!("{}: took {taken}", ctx()));
                let next = it.next();
                c.check(next.as_ref() == src.get(N), "a borrowed iterator continues with the next item", || format!("{}: {next:?}", ctx()));
                drop(it);
            } else {
                c.check(r.is_none(), "Vector::try_from_iter yields nothing if the iterator runs short", || format!("{}: {:?}", ctx(), r));
                c.check(taken == l, "Vector::try_from_iter consumption of a short iterator", || format!("{}: took {taken}", ctx()));
            }
        }
        // grouping
        let n = Cell::new(0);
        let mut g = GroupIter::<_, N>::new(Count(src.iter().cloned(), &n));
        c.op("GroupIter");
        if N == 0 {
            for _ in 0..3 {
                c.check(g.next().is_some(), "GroupIter<0>", || "no empty group".into());
            }
            c.check(n.get() == 0, "GroupIter<0> consumption", || format!("{}", n.get()));
        } else {
            let mut m = 0;
            while m < l / N {
                let x = g.next();
                c.check(x.as_ref().map(seen) == Some(src[m * N..(m + 1) * N].to_vec()), "GroupIter yields consecutive full groups", || format!("{} group {m} of {src:?}: {x:?}", N));
                m += 1;
                c.check(n.get() == m * N, "GroupIter takes exactly one group per step", || format!("N {N}: {} items taken after {m} groups", n.get()));
            }
            for _ in 0..2 {
                let x = g.next();
                c.check(x.is_none(), "GroupIter drops an incomplete group", || format!("N {N}, {l} items: {x:?}"));
            }
            let groups: Vec<Vec<T>> = src.chunks_exact(N).map(|g| g.to_vec()).collect();
            iter_laws(c, "GroupIter", &[N, l], &groups, || GroupIter::<_, N>::new(src.iter().cloned()), |x| x.into_array().to_vec());
        }
    }
    // an endless source
    let mut k = 0u64;
    let r = Vector::<T, N>::try_from_iter(std::iter::from_fn(|| {
        k += 1;
        Some(T::mk(k))
    }));
    c.op("Vector::try_from_iter(endless)");
    c.check(r.map(|v| seen(&v)) == Some((0..N).map(|i| T::mk(i as u64 + 1)).collect()) && k == N as u64, "Vector::try_from_iter of an endless iterator", || format!("N {N}: {k} steps"));
    // a source that resumes after its end
    if N >= 2 {
        let stop = c.rng.below(N) as u64;
        let mut k = 0u64;
        let r = Vector::<T, N>::try_from_iter(std::iter::from_fn(|| {
            k += 1;
            if k == stop + 1 { None } else { Some(T::mk(k)) }
        }));
        c.check(r.is_none(), "Vector::try_from_iter must stop at the first end", || format!("N {N}, end after {stop}: {r:?}"));
    }
}

fn vector_copy<T: El + Copy, const N: usize>(c: &mut Ctx) {
    let a: Vec<T> = gen(c, N);
    c.input(hash_u64s(a.iter().map(|x| hash_str(&format!("{x:?}"))).chain([N as u64, 7])));
    let ar: [T; N] = arr(&a);
    c.eq("Vector::from(&[T; N])", seen(&Vector::from(&ar)), a.clone(), || format!("{a:?}"));
    for l in lengths(c, N) {
        let s: Vec<T> = gen(c, l);
        let r = catch(|| Vector::<T, N>::try_from(&s[..]));
        c.op("Vector::try_from(&[T])");
        let want = if l == N { Ok(s.clone()) } else { Err(()) };
        c.check(r.as_ref().map(|r| r.as_ref().map(seen).map_err(|_| ())) == Ok(want), "Vector::try_from(slice) accepts exactly its length", || format!("N {N}, slice of {l}: {r:?}"));
    }
    if N > 0 {
        let x = T::mk(c.rng.u64());
        c.eq("Vector::fill", seen(&Vector::<T, N>::fill(x)), vec![x; N], || format!("{N}"));
    }
}

fn defaults<const M: usize, const N: usize>(c: &mut Ctx) {
    { let h = c.rng.u64(); c.input(h); }
    c.eq("Vector::default", seen(&Vector::<String, N>::default()), vec![String::new(); N], || format!("{N}"));
    c.eq("Vector::new", seen(&Vector::<u64, N>::new()), vec![0; N], || format!("{N}"));
    c.eq("Matrix::default", seen2(&Matrix::<String, M, N>::default()), vec![String::new(); M * N], || format!("{M}x{N}"));
    c.eq("Matrix::new", seen2(&Matrix::<u64, M, N>::new()), vec![0; M * N], || format!("{M}x{N}"));
    let x = c.rng.u64();
    c.eq("Matrix::fill", seen2(&Matrix::<u64, M, N>::fill(x)), vec![x; M * N], || format!("{M}x{N}"));
    c.eq("Matrix::fill_ref", seen2(&Matrix::<u64, M, N>::fill_ref(&x)), vec![x; M * N], || format!("{M}x{N}"));
    // a stateful Default is evaluated once per element, in order
    thread_local!(static K: Cell<u64> = const { Cell::new(0) });
    #[derive(Clone, PartialEq, Debug)]
    struct Seq(u64);
    impl Default for Seq {
        fn default() -> Self {
            K.with(|k| k.set(k.get() + 1));
            Seq(K.with(|k| k.get()))
        }
    }
    K.with(|k| k.set(0));
    let m = Matrix::<Seq, M, N>::default();
    let got: Vec<u64> = (0..M * N).map(|q| m[(q / N, q % N)].0).collect();
    c.eq("Matrix::default in order", got, (1..=(M * N) as u64).collect(), || format!("{M}x{N}"));
    K.with(|k| k.set(0));
    let v = Vector::<Seq, N>::default();
    let got: Vec<u64> = (0..N).map(|q| v[q].0).collect();
    c.eq("Vector::default in order", got, (1..=N as u64).collect(), || format!("{N}"));
}

fn matrix<T: El, const M: usize, const N: usize>(c: &mut Ctx) {
    let a: Vec<T> = gen(c, M * N);
    c.input(hash_u64s(a.iter().map(|x| hash_str(&format!("{x:?}"))).chain([M as u64, N as u64])));
    c.sample(|| format!("Matrix<{}, {M}, {N}> from {:?}", T::NAME, a.iter().take(4).collect::<Vec<_>>()));
    let d = || format!("Matrix<{}, {M}, {N}> from {a:?}", T::NAME);
    let aa = || arrs::<T, M, N>(&a);
    let av = || -> [Vector<T, N>; M] { aa().map(Vector::from_array) };
    let vv = || Vector::from_array(av());
    c.eq("Matrix::from_array_of_arrays", seen2(&Matrix::from_array_of_arrays(aa())), a.clone(), d);
    c.eq("Matrix::from_array_of_vectors", seen2(&Matrix::from_array_of_vectors(av())), a.clone(), d);
    c.eq("Matrix::from_vector_of_vectors", seen2(&Matrix::from_vector_of_vectors(vv())), a.clone(), d);
    c.eq("Matrix::from([[T; N]; M])", seen2(&Matrix::from(aa())), a.clone(), d);
    c.eq("Matrix::from([Vector; M])", seen2(&Matrix::from(av())), a.clone(), d);
    c.eq("Matrix::from(Vector<Vector>)", seen2(&Matrix::from(vv())), a.clone(), d);
    let m = Matrix::from(aa());
    c.eq("Matrix::clone", seen2(&m.clone()), a.clone(), d);
    let f1 = |x: [[T; N]; M]| x.into_iter().flatten().collect::<Vec<_>>();
    let f2 = |x: [Vector<T, N>; M]| x.iter().flat_map(seen).collect::<Vec<_>>();
    c.eq("Matrix::into_array_of_arrays", f1(m.clone().into_array_of_arrays()), a.clone(), d);
    c.eq("Matrix::into_array_of_vectors", f2(m.clone().into_array_of_vectors()), a.clone(), d);
    c.eq("Matrix::into_vector_of_vectors", f2(m.clone().into_vector_of_vectors().into_array()), a.clone(), d);
    c.eq("[[T; N]; M]::from(Matrix)", f1(<[[T; N]; M]>::from(m.clone())), a.clone(), d);
    c.eq("[Vector; M]::from(Matrix)", f2(<[Vector<T, N>; M]>::from(m.clone())), a.clone(), d);
    c.eq("Vector<Vector>::from(Matrix)", f2(<Vector<Vector<T, N>, M>>::from(m.clone()).into_array()), a.clone(), d);
    c.eq("Matrix::into_iter", m.clone().into_iter().collect::<Vec<_>>(), a.clone(), d);
    c.eq("Matrix::iter", m.iter().cloned().collect::<Vec<_>>(), a.clone(), d);
    let mut k = 0;
    let w = Matrix::<T, M, N>::init(|| {
        k += 1;
        a[k - 1].clone()
    });
    c.eq("Matrix::init", seen2(&w), a.clone(), d);
    for l in lengths(c, M * N) {
        let src: Vec<T> = gen(c, l);
        for hint in [false, true] {
            let n = Cell::new(0);
            let mut it: Box<dyn Iterator<Item = T>> =
                if hint { Box::new(CountHint(src.iter().cloned(), &n)) } else { Box::new(Count(src.iter().cloned(), &n)) };
            let r = Matrix::<T, M, N>::try_from_iter(&mut it);
            let taken = n.get();
            c.op("Matrix::try_from_iter");
            let ctx = || format!("Matrix<{}, {M}, {N}>::try_from_iter over {l} items", T::NAME);
            if l >= M * N {
                c.check(r.as_ref().map(seen2) == Some(src[..M * N].to_vec()), "Matrix::try_from_iter keeps the first M*N items", || format!("{}: {:?} from {src:?}", ctx(), r));
                c.check(taken == M * N, "Matrix::try_from_iter takes exactly M*N items", || format!("{}: took {taken}", ctx()));
                let next = it.next();
                c.check(next.as_ref() == src.get(M * N), "a borrowed iterator continues with the next item", || format!("{}: {next:?}", ctx()));
            } else {
                c.check(r.is_none(), "Matrix::try_from_iter yields nothing if the iterator runs short", || format!("{}: {:?}", ctx(), r));
            }
        }
    }
    for l in lengths(c, M) {
        let src: Vec<Vector<T, N>> = (0..l).map(|_| Vector::from_array(arr(&gen::<T>(c, N)))).collect();
        let n = Cell::new(0);
        let mut it = Count(src.iter().cloned(), &n);
        let r = Matrix::<T, M, N>::try_from_iter_of_vectors(&mut it);
        c.op("Matrix::try_from_iter_of_vectors");
        if l >= M {
            let want: Vec<T> = src[..M].iter().flat_map(seen).collect();
            c.check(r.as_ref().map(seen2) == Some(want), "Matrix::try_from_iter_of_vectors keeps the first M rows", || format!("{M}x{N} from {l} rows"));
            c.check(n.get() == M, "Matrix::try_from_iter_of_vectors takes exactly M rows", || format!("{M}x{N}: took {} of {l}", n.get()));
        } else {
            c.check(r.is_none(), "Matrix::try_from_iter_of_vectors yields nothing if short", || format!("{M}x{N} from {l} rows"));
        }
    }
}

fn matrix_copy<T: El + Copy, const M: usize, const N: usize>(c: &mut Ctx) {
    let a: Vec<T> = gen(c, M * N);
    c.input(hash_u64s(a.iter().map(|x| hash_str(&format!("{x:?}"))).chain([M as u64, N as u64, 7])));
    let aa = arrs::<T, M, N>(&a);
    let av: [Vector<T, N>; M] = aa.map(Vector::from_array);
    let vv = Vector::from_array(av);
    let d = || format!("{M}x{N} from {a:?}");
    c.eq("Matrix::from(&[[T; N]; M])", seen2(&Matrix::from(&aa)), a.clone(), d);
    c.eq("Matrix::from(&[Vector; M])", seen2(&Matrix::from(&av)), a.clone(), d);
    c.eq("Matrix::from(&Vector<Vector>)", seen2(&Matrix::from(&vv)), a.clone(), d);
    for l in lengths(c, M * N) {
        let s: Vec<T> = gen(c, l);
        let r = catch(|| Matrix::<T, M, N>::try_from(&s[..]));
        c.op("Matrix::try_from(&[T])");
        let want = if l == M * N { Ok(s.clone()) } else { Err(()) };
        c.check(r.as_ref().map(|r| r.as_ref().map(seen2).map_err(|_| ())) == Ok(want), "Matrix::try_from(slice) accepts exactly its length", || format!("{M}x{N}, slice of {l}: {r:?}"));
    }
    for l in lengths(c, M) {
        let s: Vec<Vector<T, N>> = (0..l).map(|_| Vector::from_array(arr(&gen::<T>(c, N)))).collect();
        let r = catch(|| Matrix::<T, M, N>::try_from(&s[..]));
        c.op("Matrix::try_from(&[Vector])");
        let want = if l == M { Ok(s.iter().flat_map(seen).collect()) } else { Err(()) };
        c.check(r.as_ref().map(|r| r.as_ref().map(seen2).map_err(|_| ())) == Ok(want), "Matrix::try_from(row slice) accepts exactly its length", || format!("{M}x{N}, {l} rows: {r:?}"));
    }
}

/// FlatIter over ragged sub-sequences, including empty ones
fn flat(c: &mut Ctx) {
    let n = match c.rng.below(5) {
        0 => 0,
        1 => 1,
        _ => c.rng.below(8),
    };
    let empty = c.rng.below(4);
    let src: Vec<Vec<u64>> = (0..n)
        .map(|_| {
            let l = if c.rng.below(4) < empty { 0 } else { c.rng.below(5) };
            (0..l).map(|_| c.rng.u64()).collect()
        })
        .collect();
    c.input(hash_u64s(src.iter().flat_map(|s| s.iter().copied().chain([s.len() as u64]))));
    c.sample(|| format!("FlatIter over {} sub-sequences of lengths {:?}", n, src.iter().map(|s| s.len()).collect::<Vec<_>>()));
    let want: Vec<u64> = src.iter().flatten().copied().collect();
    let f = FlatIter::new(src.clone().into_iter());
    c.op("FlatIter::new");
    match f {
        None => c.check(n == 0, "FlatIter::new refuses only an empty sequence", || format!("{src:?}")),
        Some(mut f) => {
            c.check(n > 0, "FlatIter::new of an empty sequence", || "Some".into());
            let mut got = Vec::new();
            for x in &mut f {
                got.push(x);
                if got.len() > want.len() {
                    break;
                }
            }
            c.check(got == want, "FlatIter yields every item of every sub-sequence in order", || format!("got {got:?} from {src:?}"));
            c.check(f.next().is_none() && f.next().is_none(), "FlatIter stays finished", || format!("{src:?}"));
            // adaptors agree as well
            let lens: Vec<usize> = src.iter().map(|s| s.len()).collect();
            iter_laws(c, "FlatIter", &lens, &want, || FlatIter::new(src.clone().into_iter()).unwrap(), |x| x);
            let g = FlatIter::new(src.clone().into_iter()).unwrap();
            let (lo, hi) = g.size_hint();
            c.check(lo <= want.len() && hi.map_or(true, |h| h >= want.len()), "FlatIter::size_hint", || format!("({lo}, {hi:?}) for {} items", want.len()));
            c.check(g.count() == want.len(), "FlatIter::count", || format!("{src:?}"));
            let g = FlatIter::new(src.clone().into_iter()).unwrap();
            c.check(g.fold(0u64, |a, x| hash2(a, x)) == want.iter().fold(0u64, |a, x| hash2(a, *x)), "FlatIter::fold", || format!("{src:?}"));
            let k = c.rng.below(want.len() + 2);
            let mut g = FlatIter::new(src.clone().into_iter()).unwrap();
            c.check(g.nth(k) == want.get(k).copied(), "FlatIter::nth", || format!("{k} of {src:?}"));
            let rest: Vec<u64> = g.collect();
            c.check(rest == want.get(k + 1..).unwrap_or(&[]), "FlatIter after nth", || format!("{k} of {src:?}: {rest:?}"));
            let g = FlatIter::new(src.clone().into_iter()).unwrap();
            c.check(g.last() == want.last().copied(), "FlatIter::last", || format!("{src:?}"));
        }
    }
    // sub-sequences that are vectors and references
    let rows: Vec<Vector<u64, 3>> = src.iter().map(|s| vec_from(|i| s.get(i).copied().unwrap_or(i as u64))).collect();
    if let Some(f) = FlatIter::new(rows.iter()) {
        let got: Vec<u64> = f.copied().collect();
        c.check(got == rows.iter().flat_map(|r| r.into_array()).collect::<Vec<_>>(), "FlatIter over vector references", || format!("{rows:?}"));
    }
}

fn tuples<T: El>(c: &mut Ctx) {
    let a: Vec<T> = gen(c, 4);
    c.input(hash_u64s(a.iter().map(|x| hash_str(&format!("{x:?}")))));
    let g = |i: usize| a[i].clone();
    let d = || format!("{a:?}");
    let two = vec![g(0), g(1)];
    let three = vec![g(0), g(1), g(2)];
    c.eq("Vector2::from_tuple", seen(&Vector::<T, 2>::from_tuple((g(0), g(1)))), two.clone(), d);
    c.eq("Vector2::from((,))", seen(&Vector::<T, 2>::from((g(0), g(1)))), two.clone(), d);
    c.eq("Vector3::from_tuple", seen(&Vector::<T, 3>::from_tuple((g(0), g(1), g(2)))), three.clone(), d);
    c.eq("Vector3::from((,,))", seen(&Vector::<T, 3>::from((g(0), g(1), g(2)))), three.clone(), d);
    c.eq("Vector4::from_tuple", seen(&Vector::<T, 4>::from_tuple((g(0), g(1), g(2), g(3)))), a.clone(), d);
    c.eq("Vector4::from((,,,))", seen(&Vector::<T, 4>::from((g(0), g(1), g(2), g(3)))), a.clone(), d);
    let (v2, v3, v4) = (Vector::<T, 2>::from([g(0), g(1)]), Vector::<T, 3>::from([g(0), g(1), g(2)]), Vector::<T, 4>::from([g(0), g(1), g(2), g(3)]));
    c.eq("Vector2::into_tuple", v2.clone().into_tuple(), (g(0), g(1)), d);
    c.eq("(,)::from(Vector2)", <(T, T)>::from(v2.clone()), (g(0), g(1)), d);
    c.eq("Vector3::into_tuple", v3.clone().into_tuple(), (g(0), g(1), g(2)), d);
    c.eq("(,,)::from(Vector3)", <(T, T, T)>::from(v3.clone()), (g(0), g(1), g(2)), d);
    c.eq("Vector4::into_tuple", v4.clone().into_tuple(), (g(0), g(1), g(2), g(3)), d);
    c.eq("(,,,)::from(Vector4)", <(T, T, T, T)>::from(v4.clone()), (g(0), g(1), g(2), g(3)), d);
    // complex
    let rz = |z: Complex<T>| vec![z.re_ref().clone(), z.im_ref().clone()];
    c.eq("Complex::new", rz(Complex::new(g(0), g(1))), two.clone(), d);
    c.eq("Complex::from_vector", rz(Complex::from_vector(v2.clone())), two.clone(), d);
    c.eq("Complex::from(Vector2)", rz(Complex::from(v2.clone())), two.clone(), d);
    c.eq("Complex::from_array", rz(Complex::from_array([g(0), g(1)])), two.clone(), d);
    c.eq("Complex::from([T; 2])", rz(Complex::from([g(0), g(1)])), two.clone(), d);
    c.eq("Complex::from_tuple", rz(Complex::from_tuple((g(0), g(1)))), two.clone(), d);
    c.eq("Complex::from((,))", rz(Complex::from((g(0), g(1)))), two.clone(), d);
    c.eq("Complex::from_num", rz(Complex::from_num(NumComplex { re: g(0), im: g(1) })), two.clone(), d);
    c.eq("Complex::from(num_complex)", rz(Complex::from(NumComplex { re: g(0), im: g(1) })), two.clone(), d);
    let z = || Complex::new(g(0), g(1));
    c.eq("Complex::into_vector", seen(&z().into_vector()), two.clone(), d);
    c.eq("Vector2::from(Complex)", seen(&Vector::<T, 2>::from(z())), two.clone(), d);
    c.eq("Complex::into_array", z().into_array().to_vec(), two.clone(), d);
    c.eq("[T; 2]::from(Complex)", <[T; 2]>::from(z()).to_vec(), two.clone(), d);
    c.eq("Complex::into_tuple", z().into_tuple(), (g(0), g(1)), d);
    c.eq("(,)::from(Complex)", <(T, T)>::from(z()), (g(0), g(1)), d);
    let n = z().into_num();
    c.eq("Complex::into_num", vec![n.re, n.im], two.clone(), d);
    let n = NumComplex::<T>::from(z());
    c.eq("num_complex::from(Complex)", vec![n.re, n.im], two.clone(), d);
    // quaternion
    let rq = |q: Quaternion<T>| vec![q.w_ref().clone(), q.x_ref().clone(), q.y_ref().clone(), q.z_ref().clone()];
    let v123 = || Vector::<T, 3>::from([g(1), g(2), g(3)]);
    c.eq("Quaternion::new", rq(Quaternion::new(g(0), g(1), g(2), g(3))), a.clone(), d);
    c.eq("Quaternion::from_vector", rq(Quaternion::from_vector(v4.clone())), a.clone(), d);
    c.eq("Quaternion::from(Vector4)", rq(Quaternion::from(v4.clone())), a.clone(), d);
    c.eq("Quaternion::from_array", rq(Quaternion::from_array([g(0), g(1), g(2), g(3)])), a.clone(), d);
    c.eq("Quaternion::from([T; 4])", rq(Quaternion::from([g(0), g(1), g(2), g(3)])), a.clone(), d);
    c.eq("Quaternion::from_tuple", rq(Quaternion::from_tuple((g(0), g(1), g(2), g(3)))), a.clone(), d);
    c.eq("Quaternion::from((,,,))", rq(Quaternion::from((g(0), g(1), g(2), g(3)))), a.clone(), d);
    c.eq("Quaternion::from_scalar_and_vector3", rq(Quaternion::from_scalar_and_vector3(g(0), v123())), a.clone(), d);
    c.eq("Quaternion::from((T, Vector3))", rq(Quaternion::from((g(0), v123()))), a.clone(), d);
    let q = || Quaternion::new(g(0), g(1), g(2), g(3));
    c.eq("Quaternion::into_vector", seen(&q().into_vector()), a.clone(), d);
    c.eq("Vector4::from(Quaternion)", seen(&Vector::<T, 4>::from(q())), a.clone(), d);
    c.eq("Quaternion::into_array", q().into_array().to_vec(), a.clone(), d);
    c.eq("[T; 4]::from(Quaternion)", <[T; 4]>::from(q()).to_vec(), a.clone(), d);
    c.eq("Quaternion::into_tuple", q().into_tuple(), (g(0), g(1), g(2), g(3)), d);
    c.eq("(,,,)::from(Quaternion)", <(T, T, T, T)>::from(q()), (g(0), g(1), g(2), g(3)), d);
    let (s, v) = q().into_scalar_and_vector3();
    c.eq("Quaternion::into_scalar_and_vector3", (s, seen(&v)), (g(0), vec![g(1), g(2), g(3)]), d);
    let (s, v) = <(T, Vector<T, 3>)>::from(q());
    c.eq("(T, Vector3)::from(Quaternion)", (s, seen(&v)), (g(0), vec![g(1), g(2), g(3)]), d);
    // Moebius
    let rm = |m: Moebius<T>| vec![m.a_ref().clone(), m.b_ref().clone(), m.c_ref().clone(), m.d_ref().clone()];
    let aa = || [[g(0), g(1)], [g(2), g(3)]];
    let mm = || Matrix::<T, 2, 2>::from(aa());
    c.eq("Moebius::new", rm(Moebius::new(g(0), g(1), g(2), g(3))), a.clone(), d);
    c.eq("Moebius::from_matrix", rm(Moebius::from_matrix(mm())), a.clone(), d);
    c.eq("Moebius::from(Matrix)", rm(Moebius::from(mm())), a.clone(), d);
    c.eq("Moebius::from_array", rm(Moebius::from_array(aa())), a.clone(), d);
    c.eq("Moebius::from([[T; 2]; 2])", rm(Moebius::from(aa())), a.clone(), d);
    c.eq("Moebius::from_tuple", rm(Moebius::from_tuple((g(0), g(1), g(2), g(3)))), a.clone(), d);
    let m = || Moebius::new(g(0), g(1), g(2), g(3));
    c.eq("Moebius::into_matrix", seen2(&m().into_matrix()), a.clone(), d);
    c.eq("Matrix::from(Moebius)", seen2(&Matrix::<T, 2, 2>::from(m())), a.clone(), d);
    c.eq("Moebius::into_array", m().into_array(), aa(), d);
    c.eq("[[T; 2]; 2]::from(Moebius)", <[[T; 2]; 2]>::from(m()), aa(), d);
    c.eq("Moebius::into_tuple", m().into_tuple(), (g(0), g(1), g(2), g(3)), d);
    // transforms
    c.eq("Shift", seen(&Shift::from_vector(v3.clone()).into_vector()), three.clone(), d);
    c.eq("Shift::from", seen(&Vector::<T, 3>::from(Shift::from(v3.clone()))), three.clone(), d);
    c.eq("Scale", Scale::from_mag(g(0)).into_mag(), g(0), d);
    c.eq("Scale::from", Scale::from(g(1)).into_mag(), g(1), d);
    c.eq("Linear", seen2(&Linear::from_matrix(mm()).into_matrix()), a.clone(), d);
    c.eq("Linear::from", seen2(&Matrix::<T, 2, 2>::from(Linear::from(mm()))), a.clone(), d);
    c.eq("Rotation2", rz(Rotation2::from_complex(z()).into_complex()), two.clone(), d);
    c.eq("Rotation2::from", rz(Complex::from(Rotation2::from(z()))), two.clone(), d);
    c.eq("Rotation3", rq(Rotation3::from_quaternion(q()).into_quaternion()), a.clone(), d);
    c.eq("Rotation3::from", rq(Quaternion::from(Rotation3::from(q()))), a.clone(), d);
    type Ch<T> = Chain<Shift<T, 2>, Scale<T>, Vector<T, 2>>;
    let mk = || Ch::<T>::new(Shift::from(v2.clone()), Scale::from(g(2)));
    let (o, i) = mk().split();
    c.eq("Chain::split", (seen(&o.into_vector()), i.into_mag()), (two.clone(), g(2)), d);
    let (o, i): (Shift<T, 2>, Scale<T>) = mk().into();
    c.eq("Chain::into tuple", (seen(&o.into_vector()), i.into_mag()), (two.clone(), g(2)), d);
    let ch: Ch<T> = (Shift::from(v2.clone()), Scale::from(g(2))).into();
    let (o, i) = ch.split();
    c.eq("Chain::from tuple", (seen(&o.into_vector()), i.into_mag()), (two.clone(), g(2)), d);
    let mut ch = mk();
    c.eq("Chain::outer/inner", *ch.outer() == Shift::from(v2.clone()) && *ch.inner() == Scale::from(g(2)), true, d);
    *ch.inner_mut() = Scale::from(g(3));
    *ch.outer_mut() = Shift::from(Vector::<T, 2>::from([g(1), g(0)]));
    let (o, i) = ch.split();
    c.eq("Chain::outer_mut/inner_mut", (seen(&o.into_vector()), i.into_mag()), (vec![g(1), g(0)], g(3)), d);
}

fn affine(c: &mut Ctx) {
    let a: [u64; 6] = std::array::from_fn(|_| c.rng.u64());
    c.input(hash_u64s(a));
    let s = Shift::from(Vector::from([a[0], a[1]]));
    let l = Linear::from(Matrix::from([[a[2], a[3]], [a[4], a[5]]]));
    let f = Affine::<u64, 2>::new(s, l);
    c.eq("Affine::shift", f.shift() == s, true, || format!("{a:?}"));
    c.eq("Affine::linear", f.linear() == l, true, || format!("{a:?}"));
    c.eq("Affine::split", f.split() == (s, l), true, || format!("{a:?}"));
}

/// The names with numbers mean the dimensions they say.
fn aliases(c: &mut Ctx) {
    use std::any::TypeId;
    use vecmat::{matrix::*, transform::*, vector::*};
    fn go<T: 'static>(c: &mut Ctx, elem: &str) {
        macro_rules! same {
            ($($a:ident = $b:ty),* $(,)?) => {$(
                c.op(stringify!($a));
                c.check(TypeId::of::<$a<T>>() == TypeId::of::<$b>(), "alias has the dimensions in its name", || {
                    format!("{}<{elem}> is {}", stringify!($a), std::any::type_name::<$a<T>>())
                });
            )*};
        }
        same!(
            Vector2 = Vector<T, 2>, Vector3 = Vector<T, 3>, Vector4 = Vector<T, 4>, Vector8 = Vector<T, 8>, Vector16 = Vector<T, 16>,
            Matrix2x2 = Matrix<T, 2, 2>, Matrix2x3 = Matrix<T, 2, 3>, Matrix2x4 = Matrix<T, 2, 4>,
            Matrix3x2 = Matrix<T, 3, 2>, Matrix3x3 = Matrix<T, 3, 3>, Matrix3x4 = Matrix<T, 3, 4>,
            Matrix4x2 = Matrix<T, 4, 2>, Matrix4x3 = Matrix<T, 4, 3>, Matrix4x4 = Matrix<T, 4, 4>,
        );
        same!(Linear2 = Linear<T, 2>, Linear3 = Linear<T, 3>, Linear4 = Linear<T, 4>);
        same!(Shift2 = Shift<T, 2>, Shift3 = Shift<T, 3>, Shift4 = Shift<T, 4>);
        same!(Affine2 = Affine<T, 2>, Affine3 = Affine<T, 3>, Affine4 = Affine<T, 4>);
    }
    go::<f64>(c, "f64");
    go::<f32>(c, "f32");
    go::<u8>(c, "u8");
    c.input(c.index);
}

fn main() {
    let mut s = Suite::new(
        "C03",
        "a case builds one container type, dimension and element type from random data through every constructor and \
         conversion, reads it back by index, and feeds slices and counted iterators of many lengths; non-trivial: \
         element data (hashed) and dimension differ",
    );
    s.section("vector_u64", 24 * 12, |c| run_table!(c, vdims!(vector, u64)));
    s.section("vector_string", 11 * 12, |c| run_table!(c, vdims_few!(vector, String)));
    s.section("vector_copy", 24 * 12, |c| run_table!(c, vdims!(vector_copy, u8)));
    s.section("defaults", 14 * 6, |c| run_table!(c, mdims_few!(defaults)));
    s.section("matrix_u64", 31 * 12, |c| run_table!(c, mdims!(matrix, u64)));
    s.section("matrix_string", 4 * 12, |c| {
        const T: &[fn(&mut Ctx)] = &[matrix::<String, 2, 2>, matrix::<String, 2, 3>, matrix::<String, 0, 2>, matrix::<String, 3, 1>];
        run_table!(c, T)
    });
    s.section("matrix_copy", 31 * 12, |c| run_table!(c, mdims!(matrix_copy, u64)));
    s.section("flat_iter", 4000, flat);
    s.section("tuples_and_parts", 600, |c| {
        const T: &[fn(&mut Ctx)] = &[tuples::<u64>, tuples::<String>, tuples::<u8>];
        run_table!(c, T)
    });
    s.section("affine_parts", 100, affine);
    s.section("aliases", 1, aliases);
    s.native("large", 8, |c| {
        const T: &[fn(&mut Ctx)] = &[vector::<u64, 135>, vector::<u8, 263>, vector_copy::<u64, 263>, matrix::<u64, 2, 263>, matrix::<u64, 263, 2>, matrix_copy::<u64, 16, 17>, matrix_copy::<u64, 263, 1>, matrix_copy::<u64, 1, 263>];
        run_table!(c, T)
    });
    s.run();
}
