//! C22: formatting shows every element once, in order, and never panics.
use harness::*;
use std::cell::Cell;
use std::fmt::{self, Debug, Display, Write};
use vecmat::complex::Moebius;
use vecmat::{Complex, Matrix, Quaternion, Vector};

thread_local! {
    /// identifier of the element whose formatting fails, and how
    static FAIL: Cell<(u64, bool)> = const { Cell::new((u64::MAX, false)) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
/// Shows as <n> or <n!>: a different text for each element and each trait.
#[derive(Clone, Copy, PartialEq)]
struct Tok(u64);
impl Tok {
    fn show(&self, f: &mut fmt::Formatter, mark: &str) -> fmt::Result {
        CALLS.with(|c| c.set(c.get() + 1));
        let (id, late) = FAIL.with(|c| c.get());
        if id == self.0 && !late {
            return Err(fmt::Error);
        }
        write!(f, "<{}{}>", letters(self.0), mark)?;
        if id == self.0 {
            return Err(fmt::Error);
        }
        Ok(())
    }
}
/// no digits inside elements, so that dimensions can be told from them
fn letters(mut n: u64) -> String {
    let mut s = String::new();
    loop {
        s.push((b'a' + (n % 26) as u8) as char);
        n /= 26;
        if n == 0 {
            return s;
        }
    }
}
impl Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.show(f, "")
    }
}
impl Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.show(f, "!")
    }
}

/// A sink with a limit on bytes or calls; it may recover after one failure.
struct Sink {
    text: String,
    bytes: usize,
    calls: usize,
    seen: usize,
    once: bool,
    failed: bool,
}
impl Sink {
    fn open() -> Self {
        Sink { text: String::new(), bytes: usize::MAX, calls: usize::MAX, seen: 0, once: false, failed: false }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let k = self.seen;
        self.seen += 1;
        let over = self.text.len() + s.len() > self.bytes || k >= self.calls;
        if over && !(self.once && self.failed) {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Display,
    Debug,
    /// flags must not break anything
    Alternate,
    Width,
    Precision,
}
const MODES: [Mode; 5] = [Mode::Display, Mode::Debug, Mode::Alternate, Mode::Width, Mode::Precision];
fn put<X: Display + Debug>(s: &mut Sink, x: &X, m: Mode) -> fmt::Result {
    match m {
        Mode::Display => write!(s, "{}", x),
        Mode::Debug => write!(s, "{:?}", x),
        Mode::Alternate => write!(s, "{:#?}", x),
        Mode::Width => write!(s, "{:>12}", x),
        Mode::Precision => write!(s, "{:+09.3}", x),
    }
}

/// Judge one value whose elements are `ids`, in `cols` columns (0: no rows).
fn judge<X: Display + Debug>(c: &mut Ctx, name: &'static str, x: &X, ids: &[u64], header: &[usize], cols: Option<usize>, rows: usize) {
    c.op(name);
    c.input(hash_u64s(ids.iter().copied().chain([hash_str(name)])));
    let all = |s: &mut Sink, m: Mode| put(s, x, m);
    judge_dyn(c, name, &all, ids, header, cols, rows)
}
fn judge_dyn(
    c: &mut Ctx,
    name: &'static str,
    put: &dyn Fn(&mut Sink, Mode) -> fmt::Result,
    ids: &[u64],
    header: &[usize],
    cols: Option<usize>,
    rows: usize,
) {
    FAIL.with(|f| f.set((u64::MAX, false)));
    for m in MODES {
        let mut s = Sink::open();
        CALLS.with(|k| k.set(0));
        let r = put(&mut s, m);
        let t = s.text.clone();
        let d = || format!("{name}, {m:?}: {t:?} for elements {:?}", ids.iter().map(|i| letters(*i)).collect::<Vec<_>>());
        if m == Mode::Debug {
            c.sample(d);
        }
        c.check(r.is_ok(), "formatting succeeds", d);
        // the element code really ran
        c.check(ids.is_empty() || CALLS.with(|k| k.get()) > 0, "elements are formatted by their own code", d);
        // tokens with their positions
        let mark = if matches!(m, Mode::Debug | Mode::Alternate) { "!" } else { "" };
        let mut toks = vec![];
        let mut at = 0;
        while let Some(a) = t[at..].find('<') {
            let b = t[at + a..].find('>').map(|b| at + a + b + 1).unwrap_or(t.len());
            toks.push((at + a, b));
            at = b;
        }
        let shown: Vec<&str> = toks.iter().map(|(a, b)| &t[*a..*b]).collect();
        let want: Vec<String> = ids.iter().map(|i| format!("<{}{}>", letters(*i), mark)).collect();
        c.check(shown == want, "elements once, in order, by the right trait", || format!("shows {shown:?}, expected {want:?}; {}", d()));
        // the dimensions come first, and nothing else is a number
        let first = toks.first().map_or(t.len(), |x| x.0);
        let nums = |s: &str| -> Vec<usize> { s.split(|ch: char| !ch.is_ascii_digit()).filter(|w| !w.is_empty()).map(|w| w.parse().unwrap()).collect() };
        c.check(nums(&t[..first]) == header, "dimensions first", || format!("expected {header:?}; {}", d()));
        c.check(toks.is_empty() || nums(&t[first..]).is_empty(), "no other numbers", d);
        c.check(toks.windows(2).all(|w| w[0].1 < w[1].0), "elements are separated", d);
        if let Some(cols) = cols {
            for (k, w) in toks.windows(2).enumerate() {
                let gap = t[w[0].1..w[1].0].matches('\n').count();
                let last = (k + 1) % cols == 0;
                c.check((gap > 0) == last, "one row per line", || format!("between elements {k} and {}; {}", k + 1, d()));
            }
        }
        // same text whatever the sink and however often
        let mut s2 = Sink::open();
        c.check(put(&mut s2, m).is_ok() && s2.text == t, "formatting is repeatable", || format!("then {:?}; {}", s2.text, d()));

        // failing sinks: every number of calls, every number of bytes
        let total = s.seen;
        let step = |c: &mut Ctx, n: usize| if n <= 60 && !c.miri { 1 } else { 1 + n / 20 + c.rng.below(3) };
        let mut k = 0;
        while k < total {
            for once in [false, true] {
                let mut s = Sink { calls: k, once, ..Sink::open() };
                // for `once`, only call number k fails
                let r = put(&mut s, m);
                c.check(!s.failed || r.is_err(), "error of the sink is passed on", || format!("call {k} of {total} failed (once: {once}) but the result is {r:?}; {}", d()));
            }
            k += step(c, total);
        }
        let mut b = 0;
        while b < t.len() {
            let mut s = Sink { bytes: b, ..Sink::open() };
            let r = put(&mut s, m);
            c.check(r.is_err(), "error of a full sink is passed on", || format!("room for {b} bytes only, but the result is {r:?}; {}", d()));
            b += step(c, t.len());
        }
        let mut s = Sink { bytes: t.len(), ..Sink::open() };
        c.check(put(&mut s, m).is_ok(), "exactly enough room", d);
        // failing elements
        let mut i = 0;
        while i < ids.len() {
            for late in [false, true] {
                FAIL.with(|f| f.set((ids[i], late)));
                let r = put(&mut Sink::open(), m);
                FAIL.with(|f| f.set((u64::MAX, false)));
                c.check(r.is_err(), "error of an element is passed on", || format!("element {i} failed (after writing: {late}) but the result is {r:?}; {}", d()));
            }
            i += step(c, ids.len());
        }
    }
    let _ = rows;
}

fn fresh(c: &mut Ctx, n: usize) -> Vec<u64> {
    let base = c.rng.u64() >> c.rng.range(20, 60);
    (0..n as u64).map(|i| base + i * 7).collect()
}
fn vector<const N: usize>(c: &mut Ctx) {
    let ids = fresh(c, N);
    let x = Vector::<Tok, N>::build(ids.iter().map(|i| Tok(*i)).collect());
    judge(c, "Vector", &x, &ids, &[N], None, 0);
    c.check(x.to_string() == format!("{x}"), "to_string", || format!("{x}"));
}
fn matrix<const M: usize, const N: usize>(c: &mut Ctx) {
    let ids = fresh(c, M * N);
    let x = Matrix::<Tok, M, N>::build(ids.iter().map(|i| Tok(*i)).collect());
    judge(c, "Matrix", &x, &ids, &[M, N], Some(N), M);
}
fn hyper(c: &mut Ctx) {
    let i = fresh(c, 4);
    let t = |k: usize| Tok(i[k]);
    judge(c, "Complex", &Complex::new(t(0), t(1)), &i[..2], &[], None, 0);
    judge(c, "Complex from array", &Complex::from_array([t(0), t(1)]), &i[..2], &[], None, 0);
    judge(c, "Quaternion", &Quaternion::new(t(0), t(1), t(2), t(3)), &i, &[], None, 0);
    judge(c, "Quaternion from array", &Quaternion::from_array([t(0), t(1), t(2), t(3)]), &i, &[], None, 0);
}
/// Containers inside containers: the leaves in order, by the right trait.
fn nested(c: &mut Ctx) {
    let i = fresh(c, 12);
    let t = |k: usize| Tok(i[k]);
    let leaves = |c: &mut Ctx, name: &'static str, text: String, n: usize, mark: &str| {
        c.op(name);
        let want: Vec<String> = i[..n].iter().map(|k| format!("<{}{}>", letters(*k), mark)).collect();
        let mut got = vec![];
        let mut at = 0;
        while let Some(a) = text[at..].find('<') {
            let b = at + a + text[at + a..].find('>').unwrap() + 1;
            got.push(text[at + a..b].to_string());
            at = b;
        }
        c.check(got == want, "leaves once, in order, by the right trait", || format!("{name}: {text:?}, expected {want:?}"));
    };
    let x = vec_from::<_, 3>(|k| Complex::new(t(2 * k), t(2 * k + 1)));
    leaves(c, "Vector of Complex", format!("{x}"), 6, "");
    leaves(c, "Vector of Complex", format!("{x:?}"), 6, "!");
    let x = mat_from::<_, 2, 3>(|a, b| Complex::new(t(6 * a + 2 * b), t(6 * a + 2 * b + 1)));
    leaves(c, "Matrix of Complex", format!("{x}"), 12, "");
    leaves(c, "Matrix of Complex", format!("{x:?}"), 12, "!");
    let x = mat_from::<_, 1, 3>(|_, b| Quaternion::new(t(4 * b), t(4 * b + 1), t(4 * b + 2), t(4 * b + 3)));
    leaves(c, "Matrix of Quaternion", format!("{x}"), 12, "");
    leaves(c, "Matrix of Quaternion", format!("{x:?}"), 12, "!");
    let x = vec_from::<_, 2>(|a| mat_from::<_, 2, 3>(|p, q| t(6 * a + 3 * p + q)));
    leaves(c, "Vector of Matrix", format!("{x}"), 12, "");
    leaves(c, "Vector of Matrix", format!("{x:?}"), 12, "!");
    let x = vec_from::<_, 4>(|a| vec_from::<_, 3>(|b| t(3 * a + b)));
    leaves(c, "Vector of Vector", format!("{x}"), 12, "");
    leaves(c, "Vector of Vector", format!("{x:?}"), 12, "!");
    leaves(c, "Moebius", format!("{:?}", Moebius::new(t(0), t(1), t(2), t(3))), 4, "!");
    let e = Vector::<Vector<Tok, 0>, 2>::build(vec![Vector::build(vec![]), Vector::build(vec![])]);
    leaves(c, "Vector of empty Vector", format!("{e} {e:?}"), 0, "");
}
/// Ordinary elements of every kind: their own text, in order.
fn ordinary<T: Display + Debug + Copy>(c: &mut Ctx, gen: fn(&mut Rng) -> T) {
    let v: [T; 6] = std::array::from_fn(|_| gen(&mut c.rng));
    c.input(hash_str(&format!("{v:?}")));
    let order = |c: &mut Ctx, name: &'static str, text: String, want: Vec<String>| {
        c.op(name);
        // skip the dimensions
        let mut at = text.find('(').map_or(0, |p| p + 1);
        for w in &want {
            let p = text[at..].find(w.as_str());
            c.check(p.is_some(), "elements appear in order", || format!("{name}: {w:?} in {text:?} after byte {at}"));
            at += p.unwrap() + w.len();
        }
        let rest: String = text[at..].chars().filter(|ch| ch.is_alphanumeric()).collect();
        c.check(rest.is_empty(), "nothing after the last element", || format!("{name}: {text:?}"));
    };
    let disp = |n: usize| v[..n].iter().map(|x| format!("{x}")).collect::<Vec<_>>();
    let dbg = |n: usize| v[..n].iter().map(|x| format!("{x:?}")).collect::<Vec<_>>();
    let x = vec_from::<T, 6>(|i| v[i]);
    order(c, "Vector text", format!("{x}"), disp(6));
    order(c, "Vector debug text", format!("{x:?}"), dbg(6));
    let x = mat_from::<T, 2, 3>(|i, j| v[3 * i + j]);
    order(c, "Matrix text", format!("{x}"), disp(6));
    order(c, "Matrix debug text", format!("{x:?}"), dbg(6));
    let x = Complex::new(v[0], v[1]);
    order(c, "Complex text", format!("{x}"), disp(2));
    order(c, "Complex debug text", format!("{x:?}"), dbg(2));
    let x = Quaternion::new(v[0], v[1], v[2], v[3]);
    order(c, "Quaternion text", format!("{x}"), disp(4));
    order(c, "Quaternion debug text", format!("{x:?}"), dbg(4));
}

fn main() {
    let mut s = Suite::new(
        "C22",
        "a case formats a container of elements with unmistakable texts, into open sinks, sinks failing at every call and every byte, and \
         with elements that fail; non-trivial: (type, elements) hashed differ",
    );
    type F = fn(&mut Ctx);
    s.section("vector", 220, |c| run_table!(c, [vector::<0>, vector::<1>, vector::<2>, vector::<3>, vector::<4>, vector::<5>, vector::<9>, vector::<10>, vector::<16>, vector::<33>, vector::<101>] as [F; 11]));
    s.section("matrix", 300, |c| {
        run_table!(
            c,
            [
                matrix::<0, 0>, matrix::<0, 1>, matrix::<1, 0>, matrix::<3, 0>, matrix::<0, 4>, matrix::<1, 1>, matrix::<1, 3>, matrix::<3, 1>,
                matrix::<2, 2>, matrix::<2, 3>, matrix::<3, 2>, matrix::<4, 4>, matrix::<5, 7>, matrix::<11, 12>, matrix::<1, 20>,
            ] as [F; 15]
        )
    });
    s.section("hyper", 100, hyper);
    s.section("nested", 100, nested);
    s.section("ordinary_f64", 300, |c| ordinary::<f64>(c, |r| r.hostile()));
    s.section("ordinary_f32", 300, |c| ordinary::<f32>(c, |r| r.hostile()));
    s.section("ordinary_int", 300, |c| ordinary::<i64>(c, |r| r.int()));
    s.section("ordinary_bool", 50, |c| ordinary::<bool>(c, |r| r.chance(1, 2)));
    s.section("ordinary_str", 100, |c| ordinary::<&'static str>(c, |r| r.pick(&["", "x", "a b", "\n", "\"q\"", "(,)", "Vector", "é"])));
    s.section("ordinary_char", 100, |c| ordinary::<char>(c, |r| r.pick(&['a', 'Z', '\'', '\n', '0', '\u{1F600}'])));
    s.native("large", 3, |c| {
        const T: &[fn(&mut Ctx)] = &[vector::<263>, matrix::<2, 135>, matrix::<135, 2>];
        run_table!(c, T)
    });
    s.run();
}
