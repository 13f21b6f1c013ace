//! The monitor runtime: deterministic cases, event counting, violation
//! capture, crash and hang reporting, machine-readable report.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- rng

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(17))
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
    /// draws until one is altered (for operands that are almost the same)
    alter: u64,
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut z = seed;
        for x in s.iter_mut() {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *x = mix(z);
        }
        Self { s, alter: 0 }
    }
    /// The same stream but for the k-th draw (from one).
    pub fn altered(seed: u64, k: u64) -> Self {
        Self { alter: k, ..Self::new(seed) }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let mut r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        if self.alter != 0 {
            self.alter -= 1;
            if self.alter == 0 {
                r = mix(r);
            }
        }
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uniform(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn gauss(&mut self) -> f64 {
        let u = 1.0 - self.unit();
        let v = self.unit();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
}

// ---------------------------------------------------------------- context

pub struct Violation {
    pub rule: String,
    pub detail: String,
}
struct Abort; // payload used to leave a case after a recorded violation

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static CUR: Cell<(usize, u64)> = Cell::new((usize::MAX, 0));
    static TRAP: RefCell<Option<Violation>> = RefCell::new(None);
    static DOING: Cell<Doing> = const { Cell::new(Doing { name: "", kind: "", dims: [usize::MAX; 2], event: u64::MAX }) };
}

/// What the case is doing, attached to trapped violations.
#[derive(Clone, Copy)]
pub struct Doing {
    pub name: &'static str,
    pub kind: &'static str,
    pub dims: [usize; 2],
    /// index of the user event at which a panic is injected
    pub event: u64,
}
impl Doing {
    pub const NOTHING: Doing = Doing { name: "", kind: "", dims: [usize::MAX; 2], event: u64::MAX };
}
pub fn doing(d: Doing) {
    DOING.with(|c| c.set(d));
}
pub fn trapped() -> bool {
    TRAP.with(|t| t.borrow().is_some())
}

/// Record a violation from a place that has no access to the case context
/// (destructors, scalar operators); it is picked up when the case ends.
pub fn trap(rule: &str, detail: String) {
    TRAP.with(|t| {
        let mut t = t.borrow_mut();
        if t.is_none() {
            let w = DOING.with(|d| d.get());
            let mut detail = detail;
            if !w.name.is_empty() {
                let _ = write!(detail, "; during {} on {} elements", w.name, w.kind);
                if w.dims[0] != usize::MAX {
                    let _ = write!(detail, ", dims {:?}", w.dims.iter().filter(|d| **d != usize::MAX).collect::<Vec<_>>());
                }
                if w.event != u64::MAX {
                    let _ = write!(detail, ", panic injected at user event {}", w.event);
                }
            }
            *t = Some(Violation { rule: rule.to_string(), detail });
        }
    })
}

pub struct Ctx {
    pub rng: Rng,
    pub section: &'static str,
    pub index: u64,
    pub thorough: bool,
    pub miri: bool,
    /// multiplier for internal loop counts (1.0 natively, small under Miri)
    pub scale: f64,
    checks: u64,
    ops: BTreeMap<&'static str, u64>,
    hashes: Vec<u64>,
    sample: Option<String>,
    known: Vec<(String, String)>,
}

impl Ctx {
    /// A context of its own for a computation within a case.
    pub fn scratch(&self, rng: Rng, index: u64) -> Self {
        Self {
            rng,
            section: self.section,
            index,
            thorough: self.thorough,
            miri: self.miri,
            scale: self.scale,
            checks: 0,
            ops: BTreeMap::new(),
            hashes: Vec::new(),
            sample: None,
            known: Vec::new(),
        }
    }
    /// Take over what was counted in a context of `scratch`.
    pub fn absorb(&mut self, o: Ctx) {
        self.checks += o.checks;
        for (k, v) in o.ops {
            self.ops(k, v);
        }
        for h in o.hashes {
            self.input(h);
        }
    }
    /// An operation of the crate was executed and observed.
    #[inline]
    pub fn op(&mut self, name: &'static str) {
        *self.ops.entry(name).or_insert(0) += 1;
    }
    pub fn ops(&mut self, name: &'static str, n: u64) {
        *self.ops.entry(name).or_insert(0) += n;
    }
    /// Register a non-trivial input by its hash.
    pub fn input(&mut self, h: u64) {
        if self.hashes.len() < 1 << 20 {
            self.hashes.push(hash2(hash_str(self.section), h));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.index < 2 && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn known(&mut self, id: &str, detail: String) {
        if self.known.len() < 4 {
            self.known.push((id.to_string(), detail));
        }
        self.checks += 1;
    }
    #[cold]
    #[inline(never)]
    pub fn fail(&mut self, rule: &str, detail: String) -> ! {
        trap(rule, detail);
        panic::panic_any(Abort);
    }
    #[inline]
    pub fn check(&mut self, cond: bool, rule: &str, f: impl FnOnce() -> String) {
        self.checks += 1;
        if !cond {
            let d = f();
            self.fail(rule, d);
        }
    }
    #[inline]
    pub fn eq<T: PartialEq + std::fmt::Debug>(
        &mut self,
        op: &'static str,
        got: T,
        want: T,
        f: impl FnOnce() -> String,
    ) {
        self.op(op);
        self.checks += 1;
        if got != want {
            let d = format!("got {:?}, expected {:?}; {}", got, want, f());
            self.fail(op, d);
        }
    }
    pub fn loops(&self, n: usize) -> usize {
        ((n as f64 * self.scale).ceil() as usize).max(1)
    }
}

/// Result of running code of the crate that may legitimately panic.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.is::<Abort>() {
                panic::resume_unwind(e)
            }
            if e.is::<Injected>() {
                return Err(String::new());
            }
            Err(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    }
}
/// Payload of a panic injected into user code (raised without the hook,
/// which is slow under an interpreter).
pub struct Injected;
pub fn inject() -> ! {
    panic::resume_unwind(Box::new(Injected))
}

// ---------------------------------------------------------------- suite

type CaseFn = Box<dyn Fn(&mut Ctx) + Send + Sync>;

struct Section {
    name: &'static str,
    count: u64,
    miri: bool,
    run: CaseFn,
}

pub struct Suite {
    property: &'static str,
    rule: &'static str,
    sections: Vec<Section>,
    seed: u64,
    thorough: bool,
    scale: f64,
    only: Option<(String, Option<u64>)>,
    mult: f64,
    miri: bool,
}

fn env(n: &str) -> Option<String> {
    std::env::var(n).ok().filter(|s| !s.is_empty())
}

#[derive(Default)]
struct Stats {
    cases: u64,
    checks: u64,
    ops: BTreeMap<&'static str, u64>,
    hashes: HashSet<u64>,
    samples: Vec<String>,
}

struct Found {
    section: &'static str,
    index: u64,
    rule: String,
    detail: String,
}

static HEART: [(AtomicUsize, AtomicU64, AtomicU64); 16] =
    [const { (AtomicUsize::new(usize::MAX), AtomicU64::new(0), AtomicU64::new(0)) }; 16];

impl Suite {
    pub fn new(property: &'static str, rule: &'static str) -> Self {
        let only = env("VERIF_ONLY").map(|s| match s.split_once('#') {
            Some((a, b)) => (a.to_string(), b.parse().ok()),
            None => (s, None),
        });
        Self {
            property,
            rule,
            sections: Vec::new(),
            seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: env("VERIF_TIER").map_or(false, |t| t == "thorough"),
            scale: env("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
            mult: env("VERIF_MULT").and_then(|s| s.parse().ok()).unwrap_or(12.0),
            only,
            miri: cfg!(miri) || env("VERIF_MIRI").is_some(),
        }
    }
    pub fn is_thorough(&self) -> bool {
        self.thorough
    }
    /// Register a section with `count` quick cases (scaled in thorough tier).
    pub fn section(
        &mut self,
        name: &'static str,
        count: u64,
        f: impl Fn(&mut Ctx) + Send + Sync + 'static,
    ) {
        self.sections.push(Section { name, count, miri: true, run: Box::new(f) });
    }
    /// A section that is too heavy, or meaningless, under an interpreter.
    pub fn native(
        &mut self,
        name: &'static str,
        count: u64,
        f: impl Fn(&mut Ctx) + Send + Sync + 'static,
    ) {
        self.sections.push(Section { name, count, miri: false, run: Box::new(f) });
    }

    pub fn run(self) {
        let verbose = env("VERIF_VERBOSE").is_some();
        panic::set_hook(Box::new(move |info| {
            if info.payload().is::<Abort>() {
                return;
            }
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string panic>".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            if verbose {
                eprintln!("panic: {msg} at {loc}");
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        }));
        #[cfg(not(miri))]
        crash::install();

        let start = Instant::now();
        let mut plan: Vec<(usize, u64)> = Vec::new();
        for (si, s) in self.sections.iter().enumerate() {
            if let Some((name, idx)) = &self.only {
                if name != s.name {
                    continue;
                }
                if let Some(i) = idx {
                    plan.push((si, *i));
                    continue;
                }
            }
            if self.miri && !s.miri && self.only.is_none() {
                continue;
            }
            let mut n = s.count as f64 * if s.count > 1 { self.scale } else { self.scale.min(1.0) };
            if self.thorough && s.count > 1 {
                n *= self.mult;
            }
            let n = (n.ceil() as u64).max(1);
            plan.extend((0..n).map(|i| (si, i)));
        }
        // interleave sections so that long ones do not pile up at the end
        plan.sort_by_key(|&(s, i)| mix(hash2(hash_str(self.sections[s].name), i)));
        // one of several processes that share the plan
        if let Some((k, n)) = env("VERIF_SHARD").and_then(|s| {
            let (a, b) = s.split_once('/')?;
            Some((a.parse::<usize>().ok()?, b.parse::<usize>().ok()?))
        }) {
            plan = plan.into_iter().enumerate().filter(|(i, _)| i % n == k).map(|x| x.1).collect();
        }
        let plan = Arc::new(plan);
        let suite = Arc::new(self);
        let next = Arc::new(AtomicUsize::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let found: Arc<Mutex<Vec<Found>>> = Default::default();
        let known: Arc<Mutex<BTreeMap<String, (u64, String)>>> = Default::default();
        let stats: Arc<Mutex<BTreeMap<usize, Stats>>> = Default::default();

        let threads = if cfg!(miri) || plan.len() == 1 {
            1
        } else {
            env("VERIF_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8).clamp(1, 16)
        };
        let worker = {
            let (plan, suite, next, stop) = (plan.clone(), suite.clone(), next.clone(), stop.clone());
            let (found, known, stats) = (found.clone(), known.clone(), stats.clone());
            move |tid: usize| {
                let mut local: BTreeMap<usize, Stats> = BTreeMap::new();
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= plan.len() {
                        break;
                    }
                    let (si, idx) = plan[k];
                    let s = &suite.sections[si];
                    CUR.with(|c| c.set((si, idx)));
                    #[cfg(not(miri))]
                    crash::enter(s.name, idx);
                    HEART[tid].1.store(idx, Ordering::Relaxed);
                    HEART[tid].2.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                    HEART[tid].0.store(si, Ordering::Release);
                    let seed = hash2(hash2(suite.seed, hash_str(s.name)), idx);
                    let mut ctx = Ctx {
                        rng: Rng::new(seed),
                        section: s.name,
                        index: idx,
                        thorough: suite.thorough,
                        miri: suite.miri,
                        scale: if suite.miri { suite.scale.min(1.0).max(0.01) } else { 1.0 },
                        checks: 0,
                        ops: BTreeMap::new(),
                        hashes: Vec::new(),
                        sample: None,
                        known: Vec::new(),
                    };
                    TRAP.with(|t| *t.borrow_mut() = None);
                    doing(Doing::NOTHING);
                    let r = panic::catch_unwind(AssertUnwindSafe(|| (s.run)(&mut ctx)));
                    HEART[tid].0.store(usize::MAX, Ordering::Release);
                    let mut v = TRAP.with(|t| t.borrow_mut().take());
                    if let Err(e) = r {
                        if !e.is::<Abort>() && v.is_none() {
                            v = Some(Violation {
                                rule: "unexpected panic".into(),
                                detail: LAST_PANIC.with(|p| p.borrow().clone()),
                            });
                        }
                        std::mem::forget(e);
                    }
                    if let Some(v) = v {
                        let mut f = found.lock().unwrap();
                        f.push(Found { section: s.name, index: idx, rule: v.rule, detail: v.detail });
                        if f.len() >= 16 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    let st = local.entry(si).or_default();
                    st.cases += 1;
                    st.checks += ctx.checks;
                    for (k, v) in ctx.ops {
                        *st.ops.entry(k).or_insert(0) += v;
                    }
                    if st.hashes.len() < 400_000 {
                        st.hashes.extend(ctx.hashes);
                    }
                    if let Some(s) = ctx.sample {
                        if st.samples.len() < 256 {
                            st.samples.push(s);
                        }
                    }
                    if !ctx.known.is_empty() {
                        let mut kn = known.lock().unwrap();
                        for (id, d) in ctx.known {
                            let e = kn.entry(id).or_insert((0, d));
                            e.0 += 1;
                        }
                    }
                }
                let mut g = stats.lock().unwrap();
                for (si, l) in local {
                    let e = g.entry(si).or_default();
                    e.cases += l.cases;
                    e.checks += l.checks;
                    for (k, v) in l.ops {
                        *e.ops.entry(k).or_insert(0) += v;
                    }
                    e.hashes.extend(l.hashes);
                    e.samples.extend(l.samples);
                }
            }
        };
        if threads == 1 && cfg!(miri) {
            worker(0);
        } else {
            let worker = Arc::new(worker);
            let done = Arc::new(AtomicBool::new(false));
            {
                // hang watchdog
                let (done, suite) = (done.clone(), suite.clone());
                let limit: u64 =
                    env("VERIF_CASE_LIMIT_S").and_then(|s| s.parse().ok()).unwrap_or(120);
                std::thread::spawn(move || loop {
                    std::thread::sleep(Duration::from_millis(200));
                    if done.load(Ordering::Acquire) {
                        return;
                    }
                    for h in HEART.iter() {
                        let si = h.0.load(Ordering::Acquire);
                        if si == usize::MAX {
                            continue;
                        }
                        let t0 = h.2.load(Ordering::Relaxed);
                        let now = start.elapsed().as_millis() as u64;
                        if now > t0 + limit * 1000 {
                            eprintln!(
                                "HANG section={} index={}",
                                suite.sections[si].name,
                                h.1.load(Ordering::Relaxed)
                            );
                            std::process::exit(5);
                        }
                    }
                });
            }
            let mut hs = Vec::new();
            for t in 0..threads {
                let w = worker.clone();
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn(move || w(t))
                        .expect("spawn"),
                );
            }
            for h in hs {
                h.join().expect("worker");
            }
            done.store(true, Ordering::Release);
        }

        let stats = stats.lock().unwrap();
        let found = found.lock().unwrap();
        let known = known.lock().unwrap();
        let mut o = String::new();
        let mut all: HashSet<u64> = HashSet::new();
        let (mut cases, mut checks) = (0, 0);
        write!(o, "{{\"property\":{},\"rule\":{},\"seed\":{},\"wall_s\":{:.3},\"sections\":[", js(suite.property), js(suite.rule), suite.seed, start.elapsed().as_secs_f64()).unwrap();
        for (k, (si, st)) in stats.iter().enumerate() {
            cases += st.cases;
            checks += st.checks;
            all.extend(st.hashes.iter().copied());
            if k > 0 {
                o.push(',');
            }
            let mut samples = st.samples.clone();
            samples.sort();
            samples.truncate(2);
            write!(o, "{{\"name\":{},\"cases\":{},\"checks\":{},\"distinct\":{},\"ops\":{{", js(suite.sections[*si].name), st.cases, st.checks, st.hashes.len()).unwrap();
            for (j, (n, c)) in st.ops.iter().enumerate() {
                if j > 0 {
                    o.push(',');
                }
                write!(o, "{}:{}", js(n), c).unwrap();
            }
            write!(o, "}},\"samples\":[{}]}}", samples.iter().map(|s| js(&clip(s, 600))).collect::<Vec<_>>().join(",")).unwrap();
        }
        write!(o, "],\"cases\":{},\"checks\":{},\"distinct\":{},\"violations\":[", cases, checks, all.len()).unwrap();
        for (k, f) in found.iter().enumerate() {
            if k > 0 {
                o.push(',');
            }
            write!(o, "{{\"section\":{},\"index\":{},\"rule\":{},\"detail\":{}}}", js(f.section), f.index, js(&f.rule), js(&clip(&f.detail, 4000))).unwrap();
        }
        o.push_str("],\"known\":{");
        for (k, (id, (n, d))) in known.iter().enumerate() {
            if k > 0 {
                o.push(',');
            }
            write!(o, "{}:{{\"count\":{},\"detail\":{}}}", js(id), n, js(&clip(d, 1000))).unwrap();
        }
        o.push_str("}}\n");
        // the report goes to a file natively, and to stdout under Miri
        match env("VERIF_OUT") {
            Some(p) if !cfg!(miri) => std::fs::write(p, o).expect("write report"),
            _ => println!("REPORT {}", o.trim_end()),
        }
        let bad = !found.is_empty();
        drop((stats, found, known));
        std::process::exit(if bad { 1 } else { 0 });
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[cfg(not(miri))]
mod crash {
    use std::cell::Cell;
    thread_local! {
        static WHERE: Cell<(&'static str, u64)> = const { Cell::new(("", 0)) };
    }
    pub fn enter(name: &'static str, idx: u64) {
        WHERE.with(|w| w.set((name, idx)));
    }
    extern "C" fn on_signal(sig: i32) {
        let (name, idx) = WHERE.try_with(|w| w.get()).unwrap_or(("", 0));
        let mut buf = [0u8; 256];
        let mut n = 0;
        let mut put = |b: &[u8]| {
            for &c in b {
                if n < buf.len() {
                    buf[n] = c;
                    n += 1;
                }
            }
        };
        put(b"\nCRASH signal=");
        put_num(&mut put, sig as u64);
        put(b" section=");
        put(name.as_bytes());
        put(b" index=");
        put_num(&mut put, idx);
        put(b"\n");
        unsafe {
            libc::write(2, buf.as_ptr() as *const _, n);
            libc::signal(sig, libc::SIG_DFL);
            libc::raise(sig);
        }
    }
    fn put_num(put: &mut impl FnMut(&[u8]), mut v: u64) {
        let mut d = [0u8; 20];
        let mut k = 20;
        loop {
            k -= 1;
            d[k] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        put(&d[k..]);
    }
    pub fn install() {
        let mut all = vec![libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP];
        if std::env::var_os("VERIF_ASAN").is_none() {
            all.extend([libc::SIGSEGV, libc::SIGBUS]);
        }
        for s in all {
            unsafe {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = on_signal as *const () as libc::sighandler_t;
                sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
                libc::sigaction(s, &sa, std::ptr::null_mut());
            }
        }
    }
}

/// Every way of consuming an iterator must agree with the reference
/// sequence, from the start and after any number of `next` steps.
pub fn iter_laws<I: Iterator, K: PartialEq + Clone + std::fmt::Debug>(
    c: &mut Ctx,
    op: &'static str,
    dims: &[usize],
    want: &[K],
    mut make: impl FnMut() -> I,
    id: impl Fn(I::Item) -> K,
) {
    let n = want.len();
    let runs = if n > 64 { 8 } else { 14 };
    for run in 0..runs {
        let k = match run % 7 {
            0 => c.rng.below(n + 2),
            1 => 1.min(n),
            2 => n / 2,
            3 => n.saturating_sub(1),
            _ => c.rng.below(n + 1),
        };
        let mut it = make();
        for q in 0..k {
            let x = it.next().map(&id);
            c.check(x.as_ref() == want.get(q), op, || format!("next {q}: {x:?}; dims {dims:?}, elements {want:?}"));
        }
        let rest = want.get(k..).unwrap_or(&[]);
        let d = |how: String| format!("{op}: {k} x next, then {how}; dims {dims:?}, elements {want:?}");
        let (lo, hi) = it.size_hint();
        c.check(lo <= rest.len() && hi.map_or(true, |h| rest.len() <= h), "size_hint is wrong", || d(format!("hint ({lo}, {hi:?})")));
        match c.rng.below(12) {
            0 => c.eq(op, it.count(), rest.len(), || d("count".into())),
            1 => c.eq(op, it.last().map(&id), rest.last().cloned(), || d("last".into())),
            2 | 3 => {
                // repeated jumps
                let mut pos = 0;
                for _ in 0..4 {
                    let j = c.rng.below((rest.len() / 2).max(1) + 2);
                    let x = it.nth(j).map(&id);
                    c.check(x.as_ref() == rest.get(pos + j), op, || d(format!("nth({j}) at {pos}: {x:?}")));
                    pos = (pos + j + 1).min(rest.len());
                    let (lo, hi) = it.size_hint();
                    let left = rest.len() - pos;
                    c.check(lo <= left && hi.map_or(true, |h| left <= h), "size_hint is wrong", || d(format!("hint ({lo}, {hi:?}) with {left} left after nth")));
                }
                let got: Vec<K> = it.map(&id).collect();
                c.check(got == rest[pos..], op, || d(format!("items after jumps to {pos}: {got:?}")));
            }
            4 => {
                let s = 1 + c.rng.below(rest.len() + 2);
                let got: Vec<K> = it.step_by(s).map(&id).collect();
                c.eq(op, got, rest.iter().cloned().step_by(s).collect(), || d(format!("step_by({s})")));
            }
            5 => {
                let s = c.rng.below(rest.len() + 2);
                let t = c.rng.below(rest.len() + 2);
                let got: Vec<K> = it.skip(s).take(t).map(&id).collect();
                c.eq(op, got, rest.iter().skip(s).take(t).cloned().collect(), || d(format!("skip({s}).take({t})")));
            }
            6 => {
                // borrowed, then continued
                let t = c.rng.below(rest.len() + 2);
                let mut got: Vec<K> = it.by_ref().take(t).map(&id).collect();
                c.eq(op, got.len(), t.min(rest.len()), || d(format!("by_ref().take({t})")));
                got.extend(it.map(&id));
                c.eq(op, got, rest.to_vec(), || d(format!("by_ref().take({t}) and the rest")));
            }
            7 => {
                let got = it.fold(Vec::new(), |mut l, x| {
                    l.push(id(x));
                    l
                });
                c.eq(op, got, rest.to_vec(), || d("fold".into()));
            }
            8 => {
                let mut got = Vec::new();
                it.for_each(|x| got.push(id(x)));
                c.eq(op, got, rest.to_vec(), || d("for_each".into()));
            }
            9 => {
                // stopped part-way by find and position, then continued
                let s = c.rng.below(rest.len() + 1);
                let mut q = 0;
                let x = it
                    .find(|_| {
                        q += 1;
                        q == s + 1
                    })
                    .map(&id);
                c.check(x.as_ref() == rest.get(s), op, || d(format!("find item {s}: {x:?}")));
                let tail = rest.get(s + 1..).unwrap_or(&[]);
                if !tail.is_empty() {
                    let p = c.rng.below(tail.len());
                    let mut q = 0;
                    let y = it.position(|_| {
                        q += 1;
                        q == p + 1
                    });
                    c.check(y == Some(p), op, || d(format!("position {p}: {y:?}")));
                    let got: Vec<K> = it.map(&id).collect();
                    c.check(got == tail[p + 1..], op, || d(format!("after position {p}: {got:?}")));
                }
            }
            10 => {
                let s = c.rng.below(rest.len() + 1);
                let mut got = Vec::new();
                let all = it.all(|x| {
                    got.push(id(x));
                    got.len() <= s
                });
                c.eq(op, (all, got.len()), (s == rest.len(), (s + 1).min(rest.len())), || d(format!("all, broken off after {s}")));
                got.extend(it.map(&id));
                c.eq(op, got, rest.to_vec(), || d(format!("all, broken off after {s}, then the rest")));
            }
            _ => {
                let got: Vec<K> = it.map(&id).collect();
                c.eq(op, got, rest.to_vec(), || d("collect".into()));
            }
        }
    }
}
