//! Scalar types the crate is instantiated with: exact field, dual numbers,
//! a non-commutative ring, symbolic terms, and ownership-tracked values.

use crate::mon::{hash2, mix, trap, Rng};
use num_integer::Integer;
use num_traits::{Inv, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::RefCell;
use std::fmt;
use std::ops::*;

// ------------------------------------------------------------------ Fp

/// Prime field of order 2^61 - 1 (so -1 is not a square).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Fp(pub u64);
pub const P: u64 = (1 << 61) - 1;

impl fmt::Debug for Fp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0 > P / 2 {
            write!(f, "-{}", P - self.0)
        } else {
            write!(f, "{}", self.0)
        }
    }
}
impl fmt::Display for Fp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Fp {
    pub fn int(x: i64) -> Fp {
        Fp((x as i128).rem_euclid(P as i128) as u64)
    }
    pub fn pow(self, mut e: u64) -> Fp {
        let (mut b, mut r) = (self, Fp(1));
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
    pub fn recip(self) -> Fp {
        if self.0 == 0 {
            panic!("division by zero in F_p");
        }
        self.pow(P - 2)
    }
    pub fn random(r: &mut Rng) -> Fp {
        Fp(r.u64() % P)
    }
    /// exact image of a finite dyadic rational
    pub fn from_f64_exact(x: f64) -> Option<Fp> {
        if !x.is_finite() {
            return None;
        }
        let bits = x.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i64;
        let m = bits & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        let mut v = Fp(m % P);
        let two = Fp(2);
        v = v * if e >= 0 { two.pow(e as u64) } else { two.recip().pow((-e) as u64) };
        Some(if x < 0.0 { -v } else { v })
    }
}
impl Add for Fp {
    type Output = Fp;
    fn add(self, o: Fp) -> Fp {
        let s = self.0 + o.0;
        Fp(if s >= P { s - P } else { s })
    }
}
impl Sub for Fp {
    type Output = Fp;
    fn sub(self, o: Fp) -> Fp {
        Fp(if self.0 >= o.0 { self.0 - o.0 } else { self.0 + P - o.0 })
    }
}
impl Mul for Fp {
    type Output = Fp;
    fn mul(self, o: Fp) -> Fp {
        let t = self.0 as u128 * o.0 as u128;
        let s = (t & P as u128) as u64 + (t >> 61) as u64;
        Fp(if s >= P { s - P } else { s })
    }
}
impl Div for Fp {
    type Output = Fp;
    fn div(self, o: Fp) -> Fp {
        self * o.recip()
    }
}
impl Rem for Fp {
    type Output = Fp;
    fn rem(self, o: Fp) -> Fp {
        let _ = o.recip();
        Fp(0)
    }
}
impl Neg for Fp {
    type Output = Fp;
    fn neg(self) -> Fp {
        Fp(if self.0 == 0 { 0 } else { P - self.0 })
    }
}
impl Zero for Fp {
    fn zero() -> Fp {
        Fp(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Fp {
    fn one() -> Fp {
        Fp(1)
    }
}
impl Num for Fp {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Fp, Self::FromStrRadixErr> {
        i64::from_str_radix(s, r).map(Fp::int)
    }
}
impl Inv for Fp {
    type Output = Fp;
    fn inv(self) -> Fp {
        self.recip()
    }
}
impl ToPrimitive for Fp {
    fn to_i64(&self) -> Option<i64> {
        Some(if self.0 > P / 2 { self.0 as i64 - P as i64 } else { self.0 as i64 })
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.0)
    }
}
impl NumCast for Fp {
    fn from<T: ToPrimitive>(n: T) -> Option<Fp> {
        match n.to_f64() {
            Some(f) if f.fract() != 0.0 || f.abs() > 9e15 => Fp::from_f64_exact(f),
            _ => n.to_i64().map(Fp::int),
        }
    }
}
macro_rules! assigns {
    ($t:ty $(, $F:ident)?) => {
        impl$(<$F: Exact>)? AddAssign for $t {
            fn add_assign(&mut self, o: $t) {
                *self = *self + o
            }
        }
        impl$(<$F: Exact>)? SubAssign for $t {
            fn sub_assign(&mut self, o: $t) {
                *self = *self - o
            }
        }
        impl$(<$F: Exact>)? MulAssign for $t {
            fn mul_assign(&mut self, o: $t) {
                *self = *self * o
            }
        }
        impl$(<$F: Exact>)? DivAssign for $t {
            fn div_assign(&mut self, o: $t) {
                *self = *self / o
            }
        }
        impl$(<$F: Exact>)? RemAssign for $t {
            fn rem_assign(&mut self, o: $t) {
                *self = *self % o
            }
        }
    };
}
assigns!(Fp);
impl vecmat::traits::Conj for Fp {
    fn conj(self) -> Fp {
        self
    }
}

// ---------------------------------------------------------------- Zn

/// The integers modulo a small number: zero divisors, elements that are
/// their own opposite, and so few values that every coincidence (equal,
/// opposite, vanishing, idempotent or self-inverse things) comes up.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Zn<const M: u8>(pub u8);
impl<const M: u8> Zn<M> {
    pub fn int(x: i64) -> Self {
        Zn(x.rem_euclid(M as i64) as u8)
    }
    pub fn is_unit(self) -> bool {
        (0..M).any(|y| self.0 * y % M == 1 % M)
    }
    pub fn recip(self) -> Self {
        Zn((0..M).find(|y| self.0 * y % M == 1 % M).expect("division by something that has no inverse"))
    }
    pub fn random(r: &mut Rng) -> Self {
        Zn(r.below(M as usize) as u8)
    }
}
impl<const M: u8> fmt::Display for Zn<M> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const M: u8> Add for Zn<M> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Zn((self.0 + o.0) % M)
    }
}
impl<const M: u8> Sub for Zn<M> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Zn((self.0 + M - o.0) % M)
    }
}
impl<const M: u8> Mul for Zn<M> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Zn(self.0 * o.0 % M)
    }
}
impl<const M: u8> Div for Zn<M> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * o.recip()
    }
}
impl<const M: u8> Rem for Zn<M> {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        let _ = o.recip();
        Zn(0)
    }
}
impl<const M: u8> Neg for Zn<M> {
    type Output = Self;
    fn neg(self) -> Self {
        Zn((M - self.0) % M)
    }
}
impl<const M: u8> Zero for Zn<M> {
    fn zero() -> Self {
        Zn(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const M: u8> One for Zn<M> {
    fn one() -> Self {
        Zn(1 % M)
    }
}
impl<const M: u8> Num for Zn<M> {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        i64::from_str_radix(s, r).map(Self::int)
    }
}
impl<const M: u8> Inv for Zn<M> {
    type Output = Self;
    fn inv(self) -> Self {
        self.recip()
    }
}
impl<const M: u8> ToPrimitive for Zn<M> {
    fn to_i64(&self) -> Option<i64> {
        Some(self.0 as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.0 as u64)
    }
}
impl<const M: u8> NumCast for Zn<M> {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_i64().map(Self::int)
    }
}

/// What the exact commutative element types have in common.
pub trait Exact:
    Copy + Num + Neg<Output = Self> + Inv<Output = Self> + NumCast + Default + fmt::Debug + Send + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + 'static
{
    const RING: &'static str;
    fn exact(x: i64) -> Self;
    fn any(r: &mut Rng) -> Self;
    fn bits(&self) -> u64;
    fn unit(self) -> bool;
    /// a unit
    fn any_nz(r: &mut Rng) -> Self {
        loop {
            let x = Self::any(r);
            if x.unit() {
                return x;
            }
        }
    }
}
impl Exact for Fp {
    const RING: &'static str = "the integers modulo 2^61 - 1";
    fn exact(x: i64) -> Fp {
        Fp::int(x)
    }
    fn any(r: &mut Rng) -> Fp {
        r.fp()
    }
    fn bits(&self) -> u64 {
        self.0
    }
    fn unit(self) -> bool {
        self.0 != 0
    }
}
macro_rules! small {
    ($($m:expr, $n:expr;)*) => {$(
        assigns!(Zn<$m>);
        impl Exact for Zn<$m> {
            const RING: &'static str = $n;
            fn exact(x: i64) -> Self {
                Zn::int(x)
            }
            fn any(r: &mut Rng) -> Self {
                Zn::random(r)
            }
            fn bits(&self) -> u64 {
                self.0 as u64
            }
            fn unit(self) -> bool {
                self.is_unit()
            }
        }
    )*};
}
small! {
    2, "the integers modulo 2"; 3, "the integers modulo 3"; 4, "the integers modulo 4"; 5, "the integers modulo 5";
    6, "the integers modulo 6"; 7, "the integers modulo 7"; 16, "the integers modulo 16";
}

// ---------------------------------------------------------------- Dual

/// a + b·ε with ε² = 0, over F_p: exact directional derivatives.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Dual<F = Fp> {
    pub v: F,
    pub d: F,
}
impl<F: Exact> Dual<F> {
    pub fn new(v: F, d: F) -> Self {
        Dual { v, d }
    }
    pub fn con(v: F) -> Self {
        Dual { v, d: F::zero() }
    }
}
impl<F: Exact> Add for Dual<F> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Dual::new(self.v + o.v, self.d + o.d)
    }
}
impl<F: Exact> Sub for Dual<F> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Dual::new(self.v - o.v, self.d - o.d)
    }
}
impl<F: Exact> Mul for Dual<F> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Dual::new(self.v * o.v, self.v * o.d + self.d * o.v)
    }
}
impl<F: Exact> Div for Dual<F> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        let r = o.v.inv();
        Dual::new(self.v * r, (self.d * o.v - self.v * o.d) * r * r)
    }
}
impl<F: Exact> Rem for Dual<F> {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        let _ = o.v.inv();
        Dual::new(F::zero(), F::zero())
    }
}
impl<F: Exact> Neg for Dual<F> {
    type Output = Self;
    fn neg(self) -> Self {
        Dual::new(-self.v, -self.d)
    }
}
impl<F: Exact> Zero for Dual<F> {
    fn zero() -> Self {
        Dual::new(F::zero(), F::zero())
    }
    fn is_zero(&self) -> bool {
        self.v.is_zero() && self.d.is_zero()
    }
}
impl<F: Exact> One for Dual<F> {
    fn one() -> Self {
        Dual::con(F::one())
    }
}
impl<F: Exact> Num for Dual<F> {
    type FromStrRadixErr = F::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        F::from_str_radix(s, r).map(Dual::con)
    }
}
impl<F: Exact> Inv for Dual<F> {
    type Output = Self;
    fn inv(self) -> Self {
        Dual::one() / self
    }
}
impl<F: Exact> ToPrimitive for Dual<F> {
    fn to_i64(&self) -> Option<i64> {
        self.v.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.v.to_u64()
    }
}
impl<F: Exact> NumCast for Dual<F> {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        <F as NumCast>::from(n).map(Dual::con)
    }
}
assigns!(Dual<F>, F);
/// As elements in their own right: sixteen bytes, and plenty of non-zero
/// elements whose square vanishes.
impl Exact for Dual<Fp> {
    const RING: &'static str = "the dual numbers over the integers modulo 2^61 - 1";
    fn exact(x: i64) -> Self {
        Dual::con(Fp::int(x))
    }
    fn any(r: &mut Rng) -> Self {
        let (x, y) = (r.fp(), r.fp());
        match r.below(5) {
            0 => Dual::new(Fp(0), y),
            1 => Dual::con(x),
            _ => Dual::new(x, y),
        }
    }
    fn bits(&self) -> u64 {
        hash2(self.v.0, self.d.0)
    }
    fn unit(self) -> bool {
        self.v.0 != 0
    }
}

// ------------------------------------------------------------------ Nc

/// 2x2 matrices over F_p: an associative, non-commutative ring with unit.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Nc(pub [Fp; 4]);
impl Nc {
    pub fn random(r: &mut Rng) -> Nc {
        Nc([Fp::random(r), Fp::random(r), Fp::random(r), Fp::random(r)])
    }
    fn det(&self) -> Fp {
        let a = &self.0;
        a[0] * a[3] - a[1] * a[2]
    }
}
impl Add for Nc {
    type Output = Nc;
    fn add(self, o: Nc) -> Nc {
        let (a, b) = (self.0, o.0);
        Nc([a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]])
    }
}
impl Sub for Nc {
    type Output = Nc;
    fn sub(self, o: Nc) -> Nc {
        let (a, b) = (self.0, o.0);
        Nc([a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]])
    }
}
impl Mul for Nc {
    type Output = Nc;
    fn mul(self, o: Nc) -> Nc {
        let (a, b) = (self.0, o.0);
        Nc([
            a[0] * b[0] + a[1] * b[2],
            a[0] * b[1] + a[1] * b[3],
            a[2] * b[0] + a[3] * b[2],
            a[2] * b[1] + a[3] * b[3],
        ])
    }
}
impl Div for Nc {
    type Output = Nc;
    fn div(self, o: Nc) -> Nc {
        let r = o.det().recip();
        let b = o.0;
        self * Nc([b[3] * r, -b[1] * r, -b[2] * r, b[0] * r])
    }
}
impl Rem for Nc {
    type Output = Nc;
    fn rem(self, o: Nc) -> Nc {
        let _ = o.det().recip();
        Nc::default()
    }
}
impl Neg for Nc {
    type Output = Nc;
    fn neg(self) -> Nc {
        Nc::default() - self
    }
}
impl Zero for Nc {
    fn zero() -> Nc {
        Nc::default()
    }
    fn is_zero(&self) -> bool {
        *self == Nc::default()
    }
}
impl One for Nc {
    fn one() -> Nc {
        Nc([Fp(1), Fp(0), Fp(0), Fp(1)])
    }
}
impl Num for Nc {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Nc, ()> {
        Err(())
    }
}
assigns!(Nc);

// ----------------------------------------------------------------- Sym

/// A symbolic term, represented by its hash: two terms are equal only if
/// they were built by the same operations from the same leaves (up to adding
/// zero and multiplying by one).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Sym(pub u64);
impl Sym {
    pub fn leaf(x: u64) -> Sym {
        Sym(mix(x ^ 0x5157))
    }
    pub fn un(op: u64, a: Sym) -> Sym {
        Sym(hash2(op, a.0))
    }
    /// Zero and one are neutral, as the traits `Zero` and `One` promise.
    pub fn bin(op: u64, a: Sym, b: Sym) -> Sym {
        match op {
            1 | 2 if b.0 == 0 => a,
            1 if a.0 == 0 => b,
            3 | 4 if b.0 == 1 => a,
            3 if a.0 == 1 => b,
            _ => Sym(hash2(hash2(op, a.0), b.0)),
        }
    }
}
macro_rules! sym_bin {
    ($($Tr:ident $f:ident $TrA:ident $fa:ident $code:expr;)*) => {$(
        impl $Tr for Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { Sym::bin($code, self, o) } }
        impl $TrA for Sym { fn $fa(&mut self, o: Sym) { *self = Sym::bin($code, *self, o) } }
    )*};
}
sym_bin! {
    Add add AddAssign add_assign 1;
    Sub sub SubAssign sub_assign 2;
    Mul mul MulAssign mul_assign 3;
    Div div DivAssign div_assign 4;
    Rem rem RemAssign rem_assign 5;
    BitAnd bitand BitAndAssign bitand_assign 6;
    BitOr bitor BitOrAssign bitor_assign 7;
    BitXor bitxor BitXorAssign bitxor_assign 8;
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym::un(20, self)
    }
}
impl Not for Sym {
    type Output = Sym;
    fn not(self) -> Sym {
        Sym::un(21, self)
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym(1)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        Err(())
    }
}
impl Integer for Sym {
    fn div_floor(&self, o: &Sym) -> Sym {
        Sym::bin(30, *self, *o)
    }
    fn mod_floor(&self, o: &Sym) -> Sym {
        Sym::bin(31, *self, *o)
    }
    fn gcd(&self, o: &Sym) -> Sym {
        Sym::bin(32, *self, *o)
    }
    fn lcm(&self, o: &Sym) -> Sym {
        Sym::bin(33, *self, *o)
    }
    fn divides(&self, _: &Sym) -> bool {
        false
    }
    fn is_multiple_of(&self, _: &Sym) -> bool {
        false
    }
    fn is_even(&self) -> bool {
        false
    }
    fn is_odd(&self) -> bool {
        true
    }
    fn div_rem(&self, o: &Sym) -> (Sym, Sym) {
        (Sym::bin(4, *self, *o), Sym::bin(5, *self, *o))
    }
}

// ------------------------------------------------------------- Tracked

/// Ownership ledger of one case: every tracked value is created once,
/// dropped at most once, and its payload is intact whenever observed.
#[derive(Default)]
pub struct Ledger {
    state: Vec<u8>, // 1 = alive, 2 = dropped
    pub created: u64,
    pub dropped: u64,
    /// fuse: operations on tracked values until an injected panic
    pub fuse: Option<u64>,
    pub blown: bool,
}
thread_local! {
    pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}
pub fn ledger_reset() {
    LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
}
pub fn ledger_counts() -> (u64, u64) {
    LEDGER.with(|l| (l.borrow().created, l.borrow().dropped))
}
pub fn ledger_live() -> Vec<usize> {
    LEDGER.with(|l| {
        l.borrow().state.iter().enumerate().filter(|(_, s)| **s == 1).map(|(i, _)| i).collect()
    })
}
pub fn set_fuse(n: Option<u64>) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.fuse = n;
        l.blown = false;
    })
}
pub fn fuse_blown() -> bool {
    LEDGER.with(|l| l.borrow().blown)
}
/// One user-code event (closure call, clone, operator, drop...).
pub fn tick() {
    let blow = LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        match l.fuse {
            Some(0) => {
                l.fuse = None;
                l.blown = true;
                true
            }
            Some(n) => {
                l.fuse = Some(n - 1);
                false
            }
            None => false,
        }
    });
    if blow && !std::thread::panicking() {
        crate::mon::inject();
    }
}

const MAGIC: u64 = 0x7eac_ced0_0b5e_55ed;

/// Non-Copy, heap-owning value whose life is recorded in the ledger.
pub struct Tracked {
    magic: u64,
    pub id: usize,
    payload: Box<(u64, u64)>,
}
impl Tracked {
    pub fn new(val: u64) -> Tracked {
        let id = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.state.push(1);
            l.created += 1;
            l.state.len() - 1
        });
        Tracked { magic: MAGIC ^ id as u64, id, payload: Box::new((val, mix(val ^ id as u64))) }
    }
    /// Read the value, verifying that the object is alive and intact.
    pub fn val(&self) -> u64 {
        self.verify("read");
        self.payload.0
    }
    fn verify(&self, what: &str) -> bool {
        if self.magic != MAGIC ^ self.id as u64 {
            trap("ownership: uninitialised, moved-from or freed element observed", format!("{what}: bad header (id field {:#x})", self.id));
            return false;
        }
        let st = LEDGER.with(|l| l.borrow().state.get(self.id).copied());
        match st {
            Some(1) => {}
            Some(_) => {
                trap("ownership: element used after it was dropped", format!("{what} of element #{}", self.id));
                return false;
            }
            None => {
                trap("ownership: unknown element observed", format!("{what}: id {}", self.id));
                return false;
            }
        }
        if self.payload.1 != mix(self.payload.0 ^ self.id as u64) {
            trap("ownership: element payload corrupted", format!("{what} of element #{}", self.id));
            return false;
        }
        true
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if self.magic != MAGIC ^ self.id as u64 {
            trap(
                "ownership: drop of uninitialised or already dropped element",
                format!("bad header (id field {:#x})", self.id),
            );
            // do not free whatever pointer is there
            unsafe {
                std::ptr::write(&mut self.payload, Box::new((0, 0)));
            }
            return;
        }
        let st = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            let id = self.id;
            match l.state.get(id).copied() {
                Some(1) => {
                    l.state[id] = 2;
                    l.dropped += 1;
                    1
                }
                s => s.unwrap_or(0),
            }
        });
        if st != 1 {
            trap("ownership: element dropped twice", format!("element #{} (state {})", self.id, st));
            unsafe {
                std::ptr::write(&mut self.payload, Box::new((0, 0)));
            }
            return;
        }
        if self.payload.1 != mix(self.payload.0 ^ self.id as u64) {
            trap("ownership: element payload corrupted at drop", format!("element #{}", self.id));
        }
        self.magic = 0xdead;
        tick();
    }
}
impl fmt::Debug for Tracked {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "T#{}({})", self.id, self.payload.0)
    }
}
impl fmt::Display for Tracked {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.val())
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        tick();
        Tracked::new(self.val())
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.val() == o.val()
    }
}
impl PartialOrd for Tracked {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        tick();
        self.val().partial_cmp(&o.val())
    }
}
impl Default for Tracked {
    fn default() -> Self {
        tick();
        Tracked::new(0)
    }
}
macro_rules! tracked_bin {
    ($($Tr:ident $f:ident $TrA:ident $fa:ident $code:expr;)*) => {$(
        impl $Tr for Tracked { type Output = Tracked; fn $f(self, o: Tracked) -> Tracked { tick(); Tracked::new(hash2(hash2($code, self.val()), o.val())) } }
        impl $TrA for Tracked { fn $fa(&mut self, o: Tracked) { tick(); let v = hash2(hash2($code, self.val()), o.val()); *self = Tracked::new(v); } }
    )*};
}
tracked_bin! {
    Add add AddAssign add_assign 1;
    Sub sub SubAssign sub_assign 2;
    Mul mul MulAssign mul_assign 3;
    Div div DivAssign div_assign 4;
    Rem rem RemAssign rem_assign 5;
    BitAnd bitand BitAndAssign bitand_assign 6;
    BitOr bitor BitOrAssign bitor_assign 7;
    BitXor bitxor BitXorAssign bitxor_assign 8;
}
impl Neg for Tracked {
    type Output = Tracked;
    fn neg(self) -> Tracked {
        tick();
        Tracked::new(hash2(20, self.val()))
    }
}
impl Not for Tracked {
    type Output = Tracked;
    fn not(self) -> Tracked {
        tick();
        Tracked::new(hash2(21, self.val()))
    }
}
impl Zero for Tracked {
    fn zero() -> Tracked {
        tick();
        Tracked::new(0)
    }
    fn is_zero(&self) -> bool {
        self.val() == 0
    }
}
impl One for Tracked {
    fn one() -> Tracked {
        tick();
        Tracked::new(1)
    }
}
impl Num for Tracked {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Tracked, ()> {
        Err(())
    }
}
impl Eq for Tracked {}
impl Ord for Tracked {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.val().cmp(&o.val())
    }
}
impl Integer for Tracked {
    fn div_floor(&self, o: &Tracked) -> Tracked {
        tick();
        Tracked::new(hash2(hash2(30, self.val()), o.val()))
    }
    fn mod_floor(&self, o: &Tracked) -> Tracked {
        tick();
        Tracked::new(hash2(hash2(31, self.val()), o.val()))
    }
    fn gcd(&self, o: &Tracked) -> Tracked {
        self.div_floor(o)
    }
    fn lcm(&self, o: &Tracked) -> Tracked {
        self.div_floor(o)
    }
    fn divides(&self, _: &Tracked) -> bool {
        false
    }
    fn is_multiple_of(&self, _: &Tracked) -> bool {
        false
    }
    fn is_even(&self) -> bool {
        false
    }
    fn is_odd(&self) -> bool {
        true
    }
    fn div_rem(&self, o: &Tracked) -> (Tracked, Tracked) {
        (self.div_floor(o), self.mod_floor(o))
    }
}

// ------------------------------------------- other element flavours (C01)

thread_local! {
    pub static ZST_ALIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    pub static ZST_DROPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// A zero-sized element whose constructor/destructor pairs are counted.
#[derive(Debug, PartialEq)]
pub struct Zst(());
impl Zst {
    pub fn new() -> Zst {
        ZST_ALIVE.with(|c| c.set(c.get() + 1));
        Zst(())
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZST_DROPS.with(|c| c.set(c.get() + 1));
        let left = ZST_ALIVE.with(|c| {
            c.set(c.get() - 1);
            c.get()
        });
        if left < 0 {
            trap("ownership: zero-sized element dropped more often than created", format!("balance {left}"));
        }
        tick();
    }
}
impl Clone for Zst {
    fn clone(&self) -> Zst {
        tick();
        Zst::new()
    }
}
impl Default for Zst {
    fn default() -> Zst {
        tick();
        Zst::new()
    }
}

// ------------------------------------------- exact scalars as random variables

/// zero or not: what an exact field has for a norm
impl vecmat::traits::NormL1 for Fp {
    type Output = Fp;
    fn norm_l1(self) -> Fp {
        Fp((self.0 != 0) as u64)
    }
}
impl vecmat::traits::Epsilon for Fp {
    fn is_epsilon(&self) -> bool {
        self.0 == 0
    }
}
/// "Normal" field elements are -1, 0 or 1, so singular draws are frequent.
#[cfg(feature = "rand")]
impl rand_::distributions::Distribution<Fp> for vecmat::distr::Normal {
    fn sample<R: rand_::Rng + ?Sized>(&self, rng: &mut R) -> Fp {
        Fp::int((rng.next_u64() >> 8) as i64 % 3 - 1)
    }
}
