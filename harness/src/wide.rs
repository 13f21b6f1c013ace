//! A floating-point scalar that is not one of the primitive ones: `f64` with
//! a seal beside it. It computes exactly like `f64`, is 16 bytes wide and
//! notices a value that was not made by its own operations (zeroed or
//! reinterpreted memory).
use crate::gen::Fl;
use num_traits::{Float, FloatConst, Inv, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::fmt;
use std::ops::*;

const SEAL: u64 = 0x5ea1_ed00_f10a_7000;

#[derive(Clone, Copy)]
pub struct Wide(f64, u64);
impl Wide {
    pub fn of(x: f64) -> Wide {
        Wide(x, SEAL)
    }
    #[track_caller]
    pub fn get(self) -> f64 {
        assert!(self.1 == SEAL, "a scalar appeared that no operation of its type made");
        self.0
    }
}
impl Default for Wide {
    fn default() -> Wide {
        Wide::of(0.0)
    }
}
impl fmt::Debug for Wide {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for Wide {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl PartialEq for Wide {
    fn eq(&self, o: &Wide) -> bool {
        self.get() == o.get()
    }
}
impl PartialOrd for Wide {
    fn partial_cmp(&self, o: &Wide) -> Option<std::cmp::Ordering> {
        self.get().partial_cmp(&o.get())
    }
}
macro_rules! ops {
    ($($Tr:ident $f:ident $TrA:ident $fa:ident;)*) => {$(
        impl $Tr for Wide {
            type Output = Wide;
            fn $f(self, o: Wide) -> Wide {
                Wide::of(self.get().$f(o.get()))
            }
        }
        impl $TrA for Wide {
            fn $fa(&mut self, o: Wide) {
                *self = self.$f(o);
            }
        }
    )*};
}
ops! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Div div DivAssign div_assign; Rem rem RemAssign rem_assign; }
impl Neg for Wide {
    type Output = Wide;
    fn neg(self) -> Wide {
        Wide::of(-self.get())
    }
}
impl Zero for Wide {
    fn zero() -> Wide {
        Wide::of(0.0)
    }
    fn is_zero(&self) -> bool {
        self.get() == 0.0
    }
}
impl One for Wide {
    fn one() -> Wide {
        Wide::of(1.0)
    }
}
impl Num for Wide {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Wide, Self::FromStrRadixErr> {
        <f64 as Num>::from_str_radix(s, r).map(Wide::of)
    }
}
impl ToPrimitive for Wide {
    fn to_i64(&self) -> Option<i64> {
        self.get().to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.get().to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.get())
    }
}
impl NumCast for Wide {
    fn from<N: ToPrimitive>(n: N) -> Option<Wide> {
        n.to_f64().map(Wide::of)
    }
}
impl Inv for Wide {
    type Output = Wide;
    fn inv(self) -> Wide {
        Wide::of(1.0 / self.get())
    }
}
impl Signed for Wide {
    fn abs(&self) -> Wide {
        Wide::of(Signed::abs(&self.get()))
    }
    fn abs_sub(&self, o: &Wide) -> Wide {
        Wide::of(Signed::abs_sub(&self.get(), &o.get()))
    }
    fn signum(&self) -> Wide {
        Wide::of(Signed::signum(&self.get()))
    }
    fn is_positive(&self) -> bool {
        Signed::is_positive(&self.get())
    }
    fn is_negative(&self) -> bool {
        Signed::is_negative(&self.get())
    }
}
impl std::iter::Sum for Wide {
    fn sum<I: Iterator<Item = Wide>>(i: I) -> Wide {
        i.fold(Wide::zero(), |a, b| a + b)
    }
}
macro_rules! delegate {
    (constants $($f:ident)*) => {$( fn $f() -> Wide { Wide::of(<f64 as Float>::$f()) } )*};
    (unary $($f:ident)*) => {$( fn $f(self) -> Wide { Wide::of(Float::$f(self.get())) } )*};
    (binary $($f:ident)*) => {$( fn $f(self, o: Wide) -> Wide { Wide::of(Float::$f(self.get(), o.get())) } )*};
    (query $($f:ident)*) => {$( fn $f(self) -> bool { Float::$f(self.get()) } )*};
    (pi $($f:ident)*) => {$( fn $f() -> Wide { Wide::of(<f64 as FloatConst>::$f()) } )*};
}
impl Float for Wide {
    delegate!(constants nan infinity neg_infinity neg_zero min_value min_positive_value epsilon max_value);
    delegate!(unary floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    delegate!(binary powf log max min abs_sub hypot atan2 copysign);
    delegate!(query is_nan is_infinite is_finite is_normal is_subnormal is_sign_positive is_sign_negative);
    fn classify(self) -> std::num::FpCategory {
        Float::classify(self.get())
    }
    fn mul_add(self, a: Wide, b: Wide) -> Wide {
        Wide::of(Float::mul_add(self.get(), a.get(), b.get()))
    }
    fn powi(self, n: i32) -> Wide {
        Wide::of(Float::powi(self.get(), n))
    }
    fn clamp(self, a: Wide, b: Wide) -> Wide {
        Wide::of(Float::clamp(self.get(), a.get(), b.get()))
    }
    fn sin_cos(self) -> (Wide, Wide) {
        let (s, c) = Float::sin_cos(self.get());
        (Wide::of(s), Wide::of(c))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.get())
    }
}
impl FloatConst for Wide {
    delegate!(pi E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2 TAU LOG10_2 LOG2_10);
}
impl vecmat::traits::NormL1 for Wide {
    type Output = Wide;
    fn norm_l1(self) -> Wide {
        Float::abs(self)
    }
}
impl vecmat::traits::NormLInf for Wide {
    type Output = Wide;
    fn norm_l_inf(self) -> Wide {
        Float::abs(self)
    }
}
impl vecmat::traits::NormL2 for Wide {
    type Output = Wide;
    fn norm_l2(self) -> Wide {
        Float::abs(self)
    }
    fn norm_l2_sqr(self) -> Wide {
        self * self
    }
}
impl vecmat::traits::Dot for Wide {
    type Output = Wide;
    fn dot(self, o: Wide) -> Wide {
        self * o
    }
}
#[cfg(feature = "approx")]
impl approx_::AbsDiffEq for Wide {
    type Epsilon = Wide;
    fn default_epsilon() -> Wide {
        Wide::of(f64::EPSILON)
    }
    fn abs_diff_eq(&self, o: &Wide, e: Wide) -> bool {
        approx_::AbsDiffEq::abs_diff_eq(&self.get(), &o.get(), e.get())
    }
}
impl Fl for Wide {
    const NAME: &'static str = "wide";
    fn f(x: f64) -> Wide {
        Wide::of(x)
    }
    fn d(self) -> f64 {
        self.get()
    }
    fn bits(self) -> u64 {
        self.get().to_bits()
    }
    fn from_bits64(b: u64) -> Wide {
        Wide::of(f64::from_bits(b))
    }
    fn eps() -> f64 {
        f64::EPSILON
    }
    fn lex(self) -> i64 {
        self.get().lex()
    }
}
