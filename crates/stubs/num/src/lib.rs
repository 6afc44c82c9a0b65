//! Environment model of the parts of `num` 0.1 that rusty-machine can reach.
#![allow(dead_code)]
use std::ops::*;

pub trait Zero: Sized + Add<Self, Output = Self> {
    fn zero() -> Self;
    fn is_zero(&self) -> bool;
}
pub trait One: Sized + Mul<Self, Output = Self> {
    fn one() -> Self;
}
pub fn zero<T: Zero>() -> T {
    T::zero()
}
pub fn one<T: One>() -> T {
    T::one()
}
pub trait Bounded {
    fn min_value() -> Self;
    fn max_value() -> Self;
}
pub trait NumOps<Rhs = Self, Output = Self>:
    Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + Mul<Rhs, Output = Output> + Div<Rhs, Output = Output> + Rem<Rhs, Output = Output>
{
}
impl<T, Rhs, Output> NumOps<Rhs, Output> for T where
    T: Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + Mul<Rhs, Output = Output> + Div<Rhs, Output = Output> + Rem<Rhs, Output = Output>
{
}
pub trait Num: PartialEq + Zero + One + NumOps {}
pub trait Signed: Sized + Num + Neg<Output = Self> {
    fn abs(&self) -> Self;
    fn abs_sub(&self, other: &Self) -> Self;
    fn signum(&self) -> Self;
    fn is_positive(&self) -> bool;
    fn is_negative(&self) -> bool;
}
pub trait Unsigned: Num {}
pub fn abs<T: Signed>(value: T) -> T {
    value.abs()
}
pub fn signum<T: Signed>(value: T) -> T {
    value.signum()
}
pub fn pow<T: Clone + One + Mul<T, Output = T>>(base: T, exp: usize) -> T {
    let mut r = T::one();
    for _ in 0..exp {
        r = r * base.clone();
    }
    r
}
pub fn clamp<T: PartialOrd>(input: T, min: T, max: T) -> T {
    if input < min {
        min
    } else if input > max {
        max
    } else {
        input
    }
}

pub trait ToPrimitive {
    fn to_i64(&self) -> Option<i64>;
    fn to_u64(&self) -> Option<u64>;
    fn to_f64(&self) -> Option<f64>;
    fn to_usize(&self) -> Option<usize> {
        self.to_u64().map(|x| x as usize)
    }
    fn to_isize(&self) -> Option<isize> {
        self.to_i64().map(|x| x as isize)
    }
    fn to_i32(&self) -> Option<i32> {
        self.to_i64().map(|x| x as i32)
    }
    fn to_u32(&self) -> Option<u32> {
        self.to_u64().map(|x| x as u32)
    }
    fn to_u8(&self) -> Option<u8> {
        self.to_u64().map(|x| x as u8)
    }
}
pub trait FromPrimitive: Sized {
    fn from_i64(n: i64) -> Option<Self>;
    fn from_u64(n: u64) -> Option<Self>;
    fn from_f64(n: f64) -> Option<Self>;
    fn from_usize(n: usize) -> Option<Self> {
        Self::from_u64(n as u64)
    }
    fn from_isize(n: isize) -> Option<Self> {
        Self::from_i64(n as i64)
    }
    fn from_i32(n: i32) -> Option<Self> {
        Self::from_i64(n as i64)
    }
    fn from_u32(n: u32) -> Option<Self> {
        Self::from_u64(n as u64)
    }
    fn from_i8(n: i8) -> Option<Self> {
        Self::from_i64(n as i64)
    }
    fn from_u8(n: u8) -> Option<Self> {
        Self::from_u64(n as u64)
    }
    fn from_i16(n: i16) -> Option<Self> {
        Self::from_i64(n as i64)
    }
    fn from_u16(n: u16) -> Option<Self> {
        Self::from_u64(n as u64)
    }
}
pub trait NumCast: Sized + ToPrimitive {
    fn from<T: ToPrimitive>(n: T) -> Option<Self>;
}
pub fn cast<T: ToPrimitive, U: NumCast>(n: T) -> Option<U> {
    U::from(n)
}

macro_rules! ints {
    ($($t:ident)*) => { $(
        impl Zero for $t { fn zero() -> $t { 0 } fn is_zero(&self) -> bool { *self == 0 } }
        impl One for $t { fn one() -> $t { 1 } }
        impl Num for $t {}
        impl Bounded for $t { fn min_value() -> $t { $t::MIN } fn max_value() -> $t { $t::MAX } }
        impl ToPrimitive for $t {
            fn to_i64(&self) -> Option<i64> { Some(*self as i64) }
            fn to_u64(&self) -> Option<u64> { if (*self as i128) < 0 { None } else { Some(*self as u64) } }
            fn to_f64(&self) -> Option<f64> { Some(int_to_f(*self as i64)) }
        }
        impl FromPrimitive for $t {
            fn from_i64(n: i64) -> Option<$t> { Some(n as $t) }
            fn from_u64(n: u64) -> Option<$t> { Some(n as $t) }
            fn from_f64(n: f64) -> Option<$t> { Some(f_to_int(n) as $t) }
        }
        impl NumCast for $t { fn from<T: ToPrimitive>(n: T) -> Option<$t> { n.to_i64().map(|x| x as $t) } }
    )* };
}
macro_rules! sints {
    ($($t:ident)*) => { $(
        impl Signed for $t {
            fn abs(&self) -> $t { if *self < 0 { -*self } else { *self } }
            fn abs_sub(&self, o: &$t) -> $t { if *self <= *o { 0 } else { *self - *o } }
            fn signum(&self) -> $t { if *self < 0 { -1 } else if *self == 0 { 0 } else { 1 } }
            fn is_positive(&self) -> bool { *self > 0 }
            fn is_negative(&self) -> bool { *self < 0 }
        }
    )* };
}
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
sints!(i8 i16 i32 i64 isize);
impl Unsigned for u8 {}
impl Unsigned for u16 {}
impl Unsigned for u32 {}
impl Unsigned for u64 {}
impl Unsigned for usize {}

fn int_to_f(x: i64) -> f64 {
    x as f64
}
fn f_to_int(x: f64) -> i64 {
    x as i64
}

impl Zero for f64 {
    fn zero() -> f64 {
        0.0
    }
    fn is_zero(&self) -> bool {
        *self == 0.0
    }
}
impl One for f64 {
    fn one() -> f64 {
        1.0
    }
}
impl Num for f64 {}
impl Bounded for f64 {
    fn min_value() -> f64 {
        std::f64::MIN
    }
    fn max_value() -> f64 {
        std::f64::MAX
    }
}
impl Signed for f64 {
    fn abs(&self) -> f64 {
        f64::abs(*self)
    }
    fn abs_sub(&self, o: &f64) -> f64 {
        if *self <= *o {
            0.0
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> f64 {
        f64::signum(*self)
    }
    fn is_positive(&self) -> bool {
        *self > 0.0
    }
    fn is_negative(&self) -> bool {
        *self < 0.0
    }
}
impl ToPrimitive for f64 {
    fn to_i64(&self) -> Option<i64> {
        Some(f_to_int(*self))
    }
    fn to_u64(&self) -> Option<u64> {
        if *self < 0.0 {
            None
        } else {
            Some(f_to_int(*self) as u64)
        }
    }
    fn to_f64(&self) -> Option<f64> {
        Some(*self)
    }
}
impl FromPrimitive for f64 {
    fn from_i64(n: i64) -> Option<f64> {
        Some(n as f64)
    }
    fn from_u64(n: u64) -> Option<f64> {
        Some(n as f64)
    }
    fn from_f64(n: f64) -> Option<f64> {
        Some(n)
    }
}
impl NumCast for f64 {
    fn from<T: ToPrimitive>(n: T) -> Option<f64> {
        n.to_f64()
    }
}

pub trait Float: Num + Copy + NumCast + PartialOrd + Neg<Output = Self> {
    fn nan() -> Self;
    fn infinity() -> Self;
    fn neg_infinity() -> Self;
    fn neg_zero() -> Self;
    fn min_value() -> Self;
    fn max_value() -> Self;
    fn min_positive_value() -> Self;
    fn epsilon() -> Self;
    fn is_nan(self) -> bool;
    fn is_infinite(self) -> bool;
    fn is_finite(self) -> bool;
    fn is_normal(self) -> bool;
    fn floor(self) -> Self;
    fn ceil(self) -> Self;
    fn round(self) -> Self;
    fn trunc(self) -> Self;
    fn fract(self) -> Self;
    fn abs(self) -> Self;
    fn signum(self) -> Self;
    fn is_sign_positive(self) -> bool;
    fn is_sign_negative(self) -> bool;
    fn mul_add(self, a: Self, b: Self) -> Self;
    fn recip(self) -> Self;
    fn powi(self, n: i32) -> Self;
    fn powf(self, n: Self) -> Self;
    fn sqrt(self) -> Self;
    fn exp(self) -> Self;
    fn exp2(self) -> Self;
    fn ln(self) -> Self;
    fn log(self, base: Self) -> Self;
    fn log2(self) -> Self;
    fn log10(self) -> Self;
    fn max(self, other: Self) -> Self;
    fn min(self, other: Self) -> Self;
    fn abs_sub(self, other: Self) -> Self;
    fn hypot(self, other: Self) -> Self;
    fn sin(self) -> Self;
    fn cos(self) -> Self;
    fn tanh(self) -> Self;
    fn tan(self) -> Self;
    fn asin(self) -> Self;
    fn acos(self) -> Self;
    fn atan(self) -> Self;
    fn sinh(self) -> Self;
    fn cosh(self) -> Self;
    fn asinh(self) -> Self;
    fn acosh(self) -> Self;
    fn atanh(self) -> Self;
    fn cbrt(self) -> Self;
    fn atan2(self, o: Self) -> Self;
    fn sin_cos(self) -> (Self, Self);
    fn exp_m1(self) -> Self;
    fn ln_1p(self) -> Self;
}
impl Float for f64 {
    fn nan() -> f64 {
        std::f64::NAN
    }
    fn infinity() -> f64 {
        std::f64::INFINITY
    }
    fn neg_infinity() -> f64 {
        std::f64::NEG_INFINITY
    }
    fn neg_zero() -> f64 {
        -0.0
    }
    fn min_value() -> f64 {
        std::f64::MIN
    }
    fn max_value() -> f64 {
        std::f64::MAX
    }
    fn min_positive_value() -> f64 {
        std::f64::MIN_POSITIVE
    }
    fn epsilon() -> f64 {
        std::f64::EPSILON
    }
    fn is_nan(self) -> bool {
        f64::is_nan(self)
    }
    fn is_infinite(self) -> bool {
        f64::is_infinite(self)
    }
    fn is_finite(self) -> bool {
        f64::is_finite(self)
    }
    fn is_normal(self) -> bool {
        f64::is_normal(self)
    }
    fn floor(self) -> f64 {
        f64::floor(self)
    }
    fn ceil(self) -> f64 {
        f64::ceil(self)
    }
    fn round(self) -> f64 {
        f64::round(self)
    }
    fn trunc(self) -> f64 {
        f64::trunc(self)
    }
    fn fract(self) -> f64 {
        f64::fract(self)
    }
    fn abs(self) -> f64 {
        f64::abs(self)
    }
    fn signum(self) -> f64 {
        f64::signum(self)
    }
    fn is_sign_positive(self) -> bool {
        f64::is_sign_positive(self)
    }
    fn is_sign_negative(self) -> bool {
        f64::is_sign_negative(self)
    }
    fn mul_add(self, a: f64, b: f64) -> f64 {
        f64::mul_add(self, a, b)
    }
    fn recip(self) -> f64 {
        f64::recip(self)
    }
    fn powi(self, n: i32) -> f64 {
        f64::powi(self, n)
    }
    fn powf(self, n: f64) -> f64 {
        f64::powf(self, n)
    }
    fn sqrt(self) -> f64 {
        f64::sqrt(self)
    }
    fn exp(self) -> f64 {
        f64::exp(self)
    }
    fn exp2(self) -> f64 {
        f64::exp2(self)
    }
    fn ln(self) -> f64 {
        f64::ln(self)
    }
    fn log(self, base: f64) -> f64 {
        f64::log(self, base)
    }
    fn log2(self) -> f64 {
        f64::log2(self)
    }
    fn log10(self) -> f64 {
        f64::log10(self)
    }
    fn max(self, other: f64) -> f64 {
        f64::max(self, other)
    }
    fn min(self, other: f64) -> f64 {
        f64::min(self, other)
    }
    fn abs_sub(self, other: f64) -> f64 {
        if self <= other {
            0.0
        } else {
            self - other
        }
    }
    fn hypot(self, other: f64) -> f64 {
        f64::hypot(self, other)
    }
    fn sin(self) -> f64 {
        f64::sin(self)
    }
    fn cos(self) -> f64 {
        f64::cos(self)
    }
    fn tanh(self) -> f64 {
        f64::tanh(self)
    }
    fn tan(self) -> f64 {
        f64::tan(self)
    }
    fn asin(self) -> f64 {
        f64::asin(self)
    }
    fn acos(self) -> f64 {
        f64::acos(self)
    }
    fn atan(self) -> f64 {
        f64::atan(self)
    }
    fn sinh(self) -> f64 {
        f64::sinh(self)
    }
    fn cosh(self) -> f64 {
        f64::cosh(self)
    }
    fn asinh(self) -> f64 {
        f64::asinh(self)
    }
    fn acosh(self) -> f64 {
        f64::acosh(self)
    }
    fn atanh(self) -> f64 {
        f64::atanh(self)
    }
    fn cbrt(self) -> f64 {
        f64::cbrt(self)
    }
    fn atan2(self, o: f64) -> f64 {
        f64::atan2(self, o)
    }
    fn sin_cos(self) -> (f64, f64) {
        f64::sin_cos(self)
    }
    fn exp_m1(self) -> f64 {
        f64::exp_m1(self)
    }
    fn ln_1p(self) -> f64 {
        f64::ln_1p(self)
    }
}
pub mod traits {
    pub use super::*;
}
pub mod cast_mod {
    pub use super::{cast, FromPrimitive, NumCast, ToPrimitive};
}
