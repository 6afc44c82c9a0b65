//! symx: a small symbolic execution engine for floating-point Rust code.
//! `F` stands in for `f64`; values are exact reals (plus +-inf and NaN tags) represented as terms,
//! comparisons fork the execution, an SMT solver decides branch feasibility and properties.
#![allow(clippy::all)]
pub mod dag;
pub mod emit;
pub mod engine;
pub mod rat;
pub mod smt;

use dag::{Bid, Hint, Id, Sign, BF, BT};
use engine::{abort, with, Check};
use rat::Rat;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy)]
enum R {
    C(f64),
    N(Id),
}

#[derive(Clone, Copy)]
pub struct F(R);

enum V {
    N(Id),
    S(f64), // +-inf, NaN
}

impl F {
    pub const INFINITY: F = F(R::C(f64::INFINITY));
    pub const NEG_INFINITY: F = F(R::C(f64::NEG_INFINITY));
    pub const NAN: F = F(R::C(f64::NAN));
    pub const MAX: F = F(R::C(f64::MAX));
    pub const MIN: F = F(R::C(f64::MIN));
    pub const MIN_POSITIVE: F = F(R::C(f64::MIN_POSITIVE));
    pub const EPSILON: F = F(R::C(f64::EPSILON));

    pub const RADIX: u32 = f64::RADIX;
    pub const DIGITS: u32 = f64::DIGITS;
    pub const MANTISSA_DIGITS: u32 = f64::MANTISSA_DIGITS;
    pub const MAX_EXP: i32 = f64::MAX_EXP;
    pub const MIN_EXP: i32 = f64::MIN_EXP;

    pub const fn lit(x: f64) -> F {
        F(R::C(x))
    }
    /// the value of a constant
    pub const fn raw(self) -> f64 {
        match self.0 {
            R::C(x) => x,
            R::N(_) => panic!("symx: not a constant"),
        }
    }
    fn v(self) -> V {
        match self.0 {
            R::N(i) => V::N(i),
            R::C(x) => {
                if x.is_finite() {
                    V::N(with(|e| e.d.rat(Rat::from_f64(x))))
                } else {
                    V::S(x)
                }
            }
        }
    }
    fn id(i: Id) -> F {
        F(R::N(i))
    }
    /// node id of a finite value
    pub fn node(self) -> Option<Id> {
        match self.v() {
            V::N(i) => Some(i),
            _ => None,
        }
    }
    pub fn concrete(self) -> Option<f64> {
        match self.0 {
            R::C(x) => Some(x),
            R::N(i) => with(|e| e.d.as_rat(i).map(|r| r.to_f64())),
        }
    }
    fn special(self) -> Option<f64> {
        match self.0 {
            R::C(x) if !x.is_finite() => Some(x),
            _ => None,
        }
    }
    /// forks on the sign: -1, 0, 1
    fn sign3(self) -> i32 {
        match self.v() {
            V::S(x) => {
                if x > 0.0 {
                    1
                } else {
                    -1
                }
            }
            V::N(i) => {
                if br(with(|e| e.d.gt0(i))) {
                    1
                } else if br(with(|e| e.d.eq0(i))) {
                    0
                } else {
                    -1
                }
            }
        }
    }
    fn sgnf(self) -> f64 {
        self.sign3() as f64
    }
}

fn br(c: Bid) -> bool {
    if c == BT {
        return true;
    }
    if c == BF {
        return false;
    }
    match with(|e| e.branch(c)) {
        Ok(b) => b,
        Err(w) => abort(w),
    }
}

fn f_add(a: F, b: F) -> F {
    match (a.v(), b.v()) {
        (V::N(x), V::N(y)) => F::id(with(|e| e.d.add(x, y))),
        (V::S(x), V::S(y)) => F::lit(x + y),
        (V::S(x), _) | (_, V::S(x)) => F::lit(x),
    }
}
fn f_neg(a: F) -> F {
    match a.0 {
        R::C(x) => F(R::C(-x)),
        R::N(i) => F::id(with(|e| e.d.neg(i))),
    }
}
fn f_sub(a: F, b: F) -> F {
    match (a.v(), b.v()) {
        (V::N(x), V::N(y)) => F::id(with(|e| e.d.sub(x, y))),
        _ => f_add(a, f_neg(b)),
    }
}
fn f_mul(a: F, b: F) -> F {
    match (a.v(), b.v()) {
        (V::N(x), V::N(y)) => F::id(with(|e| e.d.mul(x, y))),
        (V::S(x), V::S(y)) => F::lit(x * y),
        (V::S(x), V::N(_)) => {
            if x.is_nan() {
                F::NAN
            } else {
                F::lit(x * b.sgnf())
            }
        }
        (V::N(_), V::S(_)) => f_mul(b, a),
    }
}
fn f_div(a: F, b: F) -> F {
    match (a.v(), b.v()) {
        (V::N(x), V::N(y)) => {
            if br(with(|e| e.d.eq0(y))) {
                // division by (positive) zero
                match a.sign3() {
                    1 => F::INFINITY,
                    -1 => F::NEG_INFINITY,
                    _ => F::NAN,
                }
            } else {
                F::id(with(|e| e.d.div_nz(x, y)))
            }
        }
        (V::S(x), V::S(y)) => F::lit(x / y),
        (V::N(_), V::S(y)) => {
            if y.is_nan() {
                F::NAN
            } else {
                F::lit(0.0)
            }
        }
        (V::S(x), V::N(_)) => {
            if x.is_nan() {
                F::NAN
            } else {
                let s = b.sign3();
                F::lit(if s < 0 { -x } else { x })
            }
        }
    }
}
fn f_rem(a: F, b: F) -> F {
    if let (Some(x), Some(y)) = (a.concrete(), b.concrete()) {
        return F::lit(x % y);
    }
    let q = f_div(a, b).trunc();
    f_sub(a, f_mul(q, b))
}

macro_rules! binop {
    ($tr:ident, $m:ident, $f:ident, $tra:ident, $ma:ident) => {
        impl $tr<F> for F {
            type Output = F;
            fn $m(self, o: F) -> F {
                $f(self, o)
            }
        }
        impl<'a> $tr<&'a F> for F {
            type Output = F;
            fn $m(self, o: &'a F) -> F {
                $f(self, *o)
            }
        }
        impl<'a> $tr<F> for &'a F {
            type Output = F;
            fn $m(self, o: F) -> F {
                $f(*self, o)
            }
        }
        impl<'a, 'b> $tr<&'b F> for &'a F {
            type Output = F;
            fn $m(self, o: &'b F) -> F {
                $f(*self, *o)
            }
        }
        impl $tra<F> for F {
            fn $ma(&mut self, o: F) {
                *self = $f(*self, o);
            }
        }
        impl<'a> $tra<&'a F> for F {
            fn $ma(&mut self, o: &'a F) {
                *self = $f(*self, *o);
            }
        }
    };
}
binop!(Add, add, f_add, AddAssign, add_assign);
binop!(Sub, sub, f_sub, SubAssign, sub_assign);
binop!(Mul, mul, f_mul, MulAssign, mul_assign);
binop!(Div, div, f_div, DivAssign, div_assign);
binop!(Rem, rem, f_rem, RemAssign, rem_assign);
impl Neg for F {
    type Output = F;
    fn neg(self) -> F {
        f_neg(self)
    }
}
impl<'a> Neg for &'a F {
    type Output = F;
    fn neg(self) -> F {
        f_neg(*self)
    }
}
impl std::iter::Sum for F {
    fn sum<I: Iterator<Item = F>>(i: I) -> F {
        i.fold(F::lit(0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a F> for F {
    fn sum<I: Iterator<Item = &'a F>>(i: I) -> F {
        i.fold(F::lit(0.0), |a, b| a + *b)
    }
}
impl std::iter::Product for F {
    fn product<I: Iterator<Item = F>>(i: I) -> F {
        i.fold(F::lit(1.0), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a F> for F {
    fn product<I: Iterator<Item = &'a F>>(i: I) -> F {
        i.fold(F::lit(1.0), |a, b| a * *b)
    }
}

fn cmp_b(a: F, b: F, op: u8) -> Bid {
    // op: 0 lt, 1 le, 2 eq
    match (a.v(), b.v()) {
        (V::N(x), V::N(y)) => with(|e| match op {
            0 => e.d.lt(x, y),
            1 => e.d.le(x, y),
            _ => e.d.eq(x, y),
        }),
        (va, vb) => {
            let x = match va {
                V::S(x) => x,
                _ => 0.0,
            };
            let y = match vb {
                V::S(y) => y,
                _ => 0.0,
            };
            let r = match op {
                0 => x < y,
                1 => x <= y,
                _ => x == y,
            };
            if r {
                BT
            } else {
                BF
            }
        }
    }
}

impl PartialEq for F {
    fn eq(&self, o: &F) -> bool {
        br(cmp_b(*self, *o, 2))
    }
}
impl PartialOrd for F {
    fn partial_cmp(&self, o: &F) -> Option<Ordering> {
        if self.is_nan() || o.is_nan() {
            return None;
        }
        Some(if self < o {
            Ordering::Less
        } else if self == o {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &F) -> bool {
        br(cmp_b(*self, *o, 0))
    }
    fn le(&self, o: &F) -> bool {
        br(cmp_b(*self, *o, 1))
    }
    fn gt(&self, o: &F) -> bool {
        br(cmp_b(*o, *self, 0))
    }
    fn ge(&self, o: &F) -> bool {
        br(cmp_b(*o, *self, 1))
    }
}
impl fmt::Debug for F {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.concrete() {
            Some(x) => write!(f, "{:?}", x),
            None => write!(f, "<sym>"),
        }
    }
}
impl fmt::Display for F {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.concrete() {
            Some(x) => fmt::Display::fmt(&x, f),
            None => write!(f, "<sym>"),
        }
    }
}
impl fmt::LowerExp for F {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.concrete() {
            Some(x) => fmt::LowerExp::fmt(&x, f),
            None => write!(f, "<sym>"),
        }
    }
}
impl Default for F {
    fn default() -> F {
        F::lit(0.0)
    }
}
impl std::str::FromStr for F {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<F, Self::Err> {
        s.parse::<f64>().map(F::lit)
    }
}
macro_rules! from_int {
    ($($t:ty)*) => { $(impl From<$t> for F { fn from(x: $t) -> F { F::id(with(|e| e.d.rat(Rat::int(x as i128)))) } })* }
}
from_int!(u8 u16 u32 i8 i16 i32);
impl From<bool> for F {
    fn from(x: bool) -> F {
        F::lit(if x { 1.0 } else { 0.0 })
    }
}
impl From<f32> for F {
    fn from(x: f32) -> F {
        F::lit(x as f64)
    }
}

impl F {
    pub fn is_nan(self) -> bool {
        matches!(self.special(), Some(x) if x.is_nan())
    }
    pub fn is_infinite(self) -> bool {
        matches!(self.special(), Some(x) if x.is_infinite())
    }
    pub fn is_finite(self) -> bool {
        self.special().is_none()
    }
    pub fn is_normal(self) -> bool {
        self.is_finite() && self != F::lit(0.0)
    }
    pub fn abs(self) -> F {
        match self.v() {
            V::S(x) => F::lit(x.abs()),
            V::N(i) => F::id(with(|e| e.d.abs(i))),
        }
    }
    pub fn signum(self) -> F {
        if self.is_nan() {
            return F::NAN;
        }
        F::lit(if self.sign3() < 0 { -1.0 } else { 1.0 })
    }
    pub fn is_sign_positive(self) -> bool {
        match self.0 {
            R::C(x) => x.is_sign_positive(),
            _ => self.sign3() >= 0,
        }
    }
    pub fn is_sign_negative(self) -> bool {
        !self.is_sign_positive()
    }
    fn sel(a: F, b: F, op_max: bool) -> F {
        match (a.v(), b.v()) {
            (V::N(x), V::N(y)) => F::id(with(|e| {
                let c = e.d.lt(x, y);
                if op_max {
                    e.d.ite(c, y, x)
                } else {
                    e.d.ite(c, x, y)
                }
            })),
            _ => {
                if a.is_nan() {
                    b
                } else if b.is_nan() {
                    a
                } else if (a < b) == op_max {
                    b
                } else {
                    a
                }
            }
        }
    }
    pub fn max(self, o: F) -> F {
        F::sel(self, o, true)
    }
    pub fn min(self, o: F) -> F {
        F::sel(self, o, false)
    }
    pub fn clamp(self, lo: F, hi: F) -> F {
        self.max(lo).min(hi)
    }
    pub fn sqrt(self) -> F {
        match self.v() {
            V::S(x) => F::lit(x.sqrt()),
            V::N(i) => {
                let neg = match with(|e| e.d.sgn[i as usize]) {
                    Sign::Pos | Sign::NonNeg | Sign::Zero => false,
                    _ => {
                        let z = F::lit(0.0);
                        self < z
                    }
                };
                if neg {
                    F::NAN
                } else {
                    F::id(with(|e| e.d.sqrt(i)))
                }
            }
        }
    }
    pub fn exp(self) -> F {
        match self.v() {
            V::S(x) => F::lit(x.exp()),
            V::N(i) => F::id(with(|e| e.d.exp(i))),
        }
    }
    pub fn exp2(self) -> F {
        (self * F::lit(2.0).ln()).exp()
    }
    pub fn exp_m1(self) -> F {
        self.exp() - F::lit(1.0)
    }
    pub fn ln(self) -> F {
        match self.v() {
            V::S(x) => F::lit(x.ln()),
            V::N(i) => match self.sign3() {
                1 => F::id(with(|e| e.d.ln(i))),
                0 => F::NEG_INFINITY,
                _ => F::NAN,
            },
        }
    }
    pub fn ln_1p(self) -> F {
        (self + F::lit(1.0)).ln()
    }
    pub fn log(self, b: F) -> F {
        self.ln() / b.ln()
    }
    pub fn log2(self) -> F {
        self.log(F::lit(2.0))
    }
    pub fn log10(self) -> F {
        self.log(F::lit(10.0))
    }
    pub fn powi(self, n: i32) -> F {
        match self.v() {
            V::S(x) => F::lit(x.powi(n)),
            V::N(i) => {
                if n < 0 {
                    return F::lit(1.0) / self.powi(-n);
                }
                F::id(with(|e| e.d.powi(i, n)))
            }
        }
    }
    pub fn powf(self, p: F) -> F {
        if let Some(c) = p.concrete() {
            if c == c.trunc() && c.abs() <= 64.0 {
                return self.powi(c as i32);
            }
            if c == 0.5 {
                return self.sqrt();
            }
            if c == -0.5 {
                return F::lit(1.0) / self.sqrt();
            }
            if !c.is_finite() {
                panic!("symx: powf with a non-finite exponent");
            }
        }
        match (self.v(), p.v()) {
            (V::N(a), V::N(b)) => {
                if with(|e| e.d.as_rat(a).map(|r| r.is_one()).unwrap_or(false)) {
                    return F::lit(1.0);
                }
                F::id(with(|e| e.d.mk(dag::N::Pow(a, b))))
            }
            _ => panic!("symx: powf on a non-finite value"),
        }
    }
    pub fn recip(self) -> F {
        F::lit(1.0) / self
    }
    pub fn mul_add(self, a: F, b: F) -> F {
        self * a + b
    }
    pub fn hypot(self, o: F) -> F {
        (self * self + o * o).sqrt()
    }
    pub fn tanh(self) -> F {
        match self.v() {
            V::S(x) => F::lit(x.tanh()),
            _ => {
                let e = (self + self).exp();
                F::lit(1.0) - F::lit(2.0) / (e + F::lit(1.0))
            }
        }
    }
    pub fn sinh(self) -> F {
        (self.exp() - (-self).exp()) / F::lit(2.0)
    }
    pub fn cosh(self) -> F {
        (self.exp() + (-self).exp()) / F::lit(2.0)
    }
    fn fun(self, k: u8) -> F {
        match self.v() {
            V::S(x) => F::lit(dag::fun_eval(k, x)),
            V::N(i) => {
                if with(|e| e.d.sgn[i as usize] == Sign::Zero) {
                    return F::lit(dag::fun_eval(k, 0.0));
                }
                F::id(with(|e| e.d.mk(dag::N::Fun(k, i))))
            }
        }
    }
    pub fn sin(self) -> F {
        self.fun(0)
    }
    pub fn cos(self) -> F {
        self.fun(1)
    }
    pub fn atan(self) -> F {
        self.fun(2)
    }
    pub fn atan2(self, o: F) -> F {
        (self / o).atan()
    }
    fn to_int(self) -> i128 {
        if let Some(c) = self.concrete() {
            return c.floor() as i128;
        }
        // concretise by forking over unit intervals, nearest to zero first
        for k in 0..200i64 {
            for s in [k, -k - 1] {
                let lo = F::lit(s as f64);
                let hi = F::lit((s + 1) as f64);
                if self >= lo && self < hi {
                    return s as i128;
                }
            }
        }
        panic!("symx: float to integer conversion out of the explored range")
    }
    pub fn floor(self) -> F {
        if let Some(c) = self.concrete() {
            return F::lit(c.floor());
        }
        F::lit(self.to_int() as f64)
    }
    pub fn ceil(self) -> F {
        -((-self).floor())
    }
    pub fn trunc(self) -> F {
        if let Some(c) = self.concrete() {
            return F::lit(c.trunc());
        }
        if self.sign3() < 0 {
            self.ceil()
        } else {
            self.floor()
        }
    }
    pub fn round(self) -> F {
        if let Some(c) = self.concrete() {
            return F::lit(c.round());
        }
        if self.sign3() < 0 {
            (self - F::lit(0.5)).ceil()
        } else {
            (self + F::lit(0.5)).floor()
        }
    }
    pub fn fract(self) -> F {
        self - self.trunc()
    }
    pub fn copysign(self, o: F) -> F {
        let a = self.abs();
        if o.is_sign_negative() {
            -a
        } else {
            a
        }
    }
    pub fn total_cmp(&self, o: &F) -> Ordering {
        self.partial_cmp(o).unwrap_or(Ordering::Equal)
    }
    pub fn to_degrees(self) -> F {
        self * F::lit(180.0) / consts::PI
    }
    pub fn to_radians(self) -> F {
        self * consts::PI / F::lit(180.0)
    }
    pub fn cbrt(self) -> F {
        match self.v() {
            V::S(x) => F::lit(x.cbrt()),
            V::N(_) => {
                let s = self.sign3();
                if s == 0 {
                    return F::lit(0.0);
                }
                let r = self.abs().powf(F::lit(1.0) / F::lit(3.0));
                if s < 0 {
                    -r
                } else {
                    r
                }
            }
        }
    }
    pub fn tan(self) -> F {
        self.sin() / self.cos()
    }
    pub fn sin_cos(self) -> (F, F) {
        (self.sin(), self.cos())
    }
    pub fn asin(self) -> F {
        (self / (F::lit(1.0) - self * self).sqrt()).atan()
    }
    pub fn acos(self) -> F {
        consts::FRAC_PI_2 - self.asin()
    }
    pub fn asinh(self) -> F {
        (self + (self * self + F::lit(1.0)).sqrt()).ln()
    }
    pub fn acosh(self) -> F {
        (self + (self * self - F::lit(1.0)).sqrt()).ln()
    }
    pub fn atanh(self) -> F {
        ((F::lit(1.0) + self) / (F::lit(1.0) - self)).ln() / F::lit(2.0)
    }
    pub fn div_euclid(self, o: F) -> F {
        let q = (self / o).trunc();
        if self - q * o < F::lit(0.0) {
            if o > F::lit(0.0) {
                q - F::lit(1.0)
            } else {
                q + F::lit(1.0)
            }
        } else {
            q
        }
    }
    pub fn rem_euclid(self, o: F) -> F {
        let r = self % o;
        if r < F::lit(0.0) {
            r + o.abs()
        } else {
            r
        }
    }
    pub fn abs_sub(self, o: F) -> F {
        (self - o).max(F::lit(0.0))
    }
    pub fn midpoint(self, o: F) -> F {
        (self + o) / F::lit(2.0)
    }
    pub fn is_subnormal(self) -> bool {
        match self.0 {
            R::C(x) => x.is_subnormal(),
            _ => false,
        }
    }
    pub fn classify(self) -> std::num::FpCategory {
        match self.special() {
            Some(x) => x.classify(),
            None => {
                if self == F::lit(0.0) {
                    std::num::FpCategory::Zero
                } else {
                    std::num::FpCategory::Normal
                }
            }
        }
    }
    pub fn from_bits(b: u64) -> F {
        F::lit(f64::from_bits(b))
    }
    pub fn to_bits(self) -> u64 {
        self.concrete().expect("symx: to_bits of a symbolic value").to_bits()
    }
}

pub mod consts {
    use super::F;
    pub const PI: F = F::lit(std::f64::consts::PI);
    pub const TAU: F = F::lit(std::f64::consts::TAU);
    pub const E: F = F::lit(std::f64::consts::E);
    pub const LN_2: F = F::lit(std::f64::consts::LN_2);
    pub const LN_10: F = F::lit(std::f64::consts::LN_10);
    pub const SQRT_2: F = F::lit(std::f64::consts::SQRT_2);
    pub const FRAC_1_SQRT_2: F = F::lit(std::f64::consts::FRAC_1_SQRT_2);
    pub const FRAC_PI_2: F = F::lit(std::f64::consts::FRAC_PI_2);
    pub const FRAC_PI_3: F = F::lit(std::f64::consts::FRAC_PI_3);
    pub const FRAC_PI_4: F = F::lit(std::f64::consts::FRAC_PI_4);
    pub const FRAC_PI_6: F = F::lit(std::f64::consts::FRAC_PI_6);
    pub const FRAC_PI_8: F = F::lit(std::f64::consts::FRAC_PI_8);
    pub const FRAC_1_PI: F = F::lit(std::f64::consts::FRAC_1_PI);
    pub const FRAC_2_PI: F = F::lit(std::f64::consts::FRAC_2_PI);
    pub const FRAC_2_SQRT_PI: F = F::lit(std::f64::consts::FRAC_2_SQRT_PI);
    pub const LOG2_E: F = F::lit(std::f64::consts::LOG2_E);
    pub const LOG10_E: F = F::lit(std::f64::consts::LOG10_E);
    pub const LOG2_10: F = F::lit(std::f64::consts::LOG2_10);
    pub const LOG10_2: F = F::lit(std::f64::consts::LOG10_2);
}
pub use F as f64_sym;
pub const INFINITY: F = F::INFINITY;
pub const NEG_INFINITY: F = F::NEG_INFINITY;
pub const NAN: F = F::NAN;
pub const MAX: F = F::MAX;
pub const MIN: F = F::MIN;
pub const EPSILON: F = F::EPSILON;
pub const MIN_POSITIVE: F = F::MIN_POSITIVE;

// ---------------------------------------------------------------- casts
pub trait ToF {
    fn to_f(self) -> F;
}
impl ToF for F {
    fn to_f(self) -> F {
        self
    }
}
impl ToF for f32 {
    fn to_f(self) -> F {
        F::lit(self as f64)
    }
}
pub trait Cast<T> {
    fn cast(self) -> T;
}
macro_rules! ints {
    ($($t:ident)*) => {
        $(
            impl ToF for $t { fn to_f(self) -> F { F::id(with(|e| e.d.rat(Rat::int(self as i128)))) } }
            impl Cast<$t> for F { fn cast(self) -> $t {
                if self.is_nan() { return 0; }
                if let Some(x) = self.concrete() { return x as $t; }
                let t = self.trunc();
                let r = t.to_int();
                if r < $t::MIN as i128 { $t::MIN } else { r as $t }
            } }
            ints!(@ $t u8); ints!(@ $t u16); ints!(@ $t u32); ints!(@ $t u64); ints!(@ $t usize);
            ints!(@ $t i8); ints!(@ $t i16); ints!(@ $t i32); ints!(@ $t i64); ints!(@ $t isize); ints!(@ $t u128); ints!(@ $t i128);
            ints!(@ $t f32);
            impl Cast<$t> for f32 { fn cast(self) -> $t { self as $t } }
            impl Cast<$t> for bool { fn cast(self) -> $t { self as $t } }
        )*
    };
    (@ $t:ident $u:ident) => { impl Cast<$u> for $t { fn cast(self) -> $u { self as $u } } };
}
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize u128 i128);
impl Cast<f32> for F {
    fn cast(self) -> f32 {
        self.concrete().expect("symx: f32 of a symbolic value") as f32
    }
}
macro_rules! chars {
    ($($t:ident)*) => { $(impl Cast<$t> for char { fn cast(self) -> $t { self as $t } })* };
}
chars!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize u128 i128);
impl Cast<f32> for f32 {
    fn cast(self) -> f32 {
        self
    }
}
/// an `as` cast the rewriter leaves alone
#[macro_export]
macro_rules! raw_cast {
    ($e:expr, $t:ty) => {
        $e as $t
    };
}
/// floating-point patterns
pub trait IntoF {
    fn into_f(self) -> F;
}
impl IntoF for F {
    fn into_f(self) -> F {
        self
    }
}
impl IntoF for f64 {
    fn into_f(self) -> F {
        F::lit(self)
    }
}
pub trait PatF {
    fn pat_f(&self) -> F;
}
impl PatF for F {
    fn pat_f(&self) -> F {
        *self
    }
}
impl<'a, T: PatF> PatF for &'a T {
    fn pat_f(&self) -> F {
        (**self).pat_f()
    }
}
impl<'a, T: PatF> PatF for &'a mut T {
    fn pat_f(&self) -> F {
        (**self).pat_f()
    }
}
pub fn pat_eq<T: PatF, C: IntoF>(x: &T, c: C) -> bool {
    x.pat_f() == c.into_f()
}
pub fn pat_ge<T: PatF, C: IntoF>(x: &T, c: C) -> bool {
    x.pat_f() >= c.into_f()
}
pub fn pat_le<T: PatF, C: IntoF>(x: &T, c: C) -> bool {
    x.pat_f() <= c.into_f()
}
pub fn pat_lt<T: PatF, C: IntoF>(x: &T, c: C) -> bool {
    x.pat_f() < c.into_f()
}
impl Cast<char> for u8 {
    fn cast(self) -> char {
        self as char
    }
}
pub fn to_f<T: ToF>(t: T) -> F {
    t.to_f()
}

// ---------------------------------------------------------------- harness API (hx)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct B(Bid);

pub mod hx {
    use super::*;
    pub use super::B;
    pub const SYMBOLIC: bool = true;

    pub fn var(name: &str) -> F {
        F::id(with(|e| e.d.var(name, Hint::Any)))
    }
    /// strictly positive input
    pub fn var_pos(name: &str) -> F {
        F::id(with(|e| e.d.var(name, Hint::Pos)))
    }
    fn ctr(tag: &str) -> String {
        with(|e| {
            let c = e.fresh_ctr.entry(tag.to_string()).or_insert(0);
            let n = format!("{}#{}", tag, c);
            *c += 1;
            n
        })
    }
    /// environment-chosen real (random draws)
    pub fn fresh(tag: &str) -> F {
        let n = ctr(tag);
        F::id(with(|e| e.d.var(&n, Hint::Any)))
    }
    /// environment-chosen real in [0,1)
    pub fn fresh_unit(tag: &str) -> F {
        let n = ctr(tag);
        F::id(with(|e| e.d.var(&n, Hint::Unit)))
    }
    /// the k-th draw made with fresh_unit("draw")
    pub fn draw(k: usize) -> F {
        F::id(with(|e| e.d.var(&format!("draw#{}", k), Hint::Unit)))
    }
    /// existential of a contract stub: not an input, recomputed by the real routine on replay
    /// the same number exactly for the same term
    pub fn key(x: F) -> u64 {
        match x.0 {
            R::C(x) => x.to_bits(),
            R::N(i) => 0xfff8_0000_0000_0000 | (i as u64 + 1),
        }
    }
    pub fn contract(tag: &str) -> F {
        let n = ctr(&format!("~{}", tag));
        F::id(with(|e| e.d.var(&n, Hint::Any)))
    }
    pub fn contract_pos(tag: &str) -> F {
        let n = ctr(&format!("~{}", tag));
        F::id(with(|e| e.d.var(&n, Hint::Pos)))
    }
    pub fn choose(n: usize) -> usize {
        match with(|e| e.choose(n as u32)) {
            Ok(k) => k as usize,
            Err(w) => abort(w),
        }
    }
    pub fn assume(b: B) {
        if let Err(w) = with(|e| e.assume(b.0)) {
            abort(w)
        }
    }
    pub fn lt(a: F, b: F) -> B {
        B(cmp_b(a, b, 0))
    }
    pub fn le(a: F, b: F) -> B {
        B(cmp_b(a, b, 1))
    }
    pub fn gt(a: F, b: F) -> B {
        lt(b, a)
    }
    pub fn ge(a: F, b: F) -> B {
        le(b, a)
    }
    pub fn same(a: F, b: F) -> B {
        eq(a, b)
    }
    pub fn eq(a: F, b: F) -> B {
        B(cmp_b(a, b, 2))
    }
    pub fn ne(a: F, b: F) -> B {
        not(eq(a, b))
    }
    pub fn not(a: B) -> B {
        B(with(|e| e.d.not(a.0)))
    }
    pub fn and(a: B, b: B) -> B {
        B(with(|e| e.d.and(&[a.0, b.0])))
    }
    pub fn or(a: B, b: B) -> B {
        B(with(|e| e.d.or(&[a.0, b.0])))
    }
    pub fn all(v: &[B]) -> B {
        let v: Vec<Bid> = v.iter().map(|x| x.0).collect();
        B(with(|e| e.d.and(&v)))
    }
    pub fn any(v: &[B]) -> B {
        let v: Vec<Bid> = v.iter().map(|x| x.0).collect();
        B(with(|e| e.d.or(&v)))
    }
    pub fn implies(a: B, b: B) -> B {
        or(not(a), b)
    }
    pub fn iff(a: B, b: B) -> B {
        and(implies(a, b), implies(b, a))
    }
    pub fn b(x: bool) -> B {
        B(if x { BT } else { BF })
    }
    /// value selection without forking
    pub fn ite(c: B, x: F, y: F) -> F {
        match (x.v(), y.v()) {
            (V::N(p), V::N(q)) => F::id(with(|e| e.d.ite(c.0, p, q))),
            _ => {
                if br(c.0) {
                    x
                } else {
                    y
                }
            }
        }
    }
    /// forks on a condition
    pub fn decide(c: B) -> bool {
        br(c.0)
    }
    fn push(label: &str, cond: Bid, strong: Vec<Bid>) {
        with(|e| e.check(Check { label: label.to_string(), cond, strong }));
    }
    pub fn check(label: &str, c: B) {
        push(label, c.0, vec![]);
    }
    pub fn check_true(label: &str, c: bool) {
        push(label, if c { BT } else { BF }, vec![]);
    }
    fn m() -> F {
        F::lit(0.015625)
    }
    pub fn check_eq(label: &str, a: F, b: F) {
        if a.is_nan() && b.is_nan() {
            return;
        }
        let c = eq(a, b);
        let s = or(lt(a + m(), b), lt(b + m(), a));
        push(label, c.0, vec![s.0]);
    }
    pub fn check_le(label: &str, a: F, b: F) {
        let c = le(a, b);
        let s = lt(b + m(), a);
        push(label, c.0, vec![s.0]);
    }
    pub fn check_finite(label: &str, a: F) {
        check_true(label, a.is_finite());
    }
    pub fn cover(label: &str) {
        with(|e| e.cover(label));
    }
    /// derivative of f at the input variable x
    pub fn deriv(x: F, f: &dyn Fn(F) -> F) -> F {
        let y = f(x);
        diff(y, x)
    }
    fn diff(y: F, x: F) -> F {
        match (x.v(), y.v()) {
            (V::N(xi), V::N(yi)) => F::id(with(|e| {
                let v = match e.d.nodes[xi as usize] {
                    dag::N::Var(v) => v,
                    _ => panic!("symx: derivative with respect to a non-variable"),
                };
                let mut memo = HashMap::new();
                e.d.diff(yi, v, &mut memo)
            })),
            _ => F::NAN,
        }
    }
    /// gradient of f (evaluated once) with respect to the input variables xs
    pub fn grad(xs: &[F], f: &dyn Fn(&[F]) -> F) -> Vec<F> {
        let y = f(xs);
        xs.iter().map(|&x| diff(y, x)).collect()
    }
    /// the same with respect to those of xs that are input variables
    pub fn grad_free(xs: &[F], f: &dyn Fn(&[F]) -> F) -> Vec<Option<F>> {
        let y = f(xs);
        xs.iter().map(|&x| if x.concrete().is_some() { None } else { Some(diff(y, x)) }).collect()
    }
    /// Err if the closure panics
    pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(t) => Ok(t),
            Err(p) => {
                if p.downcast_ref::<engine::Abort>().is_some() {
                    std::panic::resume_unwind(p)
                }
                let msg = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".to_string()
                };
                if msg.starts_with("symx:") {
                    std::panic::resume_unwind(p)
                }
                Err(msg)
            }
        }
    }
    pub fn param(name: &str) -> usize {
        let key = format!("{}=", name);
        for a in std::env::args() {
            if let Some(v) = a.strip_prefix(&key) {
                return v.parse().unwrap();
            }
        }
        panic!("symx: missing parameter {}", name)
    }
    pub fn set_box(r: i64) {
        with(|e| e.boxr = r as i128);
    }
    /// concrete value if known (constants), for shapes of reference computations
    pub fn value(x: F) -> Option<f64> {
        x.concrete()
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// prints the result of an exploration as one JSON object
pub fn report(e: &engine::Engine) {
    let s = &e.stats;
    let mut o = String::from("{");
    o.push_str(&format!(
        "\"paths\":{},\"ended\":{},\"infeasible\":{},\"feasible_confirmed\":{},\"checks\":{},\"syntactic\":{},\"q_feas\":{},\"q_check\":{},\"q_unsat\":{},\"q_sat\":{},\"q_unknown\":{},\"solver_ms\":{},\"decisions\":{},\"forced\":{},\"max_depth\":{},\"max_check_ms\":{},\"nodes\":{},\"vars\":{}",
        s.paths, s.ended, s.infeasible, s.feasible_confirmed, s.checks, s.syntactic, s.q_feas, s.q_check, s.q_unsat, s.q_sat, s.q_unknown, s.solver_ms, s.decisions, s.forced, s.max_depth, s.max_check_ms, e.d.nodes.len(), e.d.vars.len()
    ));
    o.push_str(&format!(",\"incomplete\":{}", e.incomplete.as_ref().map(|x| js(x)).unwrap_or("null".into())));
    let cv: Vec<String> = e.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o.push_str(&format!(",\"covers\":{{{}}}", cv.join(",")));
    let uk: Vec<String> = e.unknown_checks.iter().map(|x| js(x)).collect();
    o.push_str(&format!(",\"unknown\":[{}]", uk.join(",")));
    let sm: Vec<String> = e.samples_log.iter().map(|x| js(x)).collect();
    o.push_str(&format!(",\"samples\":[{}]", sm.join(",")));
    let tr: Vec<String> = e
        .traces
        .iter()
        .map(|t| {
            let m: Vec<String> = t.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect();
            format!("[{}]", m.join(","))
        })
        .collect();
    o.push_str(&format!(",\"traces\":[{}]", tr.join(",")));
    let vs: Vec<String> = e
        .viols
        .iter()
        .map(|v| {
            let m: Vec<String> = v.model.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect();
            format!("{{\"label\":{},\"kind\":{},\"detail\":{},\"model\":[{}]}}", js(&v.label), js(v.kind), js(&v.detail), m.join(","))
        })
        .collect();
    o.push_str(&format!(",\"violations\":[{}]}}", vs.join(",")));
    println!("SYMX-RESULT {}", o);
    use std::io::Write;
    let _ = std::io::stdout().flush();
}

pub fn main(table: &'static [(&'static str, fn())]) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 || args[1] == "--list" {
        for (n, _) in table {
            println!("{}", n);
        }
        return;
    }
    let f = match table.iter().find(|x| x.0 == args[1]) {
        Some(x) => x.1,
        None => {
            println!("SYMX-NOHARNESS {}", args[1]);
            std::process::exit(3);
        }
    };
    let opt = |k: &str, d: u64| -> u64 {
        let key = format!("--{}=", k);
        for a in &args {
            if let Some(v) = a.strip_prefix(&key) {
                return v.parse().unwrap();
            }
        }
        d
    };
    let tl = opt("time", 300);
    with(|e| {
        e.check_ms = opt("check-ms", 20000);
        e.feas_ms = opt("feas-ms", 2000);
        e.max_paths = opt("max-paths", 200000);
        e.max_decisions = opt("max-decisions", 4000) as usize;
        e.deadline = std::time::Instant::now() + std::time::Duration::from_secs(tl);
    });
    let hang = opt("hang", 20);
    let th = std::thread::Builder::new()
        .stack_size(1 << 29)
        .spawn(move || engine::explore(&f, hang))
        .unwrap();
    let r = th.join();
    with(|e| {
        if let Err(p) = r {
            // a failure of the engine itself: nothing is decided
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into());
            e.incomplete = Some(format!("the engine failed: {}", m));
        }
        report(e)
    });
    std::process::exit(0);
}

/// std collections with a fixed hasher, so that iteration order is the same on every re-execution
pub mod det {
    use std::borrow::Borrow;
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{BuildHasherDefault, Hash};
    use std::ops::{Deref, DerefMut};
    type S = BuildHasherDefault<DefaultHasher>;
    #[derive(Clone, Debug)]
    pub struct HashMap<K, V>(std::collections::HashMap<K, V, S>);
    #[derive(Clone, Debug)]
    pub struct HashSet<K>(std::collections::HashSet<K, S>);
    impl<K: Eq + Hash, V> HashMap<K, V> {
        pub fn new() -> Self {
            HashMap(Default::default())
        }
        pub fn with_hasher<T>(_: T) -> Self {
            HashMap(Default::default())
        }
        pub fn with_capacity(_: usize) -> Self {
            HashMap(Default::default())
        }
    }
    impl<K: Eq + Hash> HashSet<K> {
        pub fn new() -> Self {
            HashSet(Default::default())
        }
        pub fn with_capacity(_: usize) -> Self {
            HashSet(Default::default())
        }
    }
    impl<K, V> HashMap<K, V> {
        pub fn into_keys(self) -> std::collections::hash_map::IntoKeys<K, V> {
            self.0.into_keys()
        }
        pub fn into_values(self) -> std::collections::hash_map::IntoValues<K, V> {
            self.0.into_values()
        }
    }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
        fn from(x: [(K, V); N]) -> Self {
            HashMap(x.into_iter().collect())
        }
    }
    impl<K: Eq + Hash, const N: usize> From<[K; N]> for HashSet<K> {
        fn from(x: [K; N]) -> Self {
            HashSet(x.into_iter().collect())
        }
    }
    impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
            self.0.extend(i)
        }
    }
    impl<K: Eq + Hash> Extend<K> for HashSet<K> {
        fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) {
            self.0.extend(i)
        }
    }
    impl<'a, K: Eq + Hash + Copy + 'a> Extend<&'a K> for HashSet<K> {
        fn extend<I: IntoIterator<Item = &'a K>>(&mut self, i: I) {
            self.0.extend(i)
        }
    }
    impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = std::collections::hash_map::IterMut<'a, K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter_mut()
        }
    }
    impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
    impl<K: Eq + Hash> PartialEq for HashSet<K> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0
        }
    }
    impl<K: Eq + Hash> Eq for HashSet<K> {}
    impl<K: Eq + Hash, V> Default for HashMap<K, V> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<K: Eq + Hash> Default for HashSet<K> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<K, V> Deref for HashMap<K, V> {
        type Target = std::collections::HashMap<K, V, S>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<K, V> DerefMut for HashMap<K, V> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<K> Deref for HashSet<K> {
        type Target = std::collections::HashSet<K, S>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<K> DerefMut for HashSet<K> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<K: Eq + Hash, V> std::iter::FromIterator<(K, V)> for HashMap<K, V> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
            HashMap(i.into_iter().collect())
        }
    }
    impl<K: Eq + Hash> std::iter::FromIterator<K> for HashSet<K> {
        fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
            HashSet(i.into_iter().collect())
        }
    }
    impl<K, V> IntoIterator for HashMap<K, V> {
        type Item = (K, V);
        type IntoIter = std::collections::hash_map::IntoIter<K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
        type Item = (&'a K, &'a V);
        type IntoIter = std::collections::hash_map::Iter<'a, K, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
    impl<K> IntoIterator for HashSet<K> {
        type Item = K;
        type IntoIter = std::collections::hash_set::IntoIter<K>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<'a, K> IntoIterator for &'a HashSet<K> {
        type Item = &'a K;
        type IntoIter = std::collections::hash_set::Iter<'a, K>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
    impl<'a, K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V> std::ops::Index<&'a Q> for HashMap<K, V> {
        type Output = V;
        fn index(&self, q: &'a Q) -> &V {
            &self.0[q]
        }
    }
    impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0
        }
    }
}
