use crate::ctx::with;
use crate::sym::{consts, lit, Sym};
use num_traits::{FromPrimitive, Inv, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.lit_val() {
            Some(x) => fmt::Display::fmt(&x, f),
            None => {
                let n = self.node();
                let s = with(|c| c.show(n, 4));
                f.write_str(&s)
            }
        }
    }
}
impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::UpperExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        lit(0.0)
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        self.eq_(*o)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if self.is_nan() || o.is_nan() {
            return None;
        }
        Some(self.total_cmp(o))
    }
    fn lt(&self, o: &Sym) -> bool {
        self.lt_(*o)
    }
    fn le(&self, o: &Sym) -> bool {
        self.le_(*o)
    }
    fn gt(&self, o: &Sym) -> bool {
        o.lt_(*self)
    }
    fn ge(&self, o: &Sym) -> bool {
        o.le_(*self)
    }
}
impl PartialEq<f64> for Sym {
    fn eq(&self, o: &f64) -> bool {
        self.eq_(lit(*o))
    }
}
impl PartialOrd<f64> for Sym {
    fn partial_cmp(&self, o: &f64) -> Option<Ordering> {
        self.partial_cmp(&lit(*o))
    }
    fn lt(&self, o: &f64) -> bool {
        self.lt_(lit(*o))
    }
    fn le(&self, o: &f64) -> bool {
        self.le_(lit(*o))
    }
    fn gt(&self, o: &f64) -> bool {
        lit(*o).lt_(*self)
    }
    fn ge(&self, o: &f64) -> bool {
        lit(*o).le_(*self)
    }
}
macro_rules! ops {
    ($($tr:ident $f:ident $ta:ident $fa:ident $m:ident;)*) => {$(
        impl $tr<Sym> for Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { self.$m(o) } }
        impl<'a> $tr<&'a Sym> for Sym { type Output = Sym; fn $f(self, o: &'a Sym) -> Sym { self.$m(*o) } }
        impl<'a> $tr<Sym> for &'a Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { (*self).$m(o) } }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym { type Output = Sym; fn $f(self, o: &'b Sym) -> Sym { (*self).$m(*o) } }
        impl $tr<f64> for Sym { type Output = Sym; fn $f(self, o: f64) -> Sym { self.$m(lit(o)) } }
        impl $tr<Sym> for f64 { type Output = Sym; fn $f(self, o: Sym) -> Sym { lit(self).$m(o) } }
        impl<'a> $tr<f64> for &'a Sym { type Output = Sym; fn $f(self, o: f64) -> Sym { (*self).$m(lit(o)) } }
        impl<'a> $tr<&'a Sym> for f64 { type Output = Sym; fn $f(self, o: &'a Sym) -> Sym { lit(self).$m(*o) } }
        impl $ta<Sym> for Sym { fn $fa(&mut self, o: Sym) { *self = self.$m(o) } }
        impl<'a> $ta<&'a Sym> for Sym { fn $fa(&mut self, o: &'a Sym) { *self = self.$m(*o) } }
        impl $ta<f64> for Sym { fn $fa(&mut self, o: f64) { *self = self.$m(lit(o)) } }
    )*}
}
ops! {
    Add add AddAssign add_assign add_;
    Sub sub SubAssign sub_assign sub_;
    Mul mul MulAssign mul_assign mul_;
    Div div DivAssign div_assign div_;
    Rem rem RemAssign rem_assign rem_;
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        self.neg_()
    }
}
impl<'a> Neg for &'a Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        self.neg_()
    }
}
impl Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(lit(0.0), |a, b| a.add_(b))
    }
}
impl<'a> Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(lit(0.0), |a, b| a.add_(*b))
    }
}
impl Product for Sym {
    fn product<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(lit(1.0), |a, b| a.mul_(b))
    }
}
impl<'a> Product<&'a Sym> for Sym {
    fn product<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(lit(1.0), |a, b| a.mul_(*b))
    }
}
macro_rules! from { ($($t:ty),*) => {$(impl From<$t> for Sym { fn from(x: $t) -> Sym { lit(x as f64) } })*} }
from!(f64, f32, i32, u32, i16, u16, i8, u8);

#[derive(Debug, Clone, PartialEq)]
pub struct ParseSymError;
impl fmt::Display for ParseSymError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("invalid float literal")
    }
}
impl std::error::Error for ParseSymError {}
impl std::str::FromStr for Sym {
    type Err = ParseSymError;
    fn from_str(s: &str) -> Result<Sym, ParseSymError> {
        if let Some(n) = s.strip_prefix('$') {
            let k: u32 = n.parse().map_err(|_| ParseSymError)?;
            if (k as usize) < with(|c| c.nodes.len()) {
                return Ok(Sym::from_node(k));
            }
            return Err(ParseSymError);
        }
        s.parse::<f64>().map(lit).map_err(|_| ParseSymError)
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        lit(0.0)
    }
    fn is_zero(&self) -> bool {
        self.eq_(lit(0.0))
    }
}
impl One for Sym {
    fn one() -> Sym {
        lit(1.0)
    }
    fn is_one(&self) -> bool {
        self.eq_(lit(1.0))
    }
}
impl Num for Sym {
    type FromStrRadixErr = num_traits::ParseFloatError;
    fn from_str_radix(s: &str, r: u32) -> Result<Sym, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(lit)
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        self.to_f64().and_then(|x| x.to_i64())
    }
    fn to_u64(&self) -> Option<u64> {
        self.to_f64().and_then(|x| x.to_u64())
    }
    fn to_f64(&self) -> Option<f64> {
        match self.lit_val() {
            Some(x) => Some(x),
            None => match self.rat() {
                Some(r) => Some(r.to_f64()),
                None => panic!("symnum: a symbolic value is converted to a primitive"),
            },
        }
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(lit(n as f64))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        Some(lit(n as f64))
    }
    fn from_f64(n: f64) -> Option<Sym> {
        Some(lit(n))
    }
    fn from_f32(n: f32) -> Option<Sym> {
        Some(lit(n as f64))
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> {
        n.to_f64().map(lit)
    }
}
impl Inv for Sym {
    type Output = Sym;
    fn inv(self) -> Sym {
        self.recip()
    }
}
impl Signed for Sym {
    fn abs(&self) -> Sym {
        Sym::abs(*self)
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        Sym::abs_sub(*self, *o)
    }
    fn signum(&self) -> Sym {
        Sym::signum(*self)
    }
    fn is_positive(&self) -> bool {
        lit(0.0).lt_(*self)
    }
    fn is_negative(&self) -> bool {
        self.lt_(lit(0.0))
    }
}
macro_rules! fc { ($($n:ident),*) => { impl num_traits::FloatConst for Sym { $(fn $n() -> Sym { consts::$n })* } } }
fc!(
    E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8,
    LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2
);
macro_rules! fwd { ($($n:ident),*) => { $(fn $n(self) -> Sym { Sym::$n(self) })* } }
macro_rules! fwdb { ($($n:ident),*) => { $(fn $n(self) -> bool { Sym::$n(self) })* } }
impl num_traits::Float for Sym {
    fn nan() -> Sym {
        Sym::NAN
    }
    fn infinity() -> Sym {
        Sym::INFINITY
    }
    fn neg_infinity() -> Sym {
        Sym::NEG_INFINITY
    }
    fn neg_zero() -> Sym {
        lit(-0.0)
    }
    fn min_value() -> Sym {
        Sym::MIN
    }
    fn min_positive_value() -> Sym {
        Sym::MIN_POSITIVE
    }
    fn max_value() -> Sym {
        Sym::MAX
    }
    fn epsilon() -> Sym {
        Sym::EPSILON
    }
    fn classify(self) -> std::num::FpCategory {
        std::num::FpCategory::Normal
    }
    fn powi(self, n: i32) -> Sym {
        Sym::powi(self, n)
    }
    fn powf(self, n: Sym) -> Sym {
        Sym::powf(self, n)
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        Sym::mul_add(self, a, b)
    }
    fn log(self, b: Sym) -> Sym {
        Sym::log(self, b)
    }
    fn max(self, o: Sym) -> Sym {
        Sym::max(self, o)
    }
    fn min(self, o: Sym) -> Sym {
        Sym::min(self, o)
    }
    fn abs_sub(self, o: Sym) -> Sym {
        Sym::abs_sub(self, o)
    }
    fn hypot(self, o: Sym) -> Sym {
        Sym::hypot(self, o)
    }
    fn atan2(self, o: Sym) -> Sym {
        Sym::atan2(self, o)
    }
    fn sin_cos(self) -> (Sym, Sym) {
        Sym::sin_cos(self)
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        panic!("symnum: integer_decode")
    }
    fwd!(
        floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin,
        acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh
    );
    fwdb!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
}
impl approx::AbsDiffEq for Sym {
    type Epsilon = Sym;
    fn default_epsilon() -> Sym {
        Sym::EPSILON
    }
    fn abs_diff_eq(&self, o: &Sym, e: Sym) -> bool {
        Sym::abs(*self - *o).le_(e)
    }
}
impl approx::RelativeEq for Sym {
    fn default_max_relative() -> Sym {
        Sym::EPSILON
    }
    fn relative_eq(&self, o: &Sym, e: Sym, mr: Sym) -> bool {
        if self.eq_(*o) {
            return true;
        }
        let d = Sym::abs(*self - *o);
        if d.le_(e) {
            return true;
        }
        d.le_(Sym::max(Sym::abs(*self), Sym::abs(*o)) * mr)
    }
}
impl approx::UlpsEq for Sym {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Sym, e: Sym, _u: u32) -> bool {
        approx::AbsDiffEq::abs_diff_eq(self, o, e)
    }
}
impl simba::simd::SimdValue for Sym {
    const LANES: usize = 1;
    type Element = Sym;
    type SimdBool = bool;
    fn splat(v: Sym) -> Sym {
        v
    }
    fn extract(&self, _: usize) -> Sym {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Sym {
        *self
    }
    fn replace(&mut self, _: usize, v: Sym) {
        *self = v
    }
    unsafe fn replace_unchecked(&mut self, _: usize, v: Sym) {
        *self = v
    }
    fn select(self, c: bool, o: Sym) -> Sym {
        if c {
            self
        } else {
            o
        }
    }
}
impl simba::simd::PrimitiveSimdValue for Sym {}
impl simba::scalar::Field for Sym {}
impl simba::scalar::SubsetOf<Sym> for Sym {
    fn to_superset(&self) -> Sym {
        *self
    }
    fn from_superset_unchecked(e: &Sym) -> Sym {
        *e
    }
    fn is_in_subset(_: &Sym) -> bool {
        true
    }
}
macro_rules! subset { ($($t:ty),*) => {$(
impl simba::scalar::SubsetOf<Sym> for $t {
    fn to_superset(&self) -> Sym { lit(*self as f64) }
    fn from_superset_unchecked(e: &Sym) -> $t { ToPrimitive::to_f64(e).unwrap() as $t }
    fn is_in_subset(_: &Sym) -> bool { true }
})*} }
subset!(f64, f32, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl simba::scalar::SubsetOf<f64> for Sym {
    fn to_superset(&self) -> f64 {
        ToPrimitive::to_f64(self).unwrap()
    }
    fn from_superset_unchecked(e: &f64) -> Sym {
        lit(*e)
    }
    fn is_in_subset(_: &f64) -> bool {
        true
    }
}
impl simba::scalar::ComplexField for Sym {
    type RealField = Sym;
    fn from_real(re: Sym) -> Sym {
        re
    }
    fn real(self) -> Sym {
        self
    }
    fn imaginary(self) -> Sym {
        lit(0.0)
    }
    fn norm1(self) -> Sym {
        Sym::abs(self)
    }
    fn modulus(self) -> Sym {
        Sym::abs(self)
    }
    fn modulus_squared(self) -> Sym {
        self * self
    }
    fn argument(self) -> Sym {
        if lit(0.0).le_(self) {
            lit(0.0)
        } else {
            consts::PI
        }
    }
    fn to_exp(self) -> (Sym, Sym) {
        if lit(0.0).le_(self) {
            (self, lit(1.0))
        } else {
            (-self, lit(-1.0))
        }
    }
    fn conjugate(self) -> Sym {
        self
    }
    fn scale(self, f: Sym) -> Sym {
        self * f
    }
    fn unscale(self, f: Sym) -> Sym {
        self / f
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        Sym::mul_add(self, a, b)
    }
    fn powi(self, n: i32) -> Sym {
        Sym::powi(self, n)
    }
    fn powf(self, n: Sym) -> Sym {
        Sym::powf(self, n)
    }
    fn powc(self, n: Sym) -> Sym {
        Sym::powf(self, n)
    }
    fn try_sqrt(self) -> Option<Sym> {
        if lit(0.0).le_(self) {
            Some(Sym::sqrt(self))
        } else {
            None
        }
    }
    fn log(self, b: Sym) -> Sym {
        Sym::log(self, b)
    }
    fn hypot(self, o: Sym) -> Sym {
        Sym::hypot(self, o)
    }
    fn sin_cos(self) -> (Sym, Sym) {
        Sym::sin_cos(self)
    }
    fn is_finite(&self) -> bool {
        Sym::is_finite(*self)
    }
    fwd!(
        floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin,
        acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh
    );
}
impl simba::scalar::RealField for Sym {
    fn is_sign_positive(&self) -> bool {
        Sym::is_sign_positive(*self)
    }
    fn is_sign_negative(&self) -> bool {
        Sym::is_sign_negative(*self)
    }
    fn copysign(self, s: Sym) -> Sym {
        Sym::copysign(self, s)
    }
    fn max(self, o: Sym) -> Sym {
        Sym::max(self, o)
    }
    fn min(self, o: Sym) -> Sym {
        Sym::min(self, o)
    }
    fn clamp(self, a: Sym, b: Sym) -> Sym {
        Sym::clamp(self, a, b)
    }
    fn atan2(self, o: Sym) -> Sym {
        Sym::atan2(self, o)
    }
    fn min_value() -> Option<Sym> {
        Some(Sym::MIN)
    }
    fn max_value() -> Option<Sym> {
        Some(Sym::MAX)
    }
    fn pi() -> Sym {
        consts::PI
    }
    fn two_pi() -> Sym {
        consts::TAU
    }
    fn frac_pi_2() -> Sym {
        consts::FRAC_PI_2
    }
    fn frac_pi_3() -> Sym {
        consts::FRAC_PI_3
    }
    fn frac_pi_4() -> Sym {
        consts::FRAC_PI_4
    }
    fn frac_pi_6() -> Sym {
        consts::FRAC_PI_6
    }
    fn frac_pi_8() -> Sym {
        consts::FRAC_PI_8
    }
    fn frac_1_pi() -> Sym {
        consts::FRAC_1_PI
    }
    fn frac_2_pi() -> Sym {
        consts::FRAC_2_PI
    }
    fn frac_2_sqrt_pi() -> Sym {
        consts::FRAC_2_SQRT_PI
    }
    fn e() -> Sym {
        consts::E
    }
    fn log2_e() -> Sym {
        consts::LOG2_E
    }
    fn log10_e() -> Sym {
        consts::LOG10_E
    }
    fn ln_2() -> Sym {
        consts::LN_2
    }
    fn ln_10() -> Sym {
        consts::LN_10
    }
}
macro_rules! fwdr { ($($n:ident),*) => { $(fn $n(&self) -> Sym { Sym::$n(*self) })* } }
impl num_dual::DualNum<Sym> for Sym {
    const NDERIV: usize = 0;
    fn re(&self) -> Sym {
        *self
    }
    fn powi(&self, n: i32) -> Sym {
        Sym::powi(*self, n)
    }
    fn powf(&self, n: Sym) -> Sym {
        Sym::powf(*self, n)
    }
    fn powd(&self, n: Sym) -> Sym {
        Sym::powf(*self, n)
    }
    fn log(&self, b: Sym) -> Sym {
        Sym::log(*self, b)
    }
    fn sin_cos(&self) -> (Sym, Sym) {
        Sym::sin_cos(*self)
    }
    fn mul_add(&self, a: Sym, b: Sym) -> Sym {
        Sym::mul_add(*self, a, b)
    }
    fwdr!(
        recip, sqrt, cbrt, exp, exp2, exp_m1, ln, log2, log10, ln_1p, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh,
        asinh, acosh, atanh
    );
    fn sph_j0(&self) -> Sym {
        panic!("symnum: bessel")
    }
    fn sph_j1(&self) -> Sym {
        panic!("symnum: bessel")
    }
    fn sph_j2(&self) -> Sym {
        panic!("symnum: bessel")
    }
}
// left multiplication of a matrix by a scalar, as nalgebra provides for f64
impl<R: nalgebra::Dim, C: nalgebra::Dim, S> std::ops::Mul<nalgebra::Matrix<Sym, R, C, S>> for Sym
where
    S: nalgebra::storage::Storage<Sym, R, C>,
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<R, C>,
{
    type Output = nalgebra::OMatrix<Sym, R, C>;
    fn mul(self, rhs: nalgebra::Matrix<Sym, R, C, S>) -> Self::Output {
        let mut r = rhs.into_owned();
        for x in r.iter_mut() {
            *x = self * *x;
        }
        r
    }
}
impl<'b, R: nalgebra::Dim, C: nalgebra::Dim, S> std::ops::Mul<&'b nalgebra::Matrix<Sym, R, C, S>> for Sym
where
    S: nalgebra::storage::Storage<Sym, R, C>,
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<R, C>,
{
    type Output = nalgebra::OMatrix<Sym, R, C>;
    fn mul(self, rhs: &'b nalgebra::Matrix<Sym, R, C, S>) -> Self::Output {
        let mut r = rhs.clone_owned();
        for x in r.iter_mut() {
            *x = self * *x;
        }
        r
    }
}
