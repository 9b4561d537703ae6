//! `Sym`: a NaN-boxed handle. Finite/infinite/NaN f64 bit patterns are literals, the
//! reserved quiet-NaN range 0x7FFC.... carries a node index of the thread's term arena.
use crate::ctx::{with, Node, Rel};
use crate::rat::Rat;

#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Sym(pub u64);
unsafe impl bytemuck::Zeroable for Sym {}
unsafe impl bytemuck::Pod for Sym {}

const TAG: u64 = 0x7FFC_0000_0000_0000;
const TAGMASK: u64 = 0xFFFC_0000_0000_0000;
/// reserved handles for mathematical constants (resolved lazily)
const RES: u64 = TAG | 0x0001_0000_0000_0000;

pub const fn lit(x: f64) -> Sym {
    Sym(x.to_bits())
}
pub mod consts {
    use super::*;
    pub const PI: Sym = Sym(RES | 1);
    pub const TAU: Sym = Sym(RES | 2);
    pub const FRAC_PI_2: Sym = Sym(RES | 3);
    pub const FRAC_PI_3: Sym = Sym(RES | 4);
    pub const FRAC_PI_4: Sym = Sym(RES | 5);
    pub const FRAC_PI_6: Sym = Sym(RES | 6);
    pub const FRAC_PI_8: Sym = Sym(RES | 7);
    pub const FRAC_1_PI: Sym = Sym(RES | 8);
    pub const FRAC_2_PI: Sym = Sym(RES | 9);
    pub const FRAC_2_SQRT_PI: Sym = Sym(RES | 10);
    pub const SQRT_2: Sym = Sym(RES | 11);
    pub const FRAC_1_SQRT_2: Sym = Sym(RES | 12);
    pub const E: Sym = Sym(RES | 13);
    pub const LN_2: Sym = Sym(RES | 14);
    pub const LN_10: Sym = Sym(RES | 15);
    pub const LOG2_E: Sym = Sym(RES | 16);
    pub const LOG10_E: Sym = Sym(RES | 17);
    pub const LOG2_10: Sym = Sym(RES | 18);
    pub const LOG10_2: Sym = Sym(RES | 19);
}

impl Sym {
    pub const ZERO: Sym = lit(0.0);
    pub const ONE: Sym = lit(1.0);
    pub const EPSILON: Sym = lit(f64::EPSILON);
    pub const MIN_POSITIVE: Sym = lit(f64::MIN_POSITIVE);
    pub const MAX: Sym = lit(f64::MAX);
    pub const MIN: Sym = lit(f64::MIN);
    pub const INFINITY: Sym = lit(f64::INFINITY);
    pub const NEG_INFINITY: Sym = lit(f64::NEG_INFINITY);
    pub const NAN: Sym = lit(f64::NAN);
    pub const DIGITS: u32 = 15;
    pub const MANTISSA_DIGITS: u32 = 53;
    pub const RADIX: u32 = 2;

    pub fn from_node(id: u32) -> Sym {
        Sym(TAG | id as u64)
    }
    pub fn is_node(self) -> bool {
        self.0 & TAGMASK == TAG
    }
    /// literal value, if this is a literal
    pub fn lit_val(self) -> Option<f64> {
        if self.is_node() {
            None
        } else {
            Some(f64::from_bits(self.0))
        }
    }
    /// non-finite literal?
    pub fn special(self) -> Option<f64> {
        self.lit_val().filter(|x| !x.is_finite())
    }
    pub fn node(self) -> u32 {
        match self.lit_val() {
            Some(x) => {
                assert!(x.is_finite(), "non-finite literal used as a term");
                with(|c| c.intern(Node::Const(Rat::from_f64(x))))
            }
            None => {
                if self.0 & RES == RES {
                    let k = self.0 & 0xffff;
                    return resolve(k).node();
                }
                (self.0 & 0xffff_ffff) as u32
            }
        }
    }
    /// rational value if the term is a literal constant
    pub fn rat(self) -> Option<Rat> {
        if let Some(x) = self.lit_val() {
            return if x.is_finite() { Some(Rat::from_f64(x)) } else { None };
        }
        let n = self.node();
        with(|c| match c.node(n) {
            Node::Const(r) => Some(r.clone()),
            _ => None,
        })
    }
    pub fn from_rat(r: Rat) -> Sym {
        Sym::from_node(with(|c| c.intern(Node::Const(r))))
    }
    pub fn int(i: i64) -> Sym {
        Sym::from_rat(Rat::int(i))
    }
    fn bin(op: fn(u32, u32) -> Node, a: Sym, b: Sym) -> Sym {
        let (x, y) = (a.node(), b.node());
        Sym::from_node(with(|c| c.intern(op(x, y))))
    }
    fn un(op: fn(u32) -> Node, a: Sym) -> Sym {
        let x = a.node();
        Sym::from_node(with(|c| c.intern(op(x))))
    }
    fn total(self) -> bool {
        let n = self.node();
        with(|c| c.total(n))
    }
    pub fn add_(self, o: Sym) -> Sym {
        if let Some(r) = special2(self, o, |a, b| a + b, |inf, _left| Some(inf)) {
            return r;
        }
        match (self.rat(), o.rat()) {
            (Some(a), Some(b)) => Sym::from_rat(a.add(&b)),
            (Some(a), _) if a.is_zero() => o,
            (_, Some(b)) if b.is_zero() => self,
            _ => Sym::bin(Node::Add, self, o),
        }
    }
    pub fn neg_(self) -> Sym {
        if let Some(x) = self.lit_val() {
            return lit(-x);
        }
        match self.rat() {
            Some(a) => Sym::from_rat(a.neg()),
            None => Sym::un(Node::Neg, self),
        }
    }
    pub fn sub_(self, o: Sym) -> Sym {
        if let Some(r) = special2(self, o, |a, b| a - b, |inf, left| Some(if left { inf } else { -inf })) {
            return r;
        }
        match (self.rat(), o.rat()) {
            (Some(a), Some(b)) => Sym::from_rat(a.sub(&b)),
            (Some(a), _) if a.is_zero() => o.neg_(),
            (_, Some(b)) if b.is_zero() => self,
            _ => Sym::bin(Node::Sub, self, o),
        }
    }
    pub fn mul_(self, o: Sym) -> Sym {
        if let Some(r) = special2(self, o, |a, b| a * b, |_, _| None) {
            return r;
        }
        match (self.rat(), o.rat()) {
            (Some(a), Some(b)) => Sym::from_rat(a.mul(&b)),
            (Some(a), _) if a.is_one() => o,
            (_, Some(b)) if b.is_one() => self,
            (Some(a), _) if a.is_zero() && o.total() => lit(0.0),
            (_, Some(b)) if b.is_zero() && self.total() => lit(0.0),
            _ => Sym::bin(Node::Mul, self, o),
        }
    }
    pub fn div_(self, o: Sym) -> Sym {
        if let Some(r) = special2(self, o, |a, b| a / b, |_, left| if left { None } else { Some(0.0) }) {
            return r;
        }
        match (self.rat(), o.rat()) {
            (Some(a), Some(b)) => {
                if b.is_zero() {
                    // IEEE result of a literal division by zero
                    return lit(match a.sign() {
                        1 => f64::INFINITY,
                        -1 => f64::NEG_INFINITY,
                        _ => f64::NAN,
                    });
                }
                Sym::from_rat(a.div(&b))
            }
            (_, Some(b)) if b.is_one() => self,
            (_, Some(b)) if !b.is_zero() => self.mul_(Sym::from_rat(b.inv())),
            _ => Sym::bin(Node::Div, self, o),
        }
    }
    pub fn sqrt(self) -> Sym {
        if let Some(x) = self.special() {
            return lit(x.sqrt());
        }
        if let Some(r) = self.rat() {
            if r.sign() < 0 {
                return Sym::NAN;
            }
            if let Some(s) = r.sqrt() {
                return Sym::from_rat(s);
            }
        }
        Sym::un(Node::Sqrt, self)
    }
    pub fn sin(self) -> Sym {
        if self.special().is_some() {
            return Sym::NAN;
        }
        if matches!(self.rat(), Some(r) if r.is_zero()) {
            return lit(0.0);
        }
        Sym::un(Node::Sin, self)
    }
    pub fn cos(self) -> Sym {
        if self.special().is_some() {
            return Sym::NAN;
        }
        if matches!(self.rat(), Some(r) if r.is_zero()) {
            return lit(1.0);
        }
        Sym::un(Node::Cos, self)
    }
    pub fn tan(self) -> Sym {
        self.sin().div_(self.cos())
    }
    pub fn sin_cos(self) -> (Sym, Sym) {
        (self.sin(), self.cos())
    }
    pub fn atan2(self, x: Sym) -> Sym {
        if self.special().is_some() || x.special().is_some() {
            panic!("symnum: atan2 of a non-finite value");
        }
        Sym::bin(Node::Atan2, self, x)
    }
    pub fn atan(self) -> Sym {
        self.atan2(lit(1.0))
    }
    pub fn acos(self) -> Sym {
        lit(1.0).sub_(self.mul_(self)).sqrt().atan2(self)
    }
    pub fn asin(self) -> Sym {
        self.atan2(lit(1.0).sub_(self.mul_(self)).sqrt())
    }
    pub fn ln(self) -> Sym {
        if let Some(x) = self.special() {
            return lit(x.ln());
        }
        if let Some(r) = self.rat() {
            if r.is_one() {
                return lit(0.0);
            }
            if r.sign() < 0 {
                return Sym::NAN;
            }
            if r.sign() == 0 {
                return Sym::NEG_INFINITY;
            }
        }
        Sym::un(Node::Ln, self)
    }
    pub fn exp(self) -> Sym {
        if let Some(x) = self.special() {
            return lit(x.exp());
        }
        if matches!(self.rat(), Some(r) if r.is_zero()) {
            return lit(1.0);
        }
        Sym::un(Node::Exp, self)
    }
    pub fn ln_1p(self) -> Sym {
        self.add_(lit(1.0)).ln()
    }
    pub fn exp_m1(self) -> Sym {
        self.exp().sub_(lit(1.0))
    }
    pub fn exp2(self) -> Sym {
        self.mul_(consts::LN_2).exp()
    }
    pub fn log(self, base: Sym) -> Sym {
        self.ln().div_(base.ln())
    }
    pub fn log2(self) -> Sym {
        self.ln().div_(consts::LN_2)
    }
    pub fn log10(self) -> Sym {
        self.ln().div_(consts::LN_10)
    }
    pub fn sinh(self) -> Sym {
        self.exp().sub_(self.neg_().exp()).mul_(lit(0.5))
    }
    pub fn cosh(self) -> Sym {
        self.exp().add_(self.neg_().exp()).mul_(lit(0.5))
    }
    pub fn tanh(self) -> Sym {
        self.sinh().div_(self.cosh())
    }
    pub fn asinh(self) -> Sym {
        self.add_(self.mul_(self).add_(lit(1.0)).sqrt()).ln()
    }
    pub fn acosh(self) -> Sym {
        self.add_(self.mul_(self).sub_(lit(1.0)).sqrt()).ln()
    }
    pub fn atanh(self) -> Sym {
        lit(1.0).add_(self).div_(lit(1.0).sub_(self)).ln().mul_(lit(0.5))
    }
    pub fn cbrt(self) -> Sym {
        self.powf(lit(1.0).div_(lit(3.0)))
    }
    pub fn recip(self) -> Sym {
        lit(1.0).div_(self)
    }
    pub fn powi(self, n: i32) -> Sym {
        if n < 0 {
            return self.powi(-n).recip();
        }
        let mut r = lit(1.0);
        let mut b = self;
        let mut k = n;
        while k > 0 {
            if k & 1 == 1 {
                r = r.mul_(b);
            }
            k >>= 1;
            if k > 0 {
                b = b.mul_(b);
            }
        }
        r
    }
    pub fn powf(self, n: Sym) -> Sym {
        if let Some(r) = n.rat() {
            if let Some(i) = r.to_i64() {
                return self.powi(i as i32);
            }
            let two = r.mul(&Rat::int(2));
            if let Some(i) = two.to_i64() {
                return self.sqrt().powi(i as i32);
            }
        }
        n.mul_(self.ln()).exp()
    }
    pub fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self.mul_(a).add_(b)
    }
    pub fn hypot(self, o: Sym) -> Sym {
        self.mul_(self).add_(o.mul_(o)).sqrt()
    }
    pub fn abs(self) -> Sym {
        if let Some(x) = self.lit_val() {
            return lit(x.abs());
        }
        if self.lt_(lit(0.0)) {
            self.neg_()
        } else {
            self
        }
    }
    pub fn abs_sub(self, o: Sym) -> Sym {
        self.sub_(o).max(lit(0.0))
    }
    pub fn signum(self) -> Sym {
        if let Some(x) = self.lit_val() {
            return lit(x.signum());
        }
        // f64::signum(0.0) == 1.0
        if self.lt_(lit(0.0)) {
            lit(-1.0)
        } else {
            lit(1.0)
        }
    }
    pub fn copysign(self, s: Sym) -> Sym {
        self.abs().mul_(s.signum())
    }
    pub fn is_sign_negative(self) -> bool {
        self.lt_(lit(0.0))
    }
    pub fn is_sign_positive(self) -> bool {
        !self.lt_(lit(0.0))
    }
    pub fn max(self, o: Sym) -> Sym {
        if self.special().map(|x| x.is_nan()).unwrap_or(false) {
            return o;
        }
        if o.special().map(|x| x.is_nan()).unwrap_or(false) {
            return self;
        }
        if self.lt_(o) {
            o
        } else {
            self
        }
    }
    pub fn min(self, o: Sym) -> Sym {
        if self.special().map(|x| x.is_nan()).unwrap_or(false) {
            return o;
        }
        if o.special().map(|x| x.is_nan()).unwrap_or(false) {
            return self;
        }
        if o.lt_(self) {
            o
        } else {
            self
        }
    }
    pub fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        if self.lt_(lo) {
            lo
        } else if hi.lt_(self) {
            hi
        } else {
            self
        }
    }
    pub fn to_degrees(self) -> Sym {
        self.mul_(lit(180.0)).div_(consts::PI)
    }
    pub fn to_radians(self) -> Sym {
        self.mul_(consts::PI).div_(lit(180.0))
    }
    pub fn is_nan(self) -> bool {
        self.special().map(|x| x.is_nan()).unwrap_or(false)
    }
    pub fn is_infinite(self) -> bool {
        self.special().map(|x| x.is_infinite()).unwrap_or(false)
    }
    pub fn is_finite(self) -> bool {
        self.special().is_none()
    }
    pub fn is_normal(self) -> bool {
        self.is_finite() && !self.eq_(lit(0.0))
    }
    fn rounded(self, f: fn(f64) -> f64, name: &str) -> Sym {
        match self.rat() {
            Some(r) => lit(f(r.to_f64())),
            None => panic!("symnum: {} of a symbolic value is not supported", name),
        }
    }
    pub fn floor(self) -> Sym {
        self.rounded(f64::floor, "floor")
    }
    pub fn ceil(self) -> Sym {
        self.rounded(f64::ceil, "ceil")
    }
    pub fn round(self) -> Sym {
        self.rounded(f64::round, "round")
    }
    pub fn trunc(self) -> Sym {
        self.rounded(f64::trunc, "trunc")
    }
    pub fn fract(self) -> Sym {
        self.sub_(self.trunc())
    }
    pub fn rem_(self, o: Sym) -> Sym {
        match (self.rat(), o.rat()) {
            (Some(a), Some(b)) => lit(a.to_f64() % b.to_f64()),
            _ => panic!("symnum: % of a symbolic value is not supported"),
        }
    }
    pub fn rem_euclid(self, o: Sym) -> Sym {
        match (self.rat(), o.rat()) {
            (Some(a), Some(b)) => lit(a.to_f64().rem_euclid(b.to_f64())),
            _ => panic!("symnum: rem_euclid of a symbolic value is not supported"),
        }
    }
    pub fn to_bits(self) -> u64 {
        self.0
    }
    pub fn from_bits(b: u64) -> Sym {
        Sym(b)
    }
    pub fn total_cmp(&self, o: &Sym) -> std::cmp::Ordering {
        if self.lt_(*o) {
            std::cmp::Ordering::Less
        } else if self.eq_(*o) {
            std::cmp::Ordering::Equal
        } else {
            std::cmp::Ordering::Greater
        }
    }
    // ---- comparisons (may fork the path) ----
    fn cmp_special(self, o: Sym, f: fn(f64, f64) -> bool) -> Option<bool> {
        let (a, b) = (self.special(), o.special());
        if a.is_none() && b.is_none() {
            return None;
        }
        Some(f(a.unwrap_or(0.0), b.unwrap_or(0.0)))
    }
    pub fn lt_(self, o: Sym) -> bool {
        if let Some(r) = self.cmp_special(o, |a, b| a < b) {
            return r;
        }
        if let (Some(a), Some(b)) = (self.rat(), o.rat()) {
            return a < b;
        }
        crate::engine::decide(Rel::Lt, self.sub_(o))
    }
    pub fn le_(self, o: Sym) -> bool {
        if let Some(r) = self.cmp_special(o, |a, b| a <= b) {
            return r;
        }
        if let (Some(a), Some(b)) = (self.rat(), o.rat()) {
            return a <= b;
        }
        crate::engine::decide(Rel::Le, self.sub_(o))
    }
    pub fn eq_(self, o: Sym) -> bool {
        if let Some(r) = self.cmp_special(o, |a, b| a == b) {
            return r;
        }
        if self.0 == o.0 {
            return true;
        }
        if let (Some(a), Some(b)) = (self.rat(), o.rat()) {
            return a == b;
        }
        crate::engine::decide(Rel::Eq, self.sub_(o))
    }
}
fn special2(
    a: Sym,
    b: Sym,
    f: fn(f64, f64) -> f64,
    mixed: fn(f64, bool) -> Option<f64>,
) -> Option<Sym> {
    match (a.special(), b.special()) {
        (None, None) => None,
        (Some(x), Some(y)) => Some(lit(f(x, y))),
        (Some(x), None) => Some(if x.is_nan() {
            Sym::NAN
        } else if let Some(r) = b.rat() {
            lit(f(x, r.to_f64()))
        } else {
            mixed(x, true).map(lit).unwrap_or(Sym::NAN)
        }),
        (None, Some(y)) => Some(if y.is_nan() {
            Sym::NAN
        } else if let Some(r) = a.rat() {
            lit(f(r.to_f64(), y))
        } else {
            mixed(y, false).map(lit).unwrap_or(Sym::NAN)
        }),
    }
}
fn resolve(k: u64) -> Sym {
    let pi = Sym::from_node(with(|c| c.intern(Node::Pi)));
    let q = |n: i64, d: i64| pi.mul_(Sym::from_rat(Rat::new(n, d)));
    match k {
        1 => pi,
        2 => q(2, 1),
        3 => q(1, 2),
        4 => q(1, 3),
        5 => q(1, 4),
        6 => q(1, 6),
        7 => q(1, 8),
        8 => lit(1.0).div_(pi),
        9 => lit(2.0).div_(pi),
        10 => lit(2.0).div_(pi.sqrt()),
        11 => lit(2.0).sqrt(),
        12 => lit(1.0).div_(lit(2.0).sqrt()),
        13 => lit(1.0).exp(),
        14 => lit(2.0).ln(),
        15 => lit(10.0).ln(),
        16 => lit(1.0).div_(lit(2.0).ln()),
        17 => lit(1.0).div_(lit(10.0).ln()),
        18 => lit(10.0).ln().div_(lit(2.0).ln()),
        _ => lit(2.0).ln().div_(lit(10.0).ln()),
    }
}

/// partial derivative of a term with respect to an input variable (a term)
pub fn deriv(x: Sym, v: Sym) -> Sym {
    if x.special().is_some() {
        return x;
    }
    let mut memo = std::collections::HashMap::new();
    let vn = v.node();
    assert!(matches!(with(|c| c.node(vn).clone()), Node::Var(_)), "symnum: derivative with respect to a non-variable");
    d_(x.node(), vn, &mut memo)
}
fn d_(n: u32, v: u32, memo: &mut std::collections::HashMap<u32, Sym>) -> Sym {
    if let Some(r) = memo.get(&n) {
        return *r;
    }
    let s = Sym::from_node;
    let r = match with(|c| c.node(n).clone()) {
        Node::Const(_) | Node::Pi => lit(0.0),
        Node::Var(_) => lit(if n == v { 1.0 } else { 0.0 }),
        Node::Add(a, b) => d_(a, v, memo).add_(d_(b, v, memo)),
        Node::Sub(a, b) => d_(a, v, memo).sub_(d_(b, v, memo)),
        Node::Mul(a, b) => d_(a, v, memo).mul_(s(b)).add_(s(a).mul_(d_(b, v, memo))),
        Node::Div(a, b) => {
            let (da, db) = (d_(a, v, memo), d_(b, v, memo));
            da.div_(s(b)).sub_(s(a).mul_(db).div_(s(b).mul_(s(b))))
        }
        Node::Neg(a) => d_(a, v, memo).neg_(),
        Node::Sqrt(a) => d_(a, v, memo).div_(lit(2.0).mul_(s(n))),
        Node::Sin(a) => d_(a, v, memo).mul_(s(a).cos()),
        Node::Cos(a) => d_(a, v, memo).mul_(s(a).sin()).neg_(),
        Node::Atan2(a, b) => {
            let (da, db) = (d_(a, v, memo), d_(b, v, memo));
            let den = s(a).mul_(s(a)).add_(s(b).mul_(s(b)));
            da.mul_(s(b)).sub_(s(a).mul_(db)).div_(den)
        }
        Node::Ln(a) => d_(a, v, memo).div_(s(a)),
        Node::Exp(a) => d_(a, v, memo).mul_(s(n)),
    };
    memo.insert(n, r);
    r
}
