//! Exact rationals with a small fast path.
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Rat {
    S(i64, i64),
    B(Box<BigRational>),
}
use Rat::*;

fn small(n: i128, d: i128) -> Option<Rat> {
    debug_assert!(d != 0);
    let g = n.gcd(&d);
    let (mut n, mut d) = if g == 0 { (0, 1) } else { (n / g, d / g) };
    if d < 0 {
        n = -n;
        d = -d;
    }
    if n >= i64::MIN as i128 + 1 && n <= i64::MAX as i128 && d <= i64::MAX as i128 {
        Some(S(n as i64, d as i64))
    } else {
        None
    }
}
impl Rat {
    pub fn int(i: i64) -> Rat {
        S(i, 1)
    }
    pub fn new(n: i64, d: i64) -> Rat {
        small(n as i128, d as i128).unwrap()
    }
    pub fn zero() -> Rat {
        S(0, 1)
    }
    pub fn one() -> Rat {
        S(1, 1)
    }
    pub fn big(&self) -> BigRational {
        match self {
            S(n, d) => BigRational::new_raw(BigInt::from(*n), BigInt::from(*d)),
            B(b) => (**b).clone(),
        }
    }
    pub fn from_big(b: BigRational) -> Rat {
        match (b.numer().to_i64(), b.denom().to_i64()) {
            (Some(n), Some(d)) if n != i64::MIN => S(n, d),
            _ => B(Box::new(b)),
        }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, S(0, _))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, S(1, 1))
    }
    pub fn is_int(&self) -> bool {
        match self {
            S(_, d) => *d == 1,
            B(b) => b.is_integer(),
        }
    }
    pub fn sign(&self) -> i32 {
        match self {
            S(n, _) => n.signum() as i32,
            B(b) => {
                if b.is_positive() {
                    1
                } else if b.is_negative() {
                    -1
                } else {
                    0
                }
            }
        }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        if let (S(a, b), S(c, d)) = (self, o) {
            if *b == 1 && *d == 1 {
                if let Some(s) = a.checked_add(*c) {
                    if s != i64::MIN {
                        return S(s, 1);
                    }
                }
            }
            let (a, b, c, d) = (*a as i128, *b as i128, *c as i128, *d as i128);
            if let (Some(x), Some(y)) = (a.checked_mul(d), c.checked_mul(b)) {
                if let Some(n) = x.checked_add(y) {
                    if let Some(r) = small(n, b * d) {
                        return r;
                    }
                }
            }
        }
        Rat::from_big(self.big() + o.big())
    }
    pub fn neg(&self) -> Rat {
        match self {
            S(n, d) => S(-n, *d),
            B(b) => Rat::from_big(-(**b).clone()),
        }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        if let (S(a, b), S(c, d)) = (self, o) {
            if let Some(r) = small(*a as i128 * *c as i128, *b as i128 * *d as i128) {
                return r;
            }
        }
        Rat::from_big(self.big() * o.big())
    }
    pub fn inv(&self) -> Rat {
        match self {
            S(n, d) => small(*d as i128, *n as i128).unwrap(),
            B(b) => Rat::from_big(b.recip()),
        }
    }
    pub fn div(&self, o: &Rat) -> Rat {
        self.mul(&o.inv())
    }
    pub fn abs(&self) -> Rat {
        if self.sign() < 0 {
            self.neg()
        } else {
            self.clone()
        }
    }
    pub fn pow(&self, n: u32) -> Rat {
        let mut r = Rat::one();
        for _ in 0..n {
            r = r.mul(self);
        }
        r
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            S(n, d) => *n as f64 / *d as f64,
            B(b) => b.to_f64().unwrap_or(f64::NAN),
        }
    }
    pub fn numer(&self) -> BigInt {
        self.big().numer().clone()
    }
    pub fn denom(&self) -> BigInt {
        self.big().denom().clone()
    }
    pub fn floor(&self) -> Rat {
        Rat::from_big(self.big().floor())
    }
    pub fn to_i64(&self) -> Option<i64> {
        match self {
            S(n, 1) => Some(*n),
            _ => None,
        }
    }
    /// sqrt if a perfect square
    pub fn sqrt(&self) -> Option<Rat> {
        if self.sign() < 0 {
            return None;
        }
        let b = self.big();
        let (n, d) = (b.numer().sqrt(), b.denom().sqrt());
        if &(&n * &n) == b.numer() && &(&d * &d) == b.denom() {
            Some(Rat::from_big(BigRational::new(n, d)))
        } else {
            None
        }
    }
    pub fn smt(&self) -> String {
        let b = self.big();
        let n = b.numer().abs();
        let s = if b.denom().is_one() {
            format!("{}.0", n)
        } else {
            format!("(/ {}.0 {}.0)", n, b.denom())
        };
        if b.is_negative() {
            format!("(- {})", s)
        } else {
            s
        }
    }
    /// The simplest rational that rounds to this f64 (continued fractions in the rounding interval).
    pub fn from_f64(x: f64) -> Rat {
        assert!(x.is_finite());
        if x == 0.0 {
            return Rat::zero();
        }
        if x == x.trunc() && x.abs() < 9e15 {
            return S(x as i64, 1);
        }
        let neg = x < 0.0;
        let a = x.abs();
        let lo = f64::from_bits(a.to_bits() - 1);
        let hi = f64::from_bits(a.to_bits() + 1);
        let e = BigRational::from_float(a).unwrap();
        if !hi.is_finite() {
            return Rat::from_big(if neg { -e } else { e });
        }
        let two = BigRational::from_integer(BigInt::from(2));
        let l = (&e + BigRational::from_float(lo).unwrap()) / &two;
        let h = (&e + BigRational::from_float(hi).unwrap()) / &two;
        let r = simplest(&l, &h);
        Rat::from_big(if neg { -r } else { r })
    }
}
fn simplest(l: &BigRational, h: &BigRational) -> BigRational {
    // simplest rational strictly inside (l,h), l >= 0
    let fl = l.floor();
    if &fl + BigRational::one() < *h {
        return &fl + BigRational::one();
    }
    let l2 = l - &fl;
    let h2 = h - &fl;
    // 0 <= l2 < h2 <= 1
    if l2.is_zero() {
        // 1/n with 1/n < h2
        let n = (h2.recip().floor()) + BigRational::one();
        return fl + n.recip();
    }
    let r = simplest(&h2.recip(), &l2.recip());
    fl + r.recip()
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rat {
    fn cmp(&self, o: &Rat) -> Ordering {
        if let (S(a, b), S(c, d)) = (self, o) {
            return (*a as i128 * *d as i128).cmp(&(*c as i128 * *b as i128));
        }
        self.big().cmp(&o.big())
    }
}
