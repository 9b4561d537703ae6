//! C19: prior and between residuals are what they are documented to be, with exact Jacobians.
mod common;
mod obs;
mod stub;
use common::*;
use factrs::containers::{FactorBuilder, Key, Values};
use factrs::linalg::{Const, DiffResult};
use factrs::residuals::{BetweenResidual, PriorResidual, Residual};
use obs::*;
use stub::*;

/// an element given without its logarithm, and the one-parameter subgroup of a tangent coordinate
trait Line: Obs {
    fn line(k: usize, t: dtype) -> Self;
    /// the relative element the logarithm is taken of: arbitrary, or with one of a few rotations where the logarithm is costly
    fn rel(p: &str, _: usize) -> Self {
        Self::any(p)
    }
    /// the other elements of a between residual
    fn some(p: &str) -> Self {
        Self::any(p)
    }
}
fn few(n: usize) -> SO3 {
    let f = |x: f64, y: f64, z: f64, w: f64, n: f64| SO3::from_xyzw(q(x) / q(n), q(y) / q(n), q(z) / q(n), q(w) / q(n));
    match n % 4 {
        0 => f(1.0, 2.0, -2.0, 4.0, 5.0),
        1 => f(-2.0, 4.0, 5.0, -6.0, 9.0),
        2 => f(3.0, -1.0, 1.0, 5.0, 6.0),
        _ => f(2.0, 1.0, -4.0, 2.0, 5.0),
    }
}
fn shifted(p: &str, r: SO3) -> SE3 {
    let [x, y, z] = vars::<3>(&format!("{p}.t"));
    SE3::from_rot_trans(r, Vector3::new(x, y, z))
}
fn pick(p: &str) -> usize {
    if p == "z" { 3 } else { 1 }
}
impl Line for SO2 {
    fn line(_: usize, t: dtype) -> Self {
        SO2::from_theta(t)
    }
}
impl Line for SE2 {
    fn rel(p: &str, k: usize) -> Self {
        SE2::new(q([0.5, -2.0, 1.25][k]), var(&format!("{p}.x")), var(&format!("{p}.y")))
    }
    fn line(k: usize, t: dtype) -> Self {
        match k {
            0 => SE2::new(t, q(0.0), q(0.0)),
            1 => SE2::new(q(0.0), t, q(0.0)),
            _ => SE2::new(q(0.0), q(0.0), t),
        }
    }
}
fn about(k: usize, t: dtype) -> SO3 {
    let h = t / q(2.0);
    let mut v = [q(0.0); 3];
    v[k] = h.sin();
    SO3::from_xyzw(v[0], v[1], v[2], h.cos())
}
impl Line for SO3 {
    fn line(k: usize, t: dtype) -> Self {
        about(k, t)
    }
    fn rel(_: &str, k: usize) -> Self {
        few(k)
    }
    fn some(p: &str) -> Self {
        few(pick(p))
    }
}
impl Line for SE3 {
    fn rel(p: &str, k: usize) -> Self {
        shifted(p, few(k))
    }
    fn some(p: &str) -> Self {
        shifted(p, few(pick(p)))
    }
    fn line(k: usize, t: dtype) -> Self {
        if k < 3 {
            return SE3::from_rot_trans(about(k, t), Vector3::new(q(0.0), q(0.0), q(0.0)));
        }
        let mut v = [q(0.0); 3];
        v[k - 3] = t;
        SE3::from_rot_trans(SO3::identity(), Vector3::new(v[0], v[1], v[2]))
    }
}
impl<const N: usize> Line for VectorVar<N> {
    fn line(k: usize, t: dtype) -> Self {
        VectorVar(Vector::<N>::from_fn(|i, _| if i == k { t } else { q(0.0) }))
    }
}
impl Line for ImuBias {
    fn line(k: usize, t: dtype) -> Self {
        let e = |o: usize| Vector3::from_fn(|i, _| if i + o == k { t } else { q(0.0) });
        ImuBias::new(Gyro(e(0)), Accel(e(3)))
    }
}
/// A group that does not commute, with an arbitrary smooth chart for its logarithm: the residuals are generic in their variable,
/// so what they compute here is what they compute for every variable type, in terms of its own operations.
#[derive(Clone)]
pub struct Grp<T: Numeric = factrs::dtype> {
    a: T,
    b: T,
}
#[factrs::mark]
impl<T: Numeric> Variable<T> for Grp<T> {
    type Dim = nalgebra::Const<2>;
    type Alias<TT: Numeric> = Grp<TT>;
    fn identity() -> Self {
        Grp { a: T::from(q(1.0)), b: T::from(q(0.0)) }
    }
    fn inverse(&self) -> Self {
        Grp { a: T::from(q(1.0)) / self.a, b: -self.b / self.a }
    }
    fn compose(&self, o: &Self) -> Self {
        Grp { a: self.a * o.a, b: self.a * o.b + self.b }
    }
    fn exp(xi: VectorViewX<T>) -> Self {
        Grp { a: xi[0].exp(), b: xi[1] }
    }
    fn log(&self) -> VectorX<T> {
        let (a, b) = (self.a, self.b);
        VectorX::from_vec(vec![a * a * a + b * a * T::from(q(5.0)) - T::from(q(1.0)), b + b * b * a * T::from(q(7.0)) + a * T::from(q(2.0)) - T::from(q(2.0))])
    }
    fn dual_convert<TT: Numeric>(other: &Self::Alias<factrs::dtype>) -> Self::Alias<TT> {
        Grp { a: other.a.into(), b: other.b.into() }
    }
}
impl<T: Numeric> std::fmt::Display for Grp<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Grp")
    }
}
impl<T: Numeric> std::fmt::Debug for Grp<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Grp")
    }
}
impl El for Grp {
    const NAME: &'static str = "any group";
    fn any(p: &str) -> Self {
        Grp { a: pos_tame(&format!("{p}.a"), 0.3, 3.0), b: var_tame(&format!("{p}.b"), -3.0, 3.0) }
    }
    fn obs(&self) -> Vec<dtype> {
        vec![self.a, self.b]
    }
}
impl Obs for Grp {
    fn dobs<T: Numeric>(x: &Grp<T>) -> Vec<T> {
        vec![x.a, x.b]
    }
    fn slope(&self, _: usize) -> Vec<dtype> {
        unreachable!()
    }
}
impl Line for Grp {
    fn line(k: usize, t: dtype) -> Self {
        if k == 0 {
            Grp { a: t.exp(), b: q(0.0) }
        } else {
            Grp { a: q(1.0), b: t }
        }
    }
}
/// x moved by t along coordinate k, on the side of the build's convention
fn along<V: Line>(x: &V, k: usize, t: dtype) -> V {
    if left() {
        V::line(k, t).compose(x)
    } else {
        x.compose(&V::line(k, t))
    }
}
/// z with z minus v = log d
fn off<V: Line>(v: &V, d: &V) -> V {
    if left() {
        d.compose(v)
    } else {
        v.compose(d)
    }
}
fn check<R: Residual>(r: &R, values: &Values, keys: &[Key], want: &[dtype], cols: usize) -> Option<MatrixX> {
    let n = want.len();
    ensures_fact("dimensions", r.dim_out() == n && r.dim_in() == cols);
    ensures_all_eq("the residual's value", r.residual(values, keys).as_slice(), want);
    let DiffResult { value, diff } = r.residual_jacobian(values, keys);
    ensures_all_eq("the value returned with the Jacobian", value.as_slice(), want);
    let ok = diff.nrows() == n && diff.ncols() == cols;
    ensures_fact("the Jacobian's shape", ok);
    ok.then_some(diff)
}
macro_rules! prior {
    ($name:ident, $V:ty) => {
        fn $name() {
            const D: usize = <$V as Variable>::DIM;
            let k = choose("direction", D);
            let (v, d) = (<$V as El>::any("v"), <$V as Line>::rel("d", k));
            let t = var_in("t", -0.25, 0.25);
            let z = off(&v, &d);
            let x = along(&v, k, t);
            let mut values = Values::new();
            values.insert_unchecked(Sy(4), <$V as El>::any("other"));
            values.insert_unchecked(Sy(9), x.clone());
            let r = PriorResidual::new(z.clone());
            let want = z.ominus(&x);
            // in terms of the group alone: the logarithm of what leads from the variable to the prior
            let rel = if left() { z.compose(&x.inverse()) } else { x.inverse().compose(&z) };
            ensures_all_eq("prior minus variable", want.as_slice(), rel.log().as_slice());
            if let Some(j) = check(&r, &values, &[Key(9)], want.as_slice(), D) {
                let s = derivatives(|t| z.ominus(&along(&v, k, t)).iter().cloned().collect(), t);
                for i in 0..D {
                    ensures_eq(&format!("Jacobian entry {i},{k} is the derivative along the variable's coordinate"), j[(i, k)], s[i]);
                }
            }
            let f = FactorBuilder::<D>::new1(r, Sy(9)).build();
            ensures_eq("the error of a prior factor", f.error(&values), sq(want.as_slice()) / q(2.0));
        }
    };
}
macro_rules! between {
    ($name:ident, $V:ty, $n:literal) => {
        fn $name() {
            const D: usize = <$V as Variable>::DIM;
            let which = choose("first or second variable moves", 2);
            let k = choose("direction", D);
            let (v1, z, d) = (<$V as Line>::some("v"), <$V as Line>::some("z"), <$V as Line>::rel("d", k));
            let t = var_in("t", -0.25, 0.25);
            // v2 such that (v1 z) minus v2 = log d
            let v2 = if left() { d.inverse().compose(&v1.compose(&z)) } else { v1.compose(&z).compose(&d.inverse()) };
            let at = |t: dtype| if which == 0 { (along(&v1, k, t), v2.clone()) } else { (v1.clone(), along(&v2, k, t)) };
            let (x1, x2) = at(t);
            let mut values = Values::new();
            values.insert_unchecked(Sy(9), x1.clone());
            values.insert_unchecked(Sy(4), x2.clone());
            let r = BetweenResidual::new(z.clone());
            let want = x1.compose(&z).ominus(&x2);
            if let Some(j) = check(&r, &values, &[Key(9), Key(4)], want.as_slice(), $n) {
                let s = derivatives(
                    |t| {
                        let (x1, x2) = at(t);
                        x1.compose(&z).ominus(&x2).iter().cloned().collect()
                    },
                    t,
                );
                for i in 0..D {
                    ensures_eq(&format!("Jacobian entry {i} of variable {which} coordinate {k} is the derivative along that coordinate"), j[(i, which * D + k)], s[i]);
                }
            }
            let f = FactorBuilder::<D>::new2(r, Sy(9), Sy(4)).build();
            ensures_eq("the error of a between factor", f.error(&values), sq(want.as_slice()) / q(2.0));
        }
    };
}
/// values only, all elements arbitrary (the Jacobians of these types follow from the generic contract and C05)
macro_rules! value {
    ($name:ident, $V:ty) => {
        fn $name() {
            const D: usize = <$V as Variable>::DIM;
            let (v1, z, d) = (<$V as El>::any("v"), <$V as El>::any("z"), <$V as El>::any("d"));
            let mut values = Values::new();
            if choose("prior or between", 2) == 0 {
                values.insert_unchecked(Sy(4), v1.clone());
                let r = PriorResidual::new(off(&v1, &d));
                ensures_all_eq("prior minus variable", r.residual(&values, &[Key(4)]).as_slice(), off(&v1, &d).ominus(&v1).as_slice());
                ensures_fact("dimensions", r.dim_in() == D && r.dim_out() == D);
            } else {
                let v2 = if left() { d.inverse().compose(&v1.compose(&z)) } else { v1.compose(&z).compose(&d.inverse()) };
                values.insert_unchecked(Sy(9), v1.clone());
                values.insert_unchecked(Sy(4), v2.clone());
                let r = BetweenResidual::new(z.clone());
                ensures_all_eq("first variable times measurement, minus second", r.residual(&values, &[Key(9), Key(4)]).as_slice(), v1.compose(&z).ominus(&v2).as_slice());
                ensures_fact("dimensions", r.dim_in() == 2 * D && r.dim_out() == D);
            }
        }
    };
}
value!(value_se2, SE2);
value!(value_so3, SO3);
value!(value_se3, SE3);
prior!(prior_so2, SO2);
prior!(prior_so3, SO3);
prior!(prior_vec1, VectorVar1);
prior!(prior_vec3, VectorVar3);
prior!(prior_vec6, VectorVar6);
prior!(prior_vec9, VectorVar<9>);
prior!(prior_bias, ImuBias);
prior!(prior_any, Grp);
between!(between_any, Grp, 4);
between!(between_so2, SO2, 2);
between!(between_so3, SO3, 6);
between!(between_vec1, VectorVar1, 2);
between!(between_vec3, VectorVar3, 6);
between!(between_vec6, VectorVar6, 12);
between!(between_vec9, VectorVar<9>, 18);
between!(between_bias, ImuBias, 12);

const P: &str = "PriorResidual::{new, residual1}, Residual for PriorResidual, residual1_values, residual1_jacobian";
const B: &str = "BetweenResidual::{new, residual2}, Residual for BetweenResidual, residual2_values, residual2_jacobian";
const PB: &str = "PriorResidual::{new, residual1}, BetweenResidual::{new, residual2}, Residual for PriorResidual, Residual for BetweenResidual";
const FEW: &str = "relative rotation near one of three fixed rotations (in between residuals of spatial types the others fixed too), everything else arbitrary";
const K: &[Contract] = &[
    Contract { name: "prior_so2", functions: P, bounded: "", run: prior_so2 },
    Contract { name: "prior_so3", functions: P, bounded: FEW, run: prior_so3 },
    Contract { name: "prior_vec1", functions: P, bounded: "", run: prior_vec1 },
    Contract { name: "prior_vec3", functions: P, bounded: "", run: prior_vec3 },
    Contract { name: "prior_vec6", functions: P, bounded: "", run: prior_vec6 },
    Contract { name: "prior_vec9", functions: P, bounded: "", run: prior_vec9 },
    Contract { name: "prior_bias", functions: P, bounded: "", run: prior_bias },
    Contract { name: "value_se2", functions: PB, bounded: "", run: value_se2 },
    Contract { name: "value_so3", functions: PB, bounded: "", run: value_so3 },
    Contract { name: "value_se3", functions: PB, bounded: "", run: value_se3 },
    Contract { name: "prior_any", functions: P, bounded: "", run: prior_any },
    Contract { name: "between_any", functions: B, bounded: "", run: between_any },
    Contract { name: "between_so2", functions: B, bounded: "", run: between_so2 },
    Contract { name: "between_so3", functions: B, bounded: FEW, run: between_so3 },
    Contract { name: "between_vec1", functions: B, bounded: "", run: between_vec1 },
    Contract { name: "between_vec3", functions: B, bounded: "", run: between_vec3 },
    Contract { name: "between_vec6", functions: B, bounded: "", run: between_vec6 },
    Contract { name: "between_vec9", functions: B, bounded: "", run: between_vec9 },
    Contract { name: "between_bias", functions: B, bounded: "", run: between_bias },
];
fn main() {
    run_all(K)
}
