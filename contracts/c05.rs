//! C05: forward-mode differentiation gives exact Jacobians in the tangent space, in the right columns.
mod common;
mod obs;
use common::*;
use factrs::linalg::{forward_prop_derivative, Const, Diff, DiffResult, DualScalar, DualVector, ForwardProp};
use obs::*;

/// One contract per arity: f stacks everything observable of its arguments, so that by the chain rule the Jacobian of any
/// function follows from this one.
macro_rules! jac {
    ($name:ident, $n:literal, $jac:ident, $grad:ident, $($v:ident: $V:ty),*) => {
        fn $name() {
            type T = DualVector<Const<$n>>;
            $(let $v = <$V as El>::any(stringify!($v));)*
            let DiffResult { value, diff } = ForwardProp::<Const<$n>>::$jac(
                |$($v: <$V as Variable>::Alias<T>),*| {
                    let mut o: Vec<T> = vec![];
                    $(o.extend(<$V as Obs>::dobs(&$v));)*
                    VectorX::from_vec(o)
                }, $(&$v),*);
            let mut want: Vec<dtype> = vec![];
            $(want.extend($v.obs());)*
            ensures_all_eq("the value is the function's value", value.as_slice(), &want);
            let rows = want.len();
            ensures_fact("the Jacobian has one row per output and one column per tangent coordinate", diff.nrows() == rows && diff.ncols() == $n);
            if diff.nrows() != rows || diff.ncols() != $n {
                return;
            }
            let mut exp = vec![vec![q(0.0); $n]; rows];
            let (mut r, mut c) = (0, 0);
            $({
                let m = $v.obs().len();
                for k in 0..<$V as Variable>::DIM {
                    for (i, s) in $v.slope(k).into_iter().enumerate() {
                        exp[r + i][c + k] = s;
                    }
                }
                r += m;
                c += <$V as Variable>::DIM;
            })*
            ensures_fact("dimensions add up", r == rows && c == $n);
            for i in 0..rows {
                for j in 0..$n {
                    ensures_eq(&format!("row {i} column {j} is the tangent derivative"), diff[(i, j)], exp[i][j]);
                }
            }
            // a scalar function that mixes all inputs
            let w: Vec<dtype> = (0..rows).map(|i| var(&format!("w{i}"))).collect();
            let DiffResult { value, diff } = ForwardProp::<Const<$n>>::$grad(
                |$($v: <$V as Variable>::Alias<T>),*| {
                    let mut o: Vec<T> = vec![];
                    $(o.extend(<$V as Obs>::dobs(&$v));)*
                    let mut s = T::from(q(2.0));
                    for i in 0..rows {
                        s = s + o[i] * T::from(w[i]);
                    }
                    s
                }, $(&$v),*);
            let mut s = q(2.0);
            for i in 0..rows {
                s = s + want[i] * w[i];
            }
            ensures_eq("the value of a scalar function", value, s);
            ensures_fact("the gradient has one entry per tangent coordinate", diff.len() == $n);
            for j in 0..$n {
                let mut s = q(0.0);
                for i in 0..rows {
                    s = s + exp[i][j] * w[i];
                }
                ensures_eq(&format!("gradient entry {j}"), diff[j], s);
            }
        }
    };
}
jac!(one_so2, 1, jacobian_1, gradient_1, a: SO2);
jac!(one_se2, 3, jacobian_1, gradient_1, a: SE2);
jac!(one_so3, 3, jacobian_1, gradient_1, a: SO3);
jac!(one_se3, 6, jacobian_1, gradient_1, a: SE3);
jac!(one_vec1, 1, jacobian_1, gradient_1, a: VectorVar1);
jac!(one_vec4, 4, jacobian_1, gradient_1, a: VectorVar4);
jac!(one_vec6, 6, jacobian_1, gradient_1, a: VectorVar6);
jac!(one_vec13, 13, jacobian_1, gradient_1, a: VectorVar<13>);
jac!(one_bias, 6, jacobian_1, gradient_1, a: ImuBias);
jac!(one_own, 6, jacobian_1, gradient_1, a: Own);
jac!(two_own, 8, jacobian_2, gradient_2, a: VectorVar2, b: Own);
jac!(two_poses, 12, jacobian_2, gradient_2, a: SE3, b: SE3);
jac!(two_mixed, 4, jacobian_2, gradient_2, a: SO2, b: SO3);
jac!(two_planar, 6, jacobian_2, gradient_2, a: SE2, b: SE2);
jac!(three, 9, jacobian_3, gradient_3, a: VectorVar2, b: SE3, c: SO2);
jac!(four, 12, jacobian_4, gradient_4, a: SO3, b: VectorVar1, c: SE2, d: VectorVar5);
jac!(five, 13, jacobian_5, gradient_5, a: SE2, b: SO2, c: VectorVar3, d: SO3, e: VectorVar3);
jac!(six, 20, jacobian_6, gradient_6, a: SO2, b: VectorVar2, c: ImuBias, d: SE2, e: VectorVar5, f: SO3);

/// the seeded dual element itself, at an arbitrary column offset
macro_rules! seed {
    ($name:ident, $V:ty) => {
        fn $name() {
            const D: usize = <$V as Variable>::DIM;
            type T = DualVector<Const<9>>;
            let x = <$V as El>::any("x");
            let at = choose("first column", 10 - D);
            let d: <$V as Variable>::Alias<T> = <$V as Variable>::dual::<Const<9>>(&x, at);
            let want = x.obs();
            let slopes: Vec<Vec<dtype>> = (0..D).map(|k| x.slope(k)).collect();
            for (i, e) in <$V as Obs>::dobs(&d).into_iter().enumerate() {
                ensures_eq(&format!("real part {i}"), e.re, want[i]);
                let eps = e.eps.unwrap_generic(Const::<9>, Const::<1>);
                for j in 0..9 {
                    let w = if j >= at && j < at + D { slopes[j - at][i] } else { q(0.0) };
                    ensures_eq(&format!("derivative of {i} in column {j}"), eps[j], w);
                }
            }
            let c: <$V as Variable>::Alias<T> = <$V as Variable>::dual_convert::<T>(&x);
            for (i, e) in <$V as Obs>::dobs(&c).into_iter().enumerate() {
                ensures_eq(&format!("converted: real part {i}"), e.re, want[i]);
                let eps = e.eps.unwrap_generic(Const::<9>, Const::<1>);
                for j in 0..9 {
                    ensures_eq(&format!("converted: derivative of {i} in column {j} is zero"), eps[j], q(0.0));
                }
            }
        }
    };
}
seed!(seed_so2, SO2);
seed!(seed_se2, SE2);
seed!(seed_so3, SO3);
seed!(seed_se3, SE3);
seed!(seed_vec2, VectorVar2);
seed!(seed_vec3, VectorVar3);
seed!(seed_vec5, VectorVar5);
seed!(seed_bias, ImuBias);
seed!(seed_own, Own);

/// outputs that do not depend on (some of) the inputs
fn constant() {
    type T = DualVector<Const<4>>;
    let (a, b) = (SO3::any("a"), SO2::any("b"));
    let k = var("k");
    let m = a.obs();
    let DiffResult { value, diff } = ForwardProp::<Const<4>>::jacobian_2(
        |a: SO3<T>, _b: SO2<T>| VectorX::from_vec(vec![T::from(k), a.to_matrix()[(1, 0)], T::from(q(3.0))]),
        &a,
        &b,
    );
    ensures_all_eq("values", value.as_slice(), &[k, m[1], q(3.0)]);
    for j in 0..4 {
        let w = if j < 3 { a.slope(j)[1] } else { q(0.0) };
        ensures_all_eq(&format!("column {j}"), diff.column(j).into_owned().as_slice(), &[q(0.0), w, q(0.0)]);
    }
}
/// the scalar derivative, on every elementary operation
fn scalar() {
    let x = var_in("x", 0.1, 3.0);
    let c = var_in("c", 0.5, 2.0);
    let d = |x: DualScalar| -> Vec<DualScalar> {
        let c = DualScalar::from(c);
        vec![x * x * c + c, c / x, x.sin() * c, x.cos(), x.sqrt(), x.exp(), x.ln(), x.atan2(c), x.powi(3), c, x - c, -x, x.recip()]
    };
    let r = |x: dtype| -> Vec<dtype> { vec![x * x * c + c, c / x, x.sin() * c, x.cos(), x.sqrt(), x.exp(), x.ln(), x.atan2(c), x * x * x, c, x - c, -x, q(1.0) / x] };
    let ds = derivatives(r, x);
    let vs = r(x);
    for i in 0..vs.len() {
        let DiffResult { value, diff } = forward_prop_derivative(|x| d(x)[i], x);
        ensures_eq(&format!("value {i}"), value, vs[i]);
        ensures_eq(&format!("derivative {i}"), diff, ds[i]);
    }
}
macro_rules! k {
    ($($n:ident: $f:literal),* $(,)?) => {
        &[$(Contract { name: stringify!($n), functions: $f, bounded: "", run: $n }),*]
    };
}
const K: &[Contract] = k![
    one_so2: "ForwardProp::{jacobian_1, gradient_1}, SO2::{dual, dual_setup, dual_convert}",
    one_se2: "ForwardProp::{jacobian_1, gradient_1}, SE2::{dual, dual_setup, dual_convert}",
    one_so3: "ForwardProp::{jacobian_1, gradient_1}, SO3::{dual, dual_setup, dual_convert}",
    one_se3: "ForwardProp::{jacobian_1, gradient_1}, SE3::{dual, dual_setup, dual_convert}",
    one_vec1: "ForwardProp::{jacobian_1, gradient_1}, VectorVar<1>::{dual, dual_setup, dual_convert}",
    one_vec4: "ForwardProp::{jacobian_1, gradient_1}, VectorVar<4>::{dual, dual_setup, dual_convert}",
    one_vec6: "ForwardProp::{jacobian_1, gradient_1}, VectorVar<6>::{dual, dual_setup, dual_convert}",
    one_vec13: "ForwardProp::{jacobian_1, gradient_1}, VectorVar<13>::{dual, dual_setup, dual_convert}",
    one_bias: "ForwardProp::{jacobian_1, gradient_1}, ImuBias::{dual, dual_setup, dual_convert}",
    two_poses: "ForwardProp::{jacobian_2, gradient_2}",
    two_mixed: "ForwardProp::{jacobian_2, gradient_2}",
    two_planar: "ForwardProp::{jacobian_2, gradient_2}",
    three: "ForwardProp::{jacobian_3, gradient_3}",
    four: "ForwardProp::{jacobian_4, gradient_4}",
    five: "ForwardProp::{jacobian_5, gradient_5}",
    six: "ForwardProp::{jacobian_6, gradient_6}",
    seed_so2: "SO2::{dual, dual_setup, dual_convert}",
    seed_se2: "SE2::{dual, dual_setup, dual_convert}",
    seed_so3: "SO3::{dual, dual_setup, dual_convert}",
    seed_se3: "SE3::{dual, dual_setup, dual_convert}",
    seed_vec2: "VectorVar<2>::{dual, dual_setup, dual_convert}",
    seed_vec3: "VectorVar<3>::{dual, dual_setup, dual_convert}",
    seed_vec5: "VectorVar<5>::{dual, dual_setup, dual_convert}",
    seed_bias: "ImuBias::{dual, dual_setup, dual_convert}",
    one_own: "ForwardProp::{jacobian_1, gradient_1}, Variable::{dual, dual_setup} (trait defaults)",
    two_own: "ForwardProp::{jacobian_2, gradient_2}, Variable::{dual, dual_setup} (trait defaults)",
    seed_own: "Variable::{dual, dual_setup} (trait defaults)",
    constant: "ForwardProp::jacobian_2",
    scalar: "forward_prop_derivative",
];
fn main() {
    run_all(K)
}
