//! C06: numerical differentiation is the central difference along each tangent direction, in the right columns.
mod common;
mod obs;
use common::*;
use factrs::linalg::{numerical_derivative, Diff, DiffResult, NumericalDiff};
use obs::*;

fn basis(n: usize, k: usize, e: dtype) -> VectorX {
    vx(&(0..n).map(|i| if i == k { e } else { q(0.0) }).collect::<Vec<_>>())
}
fn moved<V: El>(v: &V, k: usize, e: dtype) -> V {
    v.oplus(basis(<V as Variable>::DIM, k, e).as_view())
}
fn weighted(o: &[dtype]) -> dtype {
    o.iter().enumerate().fold(q(1.0), |s, (i, x)| s + *x * q([2.0, 3.0, 5.0, 7.0, 11.0, 13.0][i % 6] + i as f64))
}
macro_rules! num {
    ($name:ident, $n:literal, $pwr:literal, $eps:literal, $jac:ident, $grad:ident, $($v:ident: $V:ty),*) => {
        fn $name() {
            if !SYMBOLIC && $pwr > 7 {
                return; // rounding hides the difference
            }
            let e = q($eps);
            $(let $v = <$V as El>::any(stringify!($v));)*
            let DiffResult { value, diff } = NumericalDiff::<$pwr>::$jac(
                |$($v: $V),*| {
                    let mut o: Vec<dtype> = vec![];
                    $(o.extend($v.obs());)*
                    vx(&o)
                }, $(&$v),*);
            let mut want: Vec<dtype> = vec![];
            $(want.extend($v.obs());)*
            ensures_all_eq("the value is the function's value", value.as_slice(), &want);
            let rows = want.len();
            ensures_fact("the Jacobian has one row per output and one column per tangent coordinate", diff.nrows() == rows && diff.ncols() == $n);
            if diff.nrows() != rows || diff.ncols() != $n {
                return;
            }
            let mut exp = vec![vec![q(0.0); $n]; rows];
            let (mut r, mut c) = (0, 0);
            $({
                let m = $v.obs().len();
                for k in 0..<$V as Variable>::DIM {
                    let (p, s) = (moved(&$v, k, e).obs(), moved(&$v, k, -e).obs());
                    for i in 0..m {
                        exp[r + i][c + k] = (p[i] - s[i]) / (q(2.0) * e);
                    }
                }
                r += m;
                c += <$V as Variable>::DIM;
            })*
            ensures_fact("dimensions add up", r == rows && c == $n);
            for i in 0..rows {
                for j in 0..$n {
                    ensures_eq(&format!("row {i} column {j} is the central difference"), diff[(i, j)], exp[i][j]);
                }
            }
            let w: Vec<dtype> = (0..rows).map(|i| var(&format!("w{i}"))).collect();
            let DiffResult { value, diff } = NumericalDiff::<$pwr>::$grad(
                |$($v: $V),*| {
                    let mut o: Vec<dtype> = vec![];
                    $(o.extend($v.obs());)*
                    let mut s = q(2.0);
                    for i in 0..rows {
                        s = s + o[i] * w[i];
                    }
                    s
                }, $(&$v),*);
            let mut s = q(2.0);
            for i in 0..rows {
                s = s + want[i] * w[i];
            }
            ensures_eq("the value of a scalar function", value, s);
            ensures_fact("the gradient has one entry per tangent coordinate", diff.len() == $n);
            for j in 0..$n {
                let mut s = q(0.0);
                for i in 0..rows {
                    s = s + exp[i][j] * w[i];
                }
                ensures_eq(&format!("gradient entry {j}"), diff[j], s);
            }
            // a function that couples the arguments: each is perturbed with the others where they were
            let f = |$($v: &$V),*| {
                let mut p = q(1.0);
                $(p = p * weighted(&$v.obs());)*
                p
            };
            let DiffResult { value, diff } = NumericalDiff::<$pwr>::$grad(|$($v: $V),*| f($(&$v),*), $(&$v),*);
            ensures_eq("the value of a coupled function", value, f($(&$v),*));
            let DiffResult { value: _, diff: jac } = NumericalDiff::<$pwr>::$jac(|$($v: $V),*| vx(&[f($(&$v),*)]), $(&$v),*);
            let mut c = 0;
            for (i, dim) in [$(<$V as Variable>::DIM),*].into_iter().enumerate() {
                for k in 0..dim {
                    let at = |s: dtype| {
                        let mut i_ = 0;
                        $(let $v = if i_ == i { moved(&$v, k, s) } else { $v.clone() }; i_ += 1;)*
                        let _ = i_;
                        f($(&$v),*)
                    };
                    let want = (at(e) - at(-e)) / (q(2.0) * e);
                    ensures_eq(&format!("gradient entry {} of a coupled function", c + k), diff[c + k], want);
                    ensures_eq(&format!("Jacobian column {} of a coupled function", c + k), jac[(0, c + k)], want);
                }
                c += dim;
            }
        }
    };
}
num!(one_se2, 3, 6, 1e-6, jacobian_1, gradient_1, a: SE2);
num!(one_so3, 3, 4, 1e-4, jacobian_1, gradient_1, a: SO3);
num!(one_se3, 6, 6, 1e-6, jacobian_1, gradient_1, a: SE3);
num!(two, 9, 6, 1e-6, jacobian_2, gradient_2, a: SE3, b: VectorVar3);
num!(one_vector, 17, 2, 1e-2, jacobian_1, gradient_1, a: VectorVar<17>);
num!(fine, 10, 9, 1e-9, jacobian_2, gradient_2, a: SO2, b: VectorVar<9>);
num!(coarse, 5, 0, 1.0, jacobian_2, gradient_2, a: SE2, b: VectorVar2);
num!(two_same, 6, 3, 1e-3, jacobian_2, gradient_2, a: SE2, b: SO3);
num!(three, 7, 6, 1e-6, jacobian_3, gradient_3, a: VectorVar1, b: SO3, c: SE2);
num!(four, 10, 5, 1e-5, jacobian_4, gradient_4, a: SO2, b: VectorVar2, c: VectorVar6, d: VectorVar1);
num!(five, 12, 6, 1e-6, jacobian_5, gradient_5, a: VectorVar4, b: SO2, c: SO3, d: VectorVar1, e: SE2);
num!(six, 16, 6, 1e-6, jacobian_6, gradient_6, a: VectorVar2, b: SO2, c: VectorVar5, d: VectorVar1, f: SE2, g: VectorVar4);

/// functions that return a variable: the difference is taken on the manifold
macro_rules! numv {
    ($name:ident, $n:literal, $pwr:literal, $eps:literal, $jac:ident, $out:ty, $f:expr, $($v:ident: $V:ty),*) => {
        fn $name() {
            if !SYMBOLIC && $pwr > 7 {
                return; // rounding hides the difference
            }
            let e = q($eps);
            $(let $v = <$V as El>::any(stringify!($v));)*
            let f = $f;
            let DiffResult { value, diff } = NumericalDiff::<$pwr>::$jac(|$($v: $V),*| -> $out { f($(&$v),*) }, $(&$v),*);
            same("the value is the function's value", &value, &f($(&$v),*));
            let d = <$out as Variable>::DIM;
            ensures_fact("the Jacobian's shape", diff.nrows() == d && diff.ncols() == $n);
            if diff.nrows() != d || diff.ncols() != $n {
                return;
            }
            let dims = [$(<$V as Variable>::DIM),*];
            let mut c = 0;
            for (i, dim) in dims.into_iter().enumerate() {
                for k in 0..dim {
                    let at = |s: dtype| -> $out {
                        let mut i_ = 0;
                        $(let $v = if i_ == i { moved(&$v, k, s) } else { $v.clone() }; i_ += 1;)*
                        let _ = i_;
                        f($(&$v),*)
                    };
                    let col = at(e).ominus(&at(-e));
                    for r in 0..d {
                        ensures_eq(&format!("row {r} column {} is the central difference on the manifold", c + k), diff[(r, c + k)], col[r] / (q(2.0) * e));
                    }
                }
                c += dim;
            }
        }
    };
}
fn s2(x: &VectorVar1) -> SO2 {
    SO2::from_theta(x[0])
}
numv!(var1, 1, 6, 1e-6, jacobian_variable_1, SO2, |a: &SO2| a.inverse(), a: SO2);
numv!(var2, 2, 4, 1e-4, jacobian_variable_2, SO2, |a: &SO2, b: &VectorVar1| a.compose(&s2(b)), a: SO2, b: VectorVar1);
numv!(var_so3, 3, 3, 1e-3, jacobian_variable_1, SO3, |a: &SO3| a.inverse(), a: SO3);
numv!(var_se2, 3, 1, 1e-1, jacobian_variable_1, SE2, |a: &SE2| a.compose(a), a: SE2);
numv!(var_wide, 12, 8, 1e-8, jacobian_variable_2, VectorVar<8>, |a: &VectorVar<9>, b: &SE2| VectorVar::<8>(Vector::<8>::from_fn(|i, _| a[i] * a[i + 1] + b.x() * q(i as f64) + b.y())), a: VectorVar<9>, b: SE2);
numv!(var2v, 5, 6, 1e-6, jacobian_variable_2, VectorVar2, |a: &SE2, b: &VectorVar2| VectorVar2::new(a.x() * b[0], b[1] + a.y()), a: SE2, b: VectorVar2);
numv!(var3, 6, 2, 1e-2, jacobian_variable_3, VectorVar3, |a: &VectorVar2, b: &VectorVar3, c: &VectorVar1| VectorVar3::new(a[0] * b[2], a[1] * c[0], b[0] + b[1]), a: VectorVar2, b: VectorVar3, c: VectorVar1);
numv!(var4, 7, 6, 1e-6, jacobian_variable_4, VectorVar2, |a: &VectorVar1, b: &VectorVar3, c: &VectorVar1, d: &VectorVar2| VectorVar2::new(a[0] * b[2] * d[1], b[0] * c[0] + d[0] * b[1]), a: VectorVar1, b: VectorVar3, c: VectorVar1, d: VectorVar2);
numv!(var5, 8, 3, 1e-3, jacobian_variable_5, VectorVar2, |a: &VectorVar1, b: &VectorVar3, c: &VectorVar1, d: &VectorVar2, g: &VectorVar1| VectorVar2::new(a[0] * b[2] * d[1], b[0] * c[0] * g[0] + d[0] * b[1]), a: VectorVar1, b: VectorVar3, c: VectorVar1, d: VectorVar2, g: VectorVar1);
numv!(var6, 10, 9, 1e-9, jacobian_variable_6, VectorVar2, |a: &VectorVar1, b: &VectorVar3, c: &VectorVar1, d: &VectorVar2, g: &VectorVar1, h: &VectorVar2| VectorVar2::new(a[0] * b[2] * d[1] + h[0], b[0] * c[0] * g[0] + d[0] * b[1] * h[1]), a: VectorVar1, b: VectorVar3, c: VectorVar1, d: VectorVar2, g: VectorVar1, h: VectorVar2);

fn scalar() {
    let (x, e, a, b) = (var("x"), pos("e"), var("a"), var("b"));
    let f = |x: dtype| x * x * x * a + x * b + x.sin();
    let DiffResult { value, diff } = numerical_derivative(f, x, e);
    ensures_eq("value", value, f(x));
    ensures_eq("central difference", diff, (f(x + e) - f(x - e)) / (q(2.0) * e));
    let g = |x: dtype| x * x * a + x * b;
    ensures_eq("exact on quadratics", numerical_derivative(g, x, e).diff, q(2.0) * a * x + b);
}
macro_rules! k {
    ($($n:ident: $f:literal),* $(,)?) => {
        &[$(Contract { name: stringify!($n), functions: $f, bounded: "", run: $n }),*]
    };
}
const K: &[Contract] = k![
    one_se2: "NumericalDiff::{jacobian_1, gradient_1}",
    one_so3: "NumericalDiff::{jacobian_1, gradient_1}",
    one_se3: "NumericalDiff::{jacobian_1, gradient_1}",
    two: "NumericalDiff::{jacobian_2, gradient_2}",
    one_vector: "NumericalDiff::{jacobian_1, gradient_1}",
    fine: "NumericalDiff::{jacobian_2, gradient_2}",
    coarse: "NumericalDiff::{jacobian_2, gradient_2}",
    two_same: "NumericalDiff::{jacobian_2, gradient_2}",
    three: "NumericalDiff::{jacobian_3, gradient_3}",
    four: "NumericalDiff::{jacobian_4, gradient_4}",
    five: "NumericalDiff::{jacobian_5, gradient_5}",
    six: "NumericalDiff::{jacobian_6, gradient_6}",
    var1: "NumericalDiff::jacobian_variable_1",
    var2: "NumericalDiff::jacobian_variable_2",
    var_so3: "NumericalDiff::jacobian_variable_1",
    var_se2: "NumericalDiff::jacobian_variable_1",
    var_wide: "NumericalDiff::jacobian_variable_2",
    var2v: "NumericalDiff::jacobian_variable_2",
    var3: "NumericalDiff::jacobian_variable_3",
    var4: "NumericalDiff::jacobian_variable_4",
    var5: "NumericalDiff::jacobian_variable_5",
    var6: "NumericalDiff::jacobian_variable_6",
    scalar: "numerical_derivative",
];
fn main() {
    run_all(K)
}
