//! Arbitrary implementations of the traits a factor is built from: any residual vector and Jacobian, any linear whitening,
//! any robust loss and weight. They record what they were called with.
#![allow(dead_code)]
use crate::common::*;
use factrs::containers::{Key, Symbol, TypedSymbol, Values};
use factrs::noise::NoiseModel;
use factrs::residuals::*;
use factrs::robust::RobustCost;
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub type M = Vec<Vec<dtype>>;
pub fn any_mat(p: &str, r: usize, c: usize) -> M {
    (0..r).map(|i| (0..c).map(|j| var_tame(&format!("{p}{i}_{j}"), -3.0, 3.0)).collect()).collect()
}
pub fn any_list(p: &str, n: usize) -> Vec<dtype> {
    (0..n).map(|i| var_tame(&format!("{p}{i}"), -3.0, 3.0)).collect()
}
pub fn mmul(a: &M, b: &M) -> M {
    a.iter().map(|r| (0..b[0].len()).map(|j| r.iter().enumerate().fold(q(0.0), |s, (k, x)| s + *x * b[k][j])).collect()).collect()
}
pub fn mvec(a: &M, v: &[dtype]) -> Vec<dtype> {
    a.iter().map(|r| r.iter().zip(v).fold(q(0.0), |s, (x, y)| s + *x * *y)).collect()
}
pub fn sq(v: &[dtype]) -> dtype {
    v.iter().fold(q(0.0), |s, x| s + *x * *x)
}
pub fn ident(n: usize) -> M {
    (0..n).map(|i| (0..n).map(|j| q(if i == j { 1.0 } else { 0.0 })).collect()).collect()
}
pub fn to_mat(m: &M, cols: usize) -> MatrixX {
    MatrixX::from_fn(m.len(), cols, |i, j| m[i][j])
}
/// keys whose type is not checked
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Sy(pub u64);
impl From<Sy> for Key {
    fn from(s: Sy) -> Key {
        Key(s.0)
    }
}
impl Symbol for Sy {}
impl<V: VariableUmbrella> TypedSymbol<V> for Sy {}

/// any residual at the given values and keys: its value and Jacobian are unconstrained
#[derive(Clone)]
pub struct Any {
    pub r: Vec<dtype>,
    pub j: M,
    pub cols: usize,
    pub keys: Vec<Key>,
    pub values: Rc<RefCell<Option<*const Values>>>,
    pub calls: Rc<RefCell<Vec<&'static str>>>,
}
impl Any {
    pub fn new(p: &str, rows: usize, cols: usize, keys: Vec<Key>) -> Self {
        Any { r: any_list(&format!("{p}r"), rows), j: any_mat(&format!("{p}j"), rows, cols), cols, keys, values: Default::default(), calls: Default::default() }
    }
    fn check(&self, values: &Values, keys: &[Key]) {
        ensures_fact("the residual is given the factor's keys in order", keys == self.keys);
        if let Some(p) = *self.values.borrow() {
            ensures_fact("the residual is given the values", std::ptr::eq(p, values));
        }
    }
    pub fn value(&self, values: &Values, keys: &[Key]) -> VectorX {
        self.check(values, keys);
        self.calls.borrow_mut().push("residual");
        vx(&self.r)
    }
    pub fn jac(&self, values: &Values, keys: &[Key]) -> DiffResult<VectorX, MatrixX> {
        self.check(values, keys);
        self.calls.borrow_mut().push("residual_jacobian");
        DiffResult { value: vx(&self.r), diff: to_mat(&self.j, self.cols) }
    }
}
macro_rules! any_residual {
    ($name:ident, $res:ident, $fun:ident, $out:literal, $in:literal, $($a:ident: $A:ident = $V:ty),*) => {
        #[derive(Clone)]
        pub struct $name(pub Any);
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "any")
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "any")
            }
        }
        impl Residual for $name {
            fn dim_in(&self) -> usize {
                $in
            }
            fn dim_out(&self) -> usize {
                $out
            }
            fn residual(&self, values: &Values, keys: &[Key]) -> VectorX {
                self.0.value(values, keys)
            }
            fn residual_jacobian(&self, values: &Values, keys: &[Key]) -> DiffResult<VectorX, MatrixX> {
                self.0.jac(values, keys)
            }
        }
        impl $res for $name {
            type Differ = ForwardProp<Const<$in>>;
            $(type $A = $V;)*
            type DimIn = Const<$in>;
            type DimOut = Const<$out>;
            #[allow(unused_variables)]
            fn $fun<T: Numeric>(&self, $($a: <$V as Variable>::Alias<T>),*) -> VectorX<T> {
                panic!("the residual is evaluated through its own Residual implementation")
            }
        }
    };
}
any_residual!(Any1, Residual1, residual1, 2, 3, a: V1 = VectorVar3);
any_residual!(Any2, Residual2, residual2, 3, 5, a: V1 = VectorVar2, b: V2 = SE2);
any_residual!(Any3, Residual3, residual3, 2, 6, a: V1 = SO3, b: V2 = VectorVar1, c: V3 = VectorVar2);
any_residual!(Any4, Residual4, residual4, 1, 9, a: V1 = VectorVar2, b: V2 = SO2, c: V3 = VectorVar3, d: V4 = SE2);
any_residual!(Any5, Residual5, residual5, 2, 10, a: V1 = VectorVar1, b: V2 = VectorVar3, c: V3 = SO2, d: V4 = VectorVar1, e: V5 = VectorVar4);
any_residual!(Any6, Residual6, residual6, 2, 17, a: V1 = SO2, b: V2 = VectorVar2, c: V3 = SO3, d: V4 = VectorVar4, e: V5 = SE3, f: V6 = VectorVar1);

/// arbitrary residuals of any shape (the number of rows is OUT, the number of columns what the stub holds)
macro_rules! free_residual {
    ($name:ident, $res:ident, $fun:ident, $($a:ident: $A:ident),*) => {
        #[derive(Clone)]
        pub struct $name<const OUT: usize>(pub Any);
        impl<const OUT: usize> fmt::Debug for $name<OUT> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "any")
            }
        }
        impl<const OUT: usize> fmt::Display for $name<OUT> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "any")
            }
        }
        impl<const OUT: usize> Residual for $name<OUT> {
            fn dim_in(&self) -> usize {
                self.0.cols
            }
            fn dim_out(&self) -> usize {
                OUT
            }
            fn residual(&self, values: &Values, keys: &[Key]) -> VectorX {
                self.0.value(values, keys)
            }
            fn residual_jacobian(&self, values: &Values, keys: &[Key]) -> DiffResult<VectorX, MatrixX> {
                self.0.jac(values, keys)
            }
        }
        impl<const OUT: usize> $res for $name<OUT> {
            type Differ = ForwardProp<Const<1>>;
            $(type $A = VectorVar1;)*
            type DimIn = Const<1>;
            type DimOut = Const<OUT>;
            #[allow(unused_variables)]
            fn $fun<T: Numeric>(&self, $($a: VectorVar1<T>),*) -> VectorX<T> {
                panic!("the residual is evaluated through its own Residual implementation")
            }
        }
    };
}
free_residual!(Free1, Residual1, residual1, a: V1);
free_residual!(Free2, Residual2, residual2, a: V1, b: V2);
free_residual!(Free3, Residual3, residual3, a: V1, b: V2, c: V3);
free_residual!(Free4, Residual4, residual4, a: V1, b: V2, c: V3, d: V4);
free_residual!(Free5, Residual5, residual5, a: V1, b: V2, c: V3, d: V4, e: V5);
free_residual!(Free6, Residual6, residual6, a: V1, b: V2, c: V3, d: V4, e: V5, f: V6);
/// insert an arbitrary variable of dimension d
pub fn put_dim(values: &mut Values, k: u64, d: usize) {
    let p = format!("k{k}");
    match d {
        1 => drop(values.insert_unchecked(Sy(k), <VectorVar1 as El>::any(&p))),
        2 => drop(values.insert_unchecked(Sy(k), <VectorVar2 as El>::any(&p))),
        3 => drop(values.insert_unchecked(Sy(k), <SE2 as El>::any(&p))),
        4 => drop(values.insert_unchecked(Sy(k), <VectorVar4 as El>::any(&p))),
        5 => drop(values.insert_unchecked(Sy(k), <VectorVar5 as El>::any(&p))),
        6 => drop(values.insert_unchecked(Sy(k), <SE3 as El>::any(&p))),
        9 => drop(values.insert_unchecked(Sy(k), <VectorVar<9> as El>::any(&p))),
        15 => drop(values.insert_unchecked(Sy(k), <VectorVar<15> as El>::any(&p))),
        _ => panic!("no variable of dimension {d}"),
    }
}

/// any linear whitening
#[derive(Clone, Debug)]
pub struct Whiten<const N: usize>(pub M);
impl<const N: usize> Whiten<N> {
    pub fn any(p: &str) -> Self {
        Whiten(any_mat(p, N, N))
    }
}
impl<const N: usize> fmt::Display for Whiten<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "any")
    }
}
impl<const N: usize> NoiseModel for Whiten<N> {
    type Dim = Const<N>;
    fn whiten_vec(&self, v: VectorX) -> VectorX {
        vx(&mvec(&self.0, v.as_slice()))
    }
    fn whiten_mat(&self, m: MatrixX) -> MatrixX {
        let rows: M = (0..m.nrows()).map(|i| (0..m.ncols()).map(|j| m[(i, j)]).collect()).collect();
        to_mat(&mmul(&self.0, &rows), m.ncols())
    }
}
/// any robust cost: the loss and the weight at the argument it is called with
#[derive(Clone, Debug)]
pub struct Kernel {
    pub loss: dtype,
    /// the weight is the square of this, so that its square root is known
    pub root: dtype,
    pub args: Rc<RefCell<Vec<(&'static str, dtype)>>>,
}
impl Kernel {
    pub fn any(p: &str) -> Self {
        let root = var_tame(&format!("{p}root"), 0.1, 3.0);
        requires(ge(root, q(0.0)));
        Kernel { loss: var(&format!("{p}loss")), root, args: Default::default() }
    }
}
impl RobustCost for Kernel {
    fn loss(&self, d2: dtype) -> dtype {
        self.args.borrow_mut().push(("loss", d2));
        self.loss
    }
    fn weight(&self, d2: dtype) -> dtype {
        self.args.borrow_mut().push(("weight", d2));
        self.root * self.root
    }
}
