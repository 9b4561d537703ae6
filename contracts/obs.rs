//! What can be observed of an element over any number type, and how it moves along each tangent direction.
#![allow(dead_code)]
use crate::common::*;

pub fn left() -> bool {
    cfg!(feature = "left")
}
pub trait Obs: El {
    fn dobs<T: Numeric>(x: &<Self as Variable>::Alias<T>) -> Vec<T>;
    /// d/dt obs(x plus t e_k) at t = 0
    fn slope(&self, k: usize) -> Vec<dtype>;
}
type M = Vec<Vec<dtype>>;
fn z(n: usize) -> M {
    vec![vec![q(0.0); n]; n]
}
fn mul(a: &M, b: &M) -> M {
    let n = a.len();
    let mut o = z(n);
    for i in 0..n {
        for j in 0..n {
            let mut s = q(0.0);
            for k in 0..n {
                s = s + a[i][k] * b[k][j];
            }
            o[i][j] = s;
        }
    }
    o
}
/// generator of the k-th tangent coordinate (rotation coordinates first), as a homogeneous matrix
fn gen2(k: usize) -> M {
    let mut g = z(3);
    match k {
        0 => {
            g[0][1] = q(-1.0);
            g[1][0] = q(1.0)
        }
        _ => g[k - 1][2] = q(1.0),
    }
    g
}
fn gen3(k: usize) -> M {
    let mut g = z(4);
    if k < 3 {
        let (a, b) = ((k + 1) % 3, (k + 2) % 3);
        g[b][a] = q(1.0);
        g[a][b] = q(-1.0);
    } else {
        g[k - 3][3] = q(1.0);
    }
    g
}
fn hom(rot: &[dtype], t: &[dtype]) -> M {
    let n = t.len();
    let mut m = z(n + 1);
    for i in 0..n {
        for j in 0..n {
            m[i][j] = rot[j * n + i];
        }
        m[i][n] = t[i];
    }
    m[n][n] = q(1.0);
    m
}
fn entries(m: &M, trans: bool) -> Vec<dtype> {
    let n = m.len() - 1;
    let mut o = vec![];
    for j in 0..n {
        for i in 0..n {
            o.push(m[i][j]);
        }
    }
    if trans {
        for i in 0..n {
            o.push(m[i][n]);
        }
    }
    o
}
fn moved(x: &M, g: &M, trans: bool) -> Vec<dtype> {
    entries(&if left() { mul(g, x) } else { mul(x, g) }, trans)
}
impl Obs for SO2 {
    fn dobs<T: Numeric>(x: &SO2<T>) -> Vec<T> {
        x.to_matrix().iter().cloned().collect()
    }
    fn slope(&self, k: usize) -> Vec<dtype> {
        moved(&hom(&self.obs(), &[q(0.0), q(0.0)]), &gen2(k), false)
    }
}
impl Obs for SE2 {
    fn dobs<T: Numeric>(x: &SE2<T>) -> Vec<T> {
        let mut o: Vec<T> = x.rot().to_matrix().iter().cloned().collect();
        o.push(x.x());
        o.push(x.y());
        o
    }
    fn slope(&self, k: usize) -> Vec<dtype> {
        moved(&hom(&self.rot().obs(), &[self.x(), self.y()]), &gen2(k), true)
    }
}
impl Obs for SO3 {
    fn dobs<T: Numeric>(x: &SO3<T>) -> Vec<T> {
        x.to_matrix().iter().cloned().collect()
    }
    fn slope(&self, k: usize) -> Vec<dtype> {
        moved(&hom(&self.obs(), &[q(0.0); 3]), &gen3(k), false)
    }
}
impl Obs for SE3 {
    fn dobs<T: Numeric>(x: &SE3<T>) -> Vec<T> {
        let mut o: Vec<T> = x.rot().to_matrix().iter().cloned().collect();
        o.extend(x.xyz().iter().cloned());
        o
    }
    fn slope(&self, k: usize) -> Vec<dtype> {
        moved(&hom(&self.rot().obs(), self.xyz().as_slice()), &gen3(k), true)
    }
}
impl<const N: usize> Obs for VectorVar<N> {
    fn dobs<T: Numeric>(x: &VectorVar<N, T>) -> Vec<T> {
        x.0.iter().cloned().collect()
    }
    fn slope(&self, k: usize) -> Vec<dtype> {
        (0..N).map(|i| q(if i == k { 1.0 } else { 0.0 })).collect()
    }
}
impl Obs for ImuBias {
    fn dobs<T: Numeric>(x: &ImuBias<T>) -> Vec<T> {
        let mut o: Vec<T> = x.gyro().iter().cloned().collect();
        o.extend(x.accel().iter().cloned());
        o
    }
    fn slope(&self, k: usize) -> Vec<dtype> {
        (0..6).map(|i| q(if i == k { 1.0 } else { 0.0 })).collect()
    }
}
/// A user-defined variable that relies on every default of the variable trait.
#[derive(Clone)]
pub struct Own<T: Numeric = factrs::dtype> {
    pub p: SE3<T>,
}
#[factrs::mark]
impl<T: Numeric> Variable<T> for Own<T> {
    type Dim = nalgebra::Const<6>;
    type Alias<TT: Numeric> = Own<TT>;
    fn identity() -> Self {
        Own { p: SE3::identity() }
    }
    fn inverse(&self) -> Self {
        Own { p: self.p.inverse() }
    }
    fn compose(&self, other: &Self) -> Self {
        Own { p: self.p.compose(&other.p) }
    }
    fn exp(xi: VectorViewX<T>) -> Self {
        Own { p: SE3::exp(xi) }
    }
    fn log(&self) -> VectorX<T> {
        self.p.log()
    }
    fn dual_convert<TT: Numeric>(other: &Self::Alias<factrs::dtype>) -> Self::Alias<TT> {
        Own { p: SE3::<T>::dual_convert(&other.p) }
    }
}
impl<T: Numeric> std::fmt::Display for Own<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Own")
    }
}
impl<T: Numeric> std::fmt::Debug for Own<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Own")
    }
}
impl El for Own {
    const NAME: &'static str = "user-defined";
    fn any(p: &str) -> Self {
        Own { p: SE3::any(p) }
    }
    fn obs(&self) -> Vec<dtype> {
        self.p.obs()
    }
}
impl Obs for Own {
    fn dobs<T: Numeric>(x: &Own<T>) -> Vec<T> {
        SE3::dobs(&x.p)
    }
    fn slope(&self, k: usize) -> Vec<dtype> {
        self.p.slope(k)
    }
}
