//! Arbitrary elements of every variable type, and what can be observed of them.
#![allow(dead_code, unused_imports)]
pub use factrs::linalg::*;
pub use factrs::residuals::{Accel, Gyro};
pub use factrs::variables::*;
pub use spec::spec::*;
// the contract vocabulary's number type, not the alias of the crate under contract
pub use spec::spec::dtype;

pub trait El: VariableUmbrella + Variable<Alias<dtype> = Self> + 'static {
    /// an arbitrary element (every element of the group is reached)
    fn any(p: &str) -> Self;
    /// the transformation (matrix entries) or the vector this element stands for
    fn obs(&self) -> Vec<dtype>;
    const NAME: &'static str;
}
pub fn vx(v: &[dtype]) -> VectorX {
    VectorX::from_column_slice(v)
}
pub fn any_vec(p: &str, n: usize) -> VectorX {
    vx(&(0..n).map(|i| var(&format!("{p}{i}"))).collect::<Vec<_>>())
}
pub fn zeros(n: usize) -> VectorX {
    vx(&vec![q(0.0); n])
}
pub fn mat_entries<R: DimName, C: DimName>(m: &MatrixDim<R, C>) -> Vec<dtype>
where
    DefaultAllocator: nalgebra::allocator::Allocator<R, C>,
{
    m.iter().cloned().collect()
}
impl El for SO2 {
    const NAME: &'static str = "SO2";
    fn any(p: &str) -> Self {
        SO2::from_theta(var(&format!("{p}.theta")))
    }
    fn obs(&self) -> Vec<dtype> {
        self.to_matrix().iter().cloned().collect()
    }
}
impl El for SE2 {
    const NAME: &'static str = "SE2";
    fn any(p: &str) -> Self {
        SE2::new(var(&format!("{p}.theta")), var(&format!("{p}.x")), var(&format!("{p}.y")))
    }
    fn obs(&self) -> Vec<dtype> {
        let mut o: Vec<dtype> = self.rot().to_matrix().iter().cloned().collect();
        o.push(self.x());
        o.push(self.y());
        o
    }
}
impl El for SO3 {
    const NAME: &'static str = "SO3";
    fn any(p: &str) -> Self {
        let [x, y, z, w] = unit::<4>(&format!("{p}.q"));
        SO3::from_xyzw(x, y, z, w)
    }
    fn obs(&self) -> Vec<dtype> {
        self.to_matrix().iter().cloned().collect()
    }
}
impl El for SE3 {
    const NAME: &'static str = "SE3";
    fn any(p: &str) -> Self {
        let [x, y, z] = vars::<3>(&format!("{p}.t"));
        SE3::from_rot_trans(SO3::any(p), Vector3::new(x, y, z))
    }
    fn obs(&self) -> Vec<dtype> {
        let mut o = self.rot().obs();
        o.extend(self.xyz().iter().cloned());
        o
    }
}
impl<const N: usize> El for VectorVar<N> {
    const NAME: &'static str = "VectorVar";
    fn any(p: &str) -> Self {
        VectorVar(Vector::<N>::from_iterator(vars::<N>(p)))
    }
    fn obs(&self) -> Vec<dtype> {
        self.0.iter().cloned().collect()
    }
}
impl El for ImuBias {
    const NAME: &'static str = "ImuBias";
    fn any(p: &str) -> Self {
        let [a, b, c] = vars::<3>(&format!("{p}.g"));
        let [d, e, f] = vars::<3>(&format!("{p}.a"));
        ImuBias::new(Gyro(Vector3::new(a, b, c)), Accel(Vector3::new(d, e, f)))
    }
    fn obs(&self) -> Vec<dtype> {
        let mut o: Vec<dtype> = self.gyro().iter().cloned().collect();
        o.extend(self.accel().iter().cloned());
        o
    }
}
pub fn same<V: El>(label: &str, a: &V, b: &V) {
    ensures_all_eq(label, &a.obs(), &b.obs());
}
