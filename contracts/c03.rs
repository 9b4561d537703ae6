//! C03: plus, minus and difference on every variable type.
mod common;
use common::*;

fn left() -> bool {
    cfg!(feature = "left")
}
/// definitions, for every element and every tangent vector
fn define<V: El>() {
    let n = <V as Variable>::DIM;
    let x = V::any("x");
    let xi = any_vec("xi", n);
    let e = V::exp(xi.as_view());
    same("right plus", &x.oplus_right(xi.as_view()), &x.compose(&e));
    same("left plus", &x.oplus_left(xi.as_view()), &e.compose(&x));
    let want = if left() { e.compose(&x) } else { x.compose(&e) };
    same("plus is the convention of this build", &x.oplus(xi.as_view()), &want);
    let mut m = x.clone();
    VariableSafe::oplus_mut(&mut m, xi.as_view());
    same("in-place plus", &m, &want);
    let mut b: Box<dyn VariableSafe> = Box::new(x.clone());
    b.oplus_mut(xi.as_view());
    ensures_fact("dynamic dimension", b.dim() == n);
    let c = b.clone();
    match c.downcast_ref::<V>() {
        Some(v) => same("in-place plus through the erased type, cloned", v, &want),
        None => {
            ensures_fact("the erased variable keeps its type", false);
        }
    }
    let y = V::any("y");
    same("difference is the other's inverse times this", &x.minus(&y), &y.inverse().compose(&x));
    same("taking away and putting back", &y.compose(&x.minus(&y)), &x);
    same("plus zero", &x.oplus(zeros(n).as_view()), &x);
    ensures_all_eq("minus itself is zero", x.ominus(&x).as_slice(), zeros(n).as_slice());
}
fn coords(label: &str, a: &VectorX, b: &VectorX) {
    ensures_all_eq(label, a.as_slice(), b.as_slice());
}
/// y differs from x by an arbitrary element d: x = y d (right), x = d y (left)
fn minus<V: El>(d: V) {
    let y = V::any("y");
    let (r, l) = (y.compose(&d), d.compose(&y));
    coords("right minus", &r.ominus_right(&y), &d.log());
    coords("left minus", &l.ominus_left(&y), &d.log());
    let x = if left() { &l } else { &r };
    coords("minus is the convention of this build", &x.ominus(&y), &d.log());
}
fn near(label: &str, a: &[dtype], b: &[dtype]) {
    ensures_fact(&format!("{label}: length"), a.len() == b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensures_near(&format!("{label}[{i}]"), *x, *y, q(1e-6));
    }
}
/// plus and minus undo each other
fn inverse2<V: El>(xi: VectorX) {
    let x = V::any("x");
    near("(x plus xi) minus x is xi", x.oplus(xi.as_view()).ominus(&x).as_slice(), xi.as_slice());
}
fn angle(name: &str) -> dtype {
    let v = pos(name);
    requires(lt(v, pi()));
    match choose("sign of the angle", 3) {
        0 => v,
        1 => -v,
        _ => q(0.0),
    }
}
fn rvec() -> [dtype; 3] {
    let t = pos("t");
    requires(lt(t, pi()));
    let u = unit::<3>("u");
    let t = if choose("zero length", 2) == 1 { q(0.0) } else { t };
    u.map(|x| x * t)
}
fn inv_so2() {
    inverse2::<SO2>(vx(&[angle("a")]));
}
fn inv_se2() {
    let a = angle("a");
    let [x, y] = vars::<2>("p");
    inverse2::<SE2>(vx(&[a, x, y]));
}
fn inv_so3() {
    inverse2::<SO3>(vx(&rvec()));
}
fn inv_se3() {
    let w = rvec();
    requires(ge(w[0] * w[0] + w[1] * w[1] + w[2] * w[2], q(1e-4)));
    let p = vars::<3>("p");
    inverse2::<SE3>(vx(&[w[0], w[1], w[2], p[0], p[1], p[2]]));
}
fn inv_flat<V: El>() {
    let x = V::any("x");
    let y = V::any("y");
    let xi = any_vec("xi", <V as Variable>::DIM);
    coords("(x plus xi) minus x is xi", &x.oplus(xi.as_view()).ominus(&x), &xi);
    same("y plus (x minus y) is x", &y.oplus(x.ominus(&y).as_view()), &x);
    let d: Vec<dtype> = x.obs().iter().zip(y.obs()).map(|(a, b)| *a - b).collect();
    ensures_all_eq("minus is the difference", x.ominus(&y).as_slice(), &d);
}
fn back<V: El>(d: V) {
    let y = V::any("y");
    let x = if left() { d.compose(&y) } else { y.compose(&d) };
    near("y plus (x minus y) is x", &y.oplus(x.ominus(&y).as_view()).obs(), &x.obs());
}
/// every rotation
fn rotation() -> SO3 {
    let (h, u) = (pos("h"), unit::<3>("u"));
    requires(le(h * q(2.0), pi()));
    let h = if choose("zero length", 2) == 1 { q(0.0) } else { h };
    let sgn = q(if choose("sign of the quaternion", 2) == 0 { 1.0 } else { -1.0 });
    let s = sgn * h.sin();
    SO3::from_xyzw(u[0] * s, u[1] * s, u[2] * s, sgn * h.cos())
}
fn minus_so2() {
    minus(SO2::any("d"));
}
fn minus_se2() {
    minus(SE2::any("d"));
}
fn minus_so3() {
    minus(rotation());
}
fn minus_se3() {
    let [a, b, c] = vars::<3>("p");
    minus(SE3::from_rot_trans(rotation(), Vector3::new(a, b, c)));
}
fn back_so2() {
    back(SO2::any("d"));
}
fn back_se2() {
    back(SE2::any("d"));
}
fn back_so3() {
    back(rotation());
}
const K: &[Contract] = &[
    Contract { name: "so2_define", functions: "SO2::{oplus, oplus_right, oplus_left, oplus_mut, ominus, minus}", bounded: "", run: define::<SO2> },
    Contract { name: "se2_define", functions: "SE2::{oplus, oplus_right, oplus_left, oplus_mut, ominus, minus}", bounded: "", run: define::<SE2> },
    Contract { name: "so3_define", functions: "SO3::{oplus, oplus_right, oplus_left, oplus_mut, ominus, minus}", bounded: "", run: define::<SO3> },
    Contract { name: "se3_define", functions: "SE3::{oplus, oplus_right, oplus_left, oplus_mut, ominus, minus}", bounded: "", run: define::<SE3> },
    Contract { name: "vector3_define", functions: "VectorVar<3>::{oplus, oplus_right, oplus_left, oplus_mut, ominus, minus}", bounded: "", run: define::<VectorVar3> },
    Contract { name: "vector6_define", functions: "VectorVar<6>::{oplus, oplus_right, oplus_left, oplus_mut, ominus, minus}", bounded: "", run: define::<VectorVar6> },
    Contract { name: "vector13_define", functions: "VectorVar<13>::{oplus, oplus_right, oplus_left, oplus_mut, ominus, minus}", bounded: "", run: define::<VectorVar<13>> },
    Contract { name: "bias_define", functions: "ImuBias::{oplus, oplus_right, oplus_left, oplus_mut, ominus, minus}", bounded: "", run: define::<ImuBias> },
    Contract { name: "so2_minus", functions: "SO2::{ominus, ominus_right, ominus_left}", bounded: "", run: minus_so2 },
    Contract { name: "se2_minus", functions: "SE2::{ominus, ominus_right, ominus_left}", bounded: "", run: minus_se2 },
    Contract { name: "so3_minus", functions: "SO3::{ominus, ominus_right, ominus_left}", bounded: "", run: minus_so3 },
    Contract { name: "se3_minus", functions: "SE3::{ominus, ominus_right, ominus_left}", bounded: "", run: minus_se3 },
    Contract { name: "so2_inverse", functions: "SO2::{oplus, ominus}", bounded: "", run: inv_so2 },
    Contract { name: "se2_inverse", functions: "SE2::{oplus, ominus}", bounded: "", run: inv_se2 },
    Contract { name: "so3_inverse", functions: "SO3::{oplus, ominus}", bounded: "", run: inv_so3 },
    Contract { name: "se3_inverse", functions: "SE3::{oplus, ominus}", bounded: "", run: inv_se3 },
    Contract { name: "vector1_inverse", functions: "VectorVar<1>::{oplus, ominus}", bounded: "", run: inv_flat::<VectorVar1> },
    Contract { name: "vector2_inverse", functions: "VectorVar<2>::{oplus, ominus}", bounded: "", run: inv_flat::<VectorVar2> },
    Contract { name: "vector4_inverse", functions: "VectorVar<4>::{oplus, ominus}", bounded: "", run: inv_flat::<VectorVar4> },
    Contract { name: "vector5_inverse", functions: "VectorVar<5>::{oplus, ominus}", bounded: "", run: inv_flat::<VectorVar5> },
    Contract { name: "vector6_inverse", functions: "VectorVar<6>::{oplus, ominus}", bounded: "", run: inv_flat::<VectorVar6> },
    Contract { name: "vector13_inverse", functions: "VectorVar<13>::{oplus, ominus}", bounded: "", run: inv_flat::<VectorVar<13>> },
    Contract { name: "bias_inverse", functions: "ImuBias::{oplus, ominus}", bounded: "", run: inv_flat::<ImuBias> },
    Contract { name: "so2_back", functions: "SO2::{oplus, ominus}", bounded: "", run: back_so2 },
    Contract { name: "se2_back", functions: "SE2::{oplus, ominus}", bounded: "", run: back_se2 },
    Contract { name: "so3_back", functions: "SO3::{oplus, ominus}", bounded: "", run: back_so3 },
];
fn main() {
    run_all(K)
}
