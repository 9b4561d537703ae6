//! C01: every variable type is a group, and its elements stay on the manifold.
mod common;
use common::*;

fn group<V: El>() {
    let (a, b, c) = (V::any("a"), V::any("b"), V::any("c"));
    let e = V::identity();
    same("identity composed on the left changes nothing", &e.compose(&a), &a);
    same("identity composed on the right changes nothing", &a.compose(&e), &a);
    same("element times inverse is the identity", &a.compose(&a.inverse()), &e);
    same("inverse times element is the identity", &a.inverse().compose(&a), &e);
    same("inverse of the inverse is the element", &a.inverse().inverse(), &a);
    same("the inverse of a product", &a.compose(&b).inverse(), &b.inverse().compose(&a.inverse()));
    same("composition is associative", &a.compose(&b).compose(&c), &a.compose(&b.compose(&c)));
    ensures_fact("dimension", Variable::dim(&a) == <V as Variable>::DIM && a.obs().len() >= Variable::dim(&a));
}
fn vector<const N: usize>() {
    group::<VectorVar<N>>();
    let (a, b) = (VectorVar::<N>::any("x"), VectorVar::<N>::any("y"));
    ensures_fact("the dimension is the length", <VectorVar<N> as Variable>::DIM == N && Variable::dim(&a) == N);
    for i in 0..N {
        ensures_eq("composition is the sum", a.compose(&b)[i], a.0[i] + b.0[i]);
        ensures_eq("the inverse is the negative", a.inverse()[i], -a.0[i]);
        ensures_eq("the identity is zero", VectorVar::<N>::identity()[i], q(0.0));
    }
}
/// columns of a 2D rotation: (c, s, -s, c) with c^2 + s^2 = 1
fn rot2(label: &str, r: &SO2) {
    let m = r.to_matrix();
    ensures_eq(&format!("{label}: unit"), m[(0, 0)] * m[(0, 0)] + m[(1, 0)] * m[(1, 0)], q(1.0));
    ensures_eq(&format!("{label}: diagonal"), m[(0, 0)], m[(1, 1)]);
    ensures_eq(&format!("{label}: off-diagonal"), m[(0, 1)], -m[(1, 0)]);
}
fn rot3(label: &str, r: &SO3) {
    let n = r.x() * r.x() + r.y() * r.y() + r.z() * r.z() + r.w() * r.w();
    ensures_eq(&format!("{label}: unit norm"), n, q(1.0));
}
fn closed2() {
    let (a, b) = (SO2::any("a"), SO2::any("b"));
    rot2("identity", &SO2::identity());
    rot2("inverse", &a.inverse());
    rot2("product", &a.compose(&b));
    let (a, b) = (SE2::any("c"), SE2::any("d"));
    rot2("SE2 identity", SE2::identity().rot());
    rot2("SE2 inverse", a.inverse().rot());
    rot2("SE2 product", a.compose(&b).rot());
}
fn closed3() {
    let (a, b) = (SO3::any("a"), SO3::any("b"));
    rot3("identity", &SO3::identity());
    rot3("inverse", &a.inverse());
    rot3("product", &a.compose(&b));
    let (a, b) = (SE3::any("c"), SE3::any("d"));
    rot3("SE3 identity", SE3::identity().rot());
    rot3("SE3 inverse", a.inverse().rot());
    rot3("SE3 product", a.compose(&b).rot());
}
fn operators() {
    let (a, b) = (SO2::any("a"), SO2::any("b"));
    same("SO2 * by reference", &(&a * &b), &a.compose(&b));
    same("SO2 * by value", &(a.clone() * b.clone()), &a.compose(&b));
    let (a, b) = (SE2::any("c"), SE2::any("d"));
    same("SE2 * by reference", &(&a * &b), &a.compose(&b));
    same("SE2 * by value", &(a.clone() * b.clone()), &a.compose(&b));
    let (a, b) = (SO3::any("e"), SO3::any("f"));
    same("SO3 * by reference", &(&a * &b), &a.compose(&b));
    same("SO3 * by value", &(a.clone() * b.clone()), &a.compose(&b));
    let (a, b) = (SE3::any("g"), SE3::any("h"));
    same("SE3 * by reference", &(&a * &b), &a.compose(&b));
    same("SE3 * by value", &(a.clone() * b.clone()), &a.compose(&b));
}
fn bias() {
    group::<ImuBias>();
    let (a, b) = (ImuBias::any("x"), ImuBias::any("y"));
    let s: Vec<dtype> = a.obs().iter().zip(b.obs()).map(|(x, y)| *x + y).collect();
    let d: Vec<dtype> = a.obs().iter().zip(b.obs()).map(|(x, y)| *x - y).collect();
    ensures_all_eq("composition is the sum", &a.compose(&b).obs(), &s);
    ensures_all_eq("zeros is the identity", &ImuBias::zeros().obs(), &ImuBias::identity().obs());
    ensures_all_eq("identity is zero", &ImuBias::identity().obs(), &[q(0.0); 6]);
    ensures_all_eq("difference by reference", &(&a - &b).obs(), &d);
    ensures_all_eq("difference by value", &(a - b).obs(), &d);
}
fn construct() {
    // the constructors and accessors the elements above are built and observed with
    let [x, y, z, w] = unit::<4>("q");
    let r = SO3::from_xyzw(x, y, z, w);
    ensures_all_eq("SO3 accessors", &[r.x(), r.y(), r.z(), r.w()], &[x, y, z, w]);
    let r2 = SO3::from_vec(Vector4::new(x, y, z, w));
    ensures_all_eq("SO3 from a vector", &[r2.x(), r2.y(), r2.z(), r2.w()], &[x, y, z, w]);
    let t = vars::<3>("t");
    let p = SE3::from_rot_trans(r, Vector3::new(t[0], t[1], t[2]));
    ensures_all_eq("SE3 rotation", &[p.rot().x(), p.rot().y(), p.rot().z(), p.rot().w()], &[x, y, z, w]);
    ensures_all_eq("SE3 translation", p.xyz().as_slice(), &t);
    let th = var("theta");
    let s = SE2::new(th, t[0], t[1]);
    ensures_all_eq("SE2 translation", &[s.x(), s.y(), s.xy()[0], s.xy()[1]], &[t[0], t[1], t[0], t[1]]);
    ensures_all_eq("SE2 rotation", &s.rot().obs(), &[th.cos(), th.sin(), -th.sin(), th.cos()]);
    ensures_all_eq("SO2 rotation", &SO2::from_theta(th).obs(), &[th.cos(), th.sin(), -th.sin(), th.cos()]);
    let th = var_in("phi", -3.1, 3.1);
    ensures_eq("SO2 angle", SO2::from_theta(th).to_theta(), th);
    ensures_eq("SE2 angle", SE2::new(th, t[0], t[1]).theta(), th);
    let g = vars::<6>("b");
    let b = ImuBias::new(Gyro(Vector3::new(g[0], g[1], g[2])), Accel(Vector3::new(g[3], g[4], g[5])));
    ensures_all_eq("bias accessors", &b.obs(), &g);
}
const K: &[Contract] = &[
    Contract { name: "so2_group", functions: "SO2::{identity, inverse, compose}", bounded: "", run: group::<SO2> },
    Contract { name: "se2_group", functions: "SE2::{identity, inverse, compose}, SO2::apply", bounded: "", run: group::<SE2> },
    Contract { name: "so3_group", functions: "SO3::{identity, inverse, compose}", bounded: "", run: group::<SO3> },
    Contract { name: "se3_group", functions: "SE3::{identity, inverse, compose}, SO3::apply", bounded: "", run: group::<SE3> },
    Contract { name: "vector1_group", functions: "VectorVar<1>::{identity, inverse, compose}", bounded: "", run: vector::<1> },
    Contract { name: "vector2_group", functions: "VectorVar<2>::{identity, inverse, compose}", bounded: "", run: vector::<2> },
    Contract { name: "vector3_group", functions: "VectorVar<3>::{identity, inverse, compose}", bounded: "", run: vector::<3> },
    Contract { name: "vector4_group", functions: "VectorVar<4>::{identity, inverse, compose}", bounded: "", run: vector::<4> },
    Contract { name: "vector5_group", functions: "VectorVar<5>::{identity, inverse, compose}", bounded: "", run: vector::<5> },
    Contract { name: "vector6_group", functions: "VectorVar<6>::{identity, inverse, compose}", bounded: "", run: vector::<6> },
    Contract { name: "vector13_group", functions: "VectorVar<13>::{identity, inverse, compose}", bounded: "", run: vector::<13> },
    Contract { name: "bias_group", functions: "ImuBias::{identity, inverse, compose, zeros, sub}", bounded: "", run: bias },
    Contract { name: "rotations2_closed", functions: "SO2::{identity, inverse, compose}, SE2::{identity, inverse, compose}", bounded: "", run: closed2 },
    Contract { name: "rotations3_closed", functions: "SO3::{identity, inverse, compose}, SE3::{identity, inverse, compose}", bounded: "", run: closed3 },
    Contract { name: "operators", functions: "SO2::mul, SE2::mul, SO3::mul, SE3::mul", bounded: "", run: operators },
    Contract { name: "constructors", functions: "SO2::{from_theta, to_theta}, SE2::{new, x, y, xy, rot, theta}, SO3::{from_xyzw, from_vec, x, y, z, w}, SE3::{from_rot_trans, rot, xyz}, ImuBias::{new, gyro, accel}", bounded: "", run: construct },
];
fn main() {
    run_all(K)
}
