//! C04: the matrix view of the rotation and rigid-body groups.
mod common;
use common::*;

/// what every matrix group must satisfy (macro: the dimensions are types)
macro_rules! group {
    ($f:ident, $g:ident, $n:literal, $m:literal, $v:literal) => {
        fn $f() {
            let (a, b) = ($g::any("a"), $g::any("b"));
            let (ma, mb) = (a.to_matrix(), b.to_matrix());
            let id = Matrix::<$m, $m>::identity();
            let all = |m: &Matrix<$m, $m>| m.iter().cloned().collect::<Vec<dtype>>();
            ensures_all_eq("the matrix of a product is the product of the matrices", &all(&a.compose(&b).to_matrix()), &all(&(ma * mb)));
            ensures_all_eq("the matrix of the identity", &all(&$g::identity().to_matrix()), &all(&id));
            ensures_all_eq("the matrix of the inverse", &all(&(a.inverse().to_matrix() * ma)), &all(&id));
            // points
            let p = vars::<$v>("p");
            let pv = Vector::<$v>::from_iterator(p);
            let got = a.apply(pv.as_view());
            for i in 0..$v {
                let mut s = if $m > $v { ma[(i, $m - 1)] } else { q(0.0) };
                for j in 0..$v {
                    s = s + ma[(i, j)] * p[j];
                }
                ensures_eq("applying is multiplying by the matrix", got[i], s);
            }
            if $m > $v {
                for j in 0..$m {
                    ensures_eq("last row of the matrix", ma[($m - 1, j)], q(if j == $m - 1 { 1.0 } else { 0.0 }));
                }
            }
            // hat, vee
            let xi = vars::<$n>("xi");
            let xv = Vector::<$n>::from_iterator(xi);
            let h = $g::hat(xv.as_view());
            ensures_all_eq("vee undoes hat", $g::vee(h.as_view()).as_slice(), &xi);
            let again = $g::hat($g::vee(h.as_view()).as_view());
            ensures_all_eq("hat undoes vee", &all(&again), &all(&h));
            // hat_swap
            let sw = $g::hat_swap(pv.as_view());
            for i in 0..$v {
                let mut l = if $m > $v { h[(i, $m - 1)] } else { q(0.0) };
                for j in 0..$v {
                    l = l + h[(i, j)] * p[j];
                }
                let mut r = q(0.0);
                for j in 0..$n {
                    r = r + sw[(i, j)] * xi[j];
                }
                ensures_eq("hat(xi) p = hat_swap(p) xi", l, r);
            }
            // adjoint
            let ad = a.adjoint();
            let moved = Vector::<$n>::from_iterator((0..$n).map(|i| {
                let mut s = q(0.0);
                for j in 0..$n {
                    s = s + ad[(i, j)] * xi[j];
                }
                s
            }));
            let l = $g::hat(moved.as_view());
            let r = ma * h * a.inverse().to_matrix();
            ensures_all_eq("hat(Ad xi) = X hat(xi) X^-1", &all(&l), &all(&r));
            // products of adjoints
            let l = a.compose(&b).adjoint();
            let r = ad * b.adjoint();
            ensures_all_eq("the adjoint of a product is the product", l.as_slice(), r.as_slice());
        }
    };
}
group!(so2, SO2, 1, 2, 2);
group!(se2, SE2, 3, 3, 2);
group!(so3, SO3, 3, 3, 3);
group!(se3, SE3, 6, 4, 3);

fn zero() -> dtype {
    q(0.0)
}
fn hats() {
    let x = vars::<6>("x");
    let z = zero();
    let col = |m: &[dtype]| m.to_vec();
    let h = SO2::hat(Vector1::new(x[0]).as_view());
    ensures_all_eq("SO2 hat", h.as_slice(), &col(&[z, x[0], -x[0], z]));
    let h = SE2::hat(Vector3::new(x[0], x[1], x[2]).as_view());
    ensures_all_eq("SE2 hat", h.as_slice(), &[z, x[0], z, -x[0], z, z, x[1], x[2], z]);
    let h = SO3::hat(Vector3::new(x[0], x[1], x[2]).as_view());
    ensures_all_eq("SO3 hat", h.as_slice(), &[z, x[2], -x[1], -x[2], z, x[0], x[1], -x[0], z]);
    let h = SE3::hat(Vector6::new(x[0], x[1], x[2], x[3], x[4], x[5]).as_view());
    ensures_all_eq("SE3 hat", h.as_slice(), &[z, x[2], -x[1], z, -x[2], z, x[0], z, x[1], -x[0], z, z, x[3], x[4], x[5], z]);
}
/// the matrix represents the same rotation as the group's angle / quaternion / translation
fn meaning2() {
    let t = var("theta");
    let m = SO2::from_theta(t).to_matrix();
    ensures_all_eq("SO2 matrix", m.as_slice(), &[t.cos(), t.sin(), -t.sin(), t.cos()]);
    let [x, y] = vars::<2>("p");
    let m = SE2::new(t, x, y).to_matrix();
    ensures_all_eq("SE2 matrix", m.as_slice(), &[t.cos(), t.sin(), zero(), -t.sin(), t.cos(), zero(), x, y, q(1.0)]);
}
fn rot_of_quaternion(x: dtype, y: dtype, z: dtype, w: dtype) -> [dtype; 9] {
    let two = q(2.0);
    let one = q(1.0);
    [
        one - two * (y * y + z * z), two * (x * y + w * z), two * (x * z - w * y),
        two * (x * y - w * z), one - two * (x * x + z * z), two * (y * z + w * x),
        two * (x * z + w * y), two * (y * z - w * x), one - two * (x * x + y * y),
    ]
}
fn meaning3() {
    let [x, y, z, w] = unit::<4>("q");
    let t = vars::<3>("t");
    let r = rot_of_quaternion(x, y, z, w);
    let so = SO3::from_xyzw(x, y, z, w);
    ensures_all_eq("SO3 matrix", so.to_matrix().as_slice(), &r);
    let m = SE3::from_rot_trans(so, Vector3::new(t[0], t[1], t[2])).to_matrix();
    let (o, i) = (zero(), q(1.0));
    ensures_all_eq("SE3 matrix", m.as_slice(), &[r[0], r[1], r[2], o, r[3], r[4], r[5], o, r[6], r[7], r[8], o, t[0], t[1], t[2], i]);
}
fn from2() {
    let a = SO2::any("a");
    same("SO2 from its matrix", &SO2::from_matrix(a.to_matrix().as_view()), &a);
    let b = SE2::any("b");
    same("SE2 from its matrix", &SE2::from_matrix(b.to_matrix().as_view()), &b);
}
fn from3() {
    let a = SO3::any("a");
    let b = SO3::from_matrix(a.to_matrix().as_view());
    same("SO3 from its matrix", &b, &a);
    ensures_eq("unit norm", b.x() * b.x() + b.y() * b.y() + b.z() * b.z() + b.w() * b.w(), q(1.0));
}
fn from3t() {
    let b = SE3::any("b");
    same("SE3 from its matrix", &SE3::from_matrix(b.to_matrix().as_view()), &b);
}
const K: &[Contract] = &[
    Contract { name: "so2", functions: "SO2::{to_matrix, apply, hat, vee, hat_swap, adjoint}", bounded: "", run: so2 },
    Contract { name: "se2", functions: "SE2::{to_matrix, apply, hat, vee, hat_swap, adjoint}", bounded: "", run: se2 },
    Contract { name: "so3", functions: "SO3::{to_matrix, apply, hat, vee, hat_swap, adjoint}", bounded: "", run: so3 },
    Contract { name: "se3", functions: "SE3::{to_matrix, apply, hat, vee, hat_swap, adjoint}", bounded: "", run: se3 },
    Contract { name: "hats", functions: "SO2::hat, SE2::hat, SO3::hat, SE3::hat", bounded: "", run: hats },
    Contract { name: "matrix2", functions: "SO2::to_matrix, SE2::to_matrix", bounded: "", run: meaning2 },
    Contract { name: "matrix3", functions: "SO3::to_matrix, SE3::to_matrix", bounded: "", run: meaning3 },
    Contract { name: "from_matrix2", functions: "SO2::from_matrix, SE2::from_matrix", bounded: "", run: from2 },
    Contract { name: "from_matrix_so3", functions: "SO3::from_matrix", bounded: "", run: from3 },
    Contract { name: "from_matrix_se3", functions: "SE3::from_matrix", bounded: "", run: from3t },
];
fn main() {
    run_all(K)
}
