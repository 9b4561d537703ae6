//! C02: exponential and logarithm maps.
mod common;
use common::*;

const TOL: f64 = 1e-7;
fn near_all(label: &str, a: &[dtype], b: &[dtype]) {
    ensures_fact(&format!("{label}: length"), a.len() == b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensures_near(&format!("{label}[{i}]"), *x, *y, q(TOL));
    }
}
/// an arbitrary nonnegative length, 0 included
fn length(name: &str) -> dtype {
    let v = pos(name);
    if choose("zero length", 2) == 1 { q(0.0) } else { v }
}
/// an arbitrary signed angle
fn angle(name: &str) -> dtype {
    let v = pos(name);
    match choose("sign of the angle", 3) {
        0 => v,
        1 => -v,
        _ => q(0.0),
    }
}
fn below_pi(t: dtype) {
    requires(lt(t, pi()));
    requires(lt(-pi(), t));
}
// ------------------------------------------------------------ vectors, bias
fn flat<V: El>() {
    let n = <V as Variable>::DIM;
    let xi = any_vec("xi", n);
    let e = V::exp(xi.as_view());
    ensures_all_eq("exp is the vector itself", &e.obs(), xi.as_slice());
    ensures_all_eq("log undoes exp", e.log().as_slice(), xi.as_slice());
    let x = V::any("x");
    ensures_all_eq("log is the vector itself", x.log().as_slice(), &x.obs());
    same("exp undoes log", &V::exp(x.log().as_view()), &x);
}
// ------------------------------------------------------------ SO2
fn so2_exp() {
    let t = angle("t");
    let e = SO2::exp(vx(&[t]).as_view());
    ensures_all_eq("exp is the rotation by the angle", &e.obs(), &[t.cos(), t.sin(), -t.sin(), t.cos()]);
    let m = SO2::exp(vx(&[-t]).as_view());
    same("exp of the negative is the inverse", &m, &e.inverse());
}
fn so2_log_exp() {
    let t = angle("t");
    below_pi(t);
    ensures_all_eq("log undoes exp", SO2::exp(vx(&[t]).as_view()).log().as_slice(), &[t]);
}
fn so2_exp_log() {
    let x = SO2::any("x");
    let l = x.log();
    ensures_fact("one coordinate", l.len() == 1);
    ensures("log is above -pi", gt(l[0], -pi()));
    ensures("log is at most pi", le(l[0], pi()));
    same("exp undoes log", &SO2::exp(l.as_view()), &x);
}
// ------------------------------------------------------------ SE2
/// the columns of V(t) for the translation part
fn v2(t: dtype) -> [[dtype; 2]; 2] {
    if split(eq(t, q(0.0))) {
        return [[q(1.0), q(0.0)], [q(0.0), q(1.0)]];
    }
    let (a, b) = (t.sin() / t, (q(1.0) - t.cos()) / t);
    [[a, b], [-b, a]]
}
fn se2_exp() {
    let t = angle("t");
    for (i, r) in [[q(1.0), q(0.0)], [q(0.0), q(1.0)]].iter().enumerate() {
        let e = SE2::exp(vx(&[t, r[0], r[1]]).as_view());
        ensures_all_eq("rotation", &e.rot().obs(), &[t.cos(), t.sin(), -t.sin(), t.cos()]);
        near_all("translation of a unit tangent", &[e.x(), e.y()], &v2(t)[i]);
    }
}
fn se2_exp_linear() {
    let t = angle("t");
    let [x, y, u, v, k] = vars::<5>("p");
    let f = |a: dtype, b: dtype| {
        let e = SE2::exp(vx(&[t, a, b]).as_view());
        [e.x(), e.y()]
    };
    let (p, r, s) = (f(x, y), f(u, v), f(x + k * u, y + k * v));
    ensures_all_eq("the translation is linear in its tangent", &s, &[p[0] + k * r[0], p[1] + k * r[1]]);
    let e = SE2::exp(vx(&[t, x, y]).as_view());
    let m = SE2::exp(vx(&[-t, -x, -y]).as_view());
    near_all("exp of the negative is the inverse: rotation", &m.rot().obs(), &e.rot().inverse().obs());
}
fn se2_negative() {
    let t = angle("t");
    for r in [[q(1.0), q(0.0)], [q(0.0), q(1.0)]] {
        let e = SE2::exp(vx(&[t, r[0], r[1]]).as_view());
        let m = SE2::exp(vx(&[-t, -r[0], -r[1]]).as_view());
        near_all("exp of the negative is the inverse", &m.obs(), &e.inverse().obs());
    }
}
fn se2_log_exp() {
    let t = angle("t");
    below_pi(t);
    let [x, y] = vars::<2>("p");
    let l = SE2::exp(vx(&[t, x, y]).as_view()).log();
    ensures_all_eq("log undoes exp", l.as_slice(), &[t, x, y]);
}
fn se2_exp_log() {
    let x = SE2::any("x");
    let l = x.log();
    ensures_fact("three coordinates", l.len() == 3);
    ensures("angle above -pi", gt(l[0], -pi()));
    ensures("angle at most pi", le(l[0], pi()));
    same("exp undoes log", &SE2::exp(l.as_view()), &x);
}
// ------------------------------------------------------------ SO3
fn axis() -> [dtype; 3] {
    unit::<3>("u")
}
/// Rodrigues' formula, column by column
fn rodrigues(t: dtype, u: [dtype; 3]) -> Vec<dtype> {
    let (s, c) = (t.sin(), t.cos());
    let h = q(1.0) - c;
    let z = q(0.0);
    let k = [[z, -u[2], u[1]], [u[2], z, -u[0]], [-u[1], u[0], z]];
    let mut o = vec![];
    for j in 0..3 {
        for i in 0..3 {
            let id = if i == j { c } else { z };
            o.push(id + s * k[i][j] + h * u[i] * u[j]);
        }
    }
    o
}
fn scaled(t: dtype, u: [dtype; 3]) -> [dtype; 3] {
    u.map(|x| x * t)
}
fn so3_exp() {
    let (t, u) = (length("t"), axis());
    let e = SO3::exp(vx(&scaled(t, u)).as_view());
    near_all("exp is the rotation about the axis by the angle", &e.obs(), &rodrigues(t, u));
    ensures_near("unit norm", e.x() * e.x() + e.y() * e.y() + e.z() * e.z() + e.w() * e.w(), q(1.0), q(1e-12));
    let m = SO3::exp(vx(&scaled(-t, u)).as_view());
    near_all("exp of the negative is the inverse", &m.obs(), &e.inverse().obs());
}
fn so3_log_exp() {
    let (t, u) = (length("t"), axis());
    below_pi(t);
    let l = SO3::exp(vx(&scaled(t, u)).as_view()).log();
    near_all("log undoes exp", l.as_slice(), &scaled(t, u));
}
/// every rotation: +-(u sin(h), cos(h)) with 0 <= h <= pi/2 (h half the angle); `closed` includes the half turn
fn rotation(closed: bool) -> (SO3, dtype, [dtype; 3]) {
    let (h, u) = (length("h"), axis());
    requires(if closed { le(h * q(2.0), pi()) } else { lt(h * q(2.0), pi()) });
    let sgn = q(if choose("sign of the quaternion", 2) == 0 { 1.0 } else { -1.0 });
    let s = sgn * h.sin();
    (SO3::from_xyzw(u[0] * s, u[1] * s, u[2] * s, sgn * h.cos()), h, u)
}
fn so3_log() {
    let (x, h, u) = rotation(false);
    let l = x.log();
    near_all("log is the axis times the angle", l.as_slice(), &scaled(h * q(2.0), u));
}
fn so3_exp_log() {
    let (x, _, _) = rotation(true);
    let l = x.log();
    ensures_fact("three coordinates", l.len() == 3);
    near_all("exp undoes log", &SO3::exp(l.as_view()).obs(), &x.obs());
}
/// quaternions with scalar part exactly zero
fn half_turn() {
    let u = axis();
    let x = SO3::from_xyzw(u[0], u[1], u[2], q(0.0));
    let l = x.log();
    ensures_eq("the log of a half turn has length pi", l[0] * l[0] + l[1] * l[1] + l[2] * l[2], pi() * pi());
    near_all("exp undoes log", &SO3::exp(l.as_view()).obs(), &x.obs());
    let p = vars::<3>("p");
    let y = SE3::from_rot_trans(x, Vector3::new(p[0], p[1], p[2]));
    let l = y.log();
    let e = SE3::exp(l.as_view());
    near_all("exp undoes log: rotation", &e.rot().obs(), &y.rot().obs());
    ensures_all_eq("exp undoes log: translation", e.xyz().as_slice(), y.xyz().as_slice());
    let m = SO2::from_matrix(Matrix2::new(q(-1.0), q(0.0), q(0.0), q(-1.0)).as_view());
    let l = m.log();
    ensures_eq("the log of a planar half turn has length pi", l[0] * l[0], pi() * pi());
    same("exp undoes log of a planar half turn", &SO2::exp(l.as_view()), &m);
}
fn so3_log_length() {
    let x = SO3::any("x");
    let l = x.log();
    let n2 = l[0] * l[0] + l[1] * l[1] + l[2] * l[2];
    ensures("log is no longer than pi", le(n2, pi() * pi()));
}
fn so3_log_sign() {
    let x = SO3::any("x");
    requires(ne(x.w(), q(0.0)));
    let m = SO3::from_xyzw(-x.x(), -x.y(), -x.z(), -x.w());
    near_all("the two quaternions of a rotation have one log", m.log().as_slice(), x.log().as_slice());
}
// ------------------------------------------------------------ SE3
fn hat3(w: [dtype; 3]) -> [[dtype; 3]; 3] {
    let z = q(0.0);
    [[z, -w[2], w[1]], [w[2], z, -w[0]], [-w[1], w[0], z]]
}
/// column j of V(t u) = I + (1-cos t)/t [u] + (t - sin t)/t [u]^2
fn v3(t: dtype, u: [dtype; 3], j: usize) -> [dtype; 3] {
    let k = hat3(u);
    if split(eq(t, q(0.0))) {
        return std::array::from_fn(|i| q(if i == j { 1.0 } else { 0.0 }));
    }
    let (b, c) = ((q(1.0) - t.cos()) / t, (t - t.sin()) / t);
    std::array::from_fn(|i| {
        let mut s = q(if i == j { 1.0 } else { 0.0 }) + b * k[i][j];
        for l in 0..3 {
            s = s + c * k[i][l] * k[l][j];
        }
        s
    })
}
fn tangent(t: dtype, u: [dtype; 3], r: [dtype; 3]) -> VectorX {
    let w = scaled(t, u);
    vx(&[w[0], w[1], w[2], r[0], r[1], r[2]])
}
fn basis(j: usize) -> [dtype; 3] {
    std::array::from_fn(|i| q(if i == j { 1.0 } else { 0.0 }))
}
fn se3_exp<const J: usize>() {
    let (t, u) = (length("t"), axis());
    let e = SE3::exp(tangent(t, u, basis(J)).as_view());
    near_all("rotation", &e.rot().obs(), &rodrigues(t, u));
    near_all("translation of a unit tangent", e.xyz().as_slice(), &v3(t, u, J));
}
fn se3_exp_linear() {
    let (t, u) = (length("t"), axis());
    let (a, b, k) = (vars::<3>("a"), vars::<3>("b"), var("k"));
    let f = |r: [dtype; 3]| SE3::exp(tangent(t, u, r).as_view());
    let (p, r) = (f(a), f(b));
    let s = f(std::array::from_fn(|i| a[i] + k * b[i]));
    let want: Vec<dtype> = (0..3).map(|i| p.xyz()[i] + k * r.xyz()[i]).collect();
    ensures_all_eq("the translation is linear in its tangent", s.xyz().as_slice(), &want);
    ensures_all_eq("the rotation ignores the translation tangent", &s.rot().obs(), &p.rot().obs());
}
fn se3_log_exp() {
    let (t, u) = (length("t"), axis());
    below_pi(t);
    let r = vars::<3>("p");
    let x = tangent(t, u, r);
    let l = SE3::exp(x.as_view()).log();
    ensures_fact("six coordinates", l.len() == 6);
    near_all("log undoes exp: rotation", &l.as_slice()[..3], &x.as_slice()[..3]);
    if split(ge(t, q(0.01))) {
        ensures_all_eq("log undoes exp: translation", &l.as_slice()[3..], &r);
    }
}
fn se3_log_exp_small<const J: usize>() {
    let (t, u) = (length("t"), axis());
    requires(le(t, q(0.02)));
    let l = SE3::exp(tangent(t, u, basis(J)).as_view()).log();
    near_all("log undoes exp near zero: translation", &l.as_slice()[3..], &basis(J));
}
fn se3_exp_log() {
    let (r, _, _) = rotation(true);
    let [a, b, c] = vars::<3>("p");
    let x = SE3::from_rot_trans(r, Vector3::new(a, b, c));
    let l = x.log();
    let e = SE3::exp(l.as_view());
    near_all("exp undoes log: rotation", &e.rot().obs(), &x.rot().obs());
    ensures_all_eq("exp undoes log: translation", e.xyz().as_slice(), x.xyz().as_slice());
}
fn so3_dexp() {
    let w = vars::<3>("w");
    let n2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2];
    requires(ge(n2, q(1e-6)));
    let d = SO3::dexp(Vector3::new(w[0], w[1], w[2]).as_view());
    let rt: Vec<dtype> = SO3::exp(vx(&w).as_view()).inverse().obs();
    for j in 0..3 {
        let dr = derivatives(
            |x| {
                let mut y = w;
                y[j] = x;
                SO3::exp(vx(&y).as_view()).obs()
            },
            w[j],
        );
        // R^T dR, column-major 3x3
        let m = |r: usize, c: usize| {
            let mut s = q(0.0);
            for k in 0..3 {
                s = s + rt[k * 3 + r] * dr[c * 3 + k];
            }
            s
        };
        ensures_eq("right Jacobian: x", m(2, 1), d[(0, j)]);
        ensures_eq("right Jacobian: y", m(0, 2), d[(1, j)]);
        ensures_eq("right Jacobian: z", m(1, 0), d[(2, j)]);
    }
}
fn so3_dexp_small() {
    let (t, u) = (length("t"), axis());
    requires(lt(t, q(1e-2)));
    let w = scaled(t, u);
    let d = SO3::dexp(Vector3::new(w[0], w[1], w[2]).as_view());
    for j in 0..3 {
        // right Jacobian = V(-t u)
        let v = v3(t, u.map(|x| -x), j);
        near_all("right Jacobian near zero", &[d[(0, j)], d[(1, j)], d[(2, j)]], &v);
    }
}
const K: &[Contract] = &[
    Contract { name: "vector1", functions: "VectorVar<1>::{exp, log}", bounded: "", run: flat::<VectorVar1> },
    Contract { name: "vector2", functions: "VectorVar<2>::{exp, log}", bounded: "", run: flat::<VectorVar2> },
    Contract { name: "vector3", functions: "VectorVar<3>::{exp, log}", bounded: "", run: flat::<VectorVar3> },
    Contract { name: "vector4", functions: "VectorVar<4>::{exp, log}", bounded: "", run: flat::<VectorVar4> },
    Contract { name: "vector5", functions: "VectorVar<5>::{exp, log}", bounded: "", run: flat::<VectorVar5> },
    Contract { name: "vector6", functions: "VectorVar<6>::{exp, log}", bounded: "", run: flat::<VectorVar6> },
    Contract { name: "vector13", functions: "VectorVar<13>::{exp, log}", bounded: "", run: flat::<VectorVar<13>> },
    Contract { name: "bias", functions: "ImuBias::{exp, log}", bounded: "", run: flat::<ImuBias> },
    Contract { name: "so2_exp", functions: "SO2::exp", bounded: "", run: so2_exp },
    Contract { name: "so2_log_exp", functions: "SO2::{exp, log}", bounded: "", run: so2_log_exp },
    Contract { name: "half_turn", functions: "SO2::{exp, log}, SO3::{exp, log}, SE3::{exp, log}", bounded: "", run: half_turn },
    Contract { name: "so2_exp_log", functions: "SO2::{exp, log}", bounded: "", run: so2_exp_log },
    Contract { name: "se2_exp", functions: "SE2::exp", bounded: "", run: se2_exp },
    Contract { name: "se2_exp_linear", functions: "SE2::exp", bounded: "", run: se2_exp_linear },
    Contract { name: "se2_negative", functions: "SE2::exp", bounded: "", run: se2_negative },
    Contract { name: "se2_log_exp", functions: "SE2::{exp, log}", bounded: "", run: se2_log_exp },
    Contract { name: "se2_exp_log", functions: "SE2::{exp, log}", bounded: "", run: se2_exp_log },
    Contract { name: "so3_exp", functions: "SO3::exp", bounded: "", run: so3_exp },
    Contract { name: "so3_log_exp", functions: "SO3::{exp, log}", bounded: "", run: so3_log_exp },
    Contract { name: "so3_log", functions: "SO3::log", bounded: "", run: so3_log },
    Contract { name: "so3_exp_log", functions: "SO3::{exp, log}", bounded: "", run: so3_exp_log },
    Contract { name: "so3_log_length", functions: "SO3::log", bounded: "", run: so3_log_length },
    Contract { name: "so3_log_sign", functions: "SO3::log", bounded: "", run: so3_log_sign },
    Contract { name: "se3_exp_x", functions: "SE3::exp", bounded: "", run: se3_exp::<0> },
    Contract { name: "se3_exp_y", functions: "SE3::exp", bounded: "", run: se3_exp::<1> },
    Contract { name: "se3_exp_z", functions: "SE3::exp", bounded: "", run: se3_exp::<2> },
    Contract { name: "se3_exp_linear", functions: "SE3::exp", bounded: "", run: se3_exp_linear },
    Contract { name: "se3_log_exp", functions: "SE3::{exp, log}", bounded: "", run: se3_log_exp },
    Contract { name: "se3_log_exp_small_x", functions: "SE3::{exp, log}", bounded: "", run: se3_log_exp_small::<0> },
    Contract { name: "se3_log_exp_small_y", functions: "SE3::{exp, log}", bounded: "", run: se3_log_exp_small::<1> },
    Contract { name: "se3_log_exp_small_z", functions: "SE3::{exp, log}", bounded: "", run: se3_log_exp_small::<2> },
    Contract { name: "se3_exp_log", functions: "SE3::{exp, log}", bounded: "", run: se3_exp_log },
    Contract { name: "so3_dexp", functions: "SO3::dexp", bounded: "", run: so3_dexp },
    Contract { name: "so3_dexp_small", functions: "SO3::dexp", bounded: "", run: so3_dexp_small },
];
fn main() {
    run_all(K)
}
