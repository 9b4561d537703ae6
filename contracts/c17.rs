//! C17: inertial preintegration follows its documented recurrences, and its factor compares states with what they predict.
mod common;
mod stub;
use common::*;
use factrs::containers::{Factor, Key, Values};
#[cfg(feature = "verif")]
use factrs::residuals::Residual;
use factrs::residuals::{Gravity, ImuCovariance, ImuPreintegrator};
use stub::*;

use factrs::assign_symbols;
assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
type V3 = [dtype; 3];
fn v3(v: V3) -> Vector3 {
    Vector3::new(v[0], v[1], v[2])
}
fn arr(v: &Vector3) -> V3 {
    [v[0], v[1], v[2]]
}
fn rows(m: &Matrix3) -> M {
    (0..3).map(|i| (0..3).map(|j| m[(i, j)]).collect()).collect()
}
fn tr(m: &M) -> M {
    (0..m[0].len()).map(|j| m.iter().map(|r| r[j]).collect()).collect()
}
fn scale(m: &M, s: dtype) -> M {
    m.iter().map(|r| r.iter().map(|x| *x * s).collect()).collect()
}
fn add(a: &M, b: &M) -> M {
    a.iter().zip(b).map(|(r, s)| r.iter().zip(s).map(|(x, y)| *x + *y).collect()).collect()
}
fn zero(r: usize, c: usize) -> M {
    vec![vec![q(0.0); c]; r]
}
fn put(m: &mut M, i: usize, j: usize, b: &M) {
    for (r, row) in b.iter().enumerate() {
        for (c, x) in row.iter().enumerate() {
            m[i + r][j + c] = *x;
        }
    }
}
fn cross(v: V3) -> M {
    vec![vec![q(0.0), q(0.0) - v[2], v[1]], vec![v[2], q(0.0), q(0.0) - v[0]], vec![q(0.0) - v[1], v[0], q(0.0)]]
}
fn plus(a: V3, b: &[dtype]) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn times(a: V3, s: dtype) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
fn minus(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
/// the documented preintegrated quantities
#[derive(Clone)]
struct Pre {
    dt: dtype,
    th: V3,
    v: V3,
    p: V3,
    /// derivatives of (theta, v, p) by the gyroscope and accelerometer bias
    hg: M,
    ha: M,
    cov: M,
}
impl Pre {
    fn new() -> Self {
        let z = [q(0.0); 3];
        Pre { dt: q(0.0), th: z, v: z, p: z, hg: zero(9, 3), ha: zero(9, 3), cov: scale(&ident(15), q(1e-14)) }
    }
    /// one step, by the documented equations
    fn step(&mut self, g: V3, a: V3, dt: dtype, c: Option<&ImuCovariance>) {
        let h = SO3::dexp(v3(self.th).as_view());
        let hinv = rows(&h.try_inverse().expect("the exponential's derivative is invertible"));
        let (h, r) = (rows(&h), rows(&SO3::exp(v3(self.th).as_view()).to_matrix()));
        let half = dt * dt / q(2.0);
        // state transition
        let mut m = ident(15);
        put(&mut m, 0, 0, &add(&ident(3), &scale(&cross(g), q(0.0) - dt / q(2.0))));
        let rah = mmul(&mmul(&r, &cross(a)), &h);
        put(&mut m, 3, 0, &scale(&rah, q(0.0) - dt));
        put(&mut m, 6, 0, &scale(&rah, q(0.0) - half));
        put(&mut m, 6, 3, &scale(&ident(3), dt));
        put(&mut m, 0, 9, &scale(&hinv, q(0.0) - dt));
        put(&mut m, 3, 12, &scale(&r, q(0.0) - dt));
        put(&mut m, 6, 12, &scale(&r, q(0.0) - half));
        if let Some(c) = c {
            // noise enters as (gyro, accel, gyro bias, accel bias, integration, gyro init, accel init)
            let mut b = zero(15, 21);
            put(&mut b, 0, 0, &scale(&hinv, dt));
            put(&mut b, 0, 15, &scale(&hinv, q(0.0) - dt));
            put(&mut b, 3, 3, &scale(&r, dt));
            put(&mut b, 3, 18, &scale(&r, q(0.0) - dt));
            put(&mut b, 6, 3, &scale(&r, half));
            put(&mut b, 6, 12, &ident(3));
            put(&mut b, 6, 18, &scale(&r, q(0.0) - half));
            put(&mut b, 9, 6, &ident(3));
            put(&mut b, 12, 9, &ident(3));
            let mut n = zero(21, 21);
            for (i, k) in [&c.cov_gyro, &c.cov_accel, &c.cov_gyro_bias, &c.cov_accel_bias, &c.cov_integration, &c.cov_winit, &c.cov_ainit].iter().enumerate() {
                put(&mut n, 3 * i, 3 * i, &rows(k));
            }
            self.cov = add(&mmul(&mmul(&m, &self.cov), &tr(&m)), &mmul(&mmul(&b, &n), &tr(&b)));
        }
        let mini: M = m[..9].iter().map(|x| x[..9].to_vec()).collect();
        self.hg = add(&mmul(&mini, &self.hg), &m[..9].iter().map(|x| x[9..12].to_vec()).collect());
        self.ha = add(&mmul(&mini, &self.ha), &m[..9].iter().map(|x| x[12..15].to_vec()).collect());
        let aw = mvec(&r, &a);
        self.p = plus(plus(self.p, &times(self.v, dt)), &aw.iter().map(|x| *x * half).collect::<Vec<_>>());
        self.v = plus(self.v, &aw.iter().map(|x| *x * dt).collect::<Vec<_>>());
        self.th = plus(self.th, &mvec(&hinv, &times(g, dt)));
        self.dt = self.dt + dt;
    }
}
/// two states, the second off the documented prediction by what is returned; the bias of the first is `by` away from the
/// one used while integrating
fn states(keys: [u64; 6], pre: &Pre, init: (V3, V3), grav: V3, by: Option<(V3, V3)>, rot: bool) -> (Values, Vec<dtype>) {
    let (r1, v1, p1) = (SO3::any("r1"), vars::<3>("v1"), vars::<3>("p1"));
    let mut x = [pre.th, pre.v, pre.p];
    let (mut bg, mut ba) = init;
    if let Some((dg, da)) = by {
        bg = plus(bg, &dg);
        ba = plus(ba, &da);
        for (k, x) in x.iter_mut().enumerate() {
            *x = plus(plus(*x, &mvec(&pre.hg[3 * k..3 * k + 3].to_vec(), &dg)), &mvec(&pre.ha[3 * k..3 * k + 3].to_vec(), &da));
        }
    }
    let r2 = r1.compose(&SO3::exp(v3(x[0]).as_view()));
    let m1 = rows(&r1.to_matrix());
    let v2 = plus(plus(v1, &times(grav, pre.dt)), &mvec(&m1, &x[1]));
    let p2 = plus(plus(plus(p1, &times(v1, pre.dt)), &times(grav, pre.dt * pre.dt / q(2.0))), &mvec(&m1, &x[2]));
    // the second state is off by arbitrary amounts
    let (ov, op, og, oa) = (vars::<3>("ov"), vars::<3>("op"), vars::<3>("og"), vars::<3>("oa"));
    let d = few(if rot { choose("rotation offset", 2) } else { 0 });
    let x2 = SE3::from_rot_trans(r2.compose(&d.inverse()), v3(minus(p2, op)));
    let mut values = Values::new();
    values.insert_unchecked(Sy(keys[0]), SE3::from_rot_trans(r1, v3(p1)));
    values.insert_unchecked(Sy(keys[1]), VectorVar3::new(v1[0], v1[1], v1[2]));
    values.insert_unchecked(Sy(keys[2]), ImuBias::new(Gyro(v3(bg)), Accel(v3(ba))));
    values.insert_unchecked(Sy(keys[3]), x2);
    let v2 = minus(v2, ov);
    values.insert_unchecked(Sy(keys[4]), VectorVar3::new(v2[0], v2[1], v2[2]));
    values.insert_unchecked(Sy(keys[5]), ImuBias::new(Gyro(v3(minus(bg, og))), Accel(v3(minus(ba, oa)))));
    let l = d.log();
    (values, [[l[0], l[1], l[2]], ov, op, og, oa].concat())
}
/// without the hook the residual is only seen through the built factor, whose factorisation is beyond the prover for
/// symbolic covariances: only the concrete stand-in then runs
#[cfg(not(feature = "verif"))]
fn compare(pre: &Pre, imu: &ImuPreintegrator, init: (V3, V3), grav: V3, by: Option<(V3, V3)>, rot: bool) {
    if SYMBOLIC {
        requires(lt(q(1.0), q(0.0)));
        return;
    }
    let f = imu.clone().build_unchecked(Sy(1), Sy(2), Sy(3), Sy(4), Sy(5), Sy(6));
    let (values, r) = states([1, 2, 3, 4, 5, 6], pre, init, grav, by, rot);
    weighed(&f, &values, pre, &r);
}
#[cfg(feature = "verif")]
fn compare(pre: &Pre, imu: &ImuPreintegrator, init: (V3, V3), grav: V3, by: Option<(V3, V3)>, rot: bool) {
    let (_, res) = imu.parts();
    let (values, want) = states([1, 2, 3, 4, 5, 6], pre, init, grav, by, rot);
    let keys: Vec<Key> = (1..=6).map(Key).collect();
    let r = res.residual(&values, &keys);
    ensures_fact("dimensions", r.len() == 15 && res.dim_out() == 15 && res.dim_in() == 30);
    let at = |i: usize| [r[i], r[i + 1], r[i + 2]];
    if rot {
        ensures_all_eq("the rotation residual is the predicted rotation minus the second", &at(0), &want[0..3]);
    }
    ensures_all_eq("the velocity residual is the predicted velocity minus the second", &at(3), &want[3..6]);
    ensures_all_eq("the position residual is the predicted position minus the second", &at(6), &want[6..9]);
    ensures_all_eq("the gyroscope bias residual", &at(9), &want[9..12]);
    ensures_all_eq("the accelerometer bias residual", &at(12), &want[12..15]);
}
/// the built factor weighs the residual by the inverse of the propagated covariance
fn factor() {
    let (x, v, b) = (5, 2, 9);
    let kind = choose("checked or not", 2);
    let measured = choose("measured", 2) == 1;
    let (bias, bv) = any_bias();
    let one = Matrix3::identity();
    let mut c = ImuCovariance::default();
    let dt = q(0.5);
    if measured {
        // covariances for which the factorisation is rational: see the block structure of one step at rest
        let e = q(1e-14);
        let dt2 = dt * dt;
        c.cov_gyro_bias = one * (q(1.0) - e);
        c.cov_accel_bias = one * (q(1.0) - e);
        c.cov_winit = one * q(0.25);
        c.cov_gyro = one * ((q(1.0) + e * e * dt2 - e - e * dt2) / dt2 - q(0.25));
        let (w, z) = (q(0.5), q(0.25));
        let s = (w * w + z * z + e * e * dt2 - e - e * dt2) / dt2;
        c.cov_ainit = one * q(0.125);
        c.cov_accel = one * (s - q(0.125));
        let m = (e * dt + (e + s) * dt2 * dt / q(2.0) - e * e * dt2 * dt / q(2.0)) / z;
        c.cov_integration = one * (m * m + e * e * dt2 * dt2 / q(4.0) - e - e * dt2 - (e + s) * dt2 * dt2 / q(4.0));
    }
    let mut imu = ImuPreintegrator::new(c.clone(), bias, Gravity::down());
    let mut pre = Pre::new();
    let z = [q(0.0); 3];
    if measured {
        feed(&mut imu, &mut pre, bv, z, z, dt, Some(&c));
    }
    let (f, keys) = if kind == 0 {
        let k: [Key; 6] = [X(x).into(), V(v).into(), B(b).into(), X(1).into(), V(b).into(), B(v).into()];
        (imu.build(X(x), V(v), B(b), X(1), V(b), B(v)), k.map(|k| k.0))
    } else {
        (imu.build_unchecked(Sy(4), Sy(3), Sy(6), Sy(5), Sy(1), Sy(2)), [4, 3, 6, 5, 1, 2])
    };
    ensures_fact("keys", f.keys() == &keys.map(Key));
    ensures_fact("output dimension", f.dim_out() == 15);
    let (values, r) = states(keys, &pre, bv, [q(0.0), q(0.0), q(-9.81)], None, true);
    weighed(&f, &values, &pre, &r);
}
fn weighed(f: &Factor, values: &Values, pre: &Pre, r: &[dtype]) {
    let inf = to_matrix(&pre.cov).try_inverse().expect("the covariance is invertible");
    let inf: M = (0..15).map(|i| (0..15).map(|j| inf[(i, j)]).collect()).collect();
    let y = mvec(&inf, r);
    let e = r.iter().zip(&y).fold(q(0.0), |s, (a, b)| s + *a * *b);
    ensures_eq("the error is half the squared residual in the inverse covariance", f.error(values), e / q(2.0));
}
fn to_matrix(m: &M) -> Matrix<15, 15> {
    Matrix::from_fn(|i, j| m[i][j])
}
/// the covariance parameters
fn setters() {
    let mut c = ImuCovariance::default();
    let mut want = [q(1e-5), q(1e-5), q(1e-6), q(1e-6), q(1e-7), q(1e-7), q(1e-7)];
    let n = choose("setter", 7);
    let v = var("v");
    match n {
        1 => c.set_scalar_accel(v),
        2 => c.set_scalar_gyro(v),
        3 => c.set_scalar_accel_bias(v),
        4 => c.set_scalar_gyro_bias(v),
        5 => c.set_scalar_integration(v),
        6 => c.set_scalar_init(v),
        _ => {}
    }
    if n > 0 {
        want[n - 1] = v;
    }
    if n == 6 {
        want[6] = v;
    }
    for (m, w) in [&c.cov_accel, &c.cov_gyro, &c.cov_accel_bias, &c.cov_gyro_bias, &c.cov_integration, &c.cov_winit, &c.cov_ainit].iter().zip(want) {
        ensures_all_eq("each covariance is what was set last", &rows(m).concat(), &scale(&ident(3), w).concat());
    }
}
fn few(n: usize) -> SO3 {
    if n == 0 {
        SO3::identity()
    } else {
        SO3::from_xyzw(q(0.2), q(0.4), q(-0.4), q(0.8))
    }
}
fn gravity() -> (Gravity, V3) {
    match choose("gravity", 3) {
        0 => (Gravity::up(), [q(0.0), q(0.0), q(9.81)]),
        1 => (Gravity::down(), [q(0.0), q(0.0), q(-9.81)]),
        _ => {
            let g = vars::<3>("grav");
            (Gravity(v3(g)), g)
        }
    }
}
fn any_bias() -> (ImuBias, (V3, V3)) {
    let (g, a) = (vars::<3>("b0g"), vars::<3>("b0a"));
    (ImuBias::new(Gyro(v3(g)), Accel(v3(a))), (g, a))
}
fn feed(imu: &mut ImuPreintegrator, pre: &mut Pre, b: (V3, V3), g: V3, a: V3, dt: dtype, c: Option<&ImuCovariance>) {
    // measurements with the bias on top
    imu.integrate(&Gyro(v3(plus(g, &b.0))), &Accel(v3(plus(a, &b.1))), dt);
    pre.step(g, a, dt, c);
}
fn any_shift() -> (V3, V3) {
    (vars::<3>("dg"), vars::<3>("da"))
}
fn plain() -> ImuCovariance {
    let mut c = ImuCovariance::default();
    if cfg!(not(feature = "verif")) {
        let one = Matrix3::identity();
        c = ImuCovariance { cov_accel: one, cov_gyro: one, cov_accel_bias: one, cov_gyro_bias: one, cov_integration: one, cov_winit: one, cov_ainit: one };
    }
    c
}
fn track() -> Option<ImuCovariance> {
    cfg!(not(feature = "verif")).then(plain)
}
/// nothing integrated
fn none() {
    let (gr, gv) = gravity();
    let (b, bv) = any_bias();
    let imu = ImuPreintegrator::new(plain(), b, gr);
    let by = if choose("bias as at the start or not", 2) == 1 { Some(any_shift()) } else { None };
    compare(&Pre::new(), &imu, bv, gv, by, true);
}
/// one measurement
fn first() {
    let (gr, gv) = gravity();
    let (b, bv) = any_bias();
    let mut imu = ImuPreintegrator::new(plain(), b, gr);
    let mut pre = Pre::new();
    let by = if choose("bias as at the start or not", 2) == 1 { Some(any_shift()) } else { None };
    // the corrected measurement is arbitrary
    let g = by.map_or(vars::<3>("g"), |(dg, _)| plus(vars::<3>("g"), &dg));
    feed(&mut imu, &mut pre, bv, g, vars::<3>("a"), pos_tame("dt", 0.01, 1.0), track().as_ref());
    compare(&pre, &imu, bv, gv, by, true);
}
fn axis() -> V3 {
    match choose("axis", 2) {
        0 => [q(0.0), q(0.0), q(1.0)],
        _ => [q(2.0) / q(3.0), q(-1.0) / q(3.0), q(2.0) / q(3.0)],
    }
}
/// three measurements: the first two reach every velocity, position and time, and every rotation about the axis
fn three(kind: usize) {
    let (gr, gv) = (Gravity::up(), [q(0.0), q(0.0), q(9.81)]);
    let (b, bv) = any_bias();
    let mut imu = ImuPreintegrator::new(plain(), b, gr);
    let mut pre = Pre::new();
    let z = [q(0.0); 3];
    let n = [q(2.0) / q(3.0), q(-1.0) / q(3.0), q(2.0) / q(3.0)];
    let w = if kind < 2 { var_in("w", 0.5, 10.0) } else { q(0.0) };
    feed(&mut imu, &mut pre, bv, z, vars::<3>("a1"), pos_tame("dt1", 0.01, 1.0), track().as_ref());
    feed(&mut imu, &mut pre, bv, times(n, w), vars::<3>("a2"), q(0.25), track().as_ref());
    let dt = pos_tame("dt3", 0.01, 1.0);
    let g = if kind == 1 { times(n, var("g3")) } else { vars::<3>("g3") };
    feed(&mut imu, &mut pre, bv, g, vars::<3>("a3"), dt, track().as_ref());
    let by = match kind {
        0 => None,
        1 => Some((times(n, var("dg")), vars::<3>("da"))),
        _ => Some(any_shift()),
    };
    compare(&pre, &imu, bv, gv, by, kind < 2);
}
/// the rotation's correction when the measured rates do not commute
fn third_turn() {
    let (b, bv) = any_bias();
    let mut imu = ImuPreintegrator::new(plain(), b, Gravity::up());
    let mut pre = Pre::new();
    let z = [q(0.0); 3];
    feed(&mut imu, &mut pre, bv, z, z, q(0.75), track().as_ref());
    feed(&mut imu, &mut pre, bv, z, z, q(0.25), track().as_ref());
    let (s, d, dt) = (vars::<3>("s"), var("d"), pos_tame("dt3", 0.01, 1.0));
    let mut dg = z;
    dg[choose("bias axis", 2)] = d;
    feed(&mut imu, &mut pre, bv, plus(s, &times(dg, (q(1.0) + dt) / dt)), z, dt, track().as_ref());
    compare(&pre, &imu, bv, [q(0.0), q(0.0), q(9.81)], Some((dg, vars::<3>("da"))), true);
}
fn third() {
    three(0)
}
fn third_axis() {
    three(1)
}
fn third_moved() {
    three(2)
}
/// an arbitrary state of preintegration, reached by any number of measurements
#[cfg(feature = "verif")]
fn havoc(imu: &mut ImuPreintegrator, th: impl Fn(&M, &M) -> V3, cov: M) -> Pre {
    let (hg, ha) = (any_mat("hg", 9, 3), any_mat("ha", 9, 3));
    let pre = Pre { dt: var("T"), th: th(&hg, &ha), v: vars::<3>("v"), p: vars::<3>("p"), hg, ha, cov };
    let (dt, x, h, c) = imu.state();
    *dt = pre.dt;
    for (x, y) in x.into_iter().zip([pre.th, pre.v, pre.p]) {
        *x = v3(y);
    }
    for (h, g) in h.into_iter().zip([&pre.hg, &pre.ha]) {
        *h = Matrix::from_fn(|i, j| g[i][j]);
    }
    *c = to_matrix(&pre.cov);
    pre
}
/// one more measurement, from an arbitrary state: with `none` and `predict` this covers any number of them
#[cfg(feature = "verif")]
fn step_at(th: V3, cov: Option<(M, ImuCovariance)>) {
    let (b, bv) = any_bias();
    let c = cov.as_ref().map(|x| x.1.clone());
    let mut imu = ImuPreintegrator::new(c.clone().unwrap_or_default(), b, Gravity(v3(vars::<3>("grav"))));
    let mut pre = havoc(&mut imu, |_, _| th, cov.map_or(ident(15), |x| x.0));
    feed(&mut imu, &mut pre, bv, vars::<3>("g"), vars::<3>("a"), var("dt"), c.as_ref());
    let (dt, x, h, p) = imu.state();
    if c.is_some() {
        for i in 0..15 {
            let row: Vec<dtype> = (0..15).map(|j| p[(i, j)]).collect();
            ensures_all_eq("covariance", &row, &pre.cov[i]);
        }
        return;
    }
    ensures_eq("time", *dt, pre.dt);
    for (n, x, y) in [("rotation", &x[0], pre.th), ("velocity", &x[1], pre.v), ("position", &x[2], pre.p)] {
        ensures_all_eq(n, &arr(x), &y);
    }
    for (n, h, g) in [("derivative by the gyroscope bias", &h[0], &pre.hg), ("derivative by the accelerometer bias", &h[1], &pre.ha)] {
        for i in 0..9 {
            ensures_all_eq(n, &[h[(i, 0)], h[(i, 1)], h[(i, 2)]], &g[i]);
        }
    }
}
#[cfg(feature = "verif")]
fn any_turn() -> V3 {
    let (t, u) = (var_in("t", 0.01, 5.9), unit::<3>("u"));
    times(u, t)
}
#[cfg(feature = "verif")]
fn step_any() {
    step_at(any_turn(), None)
}
#[cfg(feature = "verif")]
fn step_small() {
    step_at([q(0.0); 3], None)
}
#[cfg(feature = "verif")]
fn step_cov_any() {
    step_at(any_turn(), Some((any_mat("c", 15, 15), any_cov())))
}
#[cfg(feature = "verif")]
fn step_cov_small() {
    step_at([q(0.0); 3], Some((any_mat("c", 15, 15), any_cov())))
}
/// what an arbitrary state of preintegration predicts
#[cfg(feature = "verif")]
fn predict() {
    let (gr, gv) = gravity();
    let (b, bv) = any_bias();
    let mut imu = ImuPreintegrator::new(plain(), b, gr);
    let (dg, da) = any_shift();
    let w = vars::<3>("th");
    // every rotation vector is of this form
    let th = |hg: &M, ha: &M| minus(minus(w, of(hg, dg)), of(ha, da));
    let pre = havoc(&mut imu, th, ident(15));
    compare(&pre, &imu, bv, gv, Some((dg, da)), true);
}
#[cfg(feature = "verif")]
fn of(h: &M, d: V3) -> V3 {
    let x = mvec(&h[..3].to_vec(), &d);
    [x[0], x[1], x[2]]
}
/// the factor built from an arbitrary state of preintegration, with couplings of its covariance between every two of its parts
#[cfg(feature = "verif")]
fn built(part: usize) {
    let n = 5 * part + choose("coupled", 5);
    let (i, j) = [(0, 4), (1, 7), (2, 9), (0, 13), (3, 8), (5, 11), (4, 12), (6, 10), (8, 14), (9, 13), (1, 2), (3, 4), (7, 8), (10, 11), (12, 14)][n];
    let kind = n % 2;
    let (b, bv) = any_bias();
    let gv = vars::<3>("grav");
    let mut imu = ImuPreintegrator::new(plain(), b, Gravity(v3(gv)));
    let s: Vec<dtype> = (0..15).map(|k| pos_tame(&format!("s{k}"), 0.5, 2.0)).collect();
    let r = var_in("r", -1.0, 1.0);
    // the inverse of what has s on the diagonal and r at (j, i) as its Cholesky factor
    let mut cov = zero(15, 15);
    for k in 0..15 {
        cov[k][k] = q(1.0) / (s[k] * s[k]);
    }
    let f = s[i] * s[i] * s[j] * s[j];
    cov[i][i] = (r * r + s[j] * s[j]) / f;
    cov[j][j] = s[i] * s[i] / f;
    cov[i][j] = q(0.0) - r * s[i] / f;
    cov[j][i] = cov[i][j];
    let w = if n % 4 < 2 { any_turn() } else { [q(0.0); 3] };
    let pre = havoc(&mut imu, |_, _| w, cov);
    let (f, keys) = if kind == 0 {
        let k: [Key; 6] = [X(5).into(), V(2).into(), B(9).into(), X(1).into(), V(9).into(), B(2).into()];
        (imu.build(X(5), V(2), B(9), X(1), V(9), B(2)), k.map(|k| k.0))
    } else {
        (imu.build_unchecked(Sy(4), Sy(3), Sy(6), Sy(5), Sy(1), Sy(2)), [4, 3, 6, 5, 1, 2])
    };
    ensures_fact("keys", f.keys() == &keys.map(Key));
    ensures_fact("output dimension", f.dim_out() == 15);
    let (values, x) = states(keys, &pre, bv, gv, None, n % 8 < 2);
    let mut e = q(0.0);
    for k in 0..15 {
        let y = s[k] * x[k] + if k == i { r * x[j] } else { q(0.0) };
        e = e + y * y;
    }
    ensures_eq("the error is half the squared residual in the inverse covariance", f.error(&values), e / q(2.0));
}
#[cfg(feature = "verif")]
fn built_0() {
    built(0)
}
#[cfg(feature = "verif")]
fn built_1() {
    built(1)
}
#[cfg(feature = "verif")]
fn built_2() {
    built(2)
}
fn any_cov() -> ImuCovariance {
    let full = |n: &str| {
        let d: Vec<dtype> = (0..3).map(|i| pos_tame(&format!("{n}{i}"), 0.1, 2.0)).collect();
        let o = var_tame(&format!("{n}o"), -0.1, 0.1);
        let z = q(0.0);
        Matrix3::new(d[0], o, z, o, d[1], z, z, z, d[2])
    };
    ImuCovariance {
        cov_accel: full("ca"),
        cov_gyro: full("cg"),
        cov_accel_bias: full("cab"),
        cov_gyro_bias: full("cgb"),
        cov_integration: full("ci"),
        cov_winit: full("cw"),
        cov_ainit: full("cai"),
    }
}
fn covariance(second: bool) {
    let (b, bv) = any_bias();
    let c = any_cov();
    let mut imu = ImuPreintegrator::new(c.clone(), b, Gravity::up());
    let mut pre = Pre::new();
    let z = [q(0.0); 3];
    if second {
        let w = var_in("w", 0.5, 10.0);
        feed(&mut imu, &mut pre, bv, times(axis(), w), z, q(0.25), Some(&c));
        feed(&mut imu, &mut pre, bv, [q(0.0), var("g"), q(0.0)], [var("a"), q(0.0), q(2.0)], q(0.5), Some(&c));
    } else {
        feed(&mut imu, &mut pre, bv, vars::<3>("g"), vars::<3>("a"), pos_tame("dt", 0.01, 1.0), Some(&c));
    }
    #[cfg(not(feature = "verif"))]
    compare(&pre, &imu, bv, [q(0.0), q(0.0), q(9.81)], None, true);
    #[cfg(feature = "verif")]
    let (got, _) = imu.parts();
    #[cfg(feature = "verif")]
    for i in 0..15 {
        ensures_all_eq(&format!("row {i} of the propagated covariance"), &(0..15).map(|j| got[(i, j)]).collect::<Vec<_>>(), &pre.cov[i]);
    }
}
fn cov_first() {
    covariance(false)
}
fn cov_second() {
    covariance(true)
}
const I: &str = "ImuPreintegrator::{new, integrate}, ImuDelta::{new, integrate, A, propagate_H, predict, first_order_update, dual_convert}, ImuPreintegrationResidual::residual6, Gyro::remove_bias, Accel::remove_bias";
const C: &str = "ImuPreintegrator::{new, integrate, B_Q_BT}, ImuDelta::{integrate, A}";
const T: &str = "three measurements, the rotation before the third about one of two axes by up to 2.5 rad; everything else arbitrary";
const K: &[Contract] = &[
    Contract { name: "none", functions: I, bounded: "no measurement; states, biases and gravity arbitrary", run: none },
    Contract { name: "first", functions: I, bounded: "one measurement; everything else arbitrary", run: first },
    Contract { name: "third", functions: I, bounded: T, run: third },
    Contract { name: "third_axis", functions: I, bounded: T, run: third_axis },
    Contract { name: "third_turn", functions: I, bounded: "three measurements, the first two at rest; bias off along one of two axes", run: third_turn },
    Contract { name: "third_moved", functions: I, bounded: T, run: third_moved },
    Contract { name: "factor", functions: "ImuPreintegrator::{build, build_unchecked}, GaussianNoise::from_matrix_cov", bounded: "none or one measurement at rest with fixed covariances; states arbitrary", run: factor },
    Contract { name: "setters", functions: "ImuCovariance::{default, set_scalar_accel, set_scalar_gyro, set_scalar_accel_bias, set_scalar_gyro_bias, set_scalar_integration, set_scalar_init}", bounded: "", run: setters },
    #[cfg(feature = "verif")] // without the hook no arbitrary state can be set up
    Contract { name: "step_any", functions: I, bounded: "", run: step_any },
    #[cfg(feature = "verif")] // without the hook no arbitrary state can be set up
    Contract { name: "step_small", functions: I, bounded: "", run: step_small },
    #[cfg(feature = "verif")] // without the hook no arbitrary state can be set up
    Contract { name: "step_cov_any", functions: C, bounded: "", run: step_cov_any },
    #[cfg(feature = "verif")] // without the hook no arbitrary state can be set up
    Contract { name: "step_cov_small", functions: C, bounded: "", run: step_cov_small },
    #[cfg(feature = "verif")] // without the hook no arbitrary state can be set up
    Contract { name: "built_0", functions: "ImuPreintegrator::{build, build_unchecked}, GaussianNoise::from_matrix_cov", bounded: "covariances with one correlated pair, of any two parts; state of preintegration arbitrary", run: built_0 },
    #[cfg(feature = "verif")] // without the hook no arbitrary state can be set up
    Contract { name: "built_1", functions: "ImuPreintegrator::{build, build_unchecked}, GaussianNoise::from_matrix_cov", bounded: "covariances with one correlated pair, of any two parts; state of preintegration arbitrary", run: built_1 },
    #[cfg(feature = "verif")] // without the hook no arbitrary state can be set up
    Contract { name: "built_2", functions: "ImuPreintegrator::{build, build_unchecked}, GaussianNoise::from_matrix_cov", bounded: "covariances with one correlated pair, of any two parts; state of preintegration arbitrary", run: built_2 },
    #[cfg(feature = "verif")] // without the hook no arbitrary state can be set up
    Contract { name: "predict", functions: I, bounded: "", run: predict },
    Contract { name: "cov_first", functions: C, bounded: "one measurement; covariances with one correlated pair each", run: cov_first },
    Contract { name: "cov_second", functions: C, bounded: "two measurements of a fixed shape; covariances with one correlated pair each", run: cov_second },
];
fn main() {
    run_all(K)
}
