//! C07: robust kernels.
use factrs::robust::*;
use spec::spec::*;

const FNS: &str = "";

/// loss and weight against the documented kernel, and weight(d2) = rho'(d)/d with rho(d) = loss(d^2)
fn derivative_law(k: &dyn RobustCost, d: dtype) {
    let d2 = d * d;
    let rho = |x: dtype| k.loss(x * x);
    let w = k.weight(d2);
    ensures_eq("d * weight(d^2) is the derivative of loss(d^2)", d * w, derivative(rho, d));
}
fn bounds(k: &dyn RobustCost, d2: dtype) {
    let l = k.loss(d2);
    let w = k.weight(d2);
    ensures("loss is nonnegative", ge(l, q(0.0)));
    ensures("weight is nonnegative", ge(w, q(0.0)));
}
fn zero(k: &dyn RobustCost) {
    ensures_eq("loss(0) = 0", k.loss(q(0.0)), q(0.0));
    ensures_eq("weight(0) = 1", k.weight(q(0.0)), q(1.0));
}
fn weight_at_most_one(k: &dyn RobustCost, d2: dtype) {
    ensures("weight is at most 1", le(k.weight(d2), q(1.0)));
}
fn nonneg(name: &str) -> dtype {
    let d2 = pos_or_zero(name);
    d2
}
fn pos_or_zero(name: &str) -> dtype {
    let v = pos(name);
    if choose("zero", 2) == 1 { q(0.0) } else { v }
}
macro_rules! kernel {
    ($formula:ident, $laws:ident, $new:expr, $loss:expr, $weight:expr) => {
        fn $formula() {
            let c = pos("c");
            let d2 = nonneg("d2");
            let k = $new(c);
            ensures_eq("loss is the documented loss", k.loss(d2), $loss(c, d2));
            ensures_eq("weight is the documented weight", k.weight(d2), $weight(c, d2));
            zero(&k);
            bounds(&k, d2);
            weight_at_most_one(&k, d2);
        }
        fn $laws() {
            let c = pos("c");
            let d = pos("d");
            derivative_law(&$new(c), d);
        }
    };
}
fn huber_loss(k: dtype, d2: dtype) -> dtype {
    if split(le(d2, k * k)) { d2 / q(2.0) } else { k * (d2.sqrt() - k / q(2.0)) }
}
fn huber_weight(k: dtype, d2: dtype) -> dtype {
    if split(le(d2, k * k)) { q(1.0) } else { k / d2.sqrt() }
}
fn tukey_loss(c: dtype, d2: dtype) -> dtype {
    let u = q(1.0) - d2 / (c * c);
    if split(le(d2, c * c)) { c * c / q(6.0) * (q(1.0) - u * u * u) } else { c * c / q(6.0) }
}
fn tukey_weight(c: dtype, d2: dtype) -> dtype {
    let u = q(1.0) - d2 / (c * c);
    if split(le(d2, c * c)) { u * u } else { q(0.0) }
}
kernel!(huber_formula, huber_deriv, Huber::new, huber_loss, huber_weight);
kernel!(fair_formula, fair_deriv, Fair::new,
    |c: dtype, d2: dtype| c * c * (d2.sqrt() / c - (q(1.0) + d2.sqrt() / c).ln()),
    |c: dtype, d2: dtype| q(1.0) / (q(1.0) + d2.sqrt() / c));
kernel!(cauchy_formula, cauchy_deriv, Cauchy::new,
    |c: dtype, d2: dtype| c * c / q(2.0) * (q(1.0) + d2 / (c * c)).ln(),
    |c: dtype, d2: dtype| q(1.0) / (q(1.0) + d2 / (c * c)));
kernel!(gm_formula, gm_deriv, GemanMcClure::new,
    |c: dtype, d2: dtype| c * c * d2 / q(2.0) / (c * c + d2),
    |c: dtype, d2: dtype| c * c * c * c / ((c * c + d2) * (c * c + d2)));
kernel!(welsch_formula, welsch_deriv, Welsch::new,
    |c: dtype, d2: dtype| c * c / q(2.0) * (q(1.0) - (-d2 / (c * c)).exp()),
    |c: dtype, d2: dtype| (-d2 / (c * c)).exp());
kernel!(tukey_formula, tukey_deriv, Tukey::new, tukey_loss, tukey_weight);

fn l2() {
    let d2 = nonneg("d2");
    let k = L2::default();
    ensures_eq("loss is the documented loss", k.loss(d2), d2 / q(2.0));
    ensures_eq("weight is the documented weight", k.weight(d2), q(1.0));
    let d = pos("d");
    derivative_law(&k, d);
    zero(&k);
}
fn l1() {
    // the weight 1/|d| is unbounded at 0, so the kernel may cap it near 0: d^2 > 1e-3 is where it is exact
    let d2 = pos("d2");
    let k = L1::default();
    ensures_eq("loss is the documented loss", k.loss(d2), d2.sqrt());
    bounds(&k, d2);
    if split(gt(d2, q(1e-3))) {
        ensures_eq("weight is the documented weight", k.weight(d2), q(1.0) / d2.sqrt());
    } else {
        ensures("weight stays finite near zero", le(k.weight(d2), q(1e3)));
    }
    ensures_eq("loss(0) = 0", k.loss(q(0.0)), q(0.0));
    ensures("weight(0) is finite and nonnegative", and(vec![ge(k.weight(q(0.0)), q(0.0)), le(k.weight(q(0.0)), q(1e3))]));
}
fn monotone() {
    let c = pos("c");
    let a = nonneg("a2");
    let h = pos("h");
    let b = a + h;
    let kind = choose("kernel", 8);
    let k: Box<dyn RobustCost> = match kind {
        0 => Box::new(L2),
        1 => Box::new(L1),
        2 => Box::new(Huber::new(c)),
        3 => Box::new(Fair::new(c)),
        4 => Box::new(Cauchy::new(c)),
        5 => Box::new(GemanMcClure::new(c)),
        6 => Box::new(Welsch::new(c)),
        _ => Box::new(Tukey::new(c)),
    };
    ensures("loss does not decrease with d^2", le(k.loss(a), k.loss(b)));
    if kind != 1 {
        // the L1 weight 1/|d| is capped near 0
        ensures("weight does not increase with d^2", ge(k.weight(a), k.weight(b)));
    }
}
fn defaults() {
    // the 95 % efficiency constants of Zhang's tutorial
    let d2 = nonneg("d2");
    let pairs: Vec<(&str, Box<dyn RobustCost>, Box<dyn RobustCost>)> = vec![
        ("Huber", Box::new(Huber::default()), Box::new(Huber::new(q(1.345)))),
        ("Fair", Box::new(Fair::default()), Box::new(Fair::new(q(1.3998)))),
        ("Cauchy", Box::new(Cauchy::default()), Box::new(Cauchy::new(q(2.3849)))),
        ("GemanMcClure", Box::new(GemanMcClure::default()), Box::new(GemanMcClure::new(q(1.3998)))),
        ("Welsch", Box::new(Welsch::default()), Box::new(Welsch::new(q(2.9846)))),
        ("Tukey", Box::new(Tukey::default()), Box::new(Tukey::new(q(4.6851)))),
    ];
    for (n, a, b) in pairs {
        ensures_eq(&format!("{n}::default loss = {n}::new(constant) loss"), a.loss(d2), b.loss(d2));
        ensures_eq(&format!("{n}::default weight = {n}::new(constant) weight"), a.weight(d2), b.weight(d2));
    }
}
macro_rules! k {
    ($n:expr, $f:expr, $r:expr) => {
        Contract { name: $n, functions: $f, bounded: FNS, run: $r }
    };
}
fn main() {
    run_all(&[
        k!("l2", "L2::loss, L2::weight", l2),
        k!("l1", "L1::loss, L1::weight", l1),
        k!("huber", "Huber::{new,loss,weight}", huber_formula),
        k!("huber_derivative", "Huber::{loss,weight}", huber_deriv),
        k!("fair", "Fair::{new,loss,weight}", fair_formula),
        k!("fair_derivative", "Fair::{loss,weight}", fair_deriv),
        k!("cauchy", "Cauchy::{new,loss,weight}", cauchy_formula),
        k!("cauchy_derivative", "Cauchy::{loss,weight}", cauchy_deriv),
        k!("geman_mcclure", "GemanMcClure::{new,loss,weight}", gm_formula),
        k!("geman_mcclure_derivative", "GemanMcClure::{loss,weight}", gm_deriv),
        k!("welsch", "Welsch::{new,loss,weight}", welsch_formula),
        k!("welsch_derivative", "Welsch::{loss,weight}", welsch_deriv),
        k!("tukey", "Tukey::{new,loss,weight}", tukey_formula),
        k!("tukey_derivative", "Tukey::{loss,weight}", tukey_deriv),
        k!("monotone", "RobustCost::{loss,weight} of all kernels", monotone),
        k!("defaults", "Default of all kernels", defaults),
    ]);
}
