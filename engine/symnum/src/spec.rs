//! Contract vocabulary over `Sym` (the same names exist over f64 in the `realnum` crate).
use crate::ctx::{with, Form, Gen, Rel};
use crate::engine;
pub use crate::engine::Contract;
use crate::sym::Sym;
#[allow(non_camel_case_types)]
pub type dtype = Sym;
pub const SYMBOLIC: bool = true;

#[derive(Clone, Debug)]
pub struct Cond(pub Form);

pub fn q(x: f64) -> dtype {
    crate::sym::lit(x)
}
pub fn var(name: &str) -> dtype {
    Sym::from_node(with(|c| c.new_var(name, Gen::Any)))
}
pub fn vars<const N: usize>(p: &str) -> [dtype; N] {
    std::array::from_fn(|i| var(&format!("{p}{i}")))
}
/// any value in [lo, hi]
pub fn var_in(name: &str, lo: f64, hi: f64) -> dtype {
    let v = Sym::from_node(with(|c| c.new_var(name, Gen::Range(lo, hi))));
    requires(le(q(lo), v));
    requires(le(v, q(hi)));
    v
}
/// any value; concrete executions (replay, stand-in) draw it from [lo, hi], where rounding stays small
pub fn var_tame(name: &str, _lo: f64, _hi: f64) -> dtype {
    var(name)
}
/// any positive value; concrete executions draw it from [lo, hi]
pub fn pos_tame(name: &str, _lo: f64, _hi: f64) -> dtype {
    pos(name)
}
/// any positive value
pub fn pos(name: &str) -> dtype {
    let v = Sym::from_node(with(|c| c.new_var(name, Gen::Pos)));
    requires(lt(q(0.0), v));
    v
}
/// any unit vector
pub fn unit<const N: usize>(p: &str) -> [dtype; N] {
    let id = with(|c| c.vars.len() as u32);
    let v: [dtype; N] = std::array::from_fn(|i| {
        Sym::from_node(with(|c| c.new_var(&format!("{p}{i}"), Gen::Unit(id, N as u32, i as u32))))
    });
    let mut s = q(0.0);
    for x in v {
        s = s + x * x;
    }
    requires(eq(s, q(1.0)));
    v
}
pub fn choose(name: &str, n: usize) -> usize {
    engine::choose(name, n as u32) as usize
}
pub fn pi() -> dtype {
    crate::sym::consts::PI
}
fn cmp(r: Rel, a: dtype, b: dtype) -> Cond {
    if a.special().is_some() || b.special().is_some() {
        let t = match r {
            Rel::Lt => a.lt_(b),
            Rel::Le => a.le_(b),
            Rel::Eq => a.eq_(b),
        };
        return Cond(if t { Form::T } else { Form::F });
    }
    Cond(Form::Rel(r, a.sub_(b).node()))
}
pub fn lt(a: dtype, b: dtype) -> Cond {
    cmp(Rel::Lt, a, b)
}
pub fn le(a: dtype, b: dtype) -> Cond {
    cmp(Rel::Le, a, b)
}
pub fn gt(a: dtype, b: dtype) -> Cond {
    lt(b, a)
}
pub fn ge(a: dtype, b: dtype) -> Cond {
    le(b, a)
}
pub fn eq(a: dtype, b: dtype) -> Cond {
    cmp(Rel::Eq, a, b)
}
pub fn ne(a: dtype, b: dtype) -> Cond {
    not(eq(a, b))
}
pub fn not(a: Cond) -> Cond {
    Cond(Form::Not(Box::new(a.0)))
}
pub fn and(v: Vec<Cond>) -> Cond {
    Cond(Form::And(v.into_iter().map(|x| x.0).collect()))
}
pub fn or(v: Vec<Cond>) -> Cond {
    Cond(Form::Or(v.into_iter().map(|x| x.0).collect()))
}
pub fn implies(a: Cond, b: Cond) -> Cond {
    or(vec![not(a), b])
}
/// case split of the contract itself
pub fn split(c: Cond) -> bool {
    engine::decide_form(c.0)
}
pub fn requires(c: Cond) {
    engine::assume(c.0)
}
pub fn ensures(label: &str, c: Cond) -> bool {
    engine::prove(label, "ensures", c.0, true)
}
pub fn ensures_eq(label: &str, a: dtype, b: dtype) -> bool {
    if a.special().is_some() || b.special().is_some() {
        let same = match (a.special(), b.special()) {
            (Some(x), Some(y)) => x == y,
            _ => false,
        };
        engine::fact(label, same, format!("non-finite value: {a} vs {b}"));
        return same;
    }
    if a.0 == b.0 {
        // identical terms; only definedness remains
        engine::check_defined(label, &[a.node()]);
    }
    ensures(label, eq(a, b))
}
pub fn ensures_all_eq(label: &str, a: &[dtype], b: &[dtype]) -> bool {
    ensures_fact(&format!("{label}: length"), a.len() == b.len());
    let mut ok = true;
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ok &= ensures_eq(&format!("{label}[{i}]"), *x, *y);
    }
    ok
}
/// |a - b| <= tol
pub fn ensures_near(label: &str, a: dtype, b: dtype, tol: dtype) -> bool {
    if a.special().is_some() || b.special().is_some() {
        return ensures_eq(label, a, b);
    }
    ensures(label, and(vec![le(a - b, tol), le(b - a, tol)]))
}
pub fn ensures_fact(label: &str, ok: bool) -> bool {
    engine::fact(label, ok, "the concrete structural condition is false on this path".into());
    ok
}
pub fn text_var(x: dtype) -> String {
    format!("${}", x.node())
}
pub fn run_all(ks: &[Contract]) {
    engine::run_all(ks)
}

/// f'(x) for an input variable x, by differentiating the extracted term
pub fn derivative(f: impl Fn(dtype) -> dtype, x: dtype) -> dtype {
    crate::sym::deriv(f(x), x)
}
/// partial derivatives of all outputs with respect to input variable x
pub fn derivatives(f: impl Fn(dtype) -> Vec<dtype>, x: dtype) -> Vec<dtype> {
    f(x).into_iter().map(|y| crate::sym::deriv(y, x)).collect()
}
