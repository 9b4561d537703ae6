//! C14: the optimisation loop stops exactly when a stopping rule says so, never exceeds its budget and returns the last values.
mod common;
use common::*;
use factrs::optimizers::{OptError, OptObserver, OptObserverVec, OptParams, OptResult, Optimizer};
use std::cell::RefCell;
use std::rc::Rc;

/// any optimizer: the error after every step is arbitrary, any step may fail
struct AnyOpt {
    params: OptParams,
    errors: Vec<dtype>,
    fail: Option<(usize, usize)>,
    init: usize,
    steps: Vec<(usize, usize)>,
    errored_before_init: RefCell<bool>,
}
impl Optimizer for AnyOpt {
    type Input = usize;
    fn params(&self) -> &OptParams {
        &self.params
    }
    fn init(&mut self, values: &usize) {
        ensures_fact("initialisation sees the initial values", *values == 0);
        self.init += 1;
    }
    fn error(&self, values: &usize) -> dtype {
        if self.init == 0 {
            *self.errored_before_init.borrow_mut() = true;
        }
        self.errors[*values]
    }
    fn step(&mut self, values: usize, idx: usize) -> OptResult<usize> {
        ensures_fact("no step is taken before initialisation", self.init == 1);
        self.steps.push((values, idx));
        if let Some((at, how)) = self.fail {
            if at == idx {
                return Err(if how == 0 { OptError::InvalidSystem } else { OptError::FailedToStep });
            }
        }
        Ok(values + 1)
    }
}
fn run(n: usize, fail: Option<(usize, usize)>) {
    let abs = var("abs");
    let rel = var("rel");
    let tol = var("tol");
    requires(ge(tol, q(0.0)));
    let errors: Vec<dtype> = (0..n + 2).map(|i| var(&format!("e{i}"))).collect();
    let params = OptParams { max_iterations: n, error_tol_relative: rel, error_tol_absolute: abs, error_tol: tol };
    let mut o = AnyOpt { params, errors: errors.clone(), fail, init: 0, steps: vec![], errored_before_init: RefCell::new(false) };
    let r = o.optimize(0);
    ensures_fact("initialised exactly once", o.init == 1);
    let taken = o.steps.len();
    ensures_fact("never more steps than the budget", taken <= n);
    ensures_fact("each step continues from the values of the previous one and is told its number", o.steps.iter().enumerate().all(|(i, s)| *s == (i, i + 1)));
    // the rule that stops after i steps
    let stops = |i: usize| {
        let (old, new) = (errors[i - 1], errors[i]);
        or(vec![le(new, tol), le(old - new, abs), le((old - new) / old, rel)])
    };
    // steps that were followed by another step had no reason to stop
    if taken >= 1 {
        ensures("an optimisation that steps started above the tolerance", gt(errors[0], tol));
    }
    for i in 1..taken {
        ensures(&format!("no rule stopped the optimisation after step {i}"), not(stops(i)));
    }
    match r {
        Ok(v) => {
            ensures_fact("the values returned are those of the last step", v == taken);
            if taken == 0 {
                ensures("without a step the initial error was within tolerance", le(errors[0], tol));
            } else {
                ensures("success means a stopping rule holds", stops(taken));
            }
            ensures_fact("a failed step is not a success", fail.map(|f| f.0 > taken).unwrap_or(true));
        }
        Err(OptError::MaxIterations(v)) => {
            ensures_fact("running out of budget takes the whole budget and returns the last values", taken == n && v == n);
            ensures_fact("a failed step is not running out of budget", fail.map(|f| f.0 > taken).unwrap_or(true));
            if n == 0 {
                ensures("running out of an empty budget means the initial error was above tolerance", gt(errors[0], tol));
            } else {
                ensures("running out of budget means no rule stopped the last step", not(stops(n)));
            }
        }
        Err(OptError::InvalidSystem) => {
            ensures_fact("an error is the failing step's own", fail == Some((taken, 0)));
        }
        Err(OptError::FailedToStep) => {
            ensures_fact("an error is the failing step's own", fail == Some((taken, 1)));
        }
    }
}
fn budget() {
    let n = choose("budget", 5);
    run(n, None);
}
fn failing() {
    let n = 1 + choose("budget", 3);
    let at = 1 + choose("failing step", n);
    let how = choose("kind of failure", 2);
    run(n, Some((at, how)));
}
/// many steps without a reason to stop, then any three
fn deep() {
    let k = [5, 11, 23, 52, 101][choose("steps before", 5)];
    let slack = choose("budget beyond the third", 2);
    let n = k + 3 + slack;
    let (abs, rel, tol) = (var("abs"), var("rel"), var("tol"));
    requires(and(vec![ge(tol, q(0.0)), lt(tol, q(1000.0)), lt(abs, q(1.0)), lt(rel, q(0.0001))]));
    let top = 5000;
    let mut errors: Vec<dtype> = (0..=k).map(|i| q((top - i) as f64)).collect();
    errors.extend((0..3).map(|i| var(&format!("e{i}"))));
    errors.push(var("beyond"));
    let params = OptParams { max_iterations: n, error_tol_relative: rel, error_tol_absolute: abs, error_tol: tol };
    let mut o = AnyOpt { params, errors: errors.clone(), fail: None, init: 0, steps: vec![], errored_before_init: RefCell::new(false) };
    let r = o.optimize(0);
    let taken = o.steps.len();
    ensures_fact("every step before had no reason to stop", taken > k);
    ensures_fact("never more steps than the budget", taken <= n);
    ensures_fact("each step continues from the values of the previous one and is told its number", o.steps.iter().enumerate().all(|(i, s)| *s == (i, i + 1)));
    let stops = |i: usize| {
        let (old, new) = (errors[i - 1], errors[i]);
        or(vec![le(new, tol), le(old - new, abs), le((old - new) / old, rel)])
    };
    for i in k + 1..taken {
        ensures("no rule stopped the optimisation after a step that was followed by another", not(stops(i)));
    }
    match r {
        Ok(v) => {
            ensures_fact("the values returned are those of the last step", v == taken);
            ensures("success means a stopping rule holds", stops(taken));
        }
        Err(OptError::MaxIterations(v)) => {
            ensures_fact("running out of budget takes the whole budget and returns the last values", taken == n && v == n);
            ensures("running out of budget means no rule stopped the last step", not(stops(n)));
        }
        Err(_) => {
            ensures_fact("no step failed", false);
        }
    }
}
/// an unlimited-looking budget with a rule that fires late
fn late() {
    let mut o = AnyOpt {
        params: OptParams { max_iterations: 300, ..OptParams::default() },
        errors: (0..301).map(|i| if i < 137 { q((1000 - 2 * i) as f64) } else { q(726.0) }).collect(),
        fail: None,
        init: 0,
        steps: vec![],
        errored_before_init: RefCell::new(false),
    };
    let r = o.optimize(0);
    ensures_fact("stops as soon as the error stops decreasing", matches!(r, Ok(138)) && o.steps.len() == 138);
    let mut o = AnyOpt {
        params: OptParams { max_iterations: 120, ..OptParams::default() },
        errors: (0..301).map(|i| q((1000 - 2 * i) as f64)).collect(),
        fail: None,
        init: 0,
        steps: vec![],
        errored_before_init: RefCell::new(false),
    };
    let r = o.optimize(0);
    ensures_fact("stops at the budget", matches!(r, Err(OptError::MaxIterations(120))) && o.steps.len() == 120);
}
fn defaults() {
    let p = OptParams::default();
    ensures_fact("default budget", p.max_iterations == 100);
    ensures_eq("default relative tolerance", p.error_tol_relative, q(1e-6));
    ensures_eq("default absolute tolerance", p.error_tol_absolute, q(1e-6));
    ensures_eq("default error tolerance", p.error_tol, q(0.0));
}
struct Watch {
    id: usize,
    log: Rc<RefCell<Vec<(usize, usize, dtype)>>>,
}
impl OptObserver for Watch {
    type Input = usize;
    fn on_step(&self, values: &usize, time: dtype) {
        self.log.borrow_mut().push((self.id, *values, time));
    }
}
fn observers() {
    let n = [0, 1, 2, 3, 9, 40][choose("number of observers", 6)];
    let log: Rc<RefCell<Vec<(usize, usize, dtype)>>> = Default::default();
    let mut v: OptObserverVec<usize> = OptObserverVec::default();
    for i in 0..n {
        v.add(Watch { id: i, log: log.clone() });
    }
    let steps = [3usize, 7, 0, 1, 2, 10, 99, 100, 101, 127, 128, 255, 256, 1000, 4095, 65535, 65536, 70001, 1 << 24, (1 << 24) + 1, 1 << 31, 1 << 32, (1 << 40) + 3];
    let mut want = vec![];
    for (k, at) in steps.iter().enumerate() {
        v.notify(&(41 + k), *at);
        want.extend((0..n).map(|i| (i, 41 + k, *at)));
    }
    let log = log.borrow();
    ensures_fact("every observer is told every step once, in order, with its values", log.iter().map(|l| (l.0, l.1)).eq(want.iter().map(|w| (w.0, w.1))));
    for (l, w) in log.iter().zip(&want) {
        ensures_eq("observers are told the step's number", l.2, q(w.2 as f64));
    }
}
const K: &[Contract] = &[
    Contract { name: "budget", functions: "Optimizer::optimize", bounded: "budgets of up to four iterations; errors and tolerances arbitrary", run: budget },
    Contract { name: "failing", functions: "Optimizer::optimize", bounded: "budgets of up to three iterations, a failure at any step; errors and tolerances arbitrary", run: failing },
    Contract { name: "deep", functions: "Optimizer::optimize", bounded: "5 to 101 steps of a fixed decrease, then up to four arbitrary ones; tolerances arbitrary", run: deep },
    Contract { name: "late", functions: "Optimizer::optimize", bounded: "two fixed runs of 138 and 120 iterations", run: late },
    Contract { name: "defaults", functions: "OptParams::default", bounded: "", run: defaults },
    Contract { name: "observers", functions: "OptObserverVec::{default, add, notify}", bounded: "up to 40 observers, 23 step numbers up to 2^40", run: observers },
];
fn main() {
    run_all(K)
}
