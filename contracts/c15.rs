//! C15: every optimizer step solves the linearised problem (damped for Levenberg-Marquardt) and moves every variable by its part.
mod common;
mod stub;
use common::*;
use factrs::containers::{FactorBuilder, Graph, Key, Values, ValuesOrder};
use factrs::linear::LinearSolver;
use factrs::optimizers::{GaussNewton, GraphOptimizer, LevenMarquardt, OptError, OptObserver, Optimizer};
use faer::sparse::SparseColMatRef;
use faer::{Mat, MatRef};
use std::cell::RefCell;
use std::rc::Rc;
use stub::*;

/// what the optimizer asked a solver to solve, and the (arbitrary) answer it got
struct Call {
    symmetric: bool,
    a: M,
    b: Vec<dtype>,
    x: Vec<dtype>,
}
thread_local! {
    static CALLS: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
}
fn calls() -> Vec<Call> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
#[derive(Default)]
struct AnySolver;
fn dense(a: SparseColMatRef<usize, dtype>) -> M {
    (0..a.nrows()).map(|i| (0..a.ncols()).map(|j| a.get(i, j).cloned().unwrap_or(q(0.0))).collect()).collect()
}
impl AnySolver {
    fn answer(&self, symmetric: bool, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
        let n = CALLS.with(|c| c.borrow().len());
        let x: Vec<dtype> = (0..a.ncols()).map(|i| var_tame(&format!("x{n}_{i}"), -1.5, 1.5)).collect();
        let b: Vec<dtype> = (0..b.nrows()).map(|i| b[(i, 0)]).collect();
        let out = Mat::from_fn(x.len(), 1, |i, _| x[i]);
        CALLS.with(|c| c.borrow_mut().push(Call { symmetric, a: dense(a), b, x }));
        out
    }
}
impl LinearSolver for AnySolver {
    fn solve_symmetric(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
        self.answer(true, a, b)
    }
    fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
        self.answer(false, a, b)
    }
}

/// a factor: its residual, its keys with their dimensions, and its kernel
type Part = (Any, Vec<(u64, usize)>, Option<Kernel>);
/// J and r with columns in the order of the values
fn ordered(parts: &[Part], values: &Values) -> (M, Vec<dtype>) {
    let o = ValuesOrder::from_values(values);
    let n = o.dim();
    let (mut j, mut r) = (vec![], vec![]);
    for (any, ks, kernel) in parts {
        let root = kernel.as_ref().map(|k| k.root).unwrap_or(q(1.0));
        for i in 0..any.r.len() {
            let mut row = vec![q(0.0); n];
            let mut at = 0;
            for (k, d) in ks {
                let c = o.get(Key(*k)).unwrap().idx;
                for t in 0..*d {
                    row[c + t] = row[c + t] + root * any.j[i][at + t];
                }
                at += d;
            }
            j.push(row);
            r.push(q(0.0) - root * any.r[i]);
        }
    }
    (j, r)
}
fn tr(a: &M) -> M {
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect()
}
struct Problem {
    graph: Graph,
    parts: Vec<Part>,
}
fn problem(two: bool) -> Problem {
    let mut graph = Graph::new();
    let a = Any::new("a", 3, 5, vec![Key(8), Key(4)]);
    graph.add_factor(FactorBuilder::<3>::new2_unchecked(Any2(a.clone()), Sy(8), Sy(4)).build());
    let mut parts = vec![(a, vec![(8, 2), (4, 3)], None)];
    if two {
        let b = Any::new("b", 2, 3, vec![Key(4)]);
        let k = Kernel::any("k");
        graph.add_factor(FactorBuilder::<2>::new1_unchecked(Any1(b.clone()), Sy(4)).robust(k.clone()).build());
        parts.push((b, vec![(4, 3)], Some(k)));
    }
    Problem { graph, parts }
}
fn start(p: &str) -> Values {
    let mut v = Values::new();
    v.insert_unchecked(Sy(8), VectorVar2::any(&format!("{p}a")));
    v.insert_unchecked(Sy(4), VectorVar3::any(&format!("{p}b")));
    v
}
fn read(v: &Values) -> Vec<dtype> {
    let mut o: Vec<dtype> = v.get_unchecked::<_, VectorVar2>(Sy(8)).map(|x| x.obs()).unwrap_or_default();
    o.extend(v.get_unchecked::<_, VectorVar3>(Sy(4)).map(|x| x.obs()).unwrap_or_default());
    o
}
/// the values moved by x, whose entries are in the order of the values
fn moved(before: &Values, x: &[dtype]) -> Vec<dtype> {
    let o = ValuesOrder::from_values(before);
    let b = read(before);
    let (p, s) = (o.get(Key(8)).unwrap().idx, o.get(Key(4)).unwrap().idx);
    vec![b[0] + x[p], b[1] + x[p + 1], b[2] + x[s], b[3] + x[s + 1], b[4] + x[s + 2]]
}
struct Watch(Rc<RefCell<Vec<(Vec<dtype>, dtype)>>>);
impl OptObserver for Watch {
    type Input = Values;
    fn on_step(&self, values: &Values, time: dtype) {
        self.0.borrow_mut().push((read(values), time));
    }
}
/// the normal equations of what was asked
fn normal(c: &Call) -> (M, Vec<dtype>) {
    if c.symmetric {
        (c.a.clone(), c.b.clone())
    } else {
        (mmul(&tr(&c.a), &c.a), mvec(&tr(&c.a), &c.b))
    }
}
fn same_m(label: &str, a: &M, b: &M) {
    ensures_fact(&format!("{label}: shape"), a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len()));
    if a.len() == b.len() {
        for i in 0..a.len() {
            if a[i].len() == b[i].len() {
                ensures_all_eq(&format!("{label}: row {i}"), &a[i], &b[i]);
            }
        }
    }
}
fn gauss_newton() {
    calls();
    let p = problem(choose("factors", 2) == 1);
    let values = start("v");
    let mut opt: GaussNewton<AnySolver> = GaussNewton::new(p.graph);
    let log: Rc<RefCell<Vec<(Vec<dtype>, dtype)>>> = Default::default();
    opt.observers.add(Watch(log.clone()));
    opt.init(&values);
    let r = opt.step(values.clone(), 5);
    let c = calls();
    ensures_fact("one system is solved per step", c.len() == 1);
    if c.len() != 1 {
        return;
    }
    let (j, b) = ordered(&p.parts, &values);
    let (na, nb) = normal(&c[0]);
    same_m("the system is the linearised problem's", &na, &mmul(&tr(&j), &j));
    ensures_all_eq("with its right-hand side", &nb, &mvec(&tr(&j), &b));
    match r {
        Err(_) => {
            ensures_fact("a solved step succeeds", false);
        }
        Ok(v) => {
            ensures_all_eq("every variable moves by its part of the solution", &read(&v), &moved(&values, &c[0].x));
            ensures_fact("no variable appears or disappears", v.len() == 2);
            ensures_fact("observers are told once", log.borrow().len() == 1);
            if let Some((seen, t)) = log.borrow().first() {
                ensures_all_eq("observers see the updated values", seen, &read(&v));
                ensures_eq("observers see the step's number", *t, q(5.0));
            }
        }
    }
    ensures_fact("the error is the graph's", opt.graph().len() == p.parts.len());
    let e = p.parts.iter().fold(q(0.0), |s, (a, _, k)| s + k.as_ref().map(|k| k.loss).unwrap_or(sq(&a.r) / q(2.0)));
    ensures_eq("the optimizer's error is the graph's error", opt.error(&values), e);
}
/// several problems through one optimizer, one after the other, with other values and other columns
fn gauss_newton_again() {
    calls();
    let p = problem(true);
    let mut opt: GaussNewton<AnySolver> = GaussNewton::new(p.graph);
    opt.params.max_iterations = 1;
    opt.params.error_tol_absolute = q(-1e9);
    opt.params.error_tol_relative = q(-1e9);
    requires(gt(p.parts[0].0.r[0], q(1.0)));
    requires(ge(p.parts[1].2.as_ref().unwrap().loss, q(0.0)));
    for round in 0..2 {
        let mut values = start(&format!("v{round}"));
        if round == 1 {
            values.insert_unchecked(Sy(77), VectorVar1::any("extra"));
            values.insert_unchecked(Sy(1), VectorVar2::any("more"));
        }
        let r = opt.optimize(values.clone());
        let c = calls();
        ensures_fact("one system is solved per step", c.len() == 1);
        if c.len() != 1 {
            return;
        }
        let (j, b) = ordered(&p.parts, &values);
        let (na, nb) = normal(&c[0]);
        same_m(&format!("round {round}: the system is the linearised problem's"), &na, &mmul(&tr(&j), &j));
        ensures_all_eq(&format!("round {round}: with its right-hand side"), &nb, &mvec(&tr(&j), &b));
        match r {
            Err(OptError::MaxIterations(v)) => {
                ensures_all_eq(&format!("round {round}: every variable moves by its part"), &read(&v), &moved(&values, &c[0].x));
            }
            _ => {
                ensures_fact("the budget is one step", false);
            }
        }
    }
}
fn lin_error(j: &M, b: &[dtype], x: &[dtype]) -> dtype {
    let ax = mvec(j, x);
    let d: Vec<dtype> = ax.iter().zip(b).map(|(a, b)| *a - *b).collect();
    sq(&d) / q(2.0)
}
/// a smaller problem: one factor with one row on each variable
fn small() -> (Graph, Vec<Part>, Values) {
    let mut graph = Graph::new();
    let a = Any::new("a", 1, 2, vec![Key(8), Key(4)]);
    let f = FactorBuilder::<1>::new2_unchecked(Tiny(a.clone()), Sy(8), Sy(4));
    let k = if choose("kernel", 2) == 1 { Some(Kernel::any("k")) } else { None };
    graph.add_factor(match &k {
        Some(k) => f.robust(k.clone()).build(),
        None => f.build(),
    });
    let mut values = Values::new();
    values.insert_unchecked(Sy(8), VectorVar1::any("p"));
    values.insert_unchecked(Sy(4), VectorVar1::any("s"));
    (graph, vec![(a, vec![(8, 1), (4, 1)], k)], values)
}
use factrs::residuals::{Residual, Residual2};
#[derive(Clone)]
struct Tiny(Any);
impl std::fmt::Debug for Tiny {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "any")
    }
}
impl std::fmt::Display for Tiny {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "any")
    }
}
impl Residual for Tiny {
    fn dim_in(&self) -> usize {
        2
    }
    fn dim_out(&self) -> usize {
        1
    }
    fn residual(&self, values: &Values, keys: &[Key]) -> VectorX {
        self.0.value(values, keys)
    }
    fn residual_jacobian(&self, values: &Values, keys: &[Key]) -> DiffResult<VectorX, MatrixX> {
        self.0.jac(values, keys)
    }
}
impl Residual2 for Tiny {
    type Differ = ForwardProp<Const<2>>;
    type V1 = VectorVar1;
    type V2 = VectorVar1;
    type DimIn = Const<2>;
    type DimOut = Const<1>;
    fn residual2<T: Numeric>(&self, _: VectorVar1<T>, _: VectorVar1<T>) -> VectorX<T> {
        panic!("evaluated through Residual")
    }
}
fn read1(v: &Values) -> Vec<dtype> {
    let mut o: Vec<dtype> = v.get_unchecked::<_, VectorVar1>(Sy(8)).map(|x| x.obs()).unwrap_or_default();
    o.extend(v.get_unchecked::<_, VectorVar1>(Sy(4)).map(|x| x.obs()).unwrap_or_default());
    o
}
struct Watch1(Rc<RefCell<Vec<(Vec<dtype>, dtype)>>>);
impl OptObserver for Watch1 {
    type Input = Values;
    fn on_step(&self, values: &Values, time: dtype) {
        self.0.borrow_mut().push((read1(values), time));
    }
}
/// damping of the recorded system: a = J'J + lambda D
fn damping(label: &str, c: &Call, j: &M, b: &[dtype], diagonal: bool, lambda: dtype) {
    ensures_fact(&format!("{label}: a symmetric system"), c.symmetric);
    let jtj = mmul(&tr(j), j);
    let n = jtj.len();
    let want: M = (0..n).map(|i| (0..n).map(|k| if i == k { jtj[i][i] + lambda * if diagonal { jtj[i][i] } else { q(1.0) } } else { jtj[i][k] }).collect()).collect();
    same_m(&format!("{label}: the damped normal equations"), &c.a, &want);
    ensures_all_eq(&format!("{label}: right-hand side"), &c.b, &mvec(&tr(j), b));
}
fn leven() {
    calls();
    let (graph, parts, values) = small();
    let diagonal = choose("damping", 2) == 0;
    let mut opt: LevenMarquardt<AnySolver> = LevenMarquardt::new(graph);
    opt.params_leven.diagonal_damping = diagonal;
    let factor = var_tame("factor", 1.5, 20.0);
    requires(gt(factor, q(1.0)));
    let l0 = q(1e-5);
    // any limits whose range contains a value; at most two rejected tries per step
    let lmax = l0 * var_tame("lambda_max", 0.5, 30.0);
    let lmin = l0 * var_tame("lambda_min", 0.0, 0.4);
    requires(ge(lmin, q(0.0)));
    requires(le(lmin, lmax));
    requires(lt(lmax, l0 * factor * factor));
    opt.params_leven.lambda_factor = factor;
    opt.params_leven.lambda_max = lmax;
    opt.params_leven.lambda_min = lmin;
    let log: Rc<RefCell<Vec<(Vec<dtype>, dtype)>>> = Default::default();
    opt.observers.add(Watch1(log.clone()));
    opt.init(&values);
    let (j, b) = ordered(&parts, &values);
    let r = opt.step(values.clone(), 4);
    let c = calls();
    ensures_fact("at least one try", !c.is_empty());
    let old = lin_error(&j, &b, &vec![q(0.0); j[0].len()]);
    let mut lambda = l0;
    for (i, call) in c.iter().enumerate() {
        damping(&format!("try {i}"), call, &j, &b, diagonal, lambda);
        let e = lin_error(&j, &b, &call.x);
        let last = i + 1 == c.len();
        if !last {
            ensures(&format!("try {i} was rejected because it does not reduce the linearised error"), ge(e, old));
            lambda = lambda * factor;
            ensures(&format!("try {} is within the damping limit", i + 1), le(lambda, lmax));
        } else if r.is_ok() {
            ensures(&format!("try {i} was accepted because it reduces the linearised error"), lt(e, old));
        } else {
            ensures(&format!("try {i} was rejected because it does not reduce the linearised error"), ge(e, old));
            ensures("giving up means the damping limit is exceeded", gt(lambda * factor, lmax));
        }
    }
    match r {
        Ok(v) => {
            let x = &c.last().unwrap().x;
            let o = ValuesOrder::from_values(&values);
            let (p, s) = (o.get(Key(8)).unwrap().idx, o.get(Key(4)).unwrap().idx);
            let w = read1(&values);
            let want = vec![w[0] + x[p], w[1] + x[s]];
            ensures_all_eq("every variable moves by its part of the accepted try, and only by it", &read1(&v), &want);
            ensures_fact("observers are told once", log.borrow().len() == 1);
            if let Some((seen, t)) = log.borrow().first() {
                ensures_all_eq("observers see the updated values", seen, &want);
                ensures_eq("observers see the step's number", *t, q(4.0));
            }
            // the next step starts from the relaxed damping, never below the minimum
            let down = lambda / factor;
            let _ = opt.step(v, 5);
            let c = calls();
            let next = if split(lt(down, lmin)) { lmin } else { down };
            ensures_fact("a next try", !c.is_empty());
            if let Some(call) = c.first() {
                damping("next step", call, &j, &b, diagonal, next);
            }
        }
        Err(OptError::FailedToStep) => {
            ensures_fact("observers are not told about a failed step", log.borrow().is_empty());
        }
        Err(_) => {
            ensures_fact("the only failure is failing to step", false);
        }
    }
}
/// the two-factor problem of the Gauss-Newton contract, one accepted try
fn leven_large() {
    calls();
    let p = problem(true);
    let diagonal = choose("damping", 2) == 0;
    let mut opt: LevenMarquardt<AnySolver> = LevenMarquardt::new(p.graph);
    opt.params_leven.diagonal_damping = diagonal;
    for round in 0..2 {
        // a rejected try exceeds the limit at once
        opt.params_leven.lambda_max = if round == 0 { q(2e-5) } else { q(2e-6) };
        let mut values = start(&format!("v{round}"));
        if round == 1 && !diagonal {
            // a variable no factor touches (diagonal damping leaves it undetermined)
            values.insert_unchecked(Sy(77), VectorVar1::any("extra"));
        }
        opt.init(&values);
        let (j, b) = ordered(&p.parts, &values);
        let r = opt.step(values.clone(), 1);
        let c = calls();
        ensures_fact("the damping limit allows one try", c.len() == 1);
        if c.len() != 1 {
            return;
        }
        let lambda = if round == 0 { q(1e-5) } else { q(1e-6) };
        damping(&format!("round {round}"), &c[0], &j, &b, diagonal, lambda);
        match r {
            Ok(v) => {
                ensures_all_eq(&format!("round {round}: every variable moves by its part"), &read(&v), &moved(&values, &c[0].x));
            }
            Err(_) => {
                let e = lin_error(&j, &b, &c[0].x);
                ensures("a failed try did not reduce the linearised error", ge(e, lin_error(&j, &b, &vec![q(0.0); j[0].len()])));
                return;
            }
        }
    }
}
/// many rejected tries in one step: only the damping limit ends them
thread_local! {
    static SCRIPT: std::cell::Cell<(usize, Option<dtype>)> = const { std::cell::Cell::new((0, None)) };
}
/// answers that do not reduce the error a given number of times, then the solution of the undamped system
#[derive(Default)]
struct Late {
    asked: usize,
}
impl LinearSolver for Late {
    fn solve_symmetric(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
        let (late, answer) = SCRIPT.with(|s| s.get());
        let x = if self.asked < late { q(0.0) } else { answer.unwrap() };
        self.asked += 1;
        CALLS.with(|c| c.borrow_mut().push(Call { symmetric: true, a: dense(a), b: (0..b.nrows()).map(|i| b[(i, 0)]).collect(), x: vec![x] }));
        Mat::from_fn(1, 1, |_, _| x)
    }
    fn solve_lst_sq(&mut self, _: SparseColMatRef<usize, dtype>, _: MatRef<dtype>) -> Mat<dtype> {
        panic!("a Levenberg-Marquardt step solves symmetric systems")
    }
}
fn leven_rejected() {
    calls();
    let late = [0usize, 1, 3, 6, 12, 33, 120][choose("rejected tries", 7)];
    let enough = choose("the damping limit allows them", 2) == 0;
    if late == 0 && !enough {
        return;
    }
    let diagonal = choose("damping", 2) == 0;
    let answer = var_tame("answer", -1.5, 1.5);
    SCRIPT.with(|s| s.set((late, Some(answer))));
    let any = Any::new("f", 1, 1, vec![Key(8)]);
    requires(gt(any.j[0][0], q(0.0)));
    let mut graph = Graph::new();
    graph.add_factor(FactorBuilder::<1>::new1_unchecked(Free1::<1>(any.clone()), Sy(8)).build());
    let mut values = Values::new();
    values.insert_unchecked(Sy(8), VectorVar1::any("v"));
    let mut opt: LevenMarquardt<Late> = LevenMarquardt::new(graph);
    opt.params_leven.diagonal_damping = diagonal;
    opt.params_leven.lambda_factor = q(2.0);
    let l0 = q(1e-5);
    let after = |n: usize| (0..n).fold(l0, |l, _| l * q(2.0));
    opt.params_leven.lambda_max = if enough { after(late) } else { after(late - 1) };
    opt.params_leven.lambda_min = q(0.0);
    let (j, b) = (any.j.clone(), vec![q(0.0) - any.r[0]]);
    // the last answer reduces the error
    requires(lt(lin_error(&j, &b, &[answer]), lin_error(&j, &b, &[q(0.0)])));
    opt.init(&values);
    let r = opt.step(values.clone(), 1);
    let c = calls();
    ensures_fact("as many tries as the damping limit allows", c.len() == if enough { late + 1 } else { late });
    for (i, call) in c.iter().enumerate() {
        damping(&format!("try {i} of many"), call, &j, &b, diagonal, after(i));
    }
    match r {
        Ok(v) => {
            ensures_fact("accepted once a try reduces the error", enough);
            let w = values.get_unchecked::<_, VectorVar1>(Sy(8)).unwrap()[0];
            let got = v.get_unchecked::<_, VectorVar1>(Sy(8)).map(|x| x.obs()).unwrap_or_default();
            ensures_all_eq("the variable moves by the accepted try", &got, &[w + answer]);
            let _ = opt.step(v, 2);
            if let Some(call) = calls().first() {
                damping("the step after many tries", call, &j, &b, diagonal, after(late) / q(2.0));
            }
        }
        Err(OptError::FailedToStep) => {
            ensures_fact("fails only beyond the damping limit", !enough);
        }
        Err(_) => {
            ensures_fact("the only failure is failing to step", false);
        }
    }
}
/// many variables, many columns: every one of them moves by its own part
fn many(leven: bool) {
    calls();
    let n = 16u64;
    let dim = |i: u64| [1usize, 6, 2, 9, 3, 15][(i % 6) as usize];
    let mut graph = Graph::new();
    let mut parts: Vec<Part> = vec![];
    let mut values = Values::new();
    let diagonal = leven && choose("damping", 2) == 0;
    for i in 0..n {
        let (k, p) = (Sy(i * 31 + 2), format!("v{i}_"));
        match dim(i) {
            1 => drop(values.insert_unchecked(k, VectorVar1::any(&p))),
            2 => drop(values.insert_unchecked(k, VectorVar2::any(&p))),
            3 => drop(values.insert_unchecked(k, VectorVar3::any(&p))),
            6 => drop(values.insert_unchecked(k, ImuBias::any(&p))),
            9 => drop(values.insert_unchecked(k, VectorVar::<9>::any(&p))),
            _ => drop(values.insert_unchecked(k, VectorVar::<15>::any(&p))),
        }
        let k = (i * 7 + 3) % n;
        // fixed Jacobian entries, arbitrary residuals: the solver's answers are arbitrary anyway
        let mut any = Any::new(&format!("f{i}"), 1, dim(i) + dim(k), vec![Key(i * 31 + 2), Key(k * 31 + 2)]);
        if i == k {
            continue;
        }
        for (c, x) in any.j[0].iter_mut().enumerate() {
            *x = q(((i as usize * 5 + c * 3) % 7) as f64 + 1.0);
        }
        graph.add_factor(FactorBuilder::<1>::new2_unchecked(Free2::<1>(any.clone()), Sy(i * 31 + 2), Sy(k * 31 + 2)).build());
        parts.push((any, vec![(i * 31 + 2, dim(i)), (k * 31 + 2, dim(k))], None));
    }
    let (j, b) = ordered(&parts, &values);
    let r = if leven {
        let mut opt: LevenMarquardt<AnySolver> = LevenMarquardt::new(graph);
        opt.params_leven.diagonal_damping = diagonal;
        opt.params_leven.lambda_max = q(2e-5);
        opt.init(&values);
        opt.step(values.clone(), 1)
    } else {
        let mut opt: GaussNewton<AnySolver> = GaussNewton::new(graph);
        opt.init(&values);
        opt.step(values.clone(), 1)
    };
    let c = calls();
    ensures_fact("one system is solved", c.len() == 1);
    if c.len() != 1 {
        return;
    }
    if leven {
        damping("many variables", &c[0], &j, &b, diagonal, q(1e-5));
    } else {
        let (na, nb) = normal(&c[0]);
        same_m("many variables: the system is the linearised problem's", &na, &mmul(&tr(&j), &j));
        ensures_all_eq("many variables: with its right-hand side", &nb, &mvec(&tr(&j), &b));
    }
    match r {
        Ok(v) => {
            let o = ValuesOrder::from_values(&values);
            for i in 0..n {
                let k = Key(i * 31 + 2);
                let at = o.get(k).unwrap().idx;
                let dx = vx(&c[0].x[at..at + dim(i)]);
                macro_rules! moved {
                    ($V:ty) => {{
                        let was = values.get_unchecked::<_, $V>(k).unwrap();
                        match v.get_unchecked::<_, $V>(k) {
                            Some(got) => same("many variables: each moves by its own part", got, &was.oplus(dx.as_view())),
                            None => drop(ensures_fact("many variables: none disappears", false)),
                        }
                    }};
                }
                match dim(i) {
                    1 => moved!(VectorVar1),
                    2 => moved!(VectorVar2),
                    3 => moved!(VectorVar3),
                    6 => moved!(ImuBias),
                    9 => moved!(VectorVar<9>),
                    _ => moved!(VectorVar<15>),
                }
            }
        }
        Err(_) => {
            ensures_fact("a solved Gauss-Newton step succeeds", leven);
        }
    }
}
fn gauss_newton_many() {
    many(false)
}
fn leven_many() {
    many(true)
}
const K: &[Contract] = &[
    Contract { name: "gauss_newton", functions: "GaussNewton::{new, init, step, error, graph}, OptObserverVec::notify, Values::oplus_mut", bounded: "one or two factors on two variables; Jacobian, residual, values and solver answer arbitrary", run: gauss_newton },
    Contract { name: "gauss_newton_again", functions: "GaussNewton::{init, step}, Optimizer::optimize", bounded: "two successive optimisations over different sets of variables; every entry arbitrary", run: gauss_newton_again },
    Contract { name: "leven", functions: "LevenMarquardt::{new, init, step}", bounded: "one row on two scalar variables, at most two rejected tries; damping parameters, Jacobian, residual and solver answers arbitrary", run: leven },
    Contract { name: "leven_rejected", functions: "LevenMarquardt::{init, step}", bounded: "one scalar variable, up to 120 rejected tries that answer zero, factor two; Jacobian, residual and the last answer arbitrary", run: leven_rejected },
    Contract { name: "gauss_newton_many", functions: "GaussNewton::{init, step}", bounded: "one problem of 16 variables of up to 15 dimensions with fixed Jacobians; values, residuals and solver answer arbitrary", run: gauss_newton_many },
    Contract { name: "leven_many", functions: "LevenMarquardt::{init, step}", bounded: "one problem of 16 variables of up to 15 dimensions with fixed Jacobians, one try; values, residuals and solver answer arbitrary", run: leven_many },
    Contract { name: "leven_large", functions: "LevenMarquardt::{init, step}", bounded: "two factors on two variables, two successive problems, one try each; every entry arbitrary", run: leven_large },
];
fn main() {
    run_all(K)
}
