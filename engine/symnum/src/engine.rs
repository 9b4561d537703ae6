//! Path exploration and obligations.
use crate::ctx::{with, Ctx, Form, Gen, Memo, NForm, Node, Rel};
use crate::smt::{self, Ans};
use crate::sym::Sym;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Dec {
    pub choice: u32,
    pub rest: Vec<u32>,
}
#[derive(Clone, Debug)]
pub struct Obl {
    pub label: String,
    pub kind: &'static str,
    pub ok: bool,
    pub by: String,
    pub detail: String,
    pub model: Option<Vec<(String, f64)>>,
    pub path: usize,
    pub secs: f64,
}
#[derive(Default)]
pub struct Eng {
    pub stats: smt::Stats,
    pub cache: HashMap<(String, usize, bool), Ans>,
    pub prefix: Vec<Dec>,
    pub decs: Vec<Dec>,
    pub obls: Vec<Obl>,
    pub path: usize,
    pub contract: String,
    pub active: bool,
    pub defok: HashSet<u32>,
    pub facts: Vec<(Form, String)>,
    pub choices: Vec<(String, u32)>,
    pub notes: Vec<String>,
    pub tmo: u64,
    pub seed: u64,
    pub samples: usize,
    /// points that satisfy the hypotheses recorded so far on this path (with their evaluation memo)
    pub pool: Vec<(Vec<f64>, Memo)>,
    /// points used to refute obligations, kept while variables and hypotheses stay the same
    pub points: Vec<(Vec<f64>, Memo)>,
    pub points_at: (usize, usize),
    /// answers of the solvers to whole queries, across paths
    pub asked: HashMap<String, Ans>,
    pub pool_hyps: usize,
    pub pool_round: u64,
    pub unknown: usize,
    pub fn_exprs: BTreeMap<String, u32>,
}
pub struct Infeasible;
pub struct Limit(pub String);
/// enough failures to report
pub struct Enough;

pub fn limit(msg: impl Into<String>) -> ! {
    std::panic::panic_any(Limit(msg.into()))
}
fn tmo() -> u64 {
    with(|c| if c.eng.tmo == 0 { 20000 } else { c.eng.tmo })
}

// ---------------------------------------------------------------- decisions
pub fn choose(name: &str, n: u32) -> u32 {
    assert!(n > 0);
    with(|c| {
        let pos = c.eng.decs.len();
        let d = if pos < c.eng.prefix.len() {
            c.eng.prefix[pos].clone()
        } else {
            Dec { choice: 0, rest: (1..n).rev().collect() }
        };
        let ch = d.choice;
        c.eng.decs.push(d);
        let pre = format!("{name}#");
        let dup = c.eng.choices.iter().filter(|v| v.0 == name || v.0.starts_with(&pre)).count();
        let name = if dup == 0 { name.to_string() } else { format!("{name}#{dup}") };
        c.eng.choices.push((name, ch));
        ch
    })
}
fn record(c: &mut Ctx, f: Form, n: NForm) {
    if let NForm::Rel(Rel::Eq, fr) = &n {
        let p = fr.num.clone();
        c.add_equation(&p);
    }
    if let NForm::And(v) = &n {
        for x in v {
            if let NForm::Rel(Rel::Eq, fr) = x {
                let p = fr.num.clone();
                c.add_equation(&p);
            }
        }
    }
    c.hyps.push((f, n));
}
pub fn decide(rel: Rel, diff: Sym) -> bool {
    if diff.special().is_some() {
        return false;
    }
    let node = diff.node();
    decide_form(Form::Rel(rel, node))
}
pub fn decide_form(f: Form) -> bool {
    let n = with(|c| c.norm_form(&f));
    match n {
        NForm::T => return true,
        NForm::F => return false,
        _ => {}
    }
    if !with(|c| c.eng.active) {
        limit("symbolic comparison outside of a contract");
    }
    let neg = crate::ctx::nnot(n.clone());
    let fneg = Form::Not(Box::new(f.clone()));
    let fresh = with(|c| c.eng.decs.len() >= c.eng.prefix.len());
    let choice = if !fresh {
        with(|c| {
            let d = c.eng.prefix[c.eng.decs.len()].clone();
            let ch = d.choice;
            c.eng.decs.push(d);
            ch
        })
    } else {
        let mut nodes = vec![];
        form_nodes(&f, &mut nodes);
        check_defined("branch condition", &nodes);
        let (wt, wf) = with(|c| {
            refill(c);
            let (mut t, mut fl) = (false, false);
            let mut pool = std::mem::take(&mut c.eng.pool);
            for (v, memo) in pool.iter_mut() {
                if !t && c.accepts(&f, v, memo, 1e-12) {
                    t = true;
                }
                if !fl && c.accepts(&fneg, v, memo, 1e-12) {
                    fl = true;
                }
            }
            c.eng.pool = pool;
            (t, fl)
        });
        let ask = |w: bool, g: &NForm| {
            w || with(|c| {
                let ms = if c.eng.unknown >= 6 { 400 } else { 3000 };
                let t0 = Instant::now();
                let r = smt::feasible(c, g, ms);
                if r && t0.elapsed().as_millis() as u64 >= ms {
                    c.eng.unknown += 1;
                }
                r
            })
        };
        let ft = ask(wt, &n);
        let ff = ask(wf, &neg);
        if !ft && !ff {
            std::panic::panic_any(Infeasible);
        }
        let d = if ft && ff {
            // a direction with a known witness first
            if wf && !wt {
                Dec { choice: 0, rest: vec![1] }
            } else {
                Dec { choice: 1, rest: vec![0] }
            }
        } else {
            Dec { choice: if ft { 1 } else { 0 }, rest: vec![] }
        };
        let ch = d.choice;
        with(|c| c.eng.decs.push(d));
        ch
    };
    with(|c| {
        if choice == 1 {
            record(c, f, n)
        } else {
            record(c, fneg, neg)
        }
        if c.eng.decs.len() > 400 {
            limit("too many decisions on one path");
        }
    });
    choice == 1
}
pub fn assume(f: Form) {
    let n = with(|c| c.norm_form(&f));
    match n {
        NForm::T => {
            return;
        }
        NForm::F => std::panic::panic_any(Infeasible),
        _ => {}
    }
    with(|c| record(c, f, n));
}
pub fn form_nodes(f: &Form, out: &mut Vec<u32>) {
    match f {
        Form::T | Form::F => {}
        Form::Rel(_, n) => out.push(*n),
        Form::Not(g) => form_nodes(g, out),
        Form::And(v) | Form::Or(v) => v.iter().for_each(|g| form_nodes(g, out)),
    }
}
// ---------------------------------------------------------------- definedness
pub fn check_defined(label: &str, roots: &[u32]) {
    // collect partial nodes in post order
    let order: Vec<u32> = with(|c| {
        let mut seen: HashSet<u32> = HashSet::new();
        let mut out = vec![];
        let mut st: Vec<(u32, bool)> = roots.iter().rev().map(|&r| (r, false)).collect();
        while let Some((n, done)) = st.pop() {
            if done {
                out.push(n);
                continue;
            }
            if c.total(n) || c.eng.defok.contains(&n) || !seen.insert(n) {
                continue;
            }
            st.push((n, true));
            for a in c.node(n).args() {
                st.push((a, false));
            }
        }
        out
    });
    for n in order {
        let cond = with(|c| match c.node(n).clone() {
            Node::Div(_, b) => Some((Form::Not(Box::new(Form::Rel(Rel::Eq, b))), "divisor is nonzero")),
            Node::Sqrt(a) => {
                let z = c.intern(Node::Neg(a));
                Some((Form::Rel(Rel::Le, z), "square root argument is nonnegative"))
            }
            Node::Ln(a) => {
                let z = c.intern(Node::Neg(a));
                Some((Form::Rel(Rel::Lt, z), "logarithm argument is positive"))
            }
            Node::Atan2(y, x) => Some((
                Form::Or(vec![
                    Form::Not(Box::new(Form::Rel(Rel::Eq, y))),
                    Form::Not(Box::new(Form::Rel(Rel::Eq, x))),
                ]),
                "atan2 arguments are not both zero",
            )),
            _ => None,
        });
        if let Some((f, what)) = cond {
            prove(&format!("{label}: {what}"), "definedness", f, false);
        }
        with(|c| {
            c.eng.defok.insert(n);
        });
    }
}
// ---------------------------------------------------------------- sampling
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn sym(&mut self) -> f64 {
        2.0 * self.unit() - 1.0
    }
}
pub fn gen_one(r: &mut Rng, g: &Gen, scale: f64) -> f64 {
    match g {
        Gen::Any | Gen::Unit(..) => {
            let k = r.below(12);
            if k == 0 {
                0.0
            } else if k == 1 {
                (r.below(7) as f64 - 3.0) * if scale < 1.0 { scale } else { 1.0 }
            } else {
                r.sym() * 2.0 * scale
            }
        }
        Gen::Range(a, b) => {
            let k = r.below(10);
            if k == 0 {
                *a
            } else if k == 1 {
                *b
            } else if k == 2 {
                let s = 10f64.powf(-8.0 * r.unit());
                let v = if *a <= 0.0 && *b >= 0.0 { r.sym() * s } else { a + (b - a) * s };
                v.clamp(*a, *b)
            } else {
                a + (b - a) * r.unit()
            }
        }
        Gen::Pos => {
            let k = r.below(10);
            if k == 0 {
                1.0
            } else {
                10f64.powf(r.sym() * 3.0) * (0.1 + r.unit())
            }
        }
    }
}
pub const SCALES: [f64; 8] = [1.0, 1.0, 3.0, 0.3, 1e-3, 1e-6, 10.0, 100.0];
pub fn gen_all(r: &mut Rng, gens: &[Gen]) -> Vec<f64> {
    let scale = SCALES[r.below(SCALES.len() as u64) as usize];
    let mixed = r.below(5) == 0;
    let mut vals: Vec<f64> = gens.iter().map(|g| { let s = if mixed { SCALES[r.below(SCALES.len() as u64) as usize] } else { scale }; gen_one(r, g, s) }).collect();
    fix_units(r, gens, &mut vals);
    vals
}
pub fn fix_units(r: &mut Rng, gens: &[Gen], vals: &mut [f64]) {
    let mut groups: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
    for (i, g) in gens.iter().enumerate() {
        if let Gen::Unit(id, _, _) = g {
            groups.entry(*id).or_default().push(i);
        }
    }
    for ix in groups.values() {
        // sometimes near the axes: last component dominant (identity-like) or zero
        match r.below(6) {
            0 => vals[*ix.last().unwrap()] = 1.0 + r.unit() * 1e3,
            1 => {
                let k = *ix.last().unwrap();
                vals[k] = 0.0
            }
            2 => vals[*ix.last().unwrap()] = -(1.0 + r.unit() * 1e3),
            _ => {}
        }
        let n: f64 = ix.iter().map(|&i| vals[i] * vals[i]).sum::<f64>().sqrt();
        if n < 1e-12 {
            for &i in ix {
                vals[i] = 0.0;
            }
            vals[*ix.last().unwrap()] = 1.0;
        } else {
            for &i in ix {
                vals[i] /= n;
            }
        }
    }
}
/// keep the pool in step with the variables and hypotheses of the path
fn refill(c: &mut Ctx) {
    let gens: Vec<Gen> = c.vars.iter().map(|v| v.1.clone()).collect();
    if gens.is_empty() {
        return;
    }
    let mut pool = std::mem::take(&mut c.eng.pool);
    let from = c.eng.pool_hyps;
    let seed = c.eng.seed ^ 0xABCD ^ (c.eng.pool_round << 20);
    let mut r = Rng(seed);
    pool.retain_mut(|(v, memo)| {
        if v.len() < gens.len() {
            // new variables: earlier values stay, unit groups are never split
            let k = v.len();
            let all = gen_all(&mut r, &gens);
            v.extend_from_slice(&all[k..]);
        }
        c.hyps[from..].iter().all(|h| c.accepts(&h.0, v, memo, 1e-12))
    });
    if pool.len() < 6 && c.eng.pool_round < 40 {
        c.eng.pool_round += 1;
        for _ in 0..300 {
            let v = gen_all(&mut r, &gens);
            let mut memo = Memo::default();
            if c.hyps.iter().all(|h| c.accepts(&h.0, &v, &mut memo, 1e-12)) {
                pool.push((v, memo));
                if pool.len() >= 24 {
                    break;
                }
            }
        }
    }
    c.eng.pool_hyps = c.hyps.len();
    c.eng.pool = pool;
}
/// numeric samples satisfying all hypotheses of the current path
fn samples(c: &Ctx, want: usize, tries: usize, seed: u64) -> Vec<Vec<f64>> {
    points(c, want, tries, seed).into_iter().map(|p| p.0).collect()
}
fn points(c: &Ctx, want: usize, tries: usize, seed: u64) -> Vec<(Vec<f64>, Memo)> {
    let gens: Vec<Gen> = c.vars.iter().map(|v| v.1.clone()).collect();
    let mut r = Rng(seed ^ 0x5151);
    let mut out = vec![];
    let n = if gens.is_empty() { 1 } else { tries };
    for _ in 0..n {
        let v = gen_all(&mut r, &gens);
        let mut memo = Memo::default();
        if c.hyps.iter().all(|h| c.accepts(&h.0, &v, &mut memo, 1e-12)) {
            out.push((v, memo));
            if out.len() >= want {
                break;
            }
        }
    }
    out
}
// ---------------------------------------------------------------- proving
fn push(label: &str, kind: &'static str, ok: bool, by: &str, detail: String, model: Option<Vec<(String, f64)>>, secs: f64) {
    with(|c| {
        let path = c.eng.path;
        if !ok {
            let o = Obl { label: label.to_string(), kind, ok, by: by.to_string(), detail: detail.clone(), model: model.clone(), path, secs };
            FAILED.lock().unwrap().push((c.eng.contract.clone(), o));
        }
        c.eng.obls.push(Obl { label: label.to_string(), kind, ok, by: by.to_string(), detail, model, path, secs })
    });
}
static FAILED: std::sync::Mutex<Vec<(String, Obl)>> = std::sync::Mutex::new(vec![]);
fn enough() {
    let n = with(|c| c.eng.obls.iter().filter(|o| !o.ok && o.by != "solver: unknown").count());
    if n >= 6 {
        std::panic::panic_any(Enough);
    }
}
pub fn prove(label: &str, kind: &'static str, f: Form, defined: bool) -> bool {
    let t0 = Instant::now();
    if defined {
        let mut nodes = vec![];
        form_nodes(&f, &mut nodes);
        check_defined(label, &nodes);
    }
    let n = with(|c| c.norm_form(&f));
    let el = || t0.elapsed().as_secs_f64();
    match &n {
        NForm::T => {
            with(|c| c.eng.facts.push((f.clone(), label.to_string())));
            push(label, kind, true, "normaliser", String::new(), None, el());
            return true;
        }
        _ => {}
    }
    // syntactic signs
    let syn = with(|c| syntactic(c, &n));
    if syn {
        with(|c| c.eng.facts.push((f.clone(), label.to_string())));
        push(label, kind, true, "normaliser", String::new(), None, el());
        return true;
    }
    // numeric refutation
    let bad = with(|c| {
        let seed = c.eng.seed;
        let at = (c.vars.len(), c.hyps.len());
        if c.eng.points_at != at {
            c.eng.points = points(c, 60, 4000, seed);
            c.eng.points_at = at;
        }
        let mut ps = std::mem::take(&mut c.eng.points);
        let bad = ps.iter_mut().find_map(|(v, memo)| (c.eval_form(&f, v, memo, 1e-7) == Some(false)).then(|| v.clone()));
        c.eng.points = ps;
        bad
    });
    if let Some(v) = bad {
        let m = with(|c| model(c, &v));
        let d = with(|c| c.show_form(&f));
        push(label, kind, false, "counterexample on the extracted terms", d, Some(m), el());
        enough();
        return false;
    }
    if with(|c| crate::bound::entails(c, &n)) {
        with(|c| c.eng.facts.push((f.clone(), label.to_string())));
        push(label, kind, true, "interval enclosure", String::new(), None, el());
        return true;
    }
    let unknown = with(|c| c.eng.obls.iter().filter(|o| o.by == "solver: unknown").count());
    let t = if unknown >= 3 { tmo().min(3000) } else { tmo() };
    let r = with(|c| {
        let nh = c.hyps.len();
        smt::entails_with(c, nh, &n, t, true)
    });
    if r == Ans::Unsat {
        with(|c| c.eng.facts.push((f.clone(), label.to_string())));
        push(label, kind, true, "smt", String::new(), None, el());
        true
    } else {
        let d = with(|c| c.show_form(&f));
        let m = if r == Ans::Sat {
            with(|c| {
                let vs = smt::model(c, &n, t);
                let mut m: Vec<(String, f64)> = vs.iter().map(|(v, x)| (c.vars[*v as usize].0.clone(), *x)).collect();
                for (n, k) in &c.eng.choices {
                    m.push((format!("choice:{}", n), *k as f64));
                }
                Some(m)
            })
        } else {
            None
        };
        push(label, kind, false, if r == Ans::Sat { "solver: sat" } else { "solver: unknown" }, d, m, el());
        enough();
        false
    }
}
fn syntactic(c: &Ctx, n: &NForm) -> bool {
    let pos = |f: &crate::poly::Frac| -> i32 {
        // sign of fraction if strictly/weakly determined
        let mut s = c.syn_sign(&f.num);
        for (p, e) in &f.den {
            if e % 2 == 1 {
                s *= c.syn_sign(p);
            }
        }
        s
    };
    match n {
        NForm::T => true,
        NForm::Rel(Rel::Le, f) => pos(f) < 0,
        NForm::And(v) => v.iter().all(|x| syntactic(c, x)),
        NForm::Or(v) => v.iter().any(|x| syntactic(c, x)),
        _ => false,
    }
}
fn model(c: &Ctx, v: &[f64]) -> Vec<(String, f64)> {
    let mut m: Vec<(String, f64)> = c.vars.iter().zip(v).map(|(a, b)| (a.0.clone(), *b)).collect();
    for (n, k) in &c.eng.choices {
        m.push((format!("choice:{}", n), *k as f64));
    }
    m
}
pub fn fact(label: &str, ok: bool, detail: String) {
    let m = if ok {
        None
    } else {
        with(|c| {
            let seed = c.eng.seed;
            samples(c, 1, 4000, seed).first().map(|v| model(c, v))
        })
    };
    push(label, "ensures", ok, "evaluation on this path", if ok { String::new() } else { detail }, m, 0.0);
}

// ---------------------------------------------------------------- exploration
#[derive(Clone)]
pub struct Contract {
    pub name: &'static str,
    pub functions: &'static str,
    pub bounded: &'static str,
    pub run: fn(),
}
#[derive(Default, Debug)]
pub struct Report {
    pub name: String,
    pub functions: String,
    pub bounded: String,
    pub paths: usize,
    pub infeasible: usize,
    pub witnessed: usize,
    pub validated: usize,
    pub obls: Vec<Obl>,
    pub errors: Vec<String>,
    pub stats: smt::Stats,
    pub secs: f64,
    pub inputs: usize,
}
thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
        if std::env::var("SYM_PANIC").is_ok() {
            eprintln!("panic: {m} at {l}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}
pub fn explore(k: &Contract, seed: u64, timeout_ms: u64, max_paths: usize) -> Report {
    let t0 = Instant::now();
    let mut rep = Report { name: k.name.into(), functions: k.functions.into(), bounded: k.bounded.into(), ..Default::default() };
    let mut prefix: Vec<Dec> = vec![];
    with(|c| {
        *c = Ctx::new();
        c.eng.tmo = timeout_ms;
        c.eng.contract = k.name.to_string();
        c.eng.seed = seed;
    });
    let deadline = std::env::var("SYM_CONTRACT_SECS").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(600.0);
    loop {
        with(|c| {
            c.reset_terms();
            c.eng.cache.clear();
            c.eng.defok.clear();
            c.eng.facts.clear();
            c.eng.choices.clear();
            c.eng.pool.clear();
            c.eng.points.clear();
            c.eng.points_at = (usize::MAX, 0);
            c.eng.pool_hyps = 0;
            c.eng.pool_round = 0;
            c.eng.unknown = 0;
            c.eng.prefix = prefix.clone();
            c.eng.decs.clear();
            c.eng.active = true;
            c.eng.path = rep.paths;
        });
        let f = k.run;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        let mut drop_path = false;
        if let Err(p) = r {
            if p.downcast_ref::<Infeasible>().is_some() {
                drop_path = true;
                rep.infeasible += 1;
            } else if p.downcast_ref::<Enough>().is_some() {
            } else if let Some(l) = p.downcast_ref::<Limit>() {
                rep.errors.push(format!("limit: {}", l.0));
            } else {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                if m.starts_with("symnum:") {
                    rep.errors.push(m);
                } else {
                    // the path must be infeasible
                    let unsat = with(|c| {
                        let nh = c.hyps.len();
                        let all: Vec<NForm> = c.hyps[..nh].iter().map(|h| h.1.clone()).collect();
                        if all.is_empty() {
                            return false;
                        }
                        let g = NForm::Not(Box::new(NForm::And(all)));
                        smt::entails_with(c, 0, &g, timeout_ms, true) == Ans::Unsat
                    });
                    if unsat {
                        push("no panic", "panic-freedom", true, "smt", String::new(), None, 0.0);
                    } else {
                        let md = with(|c| {
                            let seed = c.eng.seed;
                            samples(c, 1, 20000, seed).first().map(|v| model(c, v))
                        });
                        push("no panic", "panic-freedom", false, "reachable panic", m, md, 0.0);
                    }
                }
            }
        }
        if !drop_path {
            rep.paths += 1;
            // witnesses and validation of the prover
            let (w, bad, n) = with(|c| {
                let ss = samples(c, 5, if rep.witnessed == 0 { 20000 } else { 1500 }, seed.wrapping_add(77));
                let mut bad = vec![];
                let mut n = 0;
                for v in &ss {
                    let mut memo = Memo::default();
                    for (f, l) in &c.eng.facts {
                        n += 1;
                        if c.eval_form(f, v, &mut memo, 1e-4) == Some(false) && !badly_scaled(c, f, v) {
                            bad.push(format!("prover disagrees with evaluation on '{}' at {:?}", l, v));
                        }
                    }
                }
                (ss.len(), bad, n)
            });
            if w > 0 {
                rep.witnessed += 1;
            }
            rep.validated += n;
            rep.errors.extend(bad.into_iter().take(3));
            rep.inputs = rep.inputs.max(with(|c| c.vars.len()));
        }
        // backtrack
        let mut d = with(|c| std::mem::take(&mut c.eng.decs));
        loop {
            match d.last_mut() {
                None => break,
                Some(x) => {
                    if let Some(n) = x.rest.pop() {
                        x.choice = n;
                        break;
                    }
                    d.pop();
                }
            }
        }
        let fails = with(|c| c.eng.obls.iter().filter(|o| !o.ok).count());
        if d.is_empty() {
            break;
        }
        if fails >= 6 || rep.errors.len() >= 3 {
            break; // enough failures to report
        }
        if rep.paths + rep.infeasible >= max_paths {
            rep.errors.push(format!("limit: more than {} paths", max_paths));
            break;
        }
        if t0.elapsed().as_secs_f64() > deadline {
            rep.errors.push("limit: contract time limit".into());
            break;
        }
        prefix = d;
    }
    with(|c| {
        rep.obls = std::mem::take(&mut c.eng.obls);
        rep.stats = c.eng.stats.clone();
        c.eng.active = false;
    });
    rep.secs = t0.elapsed().as_secs_f64();
    rep
}
/// cancellation-prone sample: compare at magnitude of the inputs
fn badly_scaled(c: &Ctx, f: &Form, v: &[f64]) -> bool {
    let mut ns = vec![];
    form_nodes(f, &mut ns);
    let mut memo = Memo::default();
    for n in ns {
        c.eval(n, v, &mut memo);
    }
    memo.values().any(|x| x.abs() > 1e7 || x.is_nan()) || memo.values().any(|x| *x != 0.0 && x.abs() < 1e-9)
}
pub fn json_escape(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
fn fj(x: f64) -> String {
    if x.is_finite() {
        format!("{:e}", x)
    } else {
        "null".into()
    }
}
impl Report {
    pub fn json(&self) -> String {
        let mut kinds: BTreeMap<String, [usize; 2]> = BTreeMap::new();
        let mut by: BTreeMap<String, usize> = BTreeMap::new();
        for o in &self.obls {
            let e = kinds.entry(o.kind.to_string()).or_default();
            e[0] += 1;
            if o.ok {
                e[1] += 1;
                *by.entry(o.by.clone()).or_default() += 1;
            }
        }
        let fails: Vec<String> = self
            .obls
            .iter()
            .filter(|o| !o.ok)
            .map(|o| {
                let m = match &o.model {
                    None => "null".to_string(),
                    Some(m) => format!(
                        "{{{}}}",
                        m.iter().map(|(n, v)| format!("\"{}\":{}", json_escape(n), fj(*v))).collect::<Vec<_>>().join(",")
                    ),
                };
                format!(
                    "{{\"label\":\"{}\",\"kind\":\"{}\",\"path\":{},\"by\":\"{}\",\"detail\":\"{}\",\"model\":{}}}",
                    json_escape(&o.label),
                    o.kind,
                    o.path,
                    json_escape(&o.by),
                    json_escape(&o.detail.chars().take(3000).collect::<String>()),
                    m
                )
            })
            .collect();
        let labels: std::collections::BTreeSet<&str> = self.obls.iter().filter(|o| o.kind != "definedness").map(|o| o.label.as_str()).collect();
        format!(
            "{{\"name\":\"{}\",\"functions\":\"{}\",\"bounded\":\"{}\",\"paths\":{},\"infeasible\":{},\"witnessed\":{},\"validated\":{},\"inputs\":{},\"obligations\":{},\"discharged\":{},\"kinds\":{{{}}},\"by\":{{{}}},\"smt\":{{\"queries\":{},\"secs\":{:.3},\"longest\":{:.3},\"by\":{{{}}}}},\"secs\":{:.3},\"labels\":[{}],\"failures\":[{}],\"errors\":[{}]}}",
            json_escape(&self.name),
            json_escape(&self.functions),
            json_escape(&self.bounded),
            self.paths,
            self.infeasible,
            self.witnessed,
            self.validated,
            self.inputs,
            self.obls.len(),
            self.obls.iter().filter(|o| o.ok).count(),
            kinds.iter().map(|(k, v)| format!("\"{}\":[{},{}]", k, v[0], v[1])).collect::<Vec<_>>().join(","),
            by.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
            self.stats.queries,
            self.stats.secs,
            self.stats.longest,
            self.stats.by.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
            self.secs,
            labels.iter().map(|l| format!("\"{}\"", json_escape(l))).collect::<Vec<_>>().join(","),
            fails.join(","),
            self.errors.iter().map(|e| format!("\"{}\"", json_escape(e))).collect::<Vec<_>>().join(",")
        )
    }
}
/// run contracts on a pool of threads, print one JSON report per line
pub fn run_all(ks: &[Contract]) {
    install_hook();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tmo = std::env::var("SYM_TIMEOUT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(20000u64);
    let only: Option<String> = std::env::args().nth(1);
    let ks: Vec<Contract> = ks.iter().filter(|k| only.as_ref().map(|o| o.split(',').any(|o| k.name.contains(o))).unwrap_or(true)).cloned().collect();
    let nthreads: usize = std::env::var("SYM_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(std::collections::BTreeSet::<usize>::new());
    let total: u64 = std::env::var("SYM_TOTAL_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(3000);
    let t0 = Instant::now();
    std::thread::scope(|s| {
        {
            // watchdog: contracts that are not finished in time are reported as undecided
            let (out, ks) = (&out, &ks);
            s.spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(50));
                let g = out.lock().unwrap();
                if g.len() == ks.len() {
                    break;
                }
                if t0.elapsed().as_secs() >= total {
                    for (i, k) in ks.iter().enumerate() {
                        if !g.contains(&i) {
                            let obls: Vec<Obl> = FAILED.lock().unwrap().iter().filter(|f| f.0 == k.name).map(|f| f.1.clone()).collect();
                            let rep = Report {
                                name: k.name.into(),
                                functions: k.functions.into(),
                                bounded: k.bounded.into(),
                                obls,
                                errors: vec![format!("not finished within {total} s")],
                                secs: total as f64,
                                ..Default::default()
                            };
                            println!("{}", rep.json());
                        }
                    }
                    std::process::exit(0);
                }
            });
        }
        for _ in 0..nthreads.min(ks.len()) {
            let (next, out, ks) = (&next, &out, &ks);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= ks.len() {
                        break;
                    }
                    let r = explore(&ks[i], seed, tmo, 20000);
                    let mut g = out.lock().unwrap();
                    println!("{}", r.json());
                    g.insert(i);
                })
                .unwrap();
        }
    });
}
