//! SMT-LIB back end: nonlinear real arithmetic with instantiated axioms for the atoms.
use crate::ctx::{nnot, Atom, Ctx, NForm, Rel};
use crate::poly::{Frac, Poly};
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ans {
    Unsat,
    Sat,
    Unknown,
}

fn poly(p: &Poly) -> String {
    if p.is_zero() {
        return "0.0".into();
    }
    let mut ts = vec![];
    for (m, c) in &p.0 {
        let mut fs = vec![];
        if !c.is_one() || m.0.is_empty() {
            fs.push(c.smt());
        }
        for &(a, e) in &m.0 {
            for _ in 0..e {
                fs.push(format!("a{}", a));
            }
        }
        ts.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) });
    }
    if ts.len() == 1 {
        ts.pop().unwrap()
    } else {
        format!("(+ {})", ts.join(" "))
    }
}
struct Enc {
    atoms: BTreeSet<u32>,
    dens: Vec<Poly>,
}
impl Enc {
    fn rel(&mut self, r: Rel, f: &Frac) -> String {
        f.num.atoms(&mut self.atoms);
        let mut n = poly(&f.num);
        if !f.den.is_empty() {
            let mut fs = vec![];
            for (p, e) in &f.den {
                p.atoms(&mut self.atoms);
                if !self.dens.contains(p) {
                    self.dens.push(p.clone());
                }
                if e % 2 == 1 {
                    fs.push(poly(p));
                }
            }
            if r != Rel::Eq && !fs.is_empty() {
                n = format!("(* {} {})", n, fs.join(" "));
            }
        }
        match r {
            Rel::Lt => format!("(< {} 0.0)", n),
            Rel::Le => format!("(<= {} 0.0)", n),
            Rel::Eq => format!("(= {} 0.0)", n),
        }
    }
    fn form(&mut self, f: &NForm) -> String {
        match f {
            NForm::T => "true".into(),
            NForm::F => "false".into(),
            NForm::Rel(r, x) => self.rel(*r, x),
            NForm::Not(g) => format!("(not {})", self.form(g)),
            NForm::And(v) => format!("(and {})", v.iter().map(|g| self.form(g)).collect::<Vec<_>>().join(" ")),
            NForm::Or(v) => format!("(or {})", v.iter().map(|g| self.form(g)).collect::<Vec<_>>().join(" ")),
        }
    }
}
fn form_atoms(f: &NForm, out: &mut BTreeSet<u32>) {
    match f {
        NForm::T | NForm::F => {}
        NForm::Rel(_, x) => {
            x.num.atoms(out);
            for (p, _) in &x.den {
                p.atoms(out);
            }
        }
        NForm::Not(g) => form_atoms(g, out),
        NForm::And(v) | NForm::Or(v) => v.iter().for_each(|g| form_atoms(g, out)),
    }
}
fn frac_atoms(f: &Frac, out: &mut BTreeSet<u32>) {
    f.num.atoms(out);
    for (p, _) in &f.den {
        p.atoms(out);
    }
}
fn atom_deps(c: &Ctx, a: u32, out: &mut BTreeSet<u32>) {
    match &c.atoms[a as usize] {
        Atom::Sqrt(p) | Atom::Abs(p) => p.atoms(out),
        Atom::Sin(i) | Atom::Cos(i) => {
            frac_atoms(&c.bases[*i].unit, out);
            out.insert(c.bases[*i].s);
            out.insert(c.bases[*i].c);
        }
        Atom::Atan2(y, x) => {
            frac_atoms(y, out);
            frac_atoms(x, out);
        }
        Atom::Ln(f) | Atom::Exp(f) => frac_atoms(f, out),
        _ => {}
    }
    if let Some((1, r)) = c.rules.get(&a) {
        r.atoms(out);
    }
}
fn close(c: &Ctx, set: &mut BTreeSet<u32>) {
    let mut todo: Vec<u32> = set.iter().cloned().collect();
    while let Some(a) = todo.pop() {
        let mut d = BTreeSet::new();
        atom_deps(c, a, &mut d);
        for x in d {
            if set.insert(x) {
                todo.push(x);
            }
        }
    }
}
/// a name for a fraction, with its defining constraints
fn named(e: &mut Enc, f: &Frac, name: String, decl: &mut Vec<String>, ax: &mut Vec<String>) -> String {
    if f.den.is_empty() {
        return poly(&f.num);
    }
    for (p, _) in &f.den {
        if !e.dens.contains(p) {
            e.dens.push(p.clone());
        }
    }
    decl.push(format!("(declare-const {} Real)", name));
    ax.push(format!("(= (* {} {}) {})", name, poly(&f.den_poly()), poly(&f.num)));
    name
}

pub fn build(c: &Ctx, goal: Option<&NForm>, hyps: &[&NForm], level: u32) -> String {
    let mut e = Enc { atoms: BTreeSet::new(), dens: vec![] };
    let mut asserts = vec![];
    if let Some(g) = goal {
        let n = nnot(g.clone());
        asserts.push(e.form(&n));
    }
    for h in hyps {
        asserts.push(e.form(h));
    }
    let mut set = e.atoms.clone();
    close(c, &mut set);
    if set.iter().any(|&a| matches!(c.atoms[a as usize], Atom::Sin(_) | Atom::Cos(_) | Atom::Atan2(..))) {
        for (i, a) in c.atoms.iter().enumerate() {
            if *a == Atom::Pi {
                set.insert(i as u32);
            }
        }
    }
    let mut decl = vec![];
    let mut ax = vec![];
    let mut pi = "3.14159265358979".to_string();
    for &a in &set {
        decl.push(format!("(declare-const a{} Real)", a));
        if c.atoms[a as usize] == Atom::Pi {
            pi = format!("a{}", a);
        }
    }
    let havepi = pi.starts_with('a');
    let mut donebase = BTreeSet::new();
    let mut lns = vec![];
    let mut exps = vec![];
    for &a in &set {
        let v = format!("a{}", a);
        if let Some((1, r)) = c.rules.get(&a) {
            ax.push(format!("(= {} {})", v, poly(r)));
        }
        match &c.atoms[a as usize] {
            Atom::Var(_) | Atom::Undef => {}
            Atom::Pi => {
                ax.push(format!("(> {} (/ 314159265.0 100000000.0))", v));
                ax.push(format!("(< {} (/ 314159266.0 100000000.0))", v));
            }
            Atom::Sqrt(r) => {
                ax.push(format!("(>= {} 0.0)", v));
                ax.push(format!("(= (* {} {}) {})", v, v, poly(r)));
            }
            Atom::Abs(p) => {
                ax.push(format!("(>= {} 0.0)", v));
                ax.push(format!("(or (= {} {}) (= {} (- {})))", v, poly(p), v, poly(p)));
            }
            Atom::Sin(i) | Atom::Cos(i) => {
                if !donebase.insert(*i) {
                    continue;
                }
                let b = &c.bases[*i];
                let (s, k) = (format!("a{}", b.s), format!("a{}", b.c));
                ax.push(format!("(= (+ (* {s} {s}) (* {k} {k})) 1.0)"));
                ax.push(format!("(and (<= {s} 1.0) (>= {s} (- 1.0)) (<= {k} 1.0) (>= {k} (- 1.0)))"));
                if level >= 1 {
                    let t = named(&mut e, &b.angle(), format!("b{}", i), &mut decl, &mut ax);
                    ax.push(format!("(=> (> {t} 0.0) (< {s} {t}))"));
                    ax.push(format!("(=> (< {t} 0.0) (> {s} {t}))"));
                    ax.push(format!("(=> (= {t} 0.0) (and (= {s} 0.0) (= {k} 1.0)))"));
                    ax.push(format!("(>= (* 2.0 {k}) (- 2.0 (* {t} {t})))"));
                    ax.push(format!("(=> (and (> {t} (- 1.0)) (< {t} 1.0)) (> {k} 0.5))"));
                    ax.push(format!("(=> (and (not (= {t} 0.0)) (> {t} (- 6.0)) (< {t} 6.0)) (< {k} 1.0))"));
                    if havepi {
                        ax.push(format!("(=> (and (> {t} 0.0) (< {t} {pi})) (> {s} 0.0))"));
                        ax.push(format!("(=> (and (< {t} 0.0) (> {t} (- {pi}))) (< {s} 0.0))"));
                        ax.push(format!("(=> (and (> (* 2.0 {t}) (- {pi})) (< (* 2.0 {t}) {pi})) (> {k} 0.0))"));
                        ax.push(format!("(=> (and (>= (* 2.0 {t}) {pi}) (<= (* 2.0 {t}) (* 3.0 {pi}))) (<= {k} 0.0))"));
                        ax.push(format!("(=> (and (> (* 2.0 {t}) {pi}) (< (* 2.0 {t}) (* 3.0 {pi}))) (< {k} 0.0))"));
                        ax.push(format!("(=> (= (* 2.0 {t}) {pi}) (and (= {s} 1.0) (= {k} 0.0)))"));
                        ax.push(format!("(=> (= (* 2.0 {t}) (- {pi})) (and (= {s} (- 1.0)) (= {k} 0.0)))"));
                        ax.push(format!("(=> (= {t} {pi}) (and (= {s} 0.0) (= {k} (- 1.0))))"));
                        ax.push(format!("(=> (and (> {t} {pi}) (< {t} (* 2.0 {pi}))) (< {s} 0.0))"));
                        ax.push(format!("(=> (and (>= {t} (- {pi})) (<= {t} {pi}) (= {k} (- 1.0))) (or (= {t} {pi}) (= {t} (- {pi}))))"));
                    }
                    if level >= 2 {
                        ax.push(format!("(=> (>= {t} 0.0) (>= (* 6.0 {s}) (- (* 6.0 {t}) (* {t} {t} {t}))))"));
                        ax.push(format!("(=> (<= {t} 0.0) (<= (* 6.0 {s}) (- (* 6.0 {t}) (* {t} {t} {t}))))"));
                        ax.push(format!("(<= (* 24.0 {k}) (+ (- 24.0 (* 12.0 {t} {t})) (* {t} {t} {t} {t})))"));
                    }
                }
            }
            Atom::Atan2(y, x) => {
                let t = &v;
                let y = named(&mut e, y, format!("y{}", a), &mut decl, &mut ax);
                let x = named(&mut e, x, format!("x{}", a), &mut decl, &mut ax);
                ax.push(format!("(and (> {t} (- {pi})) (<= {t} {pi}))"));
                ax.push(format!("(=> (> {y} 0.0) (and (> {t} 0.0) (< {t} {pi})))"));
                ax.push(format!("(=> (< {y} 0.0) (< {t} 0.0))"));
                ax.push(format!("(=> (and (= {y} 0.0) (> {x} 0.0)) (= {t} 0.0))"));
                ax.push(format!("(=> (and (= {y} 0.0) (< {x} 0.0)) (= {t} {pi}))"));
                ax.push(format!("(=> (> {x} 0.0) (and (> (* 2.0 {t}) (- {pi})) (< (* 2.0 {t}) {pi})))"));
                ax.push(format!("(=> (and (= {x} 0.0) (> {y} 0.0)) (= (* 2.0 {t}) {pi}))"));
                ax.push(format!("(=> (and (= {x} 0.0) (< {y} 0.0)) (= (* 2.0 {t}) (- {pi})))"));
                ax.push(format!("(=> (and (< {x} 0.0) (> {y} 0.0)) (> (* 2.0 {t}) {pi}))"));
                ax.push(format!("(=> (and (< {x} 0.0) (< {y} 0.0)) (< (* 2.0 {t}) (- {pi})))"));
                if level >= 1 {
                    ax.push(format!("(=> (and (> {x} 0.0) (>= {y} 0.0)) (<= (* {t} {x}) {y}))"));
                    ax.push(format!("(=> (and (> {x} 0.0) (<= {y} 0.0)) (>= (* {t} {x}) {y}))"));
                }
                if level >= 2 {
                    ax.push(format!("(=> (and (> {x} 0.0) (>= {y} 0.0)) (>= (* 3.0 {t} {x} {x} {x}) (- (* 3.0 {y} {x} {x}) (* {y} {y} {y}))))"));
                    ax.push(format!("(=> (and (> {x} 0.0) (<= {y} 0.0)) (<= (* 3.0 {t} {x} {x} {x}) (- (* 3.0 {y} {x} {x}) (* {y} {y} {y}))))"));
                }
            }
            Atom::Ln(f) => {
                let u = named(&mut e, f, format!("u{}", a), &mut decl, &mut ax);
                ax.push(format!("(=> (> {u} 0.0) (and (<= {v} (- {u} 1.0)) (>= (* {v} {u}) (- {u} 1.0))))"));
                ax.push(format!("(=> (> {u} 1.0) (and (> {v} 0.0) (< {v} (- {u} 1.0)) (> (* {v} (+ 1.0 {u})) (* 2.0 (- {u} 1.0)))))"));
                ax.push(format!("(=> (and (> {u} 0.0) (< {u} 1.0)) (< {v} 0.0))"));
                ax.push(format!("(=> (= {u} 1.0) (= {v} 0.0))"));
                lns.push((v, u));
            }
            Atom::Exp(f) => {
                let u = named(&mut e, f, format!("u{}", a), &mut decl, &mut ax);
                ax.push(format!("(> {v} 0.0)"));
                ax.push(format!("(>= {v} (+ 1.0 {u}))"));
                ax.push(format!("(=> (not (= {u} 0.0)) (> {v} (+ 1.0 {u})))"));
                ax.push(format!("(=> (<= {u} 0.0) (<= {v} 1.0))"));
                ax.push(format!("(=> (< {u} 0.0) (< {v} 1.0))"));
                ax.push(format!("(=> (= {u} 0.0) (= {v} 1.0))"));
                ax.push(format!("(=> (< {u} 1.0) (<= (* {v} (- 1.0 {u})) 1.0))"));
                exps.push((v, u));
            }
        }
    }
    if level >= 1 {
        for i in 0..lns.len() {
            for j in 0..lns.len() {
                if i != j {
                    let ((a, u), (b, v)) = (&lns[i], &lns[j]);
                    ax.push(format!("(=> (and (> {u} 0.0) (> {v} 0.0)) (<= (* {v} (- {a} {b})) (- {u} {v})))"));
                }
            }
        }
        for i in 0..exps.len() {
            for j in 0..exps.len() {
                if i != j {
                    let ((a, u), (b, v)) = (&exps[i], &exps[j]);
                    ax.push(format!("(>= (- {a} {b}) (* {b} (- {u} {v})))"));
                }
            }
        }
    }
    for l in [&lns, &exps] {
        for i in 0..l.len() {
            for j in 0..l.len() {
                if i != j {
                    ax.push(format!("(=> (and (> {} 0.0) (< {} {})) (< {} {}))", if std::ptr::eq(l, &lns) { &l[i].1 } else { "1.0" }, l[i].1, l[j].1, l[i].0, l[j].0));
                }
            }
        }
    }
    let mut s = String::from("(set-logic QF_NRA)\n");
    for d in decl {
        s.push_str(&d);
        s.push('\n');
    }
    for d in &e.dens {
        s.push_str(&format!("(assert (not (= {} 0.0)))\n", poly(d)));
    }
    for x in asserts.iter().chain(ax.iter()) {
        s.push_str(&format!("(assert {})\n", x));
    }
    s.push_str("(check-sat)\n");
    s
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub secs: f64,
    pub by: std::collections::BTreeMap<String, u64>,
    pub longest: f64,
}

fn spawn(cmd: &[&str], q: &str) -> Option<Child> {
    let mut ch = Command::new(cmd[0])
        .args(&cmd[1..])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let mut si = ch.stdin.take().unwrap();
    let q = q.to_string();
    std::thread::spawn(move || {
        let _ = si.write_all(q.as_bytes());
    });
    Some(ch)
}
pub fn run(c: &mut Ctx, q: &str, ms: u64, all: bool) -> Ans {
    let t0 = Instant::now();
    let tz = format!("-t:{}", ms);
    let tc = format!("--tlimit={}", ms);
    let mut ps: Vec<(&str, Child)> = vec![];
    if let Some(p) = spawn(&["z3-new", "-in", &tz], q) {
        ps.push(("z3-5.3.2", p));
    }
    let mut started_all = false;
    let mut ans = Ans::Unknown;
    let mut who = "";
    'o: loop {
        let mut i = 0;
        while i < ps.len() {
            if let Ok(Some(_)) = ps[i].1.try_wait() {
                let mut o = String::new();
                let _ = ps[i].1.stdout.take().unwrap().read_to_string(&mut o);
                let (n, _) = ps.remove(i);
                if o.starts_with("unsat") {
                    ans = Ans::Unsat;
                    who = n;
                    break 'o;
                }
                if o.starts_with("sat") {
                    ans = Ans::Sat;
                    who = n;
                    break 'o;
                }
                if std::env::var("SYM_SMT_DEBUG").is_ok() {
                    eprintln!("{} says {}", n, o.trim());
                }
            } else {
                i += 1;
            }
        }
        if all && !started_all && (ps.is_empty() || t0.elapsed() > Duration::from_millis(150)) {
            started_all = true;
            if let Some(p) = spawn(&["z3", "-in", &tz], q) {
                ps.push(("z3-4.8.12", p));
            }
            if let Some(p) = spawn(&["cvc5", "--lang=smt2", &tc], q) {
                ps.push(("cvc5-1.1.2", p));
            }
        }
        if ps.is_empty() {
            break;
        }
        if t0.elapsed() > Duration::from_millis(ms + 2000) {
            break;
        }
        std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 50 { 500 } else { 5000 }));
    }
    for (_, mut p) in ps {
        let _ = p.kill();
        let _ = p.wait();
    }
    let d = t0.elapsed().as_secs_f64();
    let st = &mut c.eng.stats;
    st.queries += 1;
    st.secs += d;
    if d > st.longest {
        st.longest = d;
    }
    if ans == Ans::Unsat {
        *st.by.entry(who.to_string()).or_default() += 1;
    }
    if d > 1.0 && std::env::var("SYM_SMT_SLOW").is_ok() {
        eprintln!("slow query {:.1}s {:?} {}\n{}", d, ans, who, q);
    }
    ans
}
fn relevant<'a>(c: &Ctx, goal: &NForm, hyps: &[&'a NForm]) -> Vec<&'a NForm> {
    let mut set = BTreeSet::new();
    form_atoms(goal, &mut set);
    close(c, &mut set);
    let hs: Vec<BTreeSet<u32>> = hyps
        .iter()
        .map(|h| {
            let mut s = BTreeSet::new();
            form_atoms(h, &mut s);
            close(c, &mut s);
            s
        })
        .collect();
    let mut take = vec![false; hyps.len()];
    loop {
        let mut ch = false;
        for i in 0..hyps.len() {
            if !take[i]
                && (hs[i].is_empty()
                    || hs[i].iter().any(|x| set.contains(x) && c.atoms[*x as usize] != Atom::Pi))
            {
                take[i] = true;
                ch = true;
                set.extend(hs[i].iter());
            }
        }
        if !ch {
            break;
        }
    }
    (0..hyps.len()).filter(|&i| take[i]).map(|i| hyps[i]).collect()
}
/// hyps |= goal ? (true only when a solver proved it)
pub fn entails_with(c: &mut Ctx, nh: usize, goal: &NForm, ms: u64, all: bool) -> Ans {
    match goal {
        NForm::T => return Ans::Unsat,
        _ => {}
    }
    let key = (format!("{:?}", goal), nh, all);
    if let Some(a) = c.eng.cache.get(&key) {
        return *a;
    }
    let hs: Vec<NForm> = c.hyps[..nh].iter().map(|x| x.1.clone()).collect();
    let refs: Vec<&NForm> = hs.iter().collect();
    let rel = relevant(c, goal, &refs);
    let mut last = Ans::Unknown;
    for level in [0u32, 1, 2] {
        let q = build(c, Some(goal), &rel, level);
        if level > 0 && !q.contains("b0") && !q.contains("y") && last == Ans::Sat {
            // no transcendental axioms to add
            let prev = build(c, Some(goal), &rel, level - 1);
            if prev == q {
                break;
            }
        }
        last = match c.eng.asked.get(&q) {
            Some(a) => *a,
            None => {
                let a = run(c, &q, ms, all);
                if a != Ans::Unknown {
                    c.eng.asked.insert(q, a);
                }
                a
            }
        };
        if last == Ans::Unsat {
            break;
        }
    }
    c.eng.cache.insert(key, last);
    last
}
/// values of the input variables in a solver model of hyps /\ not goal (decimal approximations)
pub fn model(c: &mut Ctx, goal: &NForm, ms: u64) -> Vec<(u32, f64)> {
    let hs: Vec<NForm> = c.hyps.iter().map(|x| x.1.clone()).collect();
    let refs: Vec<&NForm> = hs.iter().collect();
    let rel = relevant(c, goal, &refs);
    let mut q = build(c, Some(goal), &rel, 2);
    let mut vs: Vec<(u32, u32)> = vec![];
    for (i, a) in c.atoms.iter().enumerate() {
        if let Atom::Var(v) = a {
            if q.contains(&format!("(declare-const a{} Real)", i)) {
                vs.push((i as u32, *v));
            }
        }
    }
    if vs.is_empty() {
        return vec![];
    }
    q.push_str(&format!("(get-value ({}))\n", vs.iter().map(|v| format!("a{}", v.0)).collect::<Vec<_>>().join(" ")));
    let tz = format!("-t:{}", ms);
    let Some(mut p) = spawn(&["z3-new", "-in", &tz, "pp.decimal=true", "pp.decimal_precision=25"], &q) else { return vec![] };
    let mut o = String::new();
    let _ = p.stdout.take().unwrap().read_to_string(&mut o);
    let _ = p.wait();
    if !o.starts_with("sat") {
        return vec![];
    }
    let toks: Vec<String> = o.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    let mut out = vec![];
    for (a, v) in vs {
        if let Some(k) = toks.iter().position(|t| *t == format!("a{}", a)) {
            let mut i = k + 1;
            if let Some(x) = value(&toks, &mut i) {
                out.push((v, x));
            }
        }
    }
    out
}
fn value(t: &[String], i: &mut usize) -> Option<f64> {
    let s = t.get(*i)?;
    *i += 1;
    if s == "(" {
        let op = t.get(*i)?.clone();
        *i += 1;
        let a = value(t, i)?;
        let r = match op.as_str() {
            "-" if t.get(*i)? == ")" => -a,
            "-" => a - value(t, i)?,
            "/" => a / value(t, i)?,
            _ => return None,
        };
        *i += 1;
        Some(r)
    } else {
        s.trim_end_matches('?').parse().ok()
    }
}
pub fn entails(c: &mut Ctx, goal: &NForm, ms: u64) -> bool {
    let n = c.hyps.len();
    entails_with(c, n, goal, ms, false) == Ans::Unsat
}
/// is hyps /\ extra satisfiable?  Unsat means proved infeasible
pub fn feasible(c: &mut Ctx, extra: &NForm, ms: u64) -> bool {
    let g = nnot(extra.clone());
    let n = c.hyps.len();
    entails_with(c, n, &g, ms, false) != Ans::Unsat
}
