//! The contract vocabulary over f64: the same contracts run against the real, unmodified crate.
//! Used only to replay a failed obligation (and, labelled bounded, where the prover gives no answer).
#![allow(clippy::all)]
pub mod spec {
    use std::cell::RefCell;
    use std::collections::HashMap;
    #[allow(non_camel_case_types)]
    pub type dtype = f64;
    pub const SYMBOLIC: bool = false;

    #[derive(Clone)]
    pub struct Contract {
        pub name: &'static str,
        pub functions: &'static str,
        pub bounded: &'static str,
        pub run: fn(),
    }
    pub struct Rng(pub u64);
    impl Rng {
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn unit(&mut self) -> f64 {
            (self.next() >> 11) as f64 / (1u64 << 53) as f64
        }
        pub fn below(&mut self, n: u64) -> u64 {
            self.next() % n
        }
        pub fn sym(&mut self) -> f64 {
            2.0 * self.unit() - 1.0
        }
    }
    struct St {
        rng: Rng,
        scale: f64,
        model: HashMap<String, f64>,
        inputs: Vec<(String, f64)>,
        fails: Vec<(String, String)>,
        checked: usize,
        big: f64,
        choice_enum: Vec<(usize, usize)>,
        nchoice: usize,
    }
    struct Reject;
    thread_local! {
        static ST: RefCell<St> = RefCell::new(St { rng: Rng(1), scale: 1.0, model: HashMap::new(), inputs: vec![], fails: vec![], checked: 0, big: 1.0, choice_enum: vec![], nchoice: 0 });
        static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    }
    fn st<R>(f: impl FnOnce(&mut St) -> R) -> R {
        ST.with(|s| f(&mut s.borrow_mut()))
    }
    fn note(name: &str, gen: impl FnOnce(&mut St) -> f64) -> f64 {
        st(|s| {
            let k = s.inputs.iter().filter(|x| x.0 == name || x.0.starts_with(&format!("{name}#"))).count();
            let nm = if k == 0 { name.to_string() } else { format!("{name}#{k}") };
            let v = match s.model.get(&nm) {
                Some(v) => *v,
                None => gen(s),
            };
            s.big = s.big.max(v.abs());
            s.inputs.push((nm, v));
            v
        })
    }
    fn any(s: &mut St) -> f64 {
        let k = s.rng.below(12);
        let sc = s.scale;
        if k == 0 {
            0.0
        } else if k == 1 {
            (s.rng.below(7) as f64 - 3.0) * if sc < 1.0 { sc } else { 1.0 }
        } else {
            s.rng.sym() * 2.0 * sc
        }
    }
    /// the result of a condition: its exact value, and whether it is certain in spite of rounding
    #[derive(Clone, Debug)]
    pub struct Cond {
        pub exact: bool,
        pub sure: Option<bool>,
        pub what: String,
    }
    pub fn q(x: f64) -> dtype {
        x
    }
    pub fn var(name: &str) -> dtype {
        note(name, any)
    }
    pub fn vars<const N: usize>(p: &str) -> [dtype; N] {
        std::array::from_fn(|i| var(&format!("{p}{i}")))
    }
    pub fn var_in(name: &str, a: f64, b: f64) -> dtype {
        let v = note(name, |s| {
            let r = &mut s.rng;
            match r.below(10) {
                0 => a,
                1 => b,
                2 | 3 => {
                    let sc = 10f64.powf(-8.0 * r.unit());
                    let v = if a <= 0.0 && b >= 0.0 { r.sym() * sc } else { a + (b - a) * sc };
                    v.clamp(a, b)
                }
                _ => a + (b - a) * r.unit(),
            }
        });
        requires(and(vec![le(a, v), le(v, b)]));
        v
    }
    pub fn var_tame(name: &str, a: f64, b: f64) -> dtype {
        note(name, |s| a + (b - a) * s.rng.unit())
    }
    pub fn pos_tame(name: &str, a: f64, b: f64) -> dtype {
        let v = var_tame(name, a, b);
        requires(lt(0.0, v));
        v
    }
    pub fn pos(name: &str) -> dtype {
        let v = note(name, |s| if s.rng.below(10) == 0 { 1.0 } else { 10f64.powf(s.rng.sym() * 3.0) * (0.1 + s.rng.unit()) });
        requires(lt(0.0, v));
        v
    }
    pub fn unit<const N: usize>(p: &str) -> [dtype; N] {
        let mut v: Vec<f64> = st(|s| {
            let mut v: Vec<f64> = (0..N).map(|_| any(s)).collect();
            match s.rng.below(6) {
                0 => v[N - 1] = 1.0 + s.rng.unit() * 1e3,
                1 => v[N - 1] = 0.0,
                2 => v[N - 1] = -(1.0 + s.rng.unit() * 1e3),
                _ => {}
            }
            v
        });
        // a model may give (some of) the components
        for i in 0..N {
            let nm = format!("{p}{i}");
            if let Some(m) = st(|s| s.model.get(&nm).copied()) {
                v[i] = m;
            }
        }
        let n: f64 = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n < 1e-12 {
            v = vec![0.0; N];
            v[N - 1] = 1.0;
        } else {
            v.iter_mut().for_each(|x| *x /= n);
        }
        std::array::from_fn(|i| {
            st(|s| s.inputs.push((format!("{p}{i}"), v[i])));
            v[i]
        })
    }
    pub fn choose(name: &str, n: usize) -> usize {
        let nm = format!("choice:{name}");
        st(|s| {
            let pre = format!("{nm}#");
            let dup = s.inputs.iter().filter(|v| v.0 == nm || v.0.starts_with(&pre)).count();
            let nm = if dup == 0 { nm } else { format!("{nm}#{dup}") };
            let k = s.nchoice;
            s.nchoice += 1;
            let v = if let Some(v) = s.model.get(&nm) {
                (*v as usize).min(n - 1)
            } else if k < s.choice_enum.len() {
                s.choice_enum[k].0.min(n - 1)
            } else {
                s.rng.below(n as u64) as usize
            };
            s.inputs.push((nm, v as f64));
            v
        })
    }
    pub fn pi() -> dtype {
        std::f64::consts::PI
    }
    fn tight() -> bool {
        static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        *T.get_or_init(|| std::env::var("REAL_TIGHT").is_ok())
    }
    fn tol(a: f64, b: f64) -> f64 {
        let big = st(|s| s.big);
        if tight() {
            // replaying an obligation the prover has already refuted: only rounding is excused
            return 1e-9 * (a.abs() + b.abs()) + 1e-11 * (big * big).min(1e6);
        }
        1e-6 * (1.0 + a.abs() + b.abs()) + 1e-9 * (big * big).min(1e6)
    }
    fn mk(what: &str, a: f64, b: f64, exact: bool, t: bool, f: bool) -> Cond {
        Cond { exact, sure: if t { Some(true) } else if f { Some(false) } else { None }, what: format!("{a:?} {what} {b:?}") }
    }
    pub fn lt(a: dtype, b: dtype) -> Cond {
        let e = tol(a, b);
        mk("<", a, b, a < b, a < b - e, !(a <= b + e))
    }
    pub fn le(a: dtype, b: dtype) -> Cond {
        let e = tol(a, b);
        mk("<=", a, b, a <= b, a <= b - e || a == b, !(a <= b + e))
    }
    pub fn gt(a: dtype, b: dtype) -> Cond {
        lt(b, a)
    }
    pub fn ge(a: dtype, b: dtype) -> Cond {
        le(b, a)
    }
    pub fn eq(a: dtype, b: dtype) -> Cond {
        let e = tol(a, b);
        let same = a == b || (a - b).abs() <= e || (a.is_nan() && b.is_nan());
        mk("==", a, b, same, same, !same)
    }
    pub fn ne(a: dtype, b: dtype) -> Cond {
        mk("!=", a, b, a != b, a != b, a == b)
    }
    pub fn not(a: Cond) -> Cond {
        Cond { exact: !a.exact, sure: a.sure.map(|x| !x), what: format!("not({})", a.what) }
    }
    pub fn and(v: Vec<Cond>) -> Cond {
        let what = v.iter().map(|c| c.what.clone()).collect::<Vec<_>>().join(" and ");
        let sure = if v.iter().any(|c| c.sure == Some(false)) {
            Some(false)
        } else if v.iter().all(|c| c.sure == Some(true)) {
            Some(true)
        } else {
            None
        };
        Cond { exact: v.iter().all(|c| c.exact), sure, what }
    }
    pub fn or(v: Vec<Cond>) -> Cond {
        let what = format!("({})", v.iter().map(|c| c.what.clone()).collect::<Vec<_>>().join(" or "));
        let sure = if v.iter().any(|c| c.sure == Some(true)) {
            Some(true)
        } else if v.iter().all(|c| c.sure == Some(false)) {
            Some(false)
        } else {
            None
        };
        Cond { exact: v.iter().any(|c| c.exact), sure, what }
    }
    pub fn implies(a: Cond, b: Cond) -> Cond {
        or(vec![not(a), b])
    }
    pub fn split(c: Cond) -> bool {
        c.exact
    }
    pub fn requires(c: Cond) {
        if !c.exact || c.sure == Some(false) {
            std::panic::panic_any(Reject);
        }
    }
    pub fn ensures(label: &str, c: Cond) -> bool {
        st(|s| {
            s.checked += 1;
            if c.sure == Some(false) {
                s.fails.push((label.to_string(), c.what.clone()));
                return false;
            }
            true
        })
    }
    pub fn ensures_eq(label: &str, a: dtype, b: dtype) -> bool {
        ensures(label, eq(a, b))
    }
    pub fn ensures_all_eq(label: &str, a: &[dtype], b: &[dtype]) -> bool {
        ensures_fact(&format!("{label}: length"), a.len() == b.len());
        let mut ok = true;
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            ok &= ensures_eq(&format!("{label}[{i}]"), *x, *y);
        }
        ok
    }
    pub fn ensures_near(label: &str, a: dtype, b: dtype, tol: dtype) -> bool {
        let e = 1e-7 * (1.0 + a.abs() + b.abs());
        let d = (a - b).abs();
        ensures(label, mk("within", d, tol, d <= tol, d <= tol, !(d <= tol + e)))
    }
    pub fn ensures_fact(label: &str, ok: bool) -> bool {
        st(|s| {
            s.checked += 1;
            if !ok {
                s.fails.push((label.to_string(), "the condition is false".into()));
            }
        });
        ok
    }
    pub fn text_var(x: dtype) -> String {
        format!("{x}")
    }
    pub fn derivatives(f: impl Fn(dtype) -> Vec<dtype>, x: dtype) -> Vec<dtype> {
        let at = |h: f64| -> Vec<f64> {
            let (a, b) = (f(x + h), f(x - h));
            a.iter().zip(&b).map(|(p, q)| (p - q) / (2.0 * h)).collect()
        };
        let h = 1e-4 * (1.0 + x.abs());
        let (d1, d2) = (at(h), at(h / 2.0));
        d1.iter()
            .zip(&d2)
            .map(|(a, b)| {
                let r = (4.0 * b - a) / 3.0;
                if (r - b).abs() > 1e-6 * (1.0 + r.abs()) {
                    // not differentiable to working accuracy here: not a usable replay input
                    std::panic::panic_any(Reject);
                }
                r
            })
            .collect()
    }
    pub fn derivative(f: impl Fn(dtype) -> dtype, x: dtype) -> dtype {
        derivatives(|y| vec![f(y)], x)[0]
    }
    fn esc(s: &str) -> String {
        s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', " ")
    }
    enum Out {
        Ok(usize),
        Rejected,
        Fail(Vec<(String, String)>, Vec<(String, f64)>),
    }
    fn once(k: &Contract, seed: u64, model: HashMap<String, f64>) -> Out {
        const SC: [f64; 10] = [1.0, 1.0, 3.0, 0.3, 1e-3, 1e-6, 10.0, 100.0, 1e-2, 5.0];
        st(|s| {
            s.rng = Rng(seed);
            s.scale = SC[s.rng.below(SC.len() as u64) as usize];
            s.model = model;
            s.inputs.clear();
            s.fails.clear();
            s.checked = 0;
            s.big = 1.0;
            s.nchoice = 0;
        });
        let f = k.run;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        if let Err(p) = r {
            if p.downcast_ref::<Reject>().is_some() {
                if st(|s| s.fails.is_empty()) {
                    return Out::Rejected;
                }
            } else {
                let m = PANIC.with(|p| p.borrow().clone());
                st(|s| s.fails.push(("no panic".into(), m)));
            }
        }
        st(|s| if s.fails.is_empty() { Out::Ok(s.checked) } else { Out::Fail(std::mem::take(&mut s.fails), std::mem::take(&mut s.inputs)) })
    }
    /// argv: <contract filter | ""> <samples> [model file: lines `name=value`, models separated by blank lines]
    pub fn run_all(ks: &[Contract]) {
        std::panic::set_hook(Box::new(|i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                String::new()
            };
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
        }));
        let a: Vec<String> = std::env::args().collect();
        let only = a.get(1).cloned().unwrap_or_default();
        let n: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(2000);
        let seed0: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let secs: f64 = std::env::var("REAL_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(20.0);
        let mut models: Vec<HashMap<String, f64>> = vec![];
        if let Some(p) = a.get(3) {
            let t = std::fs::read_to_string(p).unwrap_or_default();
            for blk in t.split("\n\n") {
                let mut m = HashMap::new();
                for l in blk.lines() {
                    if let Some((k, v)) = l.rsplit_once('=') {
                        if let Ok(x) = v.parse::<f64>() {
                            m.insert(k.to_string(), x);
                        }
                    }
                }
                if !m.is_empty() {
                    models.push(m);
                }
            }
        }
        for k in ks.iter().filter(|k| only.is_empty() || k.name == only) {
            let (mut ok, mut rej, mut checked) = (0u64, 0u64, 0usize);
            let mut fail = None;
            let t0 = std::time::Instant::now();
            // given models, each also with random completions
            for (i, m) in models.iter().enumerate() {
                for j in 0..5u64 {
                    match once(k, seed0 * 7919 + i as u64 * 31 + j, m.clone()) {
                        Out::Fail(f, inp) => {
                            fail = Some((f, inp));
                            break;
                        }
                        Out::Ok(c) => {
                            ok += 1;
                            checked += c
                        }
                        Out::Rejected => rej += 1,
                    }
                }
                if fail.is_some() {
                    break;
                }
            }
            let mut i = 0;
            while fail.is_none() && i < n && t0.elapsed().as_secs_f64() < secs {
                match once(k, seed0 * 1000003 + i, HashMap::new()) {
                    Out::Fail(f, inp) => fail = Some((f, inp)),
                    Out::Ok(c) => {
                        ok += 1;
                        checked += c
                    }
                    Out::Rejected => rej += 1,
                }
                i += 1;
            }
            let fj = match fail {
                None => "null".to_string(),
                Some((f, inp)) => format!(
                    "{{\"failed\":[{}],\"inputs\":{{{}}}}}",
                    f.iter().take(8).map(|(l, d)| format!("{{\"label\":\"{}\",\"detail\":\"{}\"}}", esc(l), esc(d))).collect::<Vec<_>>().join(","),
                    inp.iter().map(|(n, v)| format!("\"{}\":\"{:?}\"", esc(n), v)).collect::<Vec<_>>().join(",")
                ),
            };
            println!(
                "{{\"name\":\"{}\",\"functions\":\"{}\",\"executions\":{},\"rejected\":{},\"checked\":{},\"failure\":{}}}",
                esc(k.name),
                esc(k.functions),
                ok,
                rej,
                checked,
                fj
            );
        }
    }
}
