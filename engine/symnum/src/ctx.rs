//! Term arena and normaliser (rational functions over atoms modulo rewrite rules).
use crate::poly::{Frac, Mono, Poly};
use crate::rat::Rat;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rel {
    Lt,
    Le,
    Eq,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Rat),
    Var(u32),
    Pi,
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Neg(u32),
    Sqrt(u32),
    Sin(u32),
    Cos(u32),
    Atan2(u32, u32),
    Ln(u32),
    Exp(u32),
}
impl Node {
    pub fn args(&self) -> Vec<u32> {
        use Node::*;
        match self {
            Const(_) | Var(_) | Pi => vec![],
            Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) | Atan2(a, b) => vec![*a, *b],
            Neg(a) | Sqrt(a) | Sin(a) | Cos(a) | Ln(a) | Exp(a) => vec![*a],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Atom {
    Var(u32),
    Pi,
    Sqrt(Poly),
    Sin(usize),
    Cos(usize),
    Atan2(Frac, Frac),
    Ln(Frac),
    Exp(Frac),
    Abs(Poly),
    Undef,
}
/// sin/cos base angle: unit / gran
#[derive(Clone, Debug)]
pub struct Base {
    pub unit: Frac,
    pub gran: i64,
    pub s: u32,
    pub c: u32,
}
impl Base {
    pub fn angle(&self) -> Frac {
        Frac { num: self.unit.num.scale(&Rat::new(1, self.gran)), den: self.unit.den.clone() }
    }
}

/// values of terms at a point
pub type Memo = HashMap<u32, f64, std::hash::BuildHasherDefault<IdHash>>;
#[derive(Default)]
pub struct IdHash(u64);
impl std::hash::Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = (x as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(26);
    }
}
/// Formula over arena terms.
#[derive(Clone, Debug)]
pub enum Form {
    T,
    F,
    Rel(Rel, u32),
    Not(Box<Form>),
    And(Vec<Form>),
    Or(Vec<Form>),
}
/// Formula over normal forms.
#[derive(Clone, Debug, PartialEq)]
pub enum NForm {
    T,
    F,
    Rel(Rel, Frac),
    Not(Box<NForm>),
    And(Vec<NForm>),
    Or(Vec<NForm>),
}

#[derive(Clone, Debug)]
pub enum Gen {
    Any,
    Range(f64, f64),
    Pos,
    /// component k of a unit vector of dimension n (group id)
    Unit(u32, u32, u32),
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub total: Vec<bool>,
    pub tab: HashMap<Node, u32>,
    pub vars: Vec<(String, Gen)>,
    pub atoms: Vec<Atom>,
    pub rules: BTreeMap<u32, (u32, Poly)>,
    pub bases: Vec<Base>,
    pub memo: HashMap<u32, Frac>,
    pub dirty: bool,
    pub hyps: Vec<(Form, NForm)>,
    pub signs: HashMap<(Poly, usize), i32>,
    pub eng: crate::engine::Eng,
}
thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::new());
}
pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            nodes: vec![],
            total: vec![],
            tab: HashMap::new(),
            vars: vec![],
            atoms: vec![],
            rules: BTreeMap::new(),
            bases: vec![],
            memo: HashMap::new(),
            dirty: false,
            hyps: vec![],
            signs: HashMap::new(),
            eng: Default::default(),
        }
    }
    pub fn reset_terms(&mut self) {
        let eng = std::mem::take(&mut self.eng);
        *self = Ctx::new();
        self.eng = eng;
    }
    pub fn intern(&mut self, n: Node) -> u32 {
        if let Some(&i) = self.tab.get(&n) {
            return i;
        }
        let t = match &n {
            Node::Div(_, b) => match &self.nodes[*b as usize] {
                Node::Const(r) => !r.is_zero(),
                _ => false,
            },
            Node::Sqrt(_) | Node::Ln(_) | Node::Atan2(..) => false,
            x => x.args().iter().all(|&a| self.total[a as usize]),
        };
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.total.push(t);
        self.tab.insert(n, i);
        i
    }
    pub fn node(&self, i: u32) -> &Node {
        &self.nodes[i as usize]
    }
    pub fn total(&self, i: u32) -> bool {
        self.total[i as usize]
    }
    pub fn new_var(&mut self, name: &str, g: Gen) -> u32 {
        let k = self.vars.len() as u32;
        let pre = format!("{name}#");
        let dup = self.vars.iter().filter(|v| v.0 == name || v.0.starts_with(&pre)).count();
        let name = if dup == 0 { name.to_string() } else { format!("{name}#{dup}") };
        self.vars.push((name, g));
        self.intern(Node::Var(k))
    }

    // ------------------------------------------------------------ atoms
    fn atom_id(&mut self, a: Atom) -> u32 {
        for (i, b) in self.atoms.iter().enumerate() {
            if *b == a {
                return i as u32;
            }
        }
        self.atoms.push(a);
        (self.atoms.len() - 1) as u32
    }
    pub fn var_atom(&mut self, v: u32) -> u32 {
        self.atom_id(Atom::Var(v))
    }
    pub fn undef(&mut self) -> Frac {
        let a = self.atom_id(Atom::Undef);
        Frac::atom(a)
    }
    fn rule_reaches(&self, from: &Poly, target: u32) -> bool {
        let mut seen = BTreeSet::new();
        let mut todo = BTreeSet::new();
        from.atoms(&mut todo);
        while let Some(a) = todo.pop_first() {
            if a == target {
                return true;
            }
            if seen.insert(a) {
                if let Some((_, r)) = self.rules.get(&a) {
                    r.atoms(&mut todo);
                }
            }
        }
        false
    }
    pub fn add_rule(&mut self, a: u32, pow: u32, repl: Poly) {
        self.rules.insert(a, (pow, repl));
        self.dirty = true;
        self.memo.clear();
    }
    /// Turn an equation p = 0 into a rewrite rule when some variable can be isolated.
    pub fn add_equation(&mut self, p: &Poly) -> bool {
        let p = self.reduce(p);
        if p.is_const() {
            return false;
        }
        for pow in 1..=2u32 {
            let mut cands = BTreeSet::new();
            p.atoms(&mut cands);
            for &a in cands.iter().rev() {
                if self.rules.contains_key(&a) || !matches!(self.atoms[a as usize], Atom::Var(_)) {
                    continue;
                }
                let head = Mono(vec![(a, pow)]);
                let Some(c) = p.0.get(&head) else { continue };
                if p.0.keys().filter(|m| m.deg(a) > 0).count() != 1 {
                    continue;
                }
                let c = c.clone();
                let mut rest = p.clone();
                rest.0.remove(&head);
                let repl = rest.scale(&c.inv().neg());
                if self.rule_reaches(&repl, a) {
                    continue;
                }
                self.add_rule(a, pow, repl);
                return true;
            }
        }
        false
    }
    // ------------------------------------------------------------ reduction
    pub fn reduce(&self, p: &Poly) -> Poly {
        if self.rules.is_empty() || p.is_const() {
            return p.clone();
        }
        let mut p = p.clone();
        let mut guard = 0;
        loop {
            let mut changed = false;
            for (&a, (pow, repl)) in &self.rules {
                let d = p.max_deg(a);
                if d < *pow {
                    continue;
                }
                changed = true;
                let mut out = Poly::zero();
                let mut groups: BTreeMap<u32, Poly> = BTreeMap::new();
                for (m, c) in p.0 {
                    let e = m.deg(a);
                    if e < *pow {
                        out.add_term(m, c);
                        continue;
                    }
                    let k = e / pow;
                    let mut mm: Vec<(u32, u32)> = m.0.iter().filter(|x| x.0 != a).cloned().collect();
                    if e % pow > 0 {
                        mm.push((a, e % pow));
                        mm.sort();
                    }
                    groups.entry(k).or_default().add_term(Mono(mm), c);
                }
                let mut rp = Poly::one();
                let mut k0 = 0;
                for (k, g) in groups {
                    while k0 < k {
                        rp = rp.mul(repl);
                        k0 += 1;
                    }
                    out = out.add(&g.mul(&rp));
                }
                p = out;
            }
            if !changed {
                return p;
            }
            guard += 1;
            assert!(guard < 200, "reduction does not terminate");
        }
    }
    fn finish(&mut self, num: Poly, den: Vec<(Poly, u32)>) -> Frac {
        let mut f = Frac { num: self.reduce(&num), den };
        f.cancel();
        f
    }
    pub fn fadd(&mut self, a: &Frac, b: &Frac) -> Frac {
        if a.is_zero() {
            return b.clone();
        }
        if b.is_zero() {
            return a.clone();
        }
        if a.den == b.den {
            let n = a.num.add(&b.num);
            return self.finish(n, a.den.clone());
        }
        let mut den: BTreeMap<Poly, u32> = BTreeMap::new();
        for (p, e) in a.den.iter().chain(b.den.iter()) {
            let x = den.entry(p.clone()).or_insert(0);
            *x = (*x).max(*e);
        }
        let lift = |f: &Frac| {
            let mut n = f.num.clone();
            for (p, e) in &den {
                let have = f.den.iter().find(|x| &x.0 == p).map(|x| x.1).unwrap_or(0);
                if *e > have {
                    n = n.mul(&p.pow(e - have));
                }
            }
            n
        };
        let n = lift(a).add(&lift(b));
        self.finish(n, den.into_iter().collect())
    }
    pub fn fneg(&self, a: &Frac) -> Frac {
        Frac { num: a.num.neg(), den: a.den.clone() }
    }
    pub fn fsub(&mut self, a: &Frac, b: &Frac) -> Frac {
        let nb = self.fneg(b);
        self.fadd(a, &nb)
    }
    pub fn fmul(&mut self, a: &Frac, b: &Frac) -> Frac {
        if a.is_zero() || b.is_zero() {
            return Frac::zero();
        }
        let (mut x, mut y) = (a.clone(), b.clone());
        // cross cancel
        if !x.den.is_empty() && !y.num.is_const() {
            let mut t = Frac { num: y.num, den: x.den };
            t.cancel();
            y.num = t.num;
            x.den = t.den;
        }
        if !y.den.is_empty() && !x.num.is_const() {
            let mut t = Frac { num: x.num, den: y.den };
            t.cancel();
            x.num = t.num;
            y.den = t.den;
        }
        let n = x.num.mul(&y.num);
        let mut f = Frac { num: Poly::zero(), den: x.den };
        for (p, e) in &y.den {
            f.add_den(p, *e);
        }
        self.finish(n, f.den)
    }
    pub fn finv(&mut self, a: &Frac) -> Frac {
        let n = self.reduce(&a.num);
        if n.is_zero() {
            return self.undef();
        }
        let mut num = Poly::one();
        for (p, e) in &a.den {
            num = num.mul(&p.pow(*e));
        }
        let mut out = Frac { num, den: vec![] };
        let (mut m, c) = n.monic();
        out.num = out.num.scale(&c.inv());
        let mc = m.mono_content();
        if !mc.0.is_empty() {
            m = m.div_exact(&Poly::term(mc.clone(), Rat::one())).unwrap();
            for (at, e) in mc.0 {
                out.add_den(&Poly::atom(at), e);
            }
        }
        if !m.is_const() {
            // perfect powers
            let mut e = 1;
            while let Some(s) = m.sqrt() {
                m = s.monic().0;
                e *= 2;
            }
            out.add_den(&m, e);
        }
        let (num, den) = (out.num, out.den);
        self.finish(num, den)
    }
    pub fn fdiv(&mut self, a: &Frac, b: &Frac) -> Frac {
        let i = self.finv(b);
        self.fmul(a, &i)
    }
    /// re-reduce a stored fraction under the current rules
    pub fn refrac(&mut self, a: &Frac) -> Frac {
        let mut r = Frac::poly(self.reduce(&a.num));
        for (p, e) in &a.den {
            let d = Frac::poly(self.reduce(p));
            let i = self.finv(&d);
            for _ in 0..*e {
                r = self.fmul(&r, &i);
            }
        }
        r
    }
    pub fn feq(&mut self, a: &Frac, b: &Frac) -> bool {
        let d = self.fsub(a, b);
        if d.is_zero() {
            return true;
        }
        self.refrac(&d).is_zero()
    }
    // ------------------------------------------------------------ signs
    pub fn nonneg_atom(&self, a: u32) -> bool {
        matches!(self.atoms[a as usize], Atom::Sqrt(_) | Atom::Exp(_) | Atom::Abs(_) | Atom::Pi)
    }
    /// cheap syntactic: +1 if p >= 0 always, -1 if p <= 0 always
    pub fn syn_sign(&self, p: &Poly) -> i32 {
        let mut s = 0;
        for (m, c) in &p.0 {
            for &(a, e) in &m.0 {
                if e % 2 == 1 && !self.nonneg_atom(a) {
                    return 0;
                }
            }
            let t = c.sign();
            if s == 0 {
                s = t;
            } else if s != t {
                return 0;
            }
        }
        s
    }
    pub fn sign_of(&mut self, p: &Poly) -> i32 {
        if p.is_zero() {
            return 1;
        }
        let s = self.syn_sign(p);
        if s != 0 {
            return s;
        }
        let key = (p.clone(), self.hyps.len());
        if let Some(&s) = self.signs.get(&key) {
            return s;
        }
        let f = Frac::poly(p.clone());
        let r = if crate::smt::entails(self, &NForm::Rel(Rel::Le, self.fneg(&f)), 3000) {
            1
        } else if crate::smt::entails(self, &NForm::Rel(Rel::Le, f), 3000) {
            -1
        } else {
            0
        };
        self.signs.insert(key, r);
        r
    }
    pub fn abs_poly(&mut self, p: &Poly) -> Poly {
        if p.is_zero() {
            return p.clone();
        }
        let mc = p.mono_content();
        let mut rest = p.div_exact(&Poly::term(mc.clone(), Rat::one())).unwrap();
        let mut out = Poly::one();
        for &(a, e) in &mc.0 {
            if e % 2 == 0 {
                out = out.mul(&Poly::term(Mono(vec![(a, e)]), Rat::one()));
            } else {
                let t = self.abs_factor(&Poly::atom(a));
                out = out.mul(&t);
                if e > 1 {
                    out = out.mul(&Poly::term(Mono(vec![(a, e - 1)]), Rat::one()));
                }
            }
        }
        if let Some(c) = rest.const_val() {
            return self.reduce(&out.scale(&c.abs()));
        }
        let (m, c) = rest.monic();
        rest = m;
        let r = self.abs_factor(&rest);
        self.reduce(&out.mul(&r).scale(&c.abs()))
    }
    fn abs_factor(&mut self, p: &Poly) -> Poly {
        match self.sign_of(p) {
            1 => p.clone(),
            -1 => p.neg(),
            _ => {
                for i in 0..self.atoms.len() {
                    if let Atom::Abs(q) = &self.atoms[i] {
                        if q == p || q == &p.neg() {
                            return Poly::atom(i as u32);
                        }
                    }
                }
                let a = self.atom_id(Atom::Abs(p.clone()));
                let sq = self.reduce(&p.mul(p));
                self.add_rule(a, 2, sq);
                Poly::atom(a)
            }
        }
    }
    // ------------------------------------------------------------ sqrt
    pub fn fsqrt(&mut self, f: &Frac) -> Frac {
        if f.is_zero() {
            return Frac::zero();
        }
        let mut num = f.num.clone();
        let mut outden = Poly::one();
        for (p, e) in &f.den {
            let k = if e % 2 == 0 {
                e / 2
            } else {
                num = num.mul(p);
                (e + 1) / 2
            };
            if k % 2 == 0 {
                outden = outden.mul(&p.pow(k));
            } else {
                let a = self.abs_poly(p);
                outden = outden.mul(&a).mul(&p.pow(k - 1));
            }
        }
        let num = self.reduce(&num);
        let s = self.sqrt_poly(&num);
        let d = Frac::poly(self.reduce(&outden));
        self.fdiv(&Frac::poly(s), &d)
    }
    fn sqrt_poly(&mut self, p: &Poly) -> Poly {
        if p.is_zero() {
            return Poly::zero();
        }
        let mc = p.mono_content();
        let mut out = Poly::one();
        let mut pull = vec![];
        for &(a, e) in &mc.0 {
            if e >= 2 {
                pull.push((a, e / 2 * 2));
                let k = e / 2;
                let t = self.abs_poly(&Poly::term(Mono(vec![(a, k)]), Rat::one()));
                out = out.mul(&t);
            }
        }
        let g = p.div_exact(&Poly::term(Mono(pull), Rat::one())).unwrap();
        if let Some(q) = g.sqrt() {
            let a = self.abs_poly(&q);
            return self.reduce(&out.mul(&a));
        }
        // squares hidden by s^2 = 1 - c^2
        for i in 0..self.bases.len() {
            let (s, k) = (self.bases[i].s, self.bases[i].c);
            if g.max_deg(k) == 0 || g.0.keys().any(|m| m.deg(k) % 2 == 1) {
                continue;
            }
            let one_s2 = Poly::one().sub(&Poly::term(Mono(vec![(s, 2)]), Rat::one()));
            let mut h = Poly::zero();
            for (m, c) in &g.0 {
                let d = m.deg(k);
                let rest = Mono(m.0.iter().filter(|x| x.0 != k).cloned().collect());
                h = h.add(&one_s2.pow(d / 2).mul_mono(&rest, c));
            }
            if h.mono_content().deg(s) >= 2 || h.sqrt().is_some() {
                let r = self.sqrt_poly(&h);
                return self.reduce(&out.mul(&r));
            }
        }
        // rational content
        let (k, g) = content(&g);
        let (s, t) = square_part(&k);
        let rad = g.scale(&t);
        if let Some(q) = g.sqrt() {
            // sqrt(t) * |q|
            let a = self.abs_poly(&q);
            let st = self.sqrt_atom(&Poly::constant(t));
            return self.reduce(&out.mul(&a).mul(&st).scale(&s));
        }
        let at = self.sqrt_atom(&rad);
        self.reduce(&out.mul(&at).scale(&s))
    }
    fn sqrt_atom(&mut self, rad: &Poly) -> Poly {
        if let Some(c) = rad.const_val() {
            if c.is_one() {
                return Poly::one();
            }
        }
        for i in 0..self.atoms.len() {
            if let Atom::Sqrt(q) = &self.atoms[i] {
                let d = self.reduce(&q.sub(rad));
                if d.is_zero() {
                    return Poly::atom(i as u32);
                }
            }
        }
        let a = self.atom_id(Atom::Sqrt(rad.clone()));
        // orientation: prefer eliminating the square of a variable
        let mut vs = BTreeSet::new();
        rad.atoms(&mut vs);
        for &v in &vs {
            if self.rules.contains_key(&v) || !matches!(self.atoms[v as usize], Atom::Var(_)) {
                continue;
            }
            let head = Mono(vec![(v, 2)]);
            let Some(c) = rad.0.get(&head).cloned() else { continue };
            if rad.0.keys().filter(|m| m.deg(v) > 0).count() != 1 {
                continue;
            }
            let mut rest = rad.clone();
            rest.0.remove(&head);
            let repl = Poly::term(Mono(vec![(a, 2)]), Rat::one()).sub(&rest).scale(&c.inv());
            if self.rule_reaches(&repl, v) {
                continue;
            }
            self.add_rule(v, 2, repl);
            return Poly::atom(a);
        }
        self.add_rule(a, 2, rad.clone());
        Poly::atom(a)
    }
    // ------------------------------------------------------------ trig
    pub fn sincos(&mut self, arg: &Frac) -> (Frac, Frac) {
        let mut s = Frac::zero();
        let mut c = Frac::one();
        for (m, k) in arg.num.0.iter() {
            let unit = Frac { num: Poly::term(m.clone(), Rat::one()), den: arg.den.clone() };
            let (a, b) = self.sincos_term(&unit, k);
            // (s,c) + (a,b)
            let sa = self.fmul(&s, &b);
            let ca = self.fmul(&c, &a);
            let cc = self.fmul(&c, &b);
            let ss = self.fmul(&s, &a);
            s = self.fadd(&sa, &ca);
            c = self.fsub(&cc, &ss);
        }
        (s, c)
    }
    fn multi(&mut self, s: &Frac, c: &Frac, k: i64) -> (Frac, Frac) {
        let n = k.unsigned_abs();
        let (mut rs, mut rc) = (Frac::zero(), Frac::one());
        for _ in 0..n {
            let a = self.fmul(&rs, c);
            let b = self.fmul(&rc, s);
            let d = self.fmul(&rc, c);
            let e = self.fmul(&rs, s);
            rs = self.fadd(&a, &b);
            rc = self.fsub(&d, &e);
        }
        if k < 0 {
            rs = self.fneg(&rs);
        }
        (rs, rc)
    }
    fn sincos_term(&mut self, unit: &Frac, k: &Rat) -> (Frac, Frac) {
        let single = if unit.den.is_empty() && unit.num.0.len() == 1 {
            let m = unit.num.0.keys().next().unwrap();
            if m.0.len() == 1 && m.0[0].1 == 1 { Some(m.0[0].0) } else { None }
        } else {
            None
        };
        if let Some(a) = single {
            match self.atoms[a as usize].clone() {
                Atom::Pi => {
                    if let Some(n) = k.mul(&Rat::int(2)).to_i64() {
                        let t = n.rem_euclid(4);
                        let v = |x: i64| Frac::constant(Rat::int(x));
                        return match t {
                            0 => (v(0), v(1)),
                            1 => (v(1), v(0)),
                            2 => (v(0), v(-1)),
                            _ => (v(-1), v(0)),
                        };
                    }
                }
                Atom::Atan2(y, x) => {
                    if let Some(n) = k.to_i64() {
                        let y2 = self.fmul(&y, &y);
                        let x2 = self.fmul(&x, &x);
                        let r2 = self.fadd(&x2, &y2);
                        let r = self.fsqrt(&r2);
                        let s = self.fdiv(&y, &r);
                        let c = self.fdiv(&x, &r);
                        return self.multi(&s, &c, n);
                    }
                }
                _ => {}
            }
        }
        let kd: i64 = num_traits::ToPrimitive::to_i64(&k.denom()).expect("angle coefficient");
        let mut found = None;
        for i in 0..self.bases.len() {
            let u = self.bases[i].unit.clone();
            if self.feq(&u, unit) {
                found = Some(i);
                break;
            }
        }
        // angles that are not small multiples of each other are kept apart (no relation between them is used)
        let apart = match found {
            Some(i) => {
                let g = self.bases[i].gran;
                let ng = num_integer::lcm(g, kd);
                ng / g > 24 || k.mul(&Rat::int(ng)).to_i64().is_none_or(|n| n.abs() > 24)
            }
            None => k.mul(&Rat::int(kd)).to_i64().is_none_or(|n| n.abs() > 24),
        };
        if apart {
            let (u, sg) = if k.sign() < 0 { (self.fneg(unit), -1) } else { (unit.clone(), 1) };
            let kk = if sg < 0 { k.neg() } else { k.clone() };
            let scaled = self.fmul(&u, &Frac::constant(kk));
            let scaled = if sg < 0 { self.fneg(&scaled) } else { scaled };
            let mut hit = None;
            for i in 0..self.bases.len() {
                let u = self.bases[i].unit.clone();
                if self.bases[i].gran == 1 && self.feq(&u, &scaled) {
                    hit = Some(i);
                    break;
                }
            }
            let bi = match hit {
                Some(i) => i,
                None => self.new_base(&scaled, 1),
            };
            let b = self.bases[bi].clone();
            let s = Frac::atom(b.s);
            let s = if sg < 0 { self.fneg(&s) } else { s };
            return (s, Frac::atom(b.c));
        }
        let bi = match found {
            None => self.new_base(unit, kd),
            Some(i) => {
                let g = self.bases[i].gran;
                if g % kd == 0 {
                    i
                } else {
                    let ng = num_integer::lcm(g, kd);
                    let j = self.new_base(unit, ng);
                    // express the old atoms
                    let (s, c) = (self.bases[j].s, self.bases[j].c);
                    let (os, oc) = self.multi(&Frac::atom(s), &Frac::atom(c), ng / g);
                    let (a, b) = (self.bases[i].s, self.bases[i].c);
                    self.rules.remove(&a);
                    self.add_rule(a, 1, os.num);
                    self.add_rule(b, 1, oc.num);
                    // new base replaces the old one in lookups
                    self.bases.swap(i, j);
                    self.fix_base_refs(i, j);
                    i
                }
            }
        };
        let b = self.bases[bi].clone();
        let n = k.mul(&Rat::int(b.gran)).to_i64().expect("multiple");
        self.multi(&Frac::atom(b.s), &Frac::atom(b.c), n)
    }
    fn fix_base_refs(&mut self, i: usize, j: usize) {
        for a in self.atoms.iter_mut() {
            match a {
                Atom::Sin(k) | Atom::Cos(k) => {
                    if *k == i {
                        *k = j
                    } else if *k == j {
                        *k = i
                    }
                }
                _ => {}
            }
        }
    }
    fn new_base(&mut self, unit: &Frac, gran: i64) -> usize {
        let i = self.bases.len();
        self.atoms.push(Atom::Sin(i));
        let s = (self.atoms.len() - 1) as u32;
        self.atoms.push(Atom::Cos(i));
        let c = (self.atoms.len() - 1) as u32;
        self.bases.push(Base { unit: unit.clone(), gran, s, c });
        let one_c2 = Poly::one().sub(&Poly::term(Mono(vec![(c, 2)]), Rat::one()));
        self.add_rule(s, 2, one_c2);
        i
    }
    // ------------------------------------------------------------ atan2
    fn holds(&mut self, f: NForm) -> bool {
        crate::smt::entails(self, &f, 3000)
    }
    fn fpos(&mut self, f: &Frac) -> bool {
        if let Some(c) = f.const_val() {
            return c.sign() > 0;
        }
        let n = self.fneg(f);
        self.holds(NForm::Rel(Rel::Lt, n))
    }
    fn fatan2(&mut self, y: &Frac, x: &Frac) -> Frac {
        let pi = self.atom_id(Atom::Pi);
        let pif = Frac::atom(pi);
        let half = |s: i64| Frac::poly(Poly::atom(pi).scale(&Rat::new(s, 2)));
        if y.is_zero() {
            if self.fpos(x) {
                return Frac::zero();
            }
            let nx = self.fneg(x);
            if self.fpos(&nx) {
                return pif;
            }
        }
        if x.is_zero() {
            if self.fpos(y) {
                return half(1);
            }
            let ny = self.fneg(y);
            if self.fpos(&ny) {
                return half(-1);
            }
        }
        // candidates: multiples of known trig bases
        for i in 0..self.bases.len() {
            let b = self.bases[i].clone();
            let mut ks: Vec<i64> = vec![b.gran, -b.gran];
            if b.gran != 1 {
                ks.extend([1, -1]);
            }
            ks.extend([2 * b.gran, -2 * b.gran, 2, -2]);
            ks.retain(|k| k.abs() <= 24);
            ks.dedup();
            for k in ks {
                let (s, c) = self.multi(&Frac::atom(b.s), &Frac::atom(b.c), k);
                if self.same_dir(y, x, &s, &c) {
                    let ang0 = b.angle();
                    let ang = Frac { num: ang0.num.scale(&Rat::int(k)), den: ang0.den };
                    let lo = self.fadd(&ang, &pif); // ang + pi > 0
                    let nlo = self.fneg(&lo);
                    let hi = self.fsub(&ang, &pif);
                    if self.holds(NForm::Rel(Rel::Lt, nlo)) && self.holds(NForm::Rel(Rel::Le, hi.clone())) {
                        return ang;
                    }
                    // shifted by one turn
                    for t in [-2i64, 2] {
                        let sh = Frac::poly(Poly::atom(pi).scale(&Rat::int(t)));
                        let a2 = self.fadd(&ang, &sh);
                        let lo = self.fadd(&a2, &pif);
                        let nlo = self.fneg(&lo);
                        let hi = self.fsub(&a2, &pif);
                        if self.holds(NForm::Rel(Rel::Lt, nlo)) && self.holds(NForm::Rel(Rel::Le, hi)) {
                            return a2;
                        }
                    }
                }
            }
        }
        for i in 0..self.atoms.len() {
            if let Atom::Atan2(b, a) = self.atoms[i].clone() {
                if self.same_dir(y, x, &b, &a) {
                    return Frac::atom(i as u32);
                }
            }
        }
        // atan2(-y, x) = -atan2(y, x) away from the cut
        let ny = self.fneg(y);
        for i in 0..self.atoms.len() {
            if let Atom::Atan2(b, a) = self.atoms[i].clone() {
                if self.same_dir(&ny, x, &b, &a) {
                    // valid unless y = 0 and x <= 0
                    let ok = NForm::Or(vec![
                        NForm::Not(Box::new(NForm::Rel(Rel::Eq, y.clone()))),
                        NForm::Rel(Rel::Lt, self.fneg(x)),
                    ]);
                    if self.holds(ok) {
                        return Frac::poly(Poly::atom(i as u32).neg());
                    }
                }
            }
        }
        let a = self.atom_id(Atom::Atan2(y.clone(), x.clone()));
        Frac::atom(a)
    }
    fn same_dir(&mut self, y: &Frac, x: &Frac, s: &Frac, c: &Frac) -> bool {
        let a = self.fmul(y, c);
        let b = self.fmul(x, s);
        if !self.feq(&a, &b) {
            return false;
        }
        let p = self.fmul(x, c);
        let q = self.fmul(y, s);
        let d = self.fadd(&p, &q);
        self.fpos(&d)
    }
    fn unary_atom(&mut self, ln: bool, f: &Frac) -> Frac {
        for i in 0..self.atoms.len() {
            let g = match (&self.atoms[i], ln) {
                (Atom::Ln(g), true) | (Atom::Exp(g), false) => g.clone(),
                _ => continue,
            };
            if self.feq(&g, f) {
                return Frac::atom(i as u32);
            }
        }
        let a = self.atom_id(if ln { Atom::Ln(f.clone()) } else { Atom::Exp(f.clone()) });
        Frac::atom(a)
    }
    // ------------------------------------------------------------ normal forms
    pub fn norm(&mut self, root: u32) -> Frac {
        for _ in 0..40 {
            self.dirty = false;
            let f = self.norm1(root);
            if !self.dirty {
                return f;
            }
            self.memo.clear();
        }
        panic!("symnum: normalisation does not stabilise");
    }
    fn norm1(&mut self, root: u32) -> Frac {
        let mut stack = vec![root];
        while let Some(&n) = stack.last() {
            if self.memo.contains_key(&n) {
                stack.pop();
                continue;
            }
            let args = self.nodes[n as usize].args();
            let mut ready = true;
            for a in &args {
                if !self.memo.contains_key(a) {
                    stack.push(*a);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |i: usize| self.memo[&args[i]].clone();
            let node = self.nodes[n as usize].clone();
            let r = match node {
                Node::Const(c) => Frac::constant(c),
                Node::Var(v) => {
                    let a = self.var_atom(v);
                    Frac::poly(self.reduce(&Poly::atom(a)))
                }
                Node::Pi => {
                    let a = self.atom_id(Atom::Pi);
                    Frac::atom(a)
                }
                Node::Add(..) => {
                    let (a, b) = (g(0), g(1));
                    self.fadd(&a, &b)
                }
                Node::Sub(..) => {
                    let (a, b) = (g(0), g(1));
                    self.fsub(&a, &b)
                }
                Node::Mul(..) => {
                    let (a, b) = (g(0), g(1));
                    self.fmul(&a, &b)
                }
                Node::Div(..) => {
                    let (a, b) = (g(0), g(1));
                    self.fdiv(&a, &b)
                }
                Node::Neg(..) => {
                    let a = g(0);
                    self.fneg(&a)
                }
                Node::Sqrt(..) => {
                    let a = g(0);
                    self.fsqrt(&a)
                }
                Node::Sin(..) => {
                    let a = g(0);
                    self.sincos(&a).0
                }
                Node::Cos(..) => {
                    let a = g(0);
                    self.sincos(&a).1
                }
                Node::Atan2(..) => {
                    let (a, b) = (g(0), g(1));
                    self.fatan2(&a, &b)
                }
                Node::Ln(..) => {
                    let a = g(0);
                    self.unary_atom(true, &a)
                }
                Node::Exp(..) => {
                    let a = g(0);
                    if a.is_zero() {
                        Frac::one()
                    } else {
                        self.unary_atom(false, &a)
                    }
                }
            };
            // a rule added meanwhile clears the memo; keep going, the caller restarts
            self.memo.insert(n, r);
            stack.pop();
        }
        self.memo[&root].clone()
    }
    pub fn norm_form(&mut self, f: &Form) -> NForm {
        match f {
            Form::T => NForm::T,
            Form::F => NForm::F,
            Form::Rel(r, n) => {
                let x = self.norm(*n);
                if let Some(c) = x.const_val() {
                    let b = match r {
                        Rel::Lt => c.sign() < 0,
                        Rel::Le => c.sign() <= 0,
                        Rel::Eq => c.sign() == 0,
                    };
                    return if b { NForm::T } else { NForm::F };
                }
                NForm::Rel(*r, x)
            }
            Form::Not(g) => nnot(self.norm_form(g)),
            Form::And(v) => {
                let mut out = vec![];
                for g in v {
                    match self.norm_form(g) {
                        NForm::T => {}
                        NForm::F => return NForm::F,
                        x => out.push(x),
                    }
                }
                if out.is_empty() {
                    NForm::T
                } else {
                    NForm::And(out)
                }
            }
            Form::Or(v) => {
                let mut out = vec![];
                for g in v {
                    match self.norm_form(g) {
                        NForm::F => {}
                        NForm::T => return NForm::T,
                        x => out.push(x),
                    }
                }
                if out.is_empty() {
                    NForm::F
                } else {
                    NForm::Or(out)
                }
            }
        }
    }
    // ------------------------------------------------------------ numeric evaluation
    pub fn eval(&self, root: u32, vals: &[f64], memo: &mut Memo) -> f64 {
        let mut stack = vec![root];
        while let Some(&n) = stack.last() {
            if memo.contains_key(&n) {
                stack.pop();
                continue;
            }
            let node = &self.nodes[n as usize];
            let args = node.args();
            let mut ready = true;
            for a in &args {
                if !memo.contains_key(a) {
                    stack.push(*a);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |i: usize| memo[&args[i]];
            let r = match node {
                Node::Const(c) => c.to_f64(),
                Node::Var(v) => vals[*v as usize],
                Node::Pi => std::f64::consts::PI,
                Node::Add(..) => g(0) + g(1),
                Node::Sub(..) => g(0) - g(1),
                Node::Mul(..) => g(0) * g(1),
                Node::Div(..) => g(0) / g(1),
                Node::Neg(..) => -g(0),
                Node::Sqrt(..) => g(0).sqrt(),
                Node::Sin(..) => g(0).sin(),
                Node::Cos(..) => g(0).cos(),
                Node::Atan2(..) => g(0).atan2(g(1)),
                Node::Ln(..) => g(0).ln(),
                Node::Exp(..) => g(0).exp(),
            };
            memo.insert(n, r);
            stack.pop();
        }
        memo[&root]
    }
    /// Some(truth) or None when numerically undecidable (near-equality / NaN)
    pub fn eval_form(&self, f: &Form, vals: &[f64], memo: &mut Memo, tol: f64) -> Option<bool> {
        match f {
            Form::T => Some(true),
            Form::F => Some(false),
            Form::Rel(r, n) => {
                let x = self.eval(*n, vals, memo);
                if x.is_nan() {
                    return None;
                }
                if x.abs() <= tol {
                    return match r {
                        Rel::Eq if x == 0.0 => Some(true),
                        Rel::Eq => None,
                        _ if x == 0.0 => Some(*r == Rel::Le),
                        _ => None,
                    };
                }
                Some(match r {
                    Rel::Lt | Rel::Le => x < 0.0,
                    Rel::Eq => false,
                })
            }
            Form::Not(g) => self.eval_form(g, vals, memo, tol).map(|b| !b),
            Form::And(v) => {
                let mut r = Some(true);
                for g in v {
                    match self.eval_form(g, vals, memo, tol) {
                        Some(false) => return Some(false),
                        None => r = None,
                        _ => {}
                    }
                }
                r
            }
            Form::Or(v) => {
                let mut r = Some(false);
                for g in v {
                    match self.eval_form(g, vals, memo, tol) {
                        Some(true) => return Some(true),
                        None => r = None,
                        _ => {}
                    }
                }
                r
            }
        }
    }
    /// does a sample satisfy a hypothesis (equations up to rounding)?
    pub fn accepts(&self, f: &Form, vals: &[f64], memo: &mut Memo, tol: f64) -> bool {
        match f {
            Form::Rel(Rel::Eq, n) => {
                let x = self.eval(*n, vals, memo);
                x.abs() <= tol
            }
            Form::And(v) => v.iter().all(|g| self.accepts(g, vals, memo, tol)),
            _ => self.eval_form(f, vals, memo, tol) == Some(true),
        }
    }
    pub fn show(&self, n: u32, depth: usize) -> String {
        if depth == 0 {
            return "..".into();
        }
        let s = |i: u32| self.show(i, depth - 1);
        match &self.nodes[n as usize] {
            Node::Const(c) => format!("{}", c.big()),
            Node::Var(v) => self.vars[*v as usize].0.clone(),
            Node::Pi => "pi".into(),
            Node::Add(a, b) => format!("({} + {})", s(*a), s(*b)),
            Node::Sub(a, b) => format!("({} - {})", s(*a), s(*b)),
            Node::Mul(a, b) => format!("{}*{}", s(*a), s(*b)),
            Node::Div(a, b) => format!("({} / {})", s(*a), s(*b)),
            Node::Neg(a) => format!("-{}", s(*a)),
            Node::Sqrt(a) => format!("sqrt({})", s(*a)),
            Node::Sin(a) => format!("sin({})", s(*a)),
            Node::Cos(a) => format!("cos({})", s(*a)),
            Node::Atan2(a, b) => format!("atan2({}, {})", s(*a), s(*b)),
            Node::Ln(a) => format!("ln({})", s(*a)),
            Node::Exp(a) => format!("exp({})", s(*a)),
        }
    }
    pub fn show_form(&self, f: &Form) -> String {
        match f {
            Form::T => "true".into(),
            Form::F => "false".into(),
            Form::Rel(r, n) => format!(
                "{} {} 0",
                self.show(*n, 8),
                match r {
                    Rel::Lt => "<",
                    Rel::Le => "<=",
                    Rel::Eq => "=",
                }
            ),
            Form::Not(g) => format!("not({})", self.show_form(g)),
            Form::And(v) => format!("({})", v.iter().map(|g| self.show_form(g)).collect::<Vec<_>>().join(" and ")),
            Form::Or(v) => format!("({})", v.iter().map(|g| self.show_form(g)).collect::<Vec<_>>().join(" or ")),
        }
    }
}
pub fn nnot(f: NForm) -> NForm {
    match f {
        NForm::T => NForm::F,
        NForm::F => NForm::T,
        NForm::Not(g) => *g,
        g => NForm::Not(Box::new(g)),
    }
}
/// positive rational content and primitive part
fn content(p: &Poly) -> (Rat, Poly) {
    use num_bigint::BigInt;
    use num_integer::Integer;
    use num_traits::Zero;
    let mut n = BigInt::zero();
    let mut d = BigInt::from(1);
    for c in p.0.values() {
        n = n.gcd(&c.numer());
        d = d.lcm(&c.denom());
    }
    let k = Rat::from_big(num_rational::BigRational::new(n, d));
    (k.clone(), p.scale(&k.inv()))
}
/// k = s^2 * t with t a squarefree-ish integer
fn square_part(k: &Rat) -> (Rat, Rat) {
    use num_bigint::BigInt;
    use num_integer::Integer;
    use num_traits::Zero;
    let nd = k.numer() * k.denom();
    let mut s = BigInt::from(1);
    let mut t = nd;
    for p in 2u32..200 {
        let q = BigInt::from(p * p);
        loop {
            let (a, r) = t.div_rem(&q);
            if r.is_zero() {
                t = a;
                s *= p;
            } else {
                break;
            }
        }
    }
    (
        Rat::from_big(num_rational::BigRational::new(s, k.denom())),
        Rat::from_big(num_rational::BigRational::from_integer(t)),
    )
}
