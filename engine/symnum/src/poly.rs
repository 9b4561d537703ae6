//! Multivariate polynomials over Q and fractions with factored denominators.
use crate::rat::Rat;
use std::cmp::Ordering;
use std::collections::BTreeMap;

/// Monomial: sorted (atom, exponent>0).
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Mono(pub Vec<(u32, u32)>);
impl Ord for Mono {
    fn cmp(&self, o: &Mono) -> Ordering {
        // lex, smaller atom id is more significant
        let (a, b) = (&self.0, &o.0);
        let mut i = 0;
        loop {
            match (a.get(i), b.get(i)) {
                (None, None) => return Ordering::Equal,
                (Some(_), None) => return Ordering::Greater,
                (None, Some(_)) => return Ordering::Less,
                (Some(x), Some(y)) => {
                    if x.0 != y.0 {
                        return if x.0 < y.0 { Ordering::Greater } else { Ordering::Less };
                    }
                    if x.1 != y.1 {
                        return x.1.cmp(&y.1);
                    }
                }
            }
            i += 1;
        }
    }
}
impl PartialOrd for Mono {
    fn partial_cmp(&self, o: &Mono) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Mono {
    pub fn one() -> Mono {
        Mono(vec![])
    }
    pub fn atom(a: u32) -> Mono {
        Mono(vec![(a, 1)])
    }
    pub fn mul(&self, o: &Mono) -> Mono {
        if self.0.is_empty() {
            return o.clone();
        }
        if o.0.is_empty() {
            return self.clone();
        }
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            if a[i].0 < b[j].0 {
                r.push(a[i]);
                i += 1;
            } else if a[i].0 > b[j].0 {
                r.push(b[j]);
                j += 1;
            } else {
                r.push((a[i].0, a[i].1 + b[j].1));
                i += 1;
                j += 1;
            }
        }
        r.extend_from_slice(&a[i..]);
        r.extend_from_slice(&b[j..]);
        Mono(r)
    }
    pub fn deg(&self, a: u32) -> u32 {
        self.0.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0)
    }
    pub fn div(&self, o: &Mono) -> Option<Mono> {
        let mut r = self.0.clone();
        for &(a, e) in &o.0 {
            let p = r.iter_mut().find(|x| x.0 == a)?;
            if p.1 < e {
                return None;
            }
            p.1 -= e;
        }
        r.retain(|x| x.1 > 0);
        Some(Mono(r))
    }
    pub fn gcd(&self, o: &Mono) -> Mono {
        let mut r = vec![];
        for &(a, e) in &self.0 {
            let d = o.deg(a).min(e);
            if d > 0 {
                r.push((a, d));
            }
        }
        Mono(r)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
pub struct Poly(pub BTreeMap<Mono, Rat>);
impl Poly {
    pub fn zero() -> Poly {
        Poly::default()
    }
    pub fn constant(c: Rat) -> Poly {
        let mut p = Poly::default();
        if !c.is_zero() {
            p.0.insert(Mono::one(), c);
        }
        p
    }
    pub fn one() -> Poly {
        Poly::constant(Rat::one())
    }
    pub fn int(i: i64) -> Poly {
        Poly::constant(Rat::int(i))
    }
    pub fn atom(a: u32) -> Poly {
        Poly::term(Mono::atom(a), Rat::one())
    }
    pub fn term(m: Mono, c: Rat) -> Poly {
        let mut p = Poly::default();
        if !c.is_zero() {
            p.0.insert(m, c);
        }
        p
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn is_const(&self) -> bool {
        self.0.is_empty() || (self.0.len() == 1 && self.0.keys().next().unwrap().0.is_empty())
    }
    pub fn const_val(&self) -> Option<Rat> {
        if self.0.is_empty() {
            Some(Rat::zero())
        } else if self.is_const() {
            Some(self.0.values().next().unwrap().clone())
        } else {
            None
        }
    }
    pub fn is_one(&self) -> bool {
        self.const_val().map(|c| c.is_one()).unwrap_or(false)
    }
    pub fn add_term(&mut self, m: Mono, c: Rat) {
        use std::collections::btree_map::Entry;
        if c.is_zero() {
            return;
        }
        match self.0.entry(m) {
            Entry::Vacant(v) => {
                v.insert(c);
            }
            Entry::Occupied(mut o) => {
                let s = o.get().add(&c);
                if s.is_zero() {
                    o.remove();
                } else {
                    *o.get_mut() = s;
                }
            }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (mut r, s) = if self.0.len() >= o.0.len() { (self.clone(), o) } else { (o.clone(), self) };
        for (m, c) in &s.0 {
            r.add_term(m.clone(), c.clone());
        }
        r
    }
    pub fn scale(&self, c: &Rat) -> Poly {
        if c.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, x)| (m.clone(), x.mul(c))).collect())
    }
    pub fn neg(&self) -> Poly {
        self.scale(&Rat::int(-1))
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        for (m, c) in &o.0 {
            r.add_term(m.clone(), c.neg());
        }
        r
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if let Some(c) = o.const_val() {
            return self.scale(&c);
        }
        if let Some(c) = self.const_val() {
            return o.scale(&c);
        }
        let mut r = Poly::zero();
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                r.add_term(m.mul(n), c.mul(d));
            }
        }
        r
    }
    pub fn mul_mono(&self, n: &Mono, d: &Rat) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.mul(n), c.mul(d))).collect())
    }
    pub fn pow(&self, n: u32) -> Poly {
        let mut r = Poly::one();
        for _ in 0..n {
            r = r.mul(self);
        }
        r
    }
    pub fn lead(&self) -> Option<(&Mono, &Rat)> {
        self.0.iter().next_back()
    }
    pub fn atoms(&self, out: &mut std::collections::BTreeSet<u32>) {
        for m in self.0.keys() {
            for &(a, _) in &m.0 {
                out.insert(a);
            }
        }
    }
    pub fn max_deg(&self, a: u32) -> u32 {
        self.0.keys().map(|m| m.deg(a)).max().unwrap_or(0)
    }
    /// exact division
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if d.is_zero() {
            return None;
        }
        if let Some(c) = d.const_val() {
            return Some(self.scale(&c.inv()));
        }
        if d.0.len() == 1 {
            let (dm, dc) = d.lead().unwrap();
            let ci = dc.inv();
            let mut q = BTreeMap::new();
            for (m, c) in &self.0 {
                q.insert(m.div(dm)?, c.mul(&ci));
            }
            return Some(Poly(q));
        }
        let (dm, dc) = d.lead().unwrap();
        let ci = dc.inv();
        // quick check of the trailing term
        if let (Some((tm, _)), Some((sm, _))) = (d.0.iter().next(), self.0.iter().next()) {
            sm.div(tm)?;
        }
        let mut r = self.clone();
        let mut q = Poly::zero();
        while let Some((m, c)) = r.lead() {
            let qm = m.div(dm)?;
            let qc = c.mul(&ci);
            for (n, e) in &d.0 {
                r.add_term(n.mul(&qm), e.mul(&qc).neg());
            }
            q.add_term(qm, qc);
            if q.0.len() > 20000 {
                return None;
            }
        }
        Some(q)
    }
    /// monomial content
    pub fn mono_content(&self) -> Mono {
        let mut it = self.0.keys();
        let mut g = match it.next() {
            None => return Mono::one(),
            Some(m) => m.clone(),
        };
        for m in it {
            if g.0.is_empty() {
                break;
            }
            g = g.gcd(m);
        }
        g
    }
    /// polynomial square root, if a perfect square over Q
    pub fn sqrt(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let (m, c) = self.lead().unwrap();
        let c = c.sqrt()?;
        let mut h = vec![];
        for &(a, e) in &m.0 {
            if e % 2 != 0 {
                return None;
            }
            h.push((a, e / 2));
        }
        let lm = Mono(h);
        let mut q = Poly::term(lm.clone(), c.clone());
        let mut r = self.sub(&q.mul(&q));
        let two = c.mul(&Rat::int(2)).inv();
        let mut last = lm.clone();
        while let Some((m, k)) = r.lead() {
            let tm = m.div(&lm)?;
            if tm >= last {
                return None;
            }
            let t = Poly::term(tm.clone(), k.mul(&two));
            // r -= 2 q t + t^2
            r = r.sub(&q.mul(&t).scale(&Rat::int(2))).sub(&t.mul(&t));
            q = q.add(&t);
            last = tm;
            if q.0.len() > 2000 {
                return None;
            }
        }
        Some(q)
    }
    /// scale so that the leading coefficient is 1; returns (monic, coefficient)
    pub fn monic(&self) -> (Poly, Rat) {
        let c = self.lead().unwrap().1.clone();
        if c.is_one() {
            return (self.clone(), c);
        }
        (self.scale(&c.inv()), c)
    }
    pub fn eval(&self, f: &dyn Fn(u32) -> f64) -> f64 {
        let mut s = 0.0;
        for (m, c) in &self.0 {
            let mut t = c.to_f64();
            for &(a, e) in &m.0 {
                t *= f(a).powi(e as i32);
            }
            s += t;
        }
        s
    }
}

/// num / prod den_i^e_i with den_i monic and non-constant
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Frac {
    pub num: Poly,
    pub den: Vec<(Poly, u32)>,
}
impl Frac {
    pub fn poly(p: Poly) -> Frac {
        Frac { num: p, den: vec![] }
    }
    pub fn constant(c: Rat) -> Frac {
        Frac::poly(Poly::constant(c))
    }
    pub fn zero() -> Frac {
        Frac::poly(Poly::zero())
    }
    pub fn one() -> Frac {
        Frac::poly(Poly::one())
    }
    pub fn atom(a: u32) -> Frac {
        Frac::poly(Poly::atom(a))
    }
    pub fn is_zero(&self) -> bool {
        self.num.is_zero()
    }
    pub fn const_val(&self) -> Option<Rat> {
        if self.den.is_empty() || self.num.is_zero() {
            self.num.const_val()
        } else {
            None
        }
    }
    pub fn den_poly(&self) -> Poly {
        let mut d = Poly::one();
        for (p, e) in &self.den {
            d = d.mul(&p.pow(*e));
        }
        d
    }
    pub fn add_den(&mut self, p: &Poly, e: u32) {
        for q in self.den.iter_mut() {
            if &q.0 == p {
                q.1 += e;
                return;
            }
        }
        self.den.push((p.clone(), e));
        self.den.sort();
    }
    pub fn cancel(&mut self) {
        if self.num.is_zero() {
            self.den.clear();
            return;
        }
        let mut den = std::mem::take(&mut self.den);
        for (p, e) in den.iter_mut() {
            while *e > 0 {
                match self.num.div_exact(p) {
                    Some(q) => {
                        self.num = q;
                        *e -= 1;
                    }
                    None => break,
                }
            }
        }
        den.retain(|x| x.1 > 0);
        self.den = den;
    }
}
