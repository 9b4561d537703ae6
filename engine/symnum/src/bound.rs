//! Enclosures: sin/cos of small angles are replaced by Taylor polynomials with remainder variables in [-1, 1],
//! square roots near 1 likewise, then the sign of the goal is decided by exact rational interval arithmetic.
//! Used for the tolerance obligations of small-angle branches.
use crate::ctx::{Atom, Ctx, NForm, Rel};
use crate::poly::{Frac, Mono, Poly};
use crate::rat::Rat;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
struct Iv {
    lo: Option<Rat>,
    hi: Option<Rat>,
}
impl Iv {
    fn all() -> Iv {
        Iv { lo: None, hi: None }
    }
    fn new(a: Rat, b: Rat) -> Iv {
        Iv { lo: Some(a), hi: Some(b) }
    }
    fn meet(&mut self, o: &Iv) -> bool {
        let mut ch = false;
        if let Some(l) = &o.lo {
            if self.lo.as_ref().map(|x| gt(l, x)).unwrap_or(true) {
                self.lo = Some(l.clone());
                ch = true;
            }
        }
        if let Some(h) = &o.hi {
            if self.hi.as_ref().map(|x| gt(x, h)).unwrap_or(true) {
                self.hi = Some(h.clone());
                ch = true;
            }
        }
        ch
    }
    fn add(&self, o: &Iv) -> Iv {
        Iv { lo: z(&self.lo, &o.lo, |a, b| a.add(b)), hi: z(&self.hi, &o.hi, |a, b| a.add(b)) }
    }
    fn scale(&self, c: &Rat) -> Iv {
        let f = |x: &Option<Rat>| x.as_ref().map(|v| v.mul(c));
        if c.sign() >= 0 { Iv { lo: f(&self.lo), hi: f(&self.hi) } } else { Iv { lo: f(&self.hi), hi: f(&self.lo) } }
    }
    fn neg(&self) -> Iv {
        self.scale(&Rat::int(-1))
    }
    fn pow(&self, e: u32) -> Iv {
        if e % 2 == 1 {
            return Iv { lo: self.lo.as_ref().map(|x| x.pow(e)), hi: self.hi.as_ref().map(|x| x.pow(e)) };
        }
        let hi = match (&self.lo, &self.hi) {
            (Some(a), Some(b)) => Some(max(&a.abs(), &b.abs()).pow(e)),
            _ => None,
        };
        let lo = match (&self.lo, &self.hi) {
            (Some(a), _) if a.sign() > 0 => a.pow(e),
            (_, Some(b)) if b.sign() < 0 => b.pow(e),
            _ => Rat::zero(),
        };
        Iv { lo: Some(lo), hi }
    }
    fn mul(&self, o: &Iv) -> Iv {
        if let (Some(a), Some(b), Some(c), Some(d)) = (&self.lo, &self.hi, &o.lo, &o.hi) {
            let v = [a.mul(c), a.mul(d), b.mul(c), b.mul(d)];
            let mut lo = v[0].clone();
            let mut hi = v[0].clone();
            for x in &v[1..] {
                if gt(&lo, x) {
                    lo = x.clone();
                }
                if gt(x, &hi) {
                    hi = x.clone();
                }
            }
            return Iv::new(lo, hi);
        }
        let nn = |x: &Iv| x.lo.as_ref().map(|l| l.sign() >= 0).unwrap_or(false);
        let np = |x: &Iv| x.hi.as_ref().map(|l| l.sign() <= 0).unwrap_or(false);
        let mut r = Iv::all();
        if nn(self) && nn(o) {
            r.lo = Some(self.lo.as_ref().unwrap().mul(o.lo.as_ref().unwrap()));
        } else if np(self) && np(o) {
            r.lo = Some(Rat::zero());
        } else if (nn(self) && np(o)) || (np(self) && nn(o)) {
            r.hi = Some(Rat::zero());
        }
        r
    }
}
fn z(a: &Option<Rat>, b: &Option<Rat>, f: impl Fn(&Rat, &Rat) -> Rat) -> Option<Rat> {
    match (a, b) {
        (Some(x), Some(y)) => Some(f(x, y)),
        _ => None,
    }
}
fn gt(a: &Rat, b: &Rat) -> bool {
    a.sub(b).sign() > 0
}
fn max(a: &Rat, b: &Rat) -> Rat {
    if gt(a, b) { a.clone() } else { b.clone() }
}
/// rational upper bound of the n-th root of a nonnegative rational
fn root_up(x: &Rat, n: u32) -> Rat {
    if x.sign() <= 0 {
        return Rat::zero();
    }
    let mut v = x.to_f64().powf(1.0 / n as f64);
    if !v.is_finite() {
        return max(x, &Rat::one());
    }
    loop {
        v *= 1.0 + 1e-9;
        // a short decimal above v
        let k = 10f64.powi(6 - v.log10().floor() as i32);
        let r = if k >= 1.0 {
            Rat::int((v * k).ceil() as i64).div(&Rat::from_f64(k))
        } else {
            Rat::from_f64(v.ceil())
        };
        if !gt(x, &r.pow(n)) {
            return r;
        }
    }
}
struct B<'a> {
    c: &'a mut Ctx,
    iv: BTreeMap<u32, Iv>,
    /// remainder variables live above this id
    next: u32,
    first: u32,
}
impl B<'_> {
    fn get(&self, a: u32) -> Iv {
        if a >= self.first {
            return Iv::new(Rat::int(-1), Rat::one());
        }
        if let Some(i) = self.iv.get(&a) {
            return i.clone();
        }
        match &self.c.atoms[a as usize] {
            Atom::Pi => Iv::new(Rat::new(314159265, 100000000), Rat::new(314159266, 100000000)),
            Atom::Sin(_) | Atom::Cos(_) => Iv::new(Rat::int(-1), Rat::one()),
            Atom::Sqrt(_) | Atom::Abs(_) | Atom::Exp(_) => Iv { lo: Some(Rat::zero()), hi: None },
            Atom::Atan2(..) => Iv::new(Rat::new(-314159266, 100000000), Rat::new(314159266, 100000000)),
            _ => Iv::all(),
        }
    }
    fn mono(&self, m: &Mono) -> Iv {
        let mut r = Iv::new(Rat::one(), Rat::one());
        for &(a, e) in &m.0 {
            r = r.mul(&self.get(a).pow(e));
        }
        r
    }
    fn poly(&self, p: &Poly) -> Iv {
        let mut r = Iv::new(Rat::zero(), Rat::zero());
        for (m, c) in &p.0 {
            r = r.add(&self.mono(m).scale(c));
        }
        r
    }
    fn meet(&mut self, a: u32, i: Iv) -> bool {
        let mut cur = self.get(a);
        let ch = cur.meet(&i);
        self.iv.insert(a, cur);
        ch
    }
    /// p <= 0
    fn propagate(&mut self, p: &Poly) -> bool {
        let mut ch = false;
        let ts: Vec<(Mono, Rat)> = p.0.iter().map(|(m, c)| (m.clone(), c.clone())).collect();
        for (m, c) in &ts {
            if m.0.len() != 1 {
                continue;
            }
            let (a, e) = m.0[0];
            let mut rest = p.clone();
            rest.0.remove(m);
            let Some(lo) = self.poly(&rest).lo else { continue };
            // c * a^e <= -lo
            let b = lo.neg().div(c);
            if e == 1 {
                ch |= self.meet(a, if c.sign() > 0 { Iv { lo: None, hi: Some(b) } } else { Iv { lo: Some(b), hi: None } });
            } else if e % 2 == 0 && c.sign() > 0 && b.sign() >= 0 {
                let r = root_up(&b, e);
                ch |= self.meet(a, Iv::new(r.neg(), r));
            }
        }
        ch
    }
    fn base_of(&self, a: u32) -> Option<usize> {
        match self.c.atoms[a as usize] {
            Atom::Sin(i) | Atom::Cos(i) => Some(i),
            _ => None,
        }
    }
    fn trig(&mut self) -> bool {
        let mut ch = false;
        for i in 0..self.c.bases.len() {
            let b = self.c.bases[i].clone();
            if self.c.rules.get(&b.s).map(|r| r.0 == 1).unwrap_or(false) {
                continue;
            }
            let ang = b.angle();
            if !ang.den.is_empty() {
                continue;
            }
            let iv = self.poly(&ang.num);
            // |angle| <= 1.5708 and |sin| <= e  =>  |angle| <= 1.5709 e
            let lim = Rat::new(15708, 10000);
            let inside = iv.lo.as_ref().map(|x| !gt(&lim.neg(), x)).unwrap_or(false) && iv.hi.as_ref().map(|x| !gt(x, &lim)).unwrap_or(false);
            let lim2 = Rat::new(314159265, 100000000);
            if iv.lo.as_ref().map(|x| x.sign() >= 0).unwrap_or(false) && iv.hi.as_ref().map(|x| !gt(x, &lim2)).unwrap_or(false) {
                ch |= self.meet(b.s, Iv { lo: Some(Rat::zero()), hi: None });
            }
            if iv.hi.as_ref().map(|x| x.sign() <= 0).unwrap_or(false) && iv.lo.as_ref().map(|x| !gt(&lim2.neg(), x)).unwrap_or(false) {
                ch |= self.meet(b.s, Iv { lo: None, hi: Some(Rat::zero()) });
            }
            if inside {
                let s = self.get(b.s);
                let c = self.get(b.c);
                let mut e = max(&s.lo.unwrap().abs(), &s.hi.unwrap().abs());
                // 1 - cos >= 2 a^2 / pi^2 >= a^2/5 on this range
                if let Some(cl) = c.lo {
                    let d = Rat::one().sub(&cl).mul(&Rat::int(5));
                    let r = root_up(&d, 2);
                    let via = r.div(&Rat::new(15709, 10000));
                    if gt(&e, &via) {
                        e = via;
                    }
                }
                let bound = e.mul(&Rat::new(15709, 10000));
                let mut p = ang.num.clone();
                p.add_term(Mono::one(), bound.neg());
                ch |= self.propagate(&p);
                let mut p = ang.num.neg();
                p.add_term(Mono::one(), bound.neg());
                ch |= self.propagate(&p);
            }
            // |sin a| <= |a|, and 1 - a^2/2 <= cos a
            let iv = self.poly(&ang.num);
            if let (Some(l), Some(h)) = (&iv.lo, &iv.hi) {
                let m = max(&l.abs(), &h.abs());
                if gt(&Rat::one(), &m) {
                    ch |= self.meet(b.s, Iv::new(m.neg(), m.clone()));
                    ch |= self.meet(b.c, Iv::new(Rat::one().sub(&m.mul(&m).div(&Rat::int(2))), Rat::one()));
                }
            }
        }
        ch
    }
    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next - 1
    }
    fn subst(&self, p: &Poly, map: &BTreeMap<u32, Poly>) -> Poly {
        let mut out = Poly::zero();
        for (m, c) in &p.0 {
            let mut keep = vec![];
            let mut t = Poly::constant(c.clone());
            for &(a, e) in &m.0 {
                match map.get(&a) {
                    Some(r) => t = t.mul(&r.pow(e)),
                    None => keep.push((a, e)),
                }
            }
            out = out.add(&t.mul_mono(&Mono(keep), &Rat::one()));
        }
        out
    }
}
fn hyp_polys(c: &mut Ctx, f: &NForm, out: &mut Vec<Poly>) {
    match f {
        NForm::Rel(r, x) => {
            let x = c.refrac(x);
            if !x.den.is_empty() {
                return;
            }
            if *r == Rel::Eq {
                out.push(x.num.neg());
            }
            out.push(x.num);
        }
        NForm::And(v) => v.iter().for_each(|g| hyp_polys(c, g, out)),
        NForm::Not(g) => {
            if let NForm::Rel(r, x) = &**g {
                if *r != Rel::Eq {
                    let x = c.refrac(x);
                    if x.den.is_empty() {
                        out.push(x.num.neg());
                    }
                }
            }
        }
        _ => {}
    }
}
pub fn entails(c: &mut Ctx, goal: &NForm) -> bool {
    let hs: Vec<NForm> = c.hyps.iter().map(|h| h.1.clone()).collect();
    let mut polys = vec![];
    for h in &hs {
        hyp_polys(c, h, &mut polys);
        // the form before later rules were added (unit vectors are rewritten to 0 = 0 by their own rule)
        if let NForm::Rel(Rel::Eq, x) = h {
            if x.den.is_empty() {
                polys.push(x.num.clone());
                polys.push(x.num.neg());
            }
        }
    }
    // a rule a^2 -> r says a^2 = r
    for (a, (e, r)) in c.rules.clone() {
        if e == 2 {
            let p = Poly::term(Mono(vec![(a, 2)]), Rat::one()).sub(&r);
            polys.push(p.neg());
            polys.push(p);
        }
    }
    let n = c.atoms.len() as u32;
    let mut b = B { c, iv: BTreeMap::new(), next: n, first: n };
    for _ in 0..6 {
        let mut ch = false;
        for p in &polys {
            ch |= b.propagate(p);
        }
        ch |= b.trig();
        if !ch {
            break;
        }
    }
    // enclosures
    let mut map: BTreeMap<u32, Poly> = BTreeMap::new();
    for i in 0..b.c.bases.len() {
        let ba = b.c.bases[i].clone();
        if b.c.rules.get(&ba.s).map(|r| r.0 == 1).unwrap_or(false) {
            continue;
        }
        let ang = ba.angle();
        if !ang.den.is_empty() {
            continue;
        }
        let iv = b.poly(&ang.num);
        let small = match (&iv.lo, &iv.hi) {
            (Some(l), Some(h)) => gt(&Rat::one(), &max(&l.abs(), &h.abs())),
            _ => false,
        };
        if !small {
            continue;
        }
        let t = ang.num.clone();
        let (r1, r2) = (b.fresh(), b.fresh());
        let t2 = t.mul(&t);
        let t3 = t2.mul(&t);
        let t5 = t3.mul(&t2);
        let t4 = t2.mul(&t2);
        let s = t.sub(&t3.scale(&Rat::new(1, 6))).add(&t5.mul(&Poly::atom(r1)).scale(&Rat::new(1, 120)));
        let k = Poly::one().sub(&t2.scale(&Rat::new(1, 2))).add(&t4.mul(&Poly::atom(r2)).scale(&Rat::new(1, 24)));
        map.insert(ba.s, s);
        map.insert(ba.c, k);
    }
    // a = sqrt(1 + z), |z| < 1/2:  a = 1 + z/2 - z^2/2 * [0, 1]
    for (a, (e, r)) in b.c.rules.clone() {
        if e != 2 || b.base_of(a).is_some() || map.contains_key(&a) {
            continue;
        }
        let nonneg = b.get(a).lo.map(|l| l.sign() >= 0).unwrap_or(false);
        let nonpos = b.get(a).hi.map(|l| l.sign() <= 0).unwrap_or(false);
        if !nonneg && !nonpos {
            continue;
        }
        let zp = r.sub(&Poly::one());
        let iv = b.poly(&zp);
        let small = match (&iv.lo, &iv.hi) {
            (Some(l), Some(h)) => gt(&Rat::new(1, 2), &max(&l.abs(), &h.abs())),
            _ => false,
        };
        if !small {
            continue;
        }
        let rr = b.fresh();
        // z^2/2 * [0,1] = z^2/4 * (1 + rho)
        let z2 = zp.mul(&zp).scale(&Rat::new(1, 4));
        let mut v = Poly::one().add(&zp.scale(&Rat::new(1, 2))).sub(&z2).add(&z2.mul(&Poly::atom(rr)));
        if nonpos {
            v = v.neg();
        }
        map.insert(a, v);
    }
    if map.is_empty() {
        return false;
    }
    fn go(b: &B, map: &BTreeMap<u32, Poly>, g: &NForm) -> bool {
        match g {
            NForm::T => true,
            NForm::And(v) => v.iter().all(|x| go(b, map, x)),
            NForm::Or(v) => v.iter().any(|x| go(b, map, x)),
            NForm::Rel(r, f) if *r != Rel::Eq => negative(b, map, f, *r == Rel::Lt),
            NForm::Not(x) => match &**x {
                // not (f < 0)  <=>  -f <= 0
                NForm::Rel(r, f) if *r != Rel::Eq => {
                    let nf = Frac { num: f.num.neg(), den: f.den.clone() };
                    negative(b, map, &nf, *r == Rel::Le)
                }
                _ => false,
            },
            _ => false,
        }
    }
    fn deep(b: &B, map: &BTreeMap<u32, Poly>, p: &Poly) -> Poly {
        let mut p = p.clone();
        for _ in 0..4 {
            let mut at = std::collections::BTreeSet::new();
            p.atoms(&mut at);
            if !at.iter().any(|a| map.contains_key(a)) {
                break;
            }
            p = b.subst(&p, map);
            if p.0.len() > 20000 {
                break;
            }
        }
        p
    }
    fn negative(b: &B, map: &BTreeMap<u32, Poly>, f: &Frac, strict: bool) -> bool {
        let mut num = deep(b, map, &f.num);
        let mut dens = vec![];
        for (p, e) in &f.den {
            let mut d = deep(b, map, p);
            let mut e = *e;
            let mc = d.mono_content();
            if !mc.0.is_empty() {
                d = d.div_exact(&Poly::term(mc.clone(), Rat::one())).unwrap();
                // cancel the monomial with the numerator
                for &(a, k) in &mc.0 {
                    let mut left = k * e;
                    while left > 0 {
                        match num.div_exact(&Poly::atom(a)) {
                            Some(q) => {
                                num = q;
                                left -= 1;
                            }
                            None => break,
                        }
                    }
                    if left > 0 {
                        dens.push((Poly::atom(a), left));
                    }
                }
            }
            while e > 0 {
                match num.div_exact(&d) {
                    Some(q) if !d.is_const() => {
                        num = q;
                        e -= 1;
                    }
                    _ => break,
                }
            }
            if e > 0 {
                dens.push((d, e));
            }
        }
        let mut sign = 1;
        for (d, e) in &dens {
            if e % 2 == 0 {
                continue;
            }
            let iv = b.poly(d);
            if iv.lo.as_ref().map(|x| x.sign() >= 0).unwrap_or(false) {
            } else if iv.hi.as_ref().map(|x| x.sign() <= 0).unwrap_or(false) {
                sign = -sign;
            } else {
                return false;
            }
        }
        let mut iv = b.poly(&num);
        if sign < 0 {
            iv = iv.neg();
        }
        if std::env::var("SYM_BOUND_DEBUG").is_ok() {
            eprintln!("bound: {} terms, hi {:?}", num.0.len(), iv.hi.as_ref().map(|x| x.to_f64()));
        }
        match iv.hi {
            Some(h) => h.sign() < 0 || (!strict && h.sign() == 0),
            None => false,
        }
    }
    go(&b, &map, goal)
}
