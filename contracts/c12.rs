//! C12: a set of values is a typed map, and adding a linear step moves exactly the variables the step names.
mod common;
mod stub;
use common::*;
use factrs::containers::{Idx, Key, Values, ValuesOrder};
use factrs::linear::LinearValues;
use std::collections::hash_map::Entry;
use stub::Sy;

const IDS: [u64; 3] = [5, 1 << 33, u64::MAX - 1];
/// what the map should hold: a rotation, a vector or an IMU bias
#[derive(Clone)]
enum It {
    R(SO2),
    V(VectorVar3),
    P(ImuBias),
}
impl It {
    fn any(ty: usize, p: &str) -> It {
        match ty {
            0 => It::R(SO2::any(p)),
            1 => It::V(VectorVar3::any(p)),
            _ => It::P(ImuBias::any(p)),
        }
    }
    fn ty(&self) -> usize {
        match self {
            It::R(_) => 0,
            It::V(_) => 1,
            It::P(_) => 2,
        }
    }
    fn obs(&self) -> Vec<dtype> {
        match self {
            It::R(x) => x.obs(),
            It::V(x) => x.obs(),
            It::P(x) => x.obs(),
        }
    }
    fn dim(&self) -> usize {
        [1, 3, 6][self.ty()]
    }
}
type Model = Vec<Option<It>>;
fn insert(v: &mut Values, k: usize, it: &It, checked: bool) -> Option<Box<dyn VariableSafe>> {
    let s = Sy(IDS[k]);
    match (it.clone(), checked) {
        (It::R(x), true) => v.insert(s, x),
        (It::V(x), true) => v.insert(s, x),
        (It::P(x), true) => v.insert(s, x),
        (It::R(x), false) => v.insert_unchecked(s, x),
        (It::V(x), false) => v.insert_unchecked(s, x),
        (It::P(x), false) => v.insert_unchecked(s, x),
    }
}
fn boxed(b: &dyn VariableSafe) -> Option<It> {
    if let Some(x) = b.downcast_ref::<SO2>() {
        return Some(It::R(x.clone()));
    }
    if let Some(x) = b.downcast_ref::<VectorVar3>() {
        return Some(It::V(x.clone()));
    }
    b.downcast_ref::<ImuBias>().map(|x| It::P(x.clone()))
}
fn same_it(label: &str, a: &Option<It>, b: &Option<It>) {
    match (a, b) {
        (None, None) => {}
        (Some(a), Some(b)) if a.ty() == b.ty() => {
            ensures_all_eq(label, &a.obs(), &b.obs());
        }
        _ => {
            ensures_fact(&format!("{label} (presence and type)"), false);
        }
    }
}
/// everything that can be read agrees with the model
fn agree(v: &Values, m: &Model) {
    let n = m.iter().flatten().count();
    ensures_fact("size", v.len() == n && v.is_empty() == (n == 0));
    for k in 0..IDS.len() {
        let s = Sy(IDS[k]);
        let r = v.get::<_, SO2>(s).map(|x| It::R(x.clone()));
        let p = v.get::<_, ImuBias>(s).map(|x| It::P(x.clone()));
        let x = v.get::<_, VectorVar3>(s).map(|x| It::V(x.clone()));
        let ru = v.get_unchecked::<_, SO2>(s).map(|x| It::R(x.clone()));
        let pu = v.get_unchecked::<_, ImuBias>(s).map(|x| It::P(x.clone()));
        let xu = v.get_unchecked::<_, VectorVar3>(s).map(|x| It::V(x.clone()));
        for (got, ty) in [(r, 0), (x, 1), (p, 2), (ru, 0), (xu, 1), (pu, 2)] {
            let want = m[k].clone().filter(|i| i.ty() == ty);
            same_it("reading with a type gives the value stored under it, and nothing for another type", &got, &want);
        }
    }
    ensures_fact("nothing is stored under other keys", v.get::<_, SO2>(Sy(77)).is_none() && v.get_unchecked::<_, ImuBias>(Sy(0)).is_none());
    let mut seen = [0usize; 3];
    for (k, b) in v.iter() {
        match IDS.iter().position(|i| *i == k.0) {
            None => {
                ensures_fact("iteration only visits stored keys", false);
            }
            Some(i) => {
                seen[i] += 1;
                same_it("iteration visits the stored value", &boxed(b.as_ref()), &m[i]);
            }
        }
    }
    ensures_fact("iteration visits every key once", (0..3).all(|i| seen[i] == m[i].is_some() as usize));
    let count = |ty| m.iter().flatten().filter(|i| i.ty() == ty).count();
    ensures_fact("filtering by type finds all of them", v.filter::<SO2>().count() == count(0) && v.filter::<VectorVar3>().count() == count(1) && v.filter::<ImuBias>().count() == count(2));
    ensures_fact("filtering by a type that is not there finds nothing", v.filter::<SE3>().count() == 0);
    let mut got: Vec<dtype> = v.filter::<VectorVar3>().fold(vec![q(0.0); 3], |s, x| (0..3).map(|i| s[i] + x.0[i]).collect());
    let want: Vec<dtype> = m.iter().flatten().filter(|i| i.ty() == 1).fold(vec![q(0.0); 3], |s, x| (0..3).map(|i| s[i] + x.obs()[i]).collect());
    got.truncate(3);
    ensures_all_eq("filtering by type finds the values", &got, &want);
}
fn op(v: &mut Values, m: &mut Model, at: usize, ops: usize) {
    let o = choose(&format!("operation {at}"), ops);
    let k = choose(&format!("key {at}"), 2);
    let s = Sy(IDS[k]);
    match o {
        0..=2 => {
            let it = It::any(o, &format!("new{at}"));
            let old = insert(v, k, &it, at % 2 == 0);
            same_it("inserting returns what was there", &old.as_ref().and_then(|b| boxed(b.as_ref())), &m[k]);
            ensures_fact("inserting returns nothing only if nothing was there", old.is_some() == m[k].is_some());
            m[k] = Some(it);
        }
        3 => match m[k].clone() {
            Some(It::R(_)) | None => {
                let got: Option<SO2> = v.remove(s);
                same_it("removing returns what was there", &got.map(It::R), &m[k]);
                m[k] = None;
            }
            Some(It::V(_)) => {
                let got: Option<VectorVar3> = v.remove(s);
                same_it("removing returns what was there", &got.map(It::V), &m[k]);
                m[k] = None;
            }
            Some(It::P(_)) => {
                let got: Option<ImuBias> = v.remove(s);
                same_it("removing returns what was there", &got.map(It::P), &m[k]);
                m[k] = None;
            }
        },
        4 => {
            // write through a mutable reference, checked or not
            let new = VectorVar3::any(&format!("w{at}"));
            let r = if at % 2 == 0 { v.get_mut::<_, VectorVar3>(s) } else { v.get_unchecked_mut::<_, VectorVar3>(s) };
            ensures_fact("a mutable reference is handed out for the stored type only", r.is_some() == matches!(m[k], Some(It::V(_))));
            if let Some(r) = r {
                *r = new.clone();
                m[k] = Some(It::V(new));
            }
        }
        5 => {
            let it = It::any(2, &format!("e{at}"));
            match v.entry(s) {
                Entry::Occupied(e) => {
                    ensures_fact("an entry is occupied when something is stored", m[k].is_some());
                    same_it("the entry holds the stored value", &boxed(e.get().as_ref()), &m[k]);
                }
                Entry::Vacant(e) => {
                    ensures_fact("an entry is vacant when nothing is stored", m[k].is_none());
                    if let It::P(x) = it.clone() {
                        e.insert(Box::new(x));
                    }
                    m[k] = Some(it);
                }
            }
        }
        _ => {
            // a copy is independent of the original
            let mut c = v.clone();
            let _ = c.insert(s, SO2::any(&format!("c{at}")));
            let _: Option<SO2> = c.remove(Sy(IDS[1 - k]));
            let mut cm = m.clone();
            cm[k] = c.get_unchecked::<_, SO2>(s).map(|x| It::R(x.clone()));
            cm[1 - k] = None;
            agree(&c, &cm);
        }
    }
}
/// every history of three operations on two keys
fn history() {
    let mut v = Values::new();
    let mut m: Model = vec![None, None, None];
    for at in 0..3 {
        op(&mut v, &mut m, at, 7);
        agree(&v, &m);
    }
    let mut seen = 0;
    for (k, b) in v {
        seen += 1;
        let i = IDS.iter().position(|i| *i == k.0).unwrap();
        same_it("consuming the values hands out every value", &boxed(b.as_ref()), &m[i]);
    }
    ensures_fact("consuming the values hands out every value once", seen == m.iter().flatten().count());
}
/// the step: which keys it names, in which columns
fn oplus() {
    let mut v = Values::new();
    let mut m: Model = vec![None, None, None];
    for k in 0..3 {
        let t = choose(&format!("type of variable {k}, or absent"), 4);
        if t < 3 {
            let it = It::any(t, &format!("v{k}"));
            let _ = insert(&mut v, k, &it, true);
            m[k] = Some(it);
        }
    }
    let mut map: ahash::HashMap<Key, Idx> = Default::default();
    let mut at = 0;
    let mut lay = vec![None; 3];
    let rev = choose("columns in key order or reversed", 2) == 1;
    let named: Vec<bool> = (0..3).map(|k| choose(&format!("step names variable {k}"), 2) == 0).collect();
    for j in 0..3 {
        let k = if rev { 2 - j } else { j };
        if named[k] {
            let d = m[k].as_ref().map(|i| i.dim()).unwrap_or(2);
            map.insert(Key(IDS[k]), Idx { idx: at, dim: d });
            lay[k] = Some((at, d));
            at += d;
        }
    }
    let x: Vec<dtype> = (0..at).map(|i| var(&format!("x{i}"))).collect();
    let lv = LinearValues::from_order_and_vector(ValuesOrder::new(map), vx(&x));
    v.oplus_mut(&lv);
    let moved: Model = m
        .iter()
        .enumerate()
        .map(|(k, it)| match (it, lay[k]) {
            (Some(it), Some((i, d))) => {
                let dx = vx(&x[i..i + d]);
                Some(match it {
                    It::R(a) => It::R(a.oplus(dx.as_view())),
                    It::V(a) => It::V(a.oplus(dx.as_view())),
                    It::P(a) => It::P(a.oplus(dx.as_view())),
                })
            }
            (it, _) => it.clone(),
        })
        .collect();
    for k in 0..3 {
        let got = v.iter().find(|e| e.0 .0 == IDS[k]).and_then(|e| boxed(e.1.as_ref()));
        same_it(&format!("variable {k} moves by its own part of the step, or stays"), &got, &moved[k]);
    }
    ensures_fact("a step adds and removes no variable", v.len() == m.iter().flatten().count());
}
/// many variables: nothing depends on how many there are
fn many() {
    let n = [20usize, 150][choose("number of variables", 2)];
    let id = |i: usize| (i as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 9;
    let mut v = Values::new();
    let mut m: Vec<Option<It>> = vec![];
    let put = |v: &mut Values, i: usize, it: &It| match it {
        It::R(x) => v.insert_unchecked(Sy(id(i)), x.clone()),
        It::V(x) => v.insert_unchecked(Sy(id(i)), x.clone()),
        It::P(x) => v.insert_unchecked(Sy(id(i)), x.clone()),
    };
    for i in 0..n {
        let it = It::any(i % 3, &format!("a{i}"));
        ensures_fact("inserting under a new key replaces nothing", put(&mut v, i, &it).is_none());
        m.push(Some(it));
    }
    // replace every fourth, remove every seventh
    for i in (0..n).step_by(4) {
        let it = It::any((i + 1) % 3, &format!("b{i}"));
        let old = put(&mut v, i, &it);
        same_it("inserting returns what was there", &old.as_ref().and_then(|b| boxed(b.as_ref())), &m[i]);
        m[i] = Some(it);
    }
    for i in (0..n).step_by(7) {
        let got = match m[i].as_ref().unwrap() {
            It::R(_) => v.remove::<_, SO2>(Sy(id(i))).map(It::R),
            It::V(_) => v.remove::<_, VectorVar3>(Sy(id(i))).map(It::V),
            It::P(_) => v.remove::<_, ImuBias>(Sy(id(i))).map(It::P),
        };
        same_it("removing returns what was there", &got, &m[i]);
        m[i] = None;
    }
    let check = |label: &str, v: &Values, m: &[Option<It>]| {
        let count = |ty: usize| m.iter().flatten().filter(|i| i.ty() == ty).count();
        ensures_fact(&format!("{label}: size"), v.len() == m.iter().flatten().count());
        ensures_fact(&format!("{label}: filtering by type finds all of them"), v.filter::<SO2>().count() == count(0) && v.filter::<VectorVar3>().count() == count(1) && v.filter::<ImuBias>().count() == count(2));
        for i in 0..n {
            let got = v
                .get_unchecked::<_, SO2>(Sy(id(i)))
                .map(|x| It::R(x.clone()))
                .or(v.get_unchecked::<_, VectorVar3>(Sy(id(i))).map(|x| It::V(x.clone())))
                .or(v.get_unchecked::<_, ImuBias>(Sy(id(i))).map(|x| It::P(x.clone())));
            same_it(&format!("{label}: what was last stored"), &got, &m[i]);
        }
        let mut seen = vec![0; n];
        for (k, b) in v.iter() {
            match (0..n).find(|i| id(*i) == k.0) {
                Some(i) => {
                    seen[i] += 1;
                    same_it(&format!("{label}: iteration visits the stored value"), &boxed(b.as_ref()), &m[i]);
                }
                None => {
                    ensures_fact(&format!("{label}: iteration only visits stored keys"), false);
                }
            }
        }
        ensures_fact(&format!("{label}: iteration visits every key once"), (0..n).all(|i| seen[i] == m[i].is_some() as usize));
    };
    check("after insertions and removals", &v, &m);
    check("a copy", &v.clone(), &m);
    // a step that names two thirds of them, and keys that are not there
    let mut map: ahash::HashMap<Key, Idx> = Default::default();
    let mut lay = vec![None; n];
    let mut at = 0;
    for i in (0..n).rev() {
        if i % 3 != 1 || m[i].is_none() {
            let d = m[i].as_ref().map(|i| i.dim()).unwrap_or(2);
            map.insert(Key(id(i)), Idx { idx: at, dim: d });
            lay[i] = Some((at, d));
            at += d;
        }
    }
    let x: Vec<dtype> = (0..at).map(|i| var(&format!("x{i}"))).collect();
    v.oplus_mut(&LinearValues::from_order_and_vector(ValuesOrder::new(map), vx(&x)));
    let moved: Vec<Option<It>> = m
        .iter()
        .enumerate()
        .map(|(k, it)| match (it, lay[k]) {
            (Some(it), Some((i, d))) => {
                let dx = vx(&x[i..i + d]);
                Some(match it {
                    It::R(a) => It::R(a.oplus(dx.as_view())),
                    It::V(a) => It::V(a.oplus(dx.as_view())),
                    It::P(a) => It::P(a.oplus(dx.as_view())),
                })
            }
            (it, _) => it.clone(),
        })
        .collect();
    check("after a step", &v, &moved);
}
fn mismatch() {
    let mut v = Values::new();
    let _ = v.insert(Sy(5), SE2::any("p"));
    let d = [1usize, 2, 4][choose("wrong dimension", 3)];
    let mut map: ahash::HashMap<Key, Idx> = Default::default();
    map.insert(Key(5), Idx { idx: 0, dim: d });
    let lv = LinearValues::from_order_and_vector(ValuesOrder::new(map), any_vec("x", d));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.oplus_mut(&lv)));
    ensures_fact("a step of the wrong dimension is refused", r.is_err());
}
/// all built-in types move through the erased interface as through their own
fn types() {
    fn one<V: El>() {
        let x = V::any("x");
        let mut v = Values::new();
        let _ = v.insert(Sy(3), x.clone());
        let d: Vec<dtype> = (0..V::DIM).map(|i| var(&format!("d{i}"))).collect();
        // steps of poses and rotations are taken as composed elements, so no exponential is unfolded here
        let zero = choose("zero step", 2) == 0;
        let d = if zero { vec![q(0.0); V::DIM] } else { d };
        let lv = LinearValues::from_values_and_vector(&v, vx(&d));
        v.oplus_mut(&lv);
        let want = x.oplus(vx(&d).as_view());
        match v.get::<_, V>(Sy(3)) {
            None => {
                ensures_fact("the variable keeps its type", false);
            }
            Some(g) => {
                ensures_all_eq("the step is the variable's own plus", &g.obs(), &want.obs());
            }
        }
    }
    match choose("type", 8) {
        0 => one::<SO2>(),
        1 => one::<SE2>(),
        2 => one::<SO3>(),
        3 => one::<SE3>(),
        4 => one::<VectorVar1>(),
        5 => one::<VectorVar3>(),
        6 => one::<VectorVar6>(),
        _ => one::<ImuBias>(),
    }
}
const K: &[Contract] = &[
    Contract { name: "history", functions: "Values::{new, default, insert, insert_unchecked, get, get_unchecked, get_mut, get_unchecked_mut, remove, entry, iter, filter, len, is_empty, clone, into_iter}", bounded: "every history of three operations on two of three keys and three variable types", run: history },
    Contract { name: "oplus", functions: "Values::oplus_mut, VariableSafe::oplus_mut", bounded: "three variables of three types, every combination of variables present, named by the step, and column order", run: oplus },
    Contract { name: "many", functions: "Values::{insert_unchecked, remove, get_unchecked, filter, iter, len, clone, oplus_mut}", bounded: "20 and 150 variables of three types, one history of insertions, replacements and removals, one step", run: many },
    Contract { name: "mismatch", functions: "Values::oplus_mut", bounded: "", run: mismatch },
    Contract { name: "types", functions: "Values::{oplus_mut, insert, get}, VariableSafe::oplus_mut for every built-in type", bounded: "", run: types },
];
fn main() {
    run_all(K)
}
