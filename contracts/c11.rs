//! C11: a variable order partitions the columns, and linear values hand every variable exactly its own slice.
mod common;
mod stub;
use common::*;
use factrs::containers::{Idx, Key, Values, ValuesOrder};
use factrs::linear::LinearValues;
use stub::Sy;

const IDS: [u64; 8] = [0, 3, u64::MAX, 1 << 32, 77, (1 << 63) + 5, 0x6100000001, 12];
fn insert(v: &mut Values, i: usize) -> usize {
    let k = Sy(IDS[i]);
    let p = format!("v{i}");
    macro_rules! put {
        ($($V:ty),*) => {{
            let mut n = 0;
            $(if n == i {
                v.insert_unchecked(k, <$V as El>::any(&p));
                return <$V as Variable>::DIM;
            }
            n += 1;)*
            panic!("no type {n}")
        }};
    }
    put!(VectorVar1, SE3, SO2, VectorVar4, SE2, SO3, ImuBias, VectorVar2)
}
/// any subset of eight variables of different types and dimensions
fn subset() -> (Values, Vec<(Key, usize)>) {
    let mut v = Values::new();
    let mut have = vec![];
    for i in 0..8 {
        if choose(&format!("variable {i} present"), 2) == 0 {
            have.push((Key(IDS[i]), insert(&mut v, i)));
        }
    }
    (v, have)
}
fn partition(label: &str, order: &ValuesOrder, have: &[(Key, usize)]) -> Vec<(Key, usize, usize)> {
    let total: usize = have.iter().map(|h| h.1).sum();
    ensures_fact(&format!("{label}: the dimension is the sum of the variables' dimensions"), order.dim() == total);
    ensures_fact(&format!("{label}: one entry per variable"), order.len() == have.len() && order.is_empty() == have.is_empty());
    let mut hit = vec![0usize; total];
    let mut out = vec![];
    for (k, d) in have {
        match order.get(*k) {
            None => {
                ensures_fact(&format!("{label}: every variable has a place"), false);
            }
            Some(i) => {
                ensures_fact(&format!("{label}: as wide as the variable"), i.dim == *d);
                ensures_fact(&format!("{label}: inside the system"), i.idx + i.dim <= total);
                for c in i.idx..(i.idx + i.dim).min(total) {
                    hit[c] += 1;
                }
                out.push((*k, i.idx, i.dim));
            }
        }
    }
    ensures_fact(&format!("{label}: every column belongs to exactly one variable"), hit.iter().all(|h| *h == 1));
    ensures_fact(&format!("{label}: no other key has a place"), order.get(Key(424242)).is_none());
    let mut seen: Vec<(u64, usize, usize)> = order.iter().map(|(k, i)| (k.0, i.idx, i.dim)).collect();
    let mut want: Vec<(u64, usize, usize)> = out.iter().map(|(k, i, d)| (k.0, *i, *d)).collect();
    seen.sort();
    want.sort();
    ensures_fact(&format!("{label}: iteration visits every entry once"), seen == want);
    out
}
fn from_values() {
    let (v, have) = subset();
    let o = ValuesOrder::from_values(&v);
    partition("from values", &o, &have);
    partition("a copy", &o.clone(), &have);
}
fn slices(label: &str, lv: &LinearValues, lay: &[(Key, usize, usize)], x: &[dtype]) {
    ensures_fact(&format!("{label}: sizes"), lv.len() == lay.len() && lv.is_empty() == lay.is_empty() && lv.dim() == x.len());
    ensures_fact(&format!("{label}: unknown keys have no slice"), lv.get(Key(424242)).is_none());
    for (k, i, d) in lay {
        match lv.get(*k) {
            None => {
                ensures_fact(&format!("{label}: every variable has a slice"), false);
            }
            Some(s) => {
                let s: Vec<dtype> = s.iter().cloned().collect();
                ensures_all_eq(&format!("{label}: the variable's own entries"), &s, &x[*i..*i + *d]);
            }
        }
    }
    let mut seen = vec![];
    for (k, s) in lv.iter() {
        seen.push(k.0);
        let s: Vec<dtype> = s.iter().cloned().collect();
        match lay.iter().find(|l| l.0 == *k) {
            None => {
                ensures_fact(&format!("{label}: iteration only visits variables"), false);
            }
            Some((_, i, d)) => {
                ensures_all_eq(&format!("{label}: iteration hands out the variable's own entries"), &s, &x[*i..*i + *d]);
            }
        }
    }
    seen.sort();
    let mut want: Vec<u64> = lay.iter().map(|l| l.0 .0).collect();
    want.sort();
    ensures_fact(&format!("{label}: iteration visits every variable once"), seen == want);
}
fn linear_values() {
    let (v, have) = subset();
    let o = ValuesOrder::from_values(&v);
    let lay: Vec<(Key, usize, usize)> = have.iter().filter_map(|h| o.get(h.0).map(|i| (h.0, i.idx, i.dim))).collect();
    let n: usize = have.iter().map(|h| h.1).sum();
    let x: Vec<dtype> = (0..n).map(|i| var(&format!("x{i}"))).collect();
    let z = vec![q(0.0); n];
    slices("from order and vector", &LinearValues::from_order_and_vector(o.clone(), vx(&x)), &lay, &x);
    slices("zero from order", &LinearValues::zero_from_order(o.clone()), &lay, &z);
    slices("zero from values", &LinearValues::zero_from_values(&v), &lay, &z);
    slices("from values and vector", &LinearValues::from_values_and_vector(&v, vx(&x)), &lay, &x);
}
/// the same values induce the same order every time, so vectors and values can be paired up later
fn stable() {
    let (v, have) = subset();
    let a = ValuesOrder::from_values(&v);
    let b = ValuesOrder::from_values(&v);
    for (k, _) in &have {
        let (x, y) = (a.get(*k), b.get(*k));
        ensures_fact("the same values induce the same order", x.map(|i| (i.idx, i.dim)) == y.map(|i| (i.idx, i.dim)));
    }
}
fn explicit() {
    let dims = [[2usize, 1, 3], [1, 1, 1], [6, 2, 4]][choose("dimensions", 3)];
    let perm = [[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][choose("order", 6)];
    let mut map: ahash::HashMap<Key, Idx> = Default::default();
    let mut lay = vec![];
    let mut at = 0;
    for p in perm {
        map.insert(Key(IDS[p]), Idx { idx: at, dim: dims[p] });
        lay.push((Key(IDS[p]), at, dims[p]));
        at += dims[p];
    }
    let have: Vec<(Key, usize)> = lay.iter().map(|l| (l.0, l.2)).collect();
    let o = ValuesOrder::new(map);
    let got = partition("explicit order", &o, &have);
    ensures_fact("the given places are kept", got == lay);
    let x: Vec<dtype> = (0..at).map(|i| var(&format!("x{i}"))).collect();
    slices("explicit order", &LinearValues::from_order_and_vector(o, vx(&x)), &lay, &x);
}
fn mismatch() {
    let mut v = Values::new();
    insert(&mut v, 4);
    insert(&mut v, 2);
    let n = choose("wrong length", 4) + 3;
    let wrong = if n >= 4 { n + 1 } else { n };
    let o = ValuesOrder::from_values(&v);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| LinearValues::from_order_and_vector(o, zeros(wrong)).dim()));
    ensures_fact("a vector of the wrong length is refused", r.is_err());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| LinearValues::from_values_and_vector(&v, zeros(wrong)).dim()));
    ensures_fact("a vector of the wrong length is refused for values", r.is_err());
}
/// long orders and wide variables: nothing depends on how many or how wide
fn many() {
    let n = [17usize, 40, 130][choose("number of variables", 3)];
    let off = choose("first type", 5);
    let mut v = Values::new();
    let mut have = vec![];
    for i in 0..n {
        let k = (i as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 0x33;
        let p = format!("v{i}");
        macro_rules! put {
            ($($V:ty),*) => {{
                let mut at = 0;
                $(if at == (i + off) % 5 {
                    v.insert_unchecked(Sy(k), <$V as El>::any(&p));
                    have.push((Key(k), <$V as Variable>::DIM));
                }
                at += 1;)*
                let _ = at;
            }};
        }
        put!(VectorVar<15>, SO2, VectorVar<9>, SE3, VectorVar<33>)
    }
    let o = ValuesOrder::from_values(&v);
    let lay = partition("many variables", &o, &have);
    if lay.len() != have.len() {
        return;
    }
    let d: usize = have.iter().map(|h| h.1).sum();
    let x: Vec<dtype> = (0..d).map(|i| var(&format!("x{i}"))).collect();
    slices("many variables, from order and vector", &LinearValues::from_order_and_vector(o, vx(&x)), &lay, &x);
    slices("many variables, from values and vector", &LinearValues::from_values_and_vector(&v, vx(&x)), &lay, &x);
    slices("many variables, zero", &LinearValues::zero_from_values(&v), &lay, &vec![q(0.0); d]);
}
const B: &str = "up to eight variables (every subset of eight types); entries symbolic";
const K: &[Contract] = &[
    Contract { name: "from_values", functions: "ValuesOrder::{from_values, get, dim, len, is_empty, iter}", bounded: B, run: from_values },
    Contract { name: "linear_values", functions: "LinearValues::{zero_from_order, zero_from_values, from_order_and_vector, from_values_and_vector, get, iter, len, is_empty, dim}", bounded: B, run: linear_values },
    Contract { name: "stable", functions: "ValuesOrder::from_values", bounded: B, run: stable },
    Contract { name: "explicit", functions: "ValuesOrder::{new, get, dim, len, iter}, LinearValues::{from_order_and_vector, get, iter}", bounded: "three variables, every order, three dimension patterns", run: explicit },
    Contract { name: "many", functions: "ValuesOrder::{from_values, get, dim, len, is_empty, iter}, LinearValues::{from_order_and_vector, from_values_and_vector, zero_from_values, get, iter, len, dim}", bounded: "17, 40 and 130 variables of one to 33 dimensions; entries symbolic", run: many },
    Contract { name: "mismatch", functions: "LinearValues::{from_order_and_vector, from_values_and_vector}", bounded: "", run: mismatch },
];
fn main() {
    run_all(K)
}
