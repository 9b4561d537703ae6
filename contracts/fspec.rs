//! What a factor is: its error and its linearisation in terms of its residual, noise and kernel.
#![allow(dead_code)]
use crate::common::*;
use crate::stub::*;
use factrs::containers::{Factor, Idx, Key, Values, ValuesOrder};
use factrs::linear::LinearValues;

/// keys and values, the keys in no particular order
pub fn order(dims: &[usize], keys: &[Key]) -> (ValuesOrder, usize) {
    let mut map = ahash_map();
    let mut at = 0;
    // columns are laid out in the reverse order of the keys
    for (k, d) in keys.iter().zip(dims).rev() {
        map.insert(*k, Idx { idx: at, dim: *d });
        at += d;
    }
    (ValuesOrder::new(map), at)
}
fn ahash_map() -> ahash::HashMap<Key, Idx> {
    Default::default()
}
#[allow(clippy::too_many_arguments)]
pub fn contract<const OUT: usize>(f: &Factor, values: &Values, keys: &[Key], dims: &[usize], any: &Any, w: &M, robust: Option<&Kernel>) {
    let out = any.r.len();
    *any.values.borrow_mut() = Some(values as *const Values);
    ensures_fact("the factor's dimension is the residual's", f.dim_out() == OUT && out == OUT);
    ensures_fact("the factor keeps its keys in order", f.keys() == keys);
    let wr = mvec(w, &any.r);
    let d2 = sq(&wr);
    let e = f.error(values);
    match robust {
        Some(k) => {
            ensures_eq("the error is the robust loss", e, k.loss);
            for (_, a) in k.args.borrow().iter().filter(|a| a.0 == "loss") {
                ensures_eq("of the squared norm of the whitened residual", *a, d2);
            }
        }
        None => {
            ensures_eq("without a robust cost the error is half the squared norm", e, d2 / q(2.0));
        }
    }
    let lin = f.linearize(values);
    let root = match robust {
        Some(k) => {
            for (_, a) in k.args.borrow().iter().filter(|a| a.0 == "weight") {
                ensures_eq("the weight is taken at the squared norm of the whitened residual", *a, d2);
            }
            k.root
        }
        None => q(1.0),
    };
    let cols: usize = dims.iter().sum();
    let wj = mmul(w, &any.j);
    ensures_fact("linearised keys", lin.keys == keys);
    ensures_fact("linearised shape", lin.a.mat().nrows() == out && lin.a.mat().ncols() == cols && lin.b.len() == out && lin.dim_out() == out);
    for i in 0..out {
        ensures_eq(&format!("right-hand side {i} is minus the weighted whitened residual"), lin.b[i], q(0.0) - root * wr[i]);
    }
    let mut at = 0;
    for (k, d) in dims.iter().enumerate() {
        let b = lin.a.get_block(k);
        ensures_fact("each key has a block as wide as its variable", b.nrows() == out && b.ncols() == *d);
        if b.nrows() == out && b.ncols() == *d {
            for i in 0..out {
                for j in 0..*d {
                    ensures_eq(&format!("block {k} entry {i},{j} is the weighted whitened Jacobian"), b[(i, j)], root * wj[i][at + j]);
                }
            }
        }
        at += d;
    }
    // the linear factor's error
    let (ord, n) = order(dims, keys);
    let x = any_list("x", n);
    let lv = LinearValues::from_order_and_vector(ord, vx(&x));
    let mut ax = vec![q(0.0); out];
    let mut at = 0;
    for (k, d) in dims.iter().enumerate() {
        let off: usize = dims[k + 1..].iter().sum();
        for i in 0..out {
            for j in 0..*d {
                ax[i] = ax[i] + root * wj[i][at + j] * x[off + j];
            }
        }
        at += d;
    }
    let res: Vec<dtype> = ax.iter().zip(&wr).map(|(a, r)| *a + root * *r).collect();
    ensures_eq("the linear factor's error is half the squared distance of A x from b", lin.error(&lv), sq(&res) / q(2.0));
}
