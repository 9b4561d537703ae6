//! C20: the factor macro builds what the builder builds from the same parts.
mod common;
mod fspec;
mod stub;
use common::*;
use factrs::containers::{Factor, Key, Values};
use factrs::fac;
use fspec::*;
use std::cell::Cell;
use stub::*;

macro_rules! forms {
    ($name:ident, $Any:ident, $out:literal, [$($k:literal: $V:ty),*], |$r:ident, $w:ident, $c:ident| $plain:expr, $noise:expr, $robust:expr) => {
        fn $name() {
            let parts = choose("no noise nor kernel, noise, noise and kernel", 3);
            let mut values = Values::new();
            values.insert_unchecked(Sy(99), VectorVar5::any("other"));
            $(values.insert_unchecked(Sy($k), <$V as El>::any(concat!("k", $k)));)*
            let keys: Vec<Key> = vec![$(Key($k)),*];
            let dims: Vec<usize> = vec![$(<$V as Variable>::DIM),*];
            let any = Any::new("", $out, dims.iter().sum(), keys.clone());
            let w = Whiten::<$out>::any("w");
            let k = Kernel::any("k");
            let ($r, $w, $c) = ($Any(any.clone()), w.clone(), k.clone());
            let f: Factor = match parts {
                0 => $plain,
                1 => $noise,
                _ => $robust,
            };
            let wm = if parts == 0 { ident($out) } else { w.0.clone() };
            contract::<$out>(&f, &values, &keys, &dims, &any, &wm, if parts == 2 { Some(&k) } else { None });
        }
    };
}
const A: Sy = Sy(9);
const B: Sy = Sy(3);
forms!(path, Any1, 2, [9: VectorVar3], |r, w, c| fac![r, A], fac![r, A, w], fac![r, A, w, c]);
forms!(call, Any1, 2, [4: VectorVar3], |r, w, c| fac![r, Sy(4)], fac![r, Sy(4), w], fac![r, Sy(4), w, c]);
forms!(list1, Any1, 2, [4: VectorVar3], |r, w, c| fac![r, [Sy(4)]], fac![r, [Sy(4)], w], fac![r, [Sy(4)], w, c]);
forms!(tuple1, Any1, 2, [4: VectorVar3], |r, w, c| fac![r, (Sy(4),)], fac![r, (Sy(4),), w], fac![r, (Sy(4),), w, c]);
forms!(tuple2, Any2, 3, [9: VectorVar2, 3: SE2], |r, w, c| fac![r, (A, B)], fac![r, (A, B), w], fac![r, (A, B), w, c]);
forms!(list2, Any2, 3, [9: VectorVar2, 3: SE2], |r, w, c| fac![r, [Sy(9), B]], fac![r, [Sy(9), B], w], fac![r, [A, Sy(3)], w, c]);
forms!(tuple3, Any3, 2, [7: SO3, 8: VectorVar1, 1: VectorVar2], |r, w, c| fac![r, (Sy(7), Sy(8), Sy(1))], fac![r, (Sy(7), Sy(8), Sy(1)), w], fac![r, (Sy(7), Sy(8), Sy(1)), w, c]);
forms!(tuple4, Any4, 1, [7: VectorVar2, 2: SO2, 5: VectorVar3, 4: SE2], |r, w, c| fac![r, (Sy(7), Sy(2), Sy(5), Sy(4))], fac![r, (Sy(7), Sy(2), Sy(5), Sy(4)), w], fac![r, (Sy(7), Sy(2), Sy(5), Sy(4)), w, c]);
forms!(tuple5, Any5, 2, [1: VectorVar1, 3: VectorVar3, 2: SO2, 5: VectorVar1, 4: VectorVar4], |r, w, c| fac![r, (Sy(1), Sy(3), Sy(2), Sy(5), Sy(4))], fac![r, (Sy(1), Sy(3), Sy(2), Sy(5), Sy(4)), w], fac![r, (Sy(1), Sy(3), Sy(2), Sy(5), Sy(4)), w, c]);
forms!(list6, Any6, 2, [6: SO2, 5: VectorVar2, 4: SO3, 3: VectorVar4, 2: SE3, 1: VectorVar1], |r, w, c| fac![r, [Sy(6), Sy(5), Sy(4), Sy(3), Sy(2), Sy(1)]], fac![r, [Sy(6), Sy(5), Sy(4), Sy(3), Sy(2), Sy(1)], w], fac![r, [Sy(6), Sy(5), Sy(4), Sy(3), Sy(2), Sy(1)], w, c]);

/// each argument is evaluated exactly once
fn once() {
    let n: Cell<usize> = Cell::new(0);
    let hit = |by: usize| n.set(n.get() + by);
    let any = Any::new("", 3, 5, vec![Key(9), Key(3)]);
    let (w, k) = (Whiten::<3>::any("w"), Kernel::any("k"));
    let f = fac![
        {
            hit(1);
            Any2(any.clone())
        },
        (
            {
                hit(10);
                A
            },
            {
                hit(100);
                B
            }
        ),
        {
            hit(1000);
            w
        },
        {
            hit(10000);
            k
        }
    ];
    ensures_fact("each argument is evaluated exactly once", n.get() == 11111);
    ensures_fact("the keys", f.keys() == [Key(9), Key(3)]);
}
macro_rules! k {
    ($($n:ident),*) => {
        &[$(Contract { name: stringify!($n), functions: "fac!, FactorBuilder", bounded: "", run: $n }),*]
    };
}
const K: &[Contract] = k![path, call, list1, tuple1, tuple2, list2, tuple3, tuple4, tuple5, list6, once];
fn main() {
    run_all(K)
}
