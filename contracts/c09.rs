//! C09: a factor's error is the robust loss of its whitened residual, and its linearisation is the weighted, whitened one.
mod common;
mod fspec;
mod obs;
mod stub;
use common::*;
use fspec::*;
use factrs::containers::{FactorBuilder, Key, Values};
use factrs::linear::{LinearFactor, LinearValues};
use factrs::residuals::*;
use obs::*;
use stub::*;

macro_rules! factor {
    ($name:ident, $Any:ident, $out:literal, $new:ident, $unchecked:ident, $($k:literal: $V:ty),*) => {
        fn $name() {
            let how = choose("checked or unchecked keys", 2);
            let parts = choose("no noise nor robust, noise, robust, noise then robust, robust then noise, set twice", 6);
            let mut values = Values::new();
            values.insert_unchecked(Sy(99), VectorVar5::any("other"));
            $(values.insert_unchecked(Sy($k), <$V as El>::any(concat!("k", $k)));)*
            let keys: Vec<Key> = vec![$(Key($k)),*];
            let dims: Vec<usize> = vec![$(<$V as Variable>::DIM),*];
            let any = Any::new("", $out, dims.iter().sum(), keys.clone());
            let w = Whiten::<$out>::any("w");
            let k = Kernel::any("k");
            let b = if how == 0 { FactorBuilder::<$out>::$new($Any(any.clone()), $(Sy($k)),*) } else { FactorBuilder::<$out>::$unchecked($Any(any.clone()), $(Sy($k)),*) };
            let b = match parts {
                0 => b,
                1 => b.noise(w.clone()),
                2 => b.robust(k.clone()),
                3 => b.noise(w.clone()).robust(k.clone()),
                4 => b.robust(k.clone()).noise(w.clone()),
                _ => b.robust(Kernel::any("old")).noise(Whiten::<$out>(ident($out))).noise(w.clone()).robust(k.clone()),
            };
            let f = b.build();
            let wm = if matches!(parts, 0 | 2) { ident($out) } else { w.0.clone() };
            contract::<$out>(&f, &values, &keys, &dims, &any, &wm, if parts >= 2 { Some(&k) } else { None });
        }
    };
}
factor!(factor1, Any1, 2, new1, new1_unchecked, 4: VectorVar3);
factor!(factor2, Any2, 3, new2, new2_unchecked, 9: VectorVar2, 3: SE2);
factor!(factor3, Any3, 2, new3, new3_unchecked, 7: SO3, 8: VectorVar1, 1: VectorVar2);
factor!(factor4, Any4, 1, new4, new4_unchecked, 7: VectorVar2, 2: SO2, 5: VectorVar3, 4: SE2);
factor!(factor5, Any5, 2, new5, new5_unchecked, 1: VectorVar1, 3: VectorVar3, 2: SO2, 5: VectorVar1, 4: VectorVar4);
factor!(factor6, Any6, 2, new6, new6_unchecked, 6: SO2, 5: VectorVar2, 4: SO3, 3: VectorVar4, 2: SE3, 1: VectorVar1);

/// every combination of block widths and rows
macro_rules! shapes {
    ($name:ident, $Free:ident, $new:ident, [$($d:literal),*], [$($o:literal),*], $($i:literal: $k:literal),*) => {
        fn $name() {
            let ds = [$($d),*];
            let dims: Vec<usize> = vec![$({
                let _ = $i;
                ds[choose(concat!("width of the block of key ", $k), ds.len())]
            }),*];
            let outs = [$($o),*];
            let out = choose("rows", outs.len());
            let keys: Vec<Key> = vec![$(Key($k)),*];
            let mut values = Values::new();
            $(put_dim(&mut values, $k, dims[$i]);)*
            let any = Any::new("", outs[out], dims.iter().sum(), keys.clone());
            let k = Kernel::any("k");
            fn build<const O: usize>(any: &Any) -> FactorBuilder<O> {
                FactorBuilder::<O>::$new($Free::<O>(any.clone()), $(Sy($k)),*)
            }
            $(if outs[out] == $o {
                let w = if $o > 6 {
                    Whiten::<$o>((0..$o).map(|i| (0..$o).map(|j| if i == j { var(&format!("w{i}")) } else { q(0.0) }).collect()).collect())
                } else {
                    Whiten::<$o>::any("w")
                };
                let f = build::<$o>(&any).noise(w.clone()).robust(k.clone()).build();
                contract::<$o>(&f, &values, &keys, &dims, &any, &w.0, Some(&k));
            })*
        }
    };
}
shapes!(shapes1, Free1, new1_unchecked, [1, 2, 3, 4, 5, 6], [1, 2, 3, 6], 0: 4);
shapes!(shapes2, Free2, new2_unchecked, [1, 2, 3, 4, 5, 6], [1, 2, 3], 0: 9, 1: 3);
shapes!(shapes3, Free3, new3_unchecked, [1, 2, 3, 6], [1, 2], 0: 5, 1: 9, 2: 3);
shapes!(shapes4, Free4, new4_unchecked, [1, 2, 3], [1], 0: 5, 1: 9, 2: 3, 3: 8);
shapes!(shapes5, Free5, new5_unchecked, [1, 3], [2], 0: 5, 1: 9, 2: 3, 3: 8, 4: 1);
shapes!(shapes6, Free6, new6_unchecked, [2, 3], [1], 0: 5, 1: 9, 2: 3, 3: 8, 4: 1, 5: 2);

shapes!(shapes_wide, Free2, new2_unchecked, [9, 15, 6], [9, 15], 0: 9, 1: 3);

/// one variable under two keys' roles: both blocks count
fn twice() {
    let mut values = Values::new();
    values.insert_unchecked(Sy(3), VectorVar2::any("v"));
    let a = MatrixX::from_fn(2, 4, |i, j| var(&format!("a{i}{j}")));
    let b = any_vec("b", 2);
    let lin = LinearFactor::new(vec![Key(3), Key(3)], MatrixBlock::new(a.clone(), vec![0, 2]), b.clone());
    let x = any_vec("x", 2);
    let lv = LinearValues::from_values_and_vector(&values, x.clone());
    let r: Vec<dtype> = (0..2).map(|i| (a[(i, 0)] + a[(i, 2)]) * x[0] + (a[(i, 1)] + a[(i, 3)]) * x[1] - b[i]).collect();
    ensures_eq("both blocks count", lin.error(&lv), sq(&r) / q(2.0));
}

// ------------------------------------------------------------------ user-defined residuals
macro_rules! user {
    ($name:ident, $Res:ident, $res:ident, $fun:ident, $values:ident, $jac:ident, $in:literal, $out:literal, $($k:literal, $a:ident: $A:ident = $V:ty),*) => {
        #[derive(Clone, Debug)]
        struct $Res;
        impl std::fmt::Display for $Res {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "user")
            }
        }
        #[factrs::mark]
        impl $res for $Res {
            type Differ = ForwardProp<Const<$in>>;
            $(type $A = $V;)*
            type DimIn = Const<$in>;
            type DimOut = Const<$out>;
            fn $fun<T: Numeric>(&self, $($a: <$V as Variable>::Alias<T>),*) -> VectorX<T> {
                let mut o: Vec<T> = vec![];
                $(o.extend(<$V as Obs>::dobs(&$a));)*
                VectorX::from_vec(o)
            }
        }
        fn $name() {
            let mut values = Values::new();
            $(let $a = <$V as El>::any(stringify!($a));
            values.insert_unchecked(Sy($k), $a.clone());)*
            let keys = vec![$(Key($k)),*];
            let mut want: Vec<dtype> = vec![];
            $(want.extend($a.obs());)*
            let rows = want.len();
            ensures_fact("dimensions", Residual::dim_in(&$Res) == $in && Residual::dim_out(&$Res) == $out && rows == $out);
            ensures_all_eq("the residual of the values under its keys", Residual::residual(&$Res, &values, &keys).as_slice(), &want);
            let DiffResult { value, diff } = Residual::residual_jacobian(&$Res, &values, &keys);
            ensures_all_eq("the residual that comes with the Jacobian", value.as_slice(), &want);
            ensures_fact("shape of the Jacobian", diff.nrows() == rows && diff.ncols() == $in);
            let (mut r, mut c) = (0, 0);
            let mut exp = vec![vec![q(0.0); $in]; rows];
            $({
                let m = $a.obs().len();
                for k in 0..<$V as Variable>::DIM {
                    for (i, s) in $a.slope(k).into_iter().enumerate() {
                        exp[r + i][c + k] = s;
                    }
                }
                r += m;
                c += <$V as Variable>::DIM;
            })*
            ensures_fact("dimensions add up", r == rows && c == $in);
            for i in 0..rows {
                for j in 0..$in {
                    ensures_eq(&format!("Jacobian {i},{j}"), diff[(i, j)], exp[i][j]);
                }
            }
            // through a factor: the same rows
            let f = FactorBuilder::<$out>::$values($Res, $(Sy($k)),*).build();
            let lin = f.linearize(&values);
            let mut c = 0;
            let mut b = 0;
            $({
                let blk = lin.a.get_block(b);
                let d = <$V as Variable>::DIM;
                ensures_fact("the block of each key is as wide as its variable", blk.ncols() == d && blk.nrows() == rows);
                if blk.ncols() == d && blk.nrows() == rows {
                    for i in 0..rows {
                        for j in 0..d {
                            ensures_eq(concat!("block of ", stringify!($a)), blk[(i, j)], exp[i][c + j]);
                        }
                    }
                }
                c += d;
                b += 1;
            })*
            ensures_fact("blocks", b == lin.keys.len() && c == $in);
            ensures_eq("error", f.error(&values), sq(&want) / q(2.0));
        }
    };
}
user!(user1, U1, Residual1, residual1, new1, residual1_jacobian, 3, 6, 4, a: V1 = SE2);
user!(user2, U2, Residual2, residual2, new2, residual2_jacobian, 5, 8, 9, a: V1 = VectorVar2, 3, b: V2 = SE2);
user!(user3, U3, Residual3, residual3, new3, residual3_jacobian, 6, 12, 7, a: V1 = SO3, 8, b: V2 = VectorVar1, 1, c: V3 = VectorVar2);
user!(user4, U4, Residual4, residual4, new4, residual4_jacobian, 9, 15, 7, a: V1 = VectorVar2, 2, b: V2 = SO2, 5, c: V3 = VectorVar3, 4, d: V4 = SE2);
user!(user5, U5, Residual5, residual5, new5, residual5_jacobian, 10, 13, 1, a: V1 = VectorVar1, 3, b: V2 = VectorVar3, 2, c: V3 = SO2, 5, d: V4 = VectorVar1, 4, e: V5 = VectorVar4);
user!(user6, U6, Residual6, residual6, new6, residual6_jacobian, 17, 32, 6, a: V1 = SO2, 5, b: V2 = VectorVar2, 4, c: V3 = SO3, 3, d: V4 = VectorVar4, 2, e: V5 = SE3, 1, f: V6 = VectorVar1);

macro_rules! fun {
    ($n:literal) => {
        concat!("Factor::{error, linearize, keys, dim_out}, FactorBuilder::{new", $n, ", new", $n, "_unchecked, noise, robust, build}, LinearFactor::{new, error, dim_out}, MatrixBlock::{new, get_block, mul}, L2::{loss, weight}, UnitNoise::{whiten_vec, whiten_mat}")
    };
}
macro_rules! ufun {
    ($n:literal) => {
        concat!("Residual", $n, "::{residual", $n, "_values, residual", $n, "_jacobian}, factrs::mark on Residual", $n, "::{dim_in, dim_out, residual, residual_jacobian}, FactorBuilder::new", $n)
    };
}
const K: &[Contract] = &[
    Contract { name: "factor1", functions: fun!("1"), bounded: "", run: factor1 },
    Contract { name: "factor2", functions: fun!("2"), bounded: "", run: factor2 },
    Contract { name: "factor3", functions: fun!("3"), bounded: "", run: factor3 },
    Contract { name: "factor4", functions: fun!("4"), bounded: "", run: factor4 },
    Contract { name: "factor5", functions: fun!("5"), bounded: "", run: factor5 },
    Contract { name: "factor6", functions: fun!("6"), bounded: "", run: factor6 },
    Contract { name: "shapes1", functions: fun!("1"), bounded: "block widths one to six, one to six rows; every entry arbitrary", run: shapes1 },
    Contract { name: "shapes2", functions: fun!("2"), bounded: "every pair of block widths one to six, one to three rows; every entry arbitrary", run: shapes2 },
    Contract { name: "shapes_wide", functions: fun!("2"), bounded: "every pair of block widths 6, 9, 15, 9 or 15 rows, diagonal whitening; every entry arbitrary", run: shapes_wide },
    Contract { name: "shapes3", functions: fun!("3"), bounded: "every triple of block widths 1, 2, 3, 6, one or two rows; every entry arbitrary", run: shapes3 },
    Contract { name: "shapes4", functions: fun!("4"), bounded: "every combination of block widths one to three, one row; every entry arbitrary", run: shapes4 },
    Contract { name: "shapes5", functions: fun!("5"), bounded: "every combination of block widths 1 and 3, two rows; every entry arbitrary", run: shapes5 },
    Contract { name: "shapes6", functions: fun!("6"), bounded: "every combination of block widths 2 and 3, one row; every entry arbitrary", run: shapes6 },
    Contract { name: "twice", functions: "LinearFactor::error", bounded: "", run: twice },
    Contract { name: "user1", functions: ufun!("1"), bounded: "", run: user1 },
    Contract { name: "user2", functions: ufun!("2"), bounded: "", run: user2 },
    Contract { name: "user3", functions: ufun!("3"), bounded: "", run: user3 },
    Contract { name: "user4", functions: ufun!("4"), bounded: "", run: user4 },
    Contract { name: "user5", functions: ufun!("5"), bounded: "", run: user5 },
    Contract { name: "user6", functions: ufun!("6"), bounded: "", run: user6 },
];
fn main() {
    run_all(K)
}
