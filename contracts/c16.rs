//! C16: a linear solver returns the solution of the system it is given, whatever it solved before.
mod common;
mod stub;
use common::*;
use factrs::linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver};
use faer::sparse::SparseColMat;
use faer::Mat;
use stub::*;

fn sparse(m: usize, n: usize, a: &[(usize, usize, dtype)]) -> SparseColMat<usize, dtype> {
    SparseColMat::try_new_from_triplets(m, n, a).unwrap()
}
fn dense(m: usize, n: usize, a: &[(usize, usize, dtype)]) -> M {
    let mut d = vec![vec![q(0.0); n]; m];
    for (i, j, v) in a {
        d[*i][*j] = d[*i][*j] + *v;
    }
    d
}
fn rhs(p: &str, n: usize, k: usize) -> M {
    any_mat(p, n, k)
}
fn faer(b: &M) -> Mat<dtype> {
    Mat::from_fn(b.len(), b[0].len(), |i, j| b[i][j])
}
fn tr(a: &M) -> M {
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect()
}
/// solves a x = b
fn solves(label: &str, x: &Mat<dtype>, a: &M, b: &M) {
    let (n, k) = (a[0].len(), b[0].len());
    ensures_fact(&format!("{label}: one row per unknown, one column per right-hand side"), x.nrows() == n && x.ncols() == k);
    if x.nrows() != n || x.ncols() != k {
        return;
    }
    for c in 0..k {
        let xc: Vec<dtype> = (0..n).map(|i| x[(i, c)]).collect();
        let bc: Vec<dtype> = b.iter().map(|r| r[c]).collect();
        ensures_all_eq(&format!("{label}: the solution satisfies the system"), &mvec(a, &xc), &bc);
    }
}
/// solves the normal equations
fn least_squares(label: &str, x: &Mat<dtype>, a: &M, b: &M) {
    solves(label, x, &mmul(&tr(a), a), &mmul(&tr(a), b));
}
type T = Vec<(usize, usize, dtype)>;
/// entries within the range where faer's norm does not rescale to avoid overflow (its scaling factors are powers of two
/// in f64; the reals have no such thresholds)
fn moderate(x: dtype) -> dtype {
    requires(and(vec![le(x, q(1e6)), ge(x, q(-1e6)), or(vec![ge(x, q(1e-6)), le(x, q(-1e-6))])]));
    x
}
/// any positive definite matrix with the given pattern of its lower factor
fn spd(p: &str, n: usize, pattern: &[(usize, usize)]) -> T {
    let mut l = vec![vec![q(0.0); n]; n];
    for i in 0..n {
        l[i][i] = moderate(pos_tame(&format!("{p}l{i}{i}"), 0.5, 2.0));
    }
    for (i, j) in pattern {
        l[*i][*j] = moderate(var_tame(&format!("{p}l{i}{j}"), -2.0, 2.0));
    }
    let a = mmul(&l, &tr(&l));
    let mut t = vec![];
    for i in 0..n {
        for j in 0..n {
            if i == j || (0..n).any(|k| has(pattern, i, k) && has(pattern, j, k)) {
                t.push((i, j, a[i][j]));
            }
        }
    }
    t
}
fn has(p: &[(usize, usize)], i: usize, j: usize) -> bool {
    i == j || p.contains(&(i, j))
}
fn sym<S: LinearSolver>(n: usize, pattern: &[(usize, usize)], k: usize) {
    let a = spd("", n, pattern);
    let b = rhs("b", n, k);
    let x = S::default().solve_symmetric(sparse(n, n, &a).as_ref(), faer(&b).as_ref());
    solves("symmetric", &x, &dense(n, n, &a), &b);
}
fn lsq<S: LinearSolver>(m: usize, n: usize, at: &[(usize, usize)], k: usize) {
    let a: T = at.iter().map(|(i, j)| (*i, *j, moderate(var_tame(&format!("a{i}{j}"), -2.0, 2.0)))).collect();
    let d = dense(m, n, &a);
    // full column rank
    let g = mmul(&tr(&d), &d);
    match n {
        1 => requires(gt(g[0][0], q(0.01))),
        2 => requires(gt(g[0][0] * g[1][1] - g[0][1] * g[1][0], q(0.01))),
        _ => panic!(),
    }
    let b = rhs("b", m, k);
    let x = S::default().solve_lst_sq(sparse(m, n, &a).as_ref(), faer(&b).as_ref());
    least_squares("least squares", &x, &d, &b);
}
const PATTERNS: [(usize, &[(usize, usize)]); 5] = [(2, &[(1, 0)]), (3, &[(2, 0)]), (3, &[(1, 0), (2, 0)]), (3, &[(1, 0), (2, 1)]), (4, &[(3, 1), (2, 0)])];
fn symmetric_one<S: LinearSolver>() {
    sym::<S>(1, &[], 2)
}
/// the patterns whose Householder vectors stay within the solver's reach
fn symmetric_pairs<S: LinearSolver>() {
    let (n, p) = PATTERNS[[0, 1, 4][choose("pattern", 3)]];
    sym::<S>(n, p, 1)
}
fn symmetric_any<S: LinearSolver>() {
    let (n, p) = PATTERNS[choose("pattern", PATTERNS.len())];
    sym::<S>(n, p, 1)
}
const SHAPES: [(usize, usize, &[(usize, usize)]); 5] = [
    (2, 1, &[(0, 0), (1, 0)]),
    (3, 1, &[(1, 0), (2, 0)]),
    (2, 2, &[(0, 0), (1, 1), (1, 0)]),
    (3, 2, &[(0, 0), (1, 1), (2, 1)]),
    (3, 2, &[(0, 0), (1, 0), (2, 1)]),
];
fn least_squares_any<S: LinearSolver>() {
    let (m, n, at) = SHAPES[choose("shape", SHAPES.len())];
    lsq::<S>(m, n, at, 1)
}
/// entry of a fixed matrix
fn num(seed: usize, i: usize, j: usize) -> dtype {
    q(((seed * 7 + i * 5 + j * 11) % 9) as f64 - 3.5)
}
/// fixed full-rank Jacobians with the sparsity of small problems; `seed` changes the numbers only
fn system(kind: usize, seed: usize) -> (usize, usize, T) {
    if kind == 6 {
        return without_last(system(5, seed));
    }
    let mut t: T = vec![];
    let (m, n) = match kind {
        // a chain: prior on the first, one row between neighbours, two unknowns each
        0 | 1 => {
            let n = if kind == 0 { 6 } else { 8 };
            let mut r = 0;
            for v in (0..n).step_by(2) {
                for k in 0..2 {
                    if v > 0 {
                        t.push((r, v - 2, num(seed, r, v)));
                        t.push((r, v - 1, num(seed, r, v + 1)));
                    }
                    t.push((r, v + k, q(2.0) + q((r + seed) as f64)));
                    t.push((r, v + 1 - k, q(0.5)));
                    r += 1;
                }
            }
            (r, n)
        }
        // a star around the first unknown, more rows than columns
        2 => {
            let n = 5;
            for v in 0..n {
                t.push((v, v, q(3.0) + q(v as f64)));
            }
            for v in 1..n {
                t.push((n + v - 1, 0, num(seed, 3, v)));
                t.push((n + v - 1, v, num(seed + 1, v, 2)));
            }
            (2 * n - 1, n)
        }
        // the same number of entries and the same shape as the next kind, elsewhere
        3 | 4 => {
            let n = 3;
            for v in 0..n {
                t.push((v, v, q(2.0) + num(seed, v, v) / q(4.0)));
            }
            let (a, b) = if kind == 3 { (0, 1) } else { (1, 2) };
            t.push((3, a, num(seed, 1, 2)));
            t.push((3, b, num(seed, 2, 2)));
            (4, n)
        }
        // dense
        _ => {
            let n = 3;
            for i in 0..4 {
                for j in 0..n {
                    t.push((i, j, num(seed, i, j) + if i == j { q(9.0) } else { q(0.0) }));
                }
            }
            (4, n)
        }
    };
    (m, n, t)
}
/// fixed systems whose Householder norms are rational: blocks of orthogonal columns, or of positive definite pairs, in
/// different places
fn blocks(kind: usize, seed: usize, symmetric: bool) -> (usize, usize, T) {
    if kind == 6 {
        // a smaller symmetric system, or the same equations with one unknown less
        let (m, n, t) = without_last(blocks(3, seed, symmetric));
        return if symmetric { (n, n, t.into_iter().filter(|e| e.0 < n).collect()) } else { (m, n, t) };
    }
    const PLACES: [(usize, &[(usize, usize)]); KINDS - 1] = [
        (3, &[(0, 1)]),
        (3, &[(1, 2)]),
        (4, &[(0, 3), (1, 2)]),
        (4, &[(0, 2), (1, 3)]),
        (5, &[(4, 0), (2, 3)]),
        (6, &[(5, 3), (4, 0), (1, 2)]),
    ];
    let (n, pairs) = PLACES[kind];
    let mut t: T = vec![];
    let mut free: Vec<usize> = (0..n).collect();
    let mut rows = 0;
    for (k, (a, b)) in pairs.iter().enumerate() {
        free.retain(|x| x != a && x != b);
        let (p, r) = [(12.0, 5.0), (4.0, 3.0), (15.0, 8.0)][(k + seed) % 3];
        if symmetric {
            t.extend([(*a, *a, q(p)), (*b, *b, q(p)), (*a, *b, q(r)), (*b, *a, q(r))]);
        } else {
            for (i, (x, y)) in [(1.0, 2.0), (2.0, 1.0), (2.0, -2.0)].into_iter().enumerate() {
                t.push((rows + i, *a, q(x * p)));
                t.push((rows + i, *b, q(y * r)));
            }
            rows += 3;
        }
    }
    for v in free {
        t.push((if symmetric { v } else { rows }, v, q((2 + seed) as f64)));
        rows += 1;
    }
    (if symmetric { n } else { rows }, n, t)
}
/// six kinds of system, and one of them without its last column
const KINDS: usize = 7;
fn without_last((m, n, t): (usize, usize, T)) -> (usize, usize, T) {
    (m, n - 1, t.into_iter().filter(|e| e.1 + 1 < n).collect())
}
fn step<S: LinearSolver>(s: &mut S, label: &str, kind: usize, seed: usize, symmetric: bool, columns: usize, rational: bool) {
    let (m, n, t) = if rational { blocks(kind, seed, symmetric) } else { system(kind, seed) };
    let d = dense(m, n, &t);
    if rational && symmetric {
        let b = rhs(&format!("{label}b"), n, columns);
        let x = s.solve_symmetric(sparse(n, n, &t).as_ref(), faer(&b).as_ref());
        solves(&format!("{label} symmetric"), &x, &d, &b);
    } else if symmetric {
        let g = mmul(&tr(&d), &d);
        let mut a: T = vec![];
        for i in 0..n {
            for j in 0..n {
                // entries that are zero by structure are not stored
                if d.iter().enumerate().any(|(r, _)| stored(&t, r, i) && stored(&t, r, j)) {
                    a.push((i, j, g[i][j]));
                }
            }
        }
        let b = rhs(&format!("{label}b"), n, columns);
        let x = s.solve_symmetric(sparse(n, n, &a).as_ref(), faer(&b).as_ref());
        solves(&format!("{label} symmetric"), &x, &g, &b);
    } else {
        let b = rhs(&format!("{label}b"), m, columns);
        let x = s.solve_lst_sq(sparse(m, n, &t).as_ref(), faer(&b).as_ref());
        least_squares(&format!("{label} least squares"), &x, &d, &b);
    }
}
fn stored(t: &T, i: usize, j: usize) -> bool {
    t.iter().any(|e| e.0 == i && e.1 == j)
}
fn larger<S: LinearSolver>() {
    larger_of::<S>(false)
}
fn larger_blocks<S: LinearSolver>() {
    larger_of::<S>(true)
}
fn larger_of<S: LinearSolver>(rational: bool) {
    let kind = choose("kind of system", KINDS);
    let symmetric = choose("symmetric or least squares", 2) == 0;
    let columns = 1 + choose("right-hand sides", 2);
    step(&mut S::default(), "the", kind, 1, symmetric, columns, rational);
}
/// many unknowns in pairs far apart, and unknowns of their own; many right-hand sides
fn pairs_of(n: usize, symmetric: bool) -> (usize, usize, T) {
    let mut t: T = vec![];
    let mut rows = 0;
    for a in 0..n / 2 {
        let b = n - 1 - a;
        if a % 4 == 3 {
            for v in [a, b] {
                t.push((if symmetric { v } else { rows }, v, q((2 + a) as f64)));
                rows += 1;
            }
            continue;
        }
        let (p, r) = [(12.0, 5.0), (4.0, 3.0), (15.0, 8.0)][a % 3];
        if symmetric {
            t.extend([(a, a, q(p)), (b, b, q(p)), (a, b, q(r)), (b, a, q(r))]);
        } else {
            for (i, (x, y)) in [(1.0, 2.0), (2.0, 1.0), (2.0, -2.0)].into_iter().enumerate() {
                t.push((rows + i, a, q(x * p)));
                t.push((rows + i, b, q(y * r)));
            }
            rows += 3;
        }
    }
    (if symmetric { n } else { rows }, n, t)
}
fn wide<S: LinearSolver>() {
    let n = [20usize, 46][choose("unknowns", 2)];
    let symmetric = choose("symmetric or least squares", 2) == 0;
    let columns = [1usize, 5, 17][choose("right-hand sides", 3)];
    let (m, n, t) = pairs_of(n, symmetric);
    let d = dense(m, n, &t);
    let mut s = S::default();
    let b = rhs("b", m, columns);
    if symmetric {
        let x = s.solve_symmetric(sparse(n, n, &t).as_ref(), faer(&b).as_ref());
        solves("wide symmetric", &x, &d, &b);
    } else {
        let x = s.solve_lst_sq(sparse(m, n, &t).as_ref(), faer(&b).as_ref());
        least_squares("wide least squares", &x, &d, &b);
    }
}
/// one solver, one system after another
fn history<S: LinearSolver>() {
    history_of::<S>(false)
}
fn history_blocks<S: LinearSolver>() {
    history_of::<S>(true)
}
fn history_of<S: LinearSolver>(rational: bool) {
    let mut s = S::default();
    let mut before = None;
    for (i, label) in ["first", "second", "third"].into_iter().enumerate() {
        // a third system returns to the first one's kind
        let kind = match before {
            Some((k, _)) if i == 2 => k,
            _ => choose(&format!("kind of the {label} system"), KINDS),
        };
        let symmetric = if i == 2 { before.unwrap().1 } else { choose(&format!("{label}: symmetric or least squares"), 2) == 0 };
        if i == 0 {
            before = Some((kind, symmetric));
        }
        step(&mut s, label, kind, i, symmetric, 1, rational);
    }
}
macro_rules! k {
    ($($S:ident $p:literal $sym:ident $larger:ident $history:ident),*) => {
        &[$(
            Contract { name: concat!($p, "_symmetric_one"), functions: concat!(stringify!($S), "::solve_symmetric"), bounded: "", run: symmetric_one::<$S> },
            Contract { name: concat!($p, "_symmetric_any"), functions: concat!(stringify!($S), "::solve_symmetric"), bounded: "systems of two to four unknowns with the sparsity patterns listed in the contract; every entry and right-hand side arbitrary", run: $sym::<$S> },
            Contract { name: concat!($p, "_least_squares_any"), functions: concat!(stringify!($S), "::solve_lst_sq"), bounded: "up to three equations and two unknowns with the sparsity patterns listed in the contract; every entry and right-hand side arbitrary", run: least_squares_any::<$S> },
            Contract { name: concat!($p, "_larger"), functions: concat!(stringify!($S), "::{solve_symmetric, solve_lst_sq}"), bounded: "fixed matrices of up to eight unknowns; every right-hand side", run: $larger::<$S> },
            Contract { name: concat!($p, "_wide"), functions: concat!(stringify!($S), "::{solve_symmetric, solve_lst_sq}"), bounded: "fixed matrices of 20 and 46 unknowns, up to 17 right-hand sides; every right-hand side", run: wide::<$S> },
            Contract { name: concat!($p, "_history"), functions: concat!(stringify!($S), "::{solve_symmetric, solve_lst_sq}, the cached symbolic factorisation"), bounded: "three systems one after another on one solver, each pair of seven sparsity patterns and both entry points; every right-hand side", run: $history::<$S> },
        )*]
    };
}
const K: &[Contract] = k![CholeskySolver "cholesky" symmetric_any larger history, QRSolver "qr" symmetric_pairs larger_blocks history_blocks, LUSolver "lu" symmetric_any larger history];
fn main() {
    run_all(K)
}
