//! C10: a graph's error is the sum of its factors' errors, and its linear system stacks their rows at their variables' columns.
mod common;
mod stub;
use common::*;
use factrs::containers::{Factor, FactorBuilder, Graph, Idx, Key, Values, ValuesOrder};
use factrs::linear::{LinearFactor, LinearGraph, LinearValues};
use stub::*;

/// what one linear factor says: keys, their blocks (dense) and the right-hand side
struct Row {
    keys: Vec<Key>,
    blocks: Vec<M>,
    b: Vec<dtype>,
}
const DIMS: [usize; 4] = [2, 1, 3, 2];
const IDS: [u64; 4] = [11, 5, 7, 2];
fn values() -> Values {
    let mut v = Values::new();
    v.insert_unchecked(Sy(11), VectorVar2::any("p"));
    v.insert_unchecked(Sy(5), SO2::any("q"));
    v.insert_unchecked(Sy(7), SE2::any("r"));
    v.insert_unchecked(Sy(2), VectorVar2::any("s"));
    v
}
/// the variables each kind of factor touches, and its number of rows
const KINDS: [(&[usize], usize); 5] = [(&[2], 2), (&[0, 1], 1), (&[1, 0, 2], 2), (&[0, 0], 1), (&[2, 1], 3)];
fn row(kind: usize, at: usize) -> Row {
    let (vs, out) = KINDS[kind];
    let keys = vs.iter().map(|v| Key(IDS[*v])).collect();
    let blocks = vs.iter().enumerate().map(|(i, v)| any_mat(&format!("f{at}b{i}_"), out, DIMS[*v])).collect();
    Row { keys, blocks, b: any_list(&format!("f{at}r"), out) }
}
fn linear(r: &Row) -> LinearFactor {
    let out = r.b.len();
    let widths: Vec<usize> = r.blocks.iter().map(|b| b[0].len()).collect();
    let mut flat: M = vec![vec![]; out];
    let mut idx = vec![];
    let mut at = 0;
    for (b, w) in r.blocks.iter().zip(&widths) {
        idx.push(at);
        at += w;
        for i in 0..out {
            flat[i].extend(b[i].iter().cloned());
        }
    }
    LinearFactor::new(r.keys.clone(), MatrixBlock::new(to_mat(&flat, at), idx), vx(&r.b))
}
/// the columns of every variable: any order of the variables is possible
fn layouts() -> (ValuesOrder, Vec<(Key, usize, usize)>) {
    let perm = [[0usize, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1]][choose("order of the variables", 3)];
    let mut map: ahash::HashMap<Key, Idx> = Default::default();
    let mut at = 0;
    let mut l = vec![];
    for v in perm {
        map.insert(Key(IDS[v]), Idx { idx: at, dim: DIMS[v] });
        l.push((Key(IDS[v]), at, DIMS[v]));
        at += DIMS[v];
    }
    (ValuesOrder::new(map), l)
}
fn system(label: &str, rows: &[Row], layout: &[(Key, usize, usize)], got: &DiffResult<faer::Mat<dtype>, faer::sparse::SparseColMat<usize, dtype>>) {
    let n: usize = rows.iter().map(|r| r.b.len()).sum();
    let cols: usize = layout.iter().map(|l| l.2).sum();
    let mut want = vec![vec![q(0.0); cols]; n];
    let mut rhs = vec![];
    let mut at = 0;
    for r in rows {
        for (k, b) in r.keys.iter().zip(&r.blocks) {
            let c = layout.iter().find(|l| l.0 == *k).unwrap().1;
            for i in 0..r.b.len() {
                for j in 0..b[0].len() {
                    want[at + i][c + j] = want[at + i][c + j] + b[i][j];
                }
            }
        }
        rhs.extend(r.b.iter().cloned());
        at += r.b.len();
    }
    ensures_fact(&format!("{label}: shape"), got.diff.nrows() == n && got.diff.ncols() == cols && got.value.nrows() == n && got.value.ncols() == 1);
    if got.diff.nrows() != n || got.diff.ncols() != cols || got.value.nrows() != n {
        return;
    }
    for i in 0..n {
        ensures_eq(&format!("{label}: right-hand side {i}"), got.value[(i, 0)], rhs[i]);
        for j in 0..cols {
            let g = got.diff.get(i, j).cloned().unwrap_or(q(0.0));
            ensures_eq(&format!("{label}: row {i} column {j}"), g, want[i][j]);
        }
    }
}
/// the system of any list of up to three linear factors
fn assemble() {
    let n = choose("number of factors", 4);
    let kinds: Vec<usize> = (0..n).map(|i| choose(&format!("kind of factor {i}"), if n == 3 { 3 } else { KINDS.len() })).collect();
    let (order, layout) = layouts();
    let rows: Vec<Row> = kinds.iter().enumerate().map(|(i, k)| row(*k, i)).collect();
    let g = if choose("added one by one or at once", 2) == 0 {
        LinearGraph::from_vec(rows.iter().map(linear).collect())
    } else {
        let mut g = LinearGraph::new();
        for r in &rows {
            g.add_factor(linear(r));
        }
        g
    };
    let go = g.sparsity_pattern(order.clone());
    system("linear system", &rows, &layout, &g.residual_jacobian(&go));
    // half the squared distance, summed
    let cols: usize = layout.iter().map(|l| l.2).sum();
    let x = any_list("x", cols);
    let lv = LinearValues::from_order_and_vector(order, vx(&x));
    let mut want = q(0.0);
    for r in &rows {
        let mut ax = r.b.iter().map(|b| q(0.0) - *b).collect::<Vec<_>>();
        for (k, b) in r.keys.iter().zip(&r.blocks) {
            let c = layout.iter().find(|l| l.0 == *k).unwrap().1;
            for i in 0..ax.len() {
                for j in 0..b[0].len() {
                    ax[i] = ax[i] + b[i][j] * x[c + j];
                }
            }
        }
        want = want + sq(&ax) / q(2.0);
    }
    ensures_eq("the linear graph's error is the sum", g.error(&lv), want);
}
fn nl1(at: usize, key: u64) -> (Factor, Row, dtype) {
    let any = Any::new(&format!("f{at}"), 2, 3, vec![Key(key)]);
    let k = Kernel::any(&format!("f{at}k"));
    let f = FactorBuilder::<2>::new1_unchecked(Any1(any.clone()), Sy(key)).robust(k.clone()).build();
    (f, weighted(&any, &[3], k.root), k.loss)
}
fn nl2(at: usize, a: u64, b: u64) -> (Factor, Row, dtype) {
    let any = Any::new(&format!("f{at}"), 3, 5, vec![Key(a), Key(b)]);
    let k = Kernel::any(&format!("f{at}k"));
    let f = FactorBuilder::<3>::new2_unchecked(Any2(any.clone()), Sy(a), Sy(b)).robust(k.clone()).build();
    (f, weighted(&any, &[2, 3], k.root), k.loss)
}
fn weighted(any: &Any, widths: &[usize], w: dtype) -> Row {
    let mut blocks = vec![];
    let mut at = 0;
    for d in widths {
        blocks.push(any.j.iter().map(|r| r[at..at + d].iter().map(|x| w * *x).collect()).collect());
        at += d;
    }
    Row { keys: any.keys.clone(), blocks, b: any.r.iter().map(|x| q(0.0) - w * *x).collect() }
}
/// the same for nonlinear graphs, whose pattern is computed once and reused after every linearisation
fn nonlinear() {
    let n = choose("number of factors", 4);
    let kinds: Vec<usize> = (0..n).map(|i| choose(&format!("kind of factor {i}"), 3)).collect();
    let (order, layout) = layouts();
    let values = values();
    let mut g = if choose("capacity", 2) == 0 { Graph::new() } else { Graph::with_capacity(2) };
    ensures_fact("an empty graph", g.is_empty() && g.len() == 0);
    let mut rows = vec![];
    let mut want = q(0.0);
    for (i, k) in kinds.iter().enumerate() {
        let (f, r, l) = match k {
            0 => nl1(i, 7),
            1 => nl2(i, 11, 7),
            _ => nl2(i, 2, 7),
        };
        g.add_factor(f);
        rows.push(r);
        want = want + l;
        ensures_fact("length", g.len() == i + 1 && !g.is_empty());
    }
    ensures_eq("the graph's error is the sum of its factors' errors", g.error(&values), want);
    let go = g.sparsity_pattern(order.clone());
    let lin = g.linearize(&values);
    system("linearised system", &rows, &layout, &lin.residual_jacobian(&go));
    let go = lin.sparsity_pattern(order);
    system("linearised system, pattern of the linear graph", &rows, &layout, &lin.residual_jacobian(&go));
    // again with the pattern of before: nothing depends on earlier calls
    let lin = g.linearize(&values);
    system("linearised again", &rows, &layout, &lin.residual_jacobian(&go));
}
/// longer graphs: nothing depends on how many factors came before
fn many() {
    let (order, layout) = layouts();
    let rows: Vec<Row> = (0..13).map(|i| row((i * 3 + i / 5) % KINDS.len(), i)).collect();
    let g = LinearGraph::from_vec(rows.iter().map(linear).collect());
    let go = g.sparsity_pattern(order.clone());
    system("linear system", &rows, &layout, &g.residual_jacobian(&go));
    let values = values();
    let mut g = Graph::new();
    let mut rows = vec![];
    let mut want = q(0.0);
    for i in 0..11 {
        let (f, r, l) = match (i * 2 + i / 4) % 3 {
            0 => nl1(i + 100, 7),
            1 => nl2(i + 100, 11, 7),
            _ => nl2(i + 100, 2, 7),
        };
        g.add_factor(f);
        rows.push(r);
        want = want + l;
    }
    ensures_fact("length", g.len() == 11);
    ensures_eq("the graph's error is the sum of its factors' errors", g.error(&values), want);
    let go = g.sparsity_pattern(order);
    system("linearised system", &rows, &layout, &g.linearize(&values).residual_jacobian(&go));
}
/// many wide variables: nothing depends on where in the system a variable lies
fn wide() {
    let n = 30usize;
    let dims: Vec<usize> = (0..n).map(|i| [1, 6, 2, 9, 3, 15][i % 6]).collect();
    let perm: Vec<usize> = if choose("order of the variables", 2) == 0 { (0..n).collect() } else { (0..n).map(|i| (i * 7 + 4) % n).collect() };
    let mut map: ahash::HashMap<Key, Idx> = Default::default();
    let mut layout = vec![];
    let mut at = 0;
    for v in perm {
        map.insert(Key(v as u64 * 1001), Idx { idx: at, dim: dims[v] });
        layout.push((Key(v as u64 * 1001), at, dims[v]));
        at += dims[v];
    }
    let order = ValuesOrder::new(map);
    let rows: Vec<Row> = (0..n + 8)
        .map(|i| {
            let vs: Vec<usize> = [vec![i % n], vec![(i * 11) % n, i % n], vec![(i + 5) % n, (i * 3) % n, (i + 17) % n]][i % 3].clone();
            let out = [1usize, 3, 2, 7][i % 4];
            let blocks = vs.iter().enumerate().map(|(k, v)| any_mat(&format!("f{i}b{k}_"), out, dims[*v])).collect();
            Row { keys: vs.iter().map(|v| Key(*v as u64 * 1001)).collect(), blocks, b: any_list(&format!("f{i}r"), out) }
        })
        .collect();
    let mut g = LinearGraph::new();
    for r in &rows {
        g.add_factor(linear(r));
    }
    let go = g.sparsity_pattern(order);
    system("wide linear system", &rows, &layout, &g.residual_jacobian(&go));
}
/// the order that values induce is one of those layouts
fn induced() {
    let values = values();
    let order = ValuesOrder::from_values(&values);
    let layout: Vec<(Key, usize, usize)> = IDS.iter().map(|k| { let i = order.get(Key(*k)).unwrap(); (Key(*k), i.idx, i.dim) }).collect();
    let rows = vec![row(2, 0), row(1, 1), row(4, 2)];
    let g = LinearGraph::from_vec(rows.iter().map(linear).collect());
    let go = g.sparsity_pattern(order);
    system("linear system", &rows, &layout, &g.residual_jacobian(&go));
}
const B: &str = "graphs of up to three factors over four variables, with the arities, dimensions, repeated keys and column orders enumerated; every entry symbolic";
const K: &[Contract] = &[
    Contract { name: "assemble", functions: "LinearGraph::{new, from_vec, add_factor, sparsity_pattern, residual_jacobian, error}, LinearFactor::error, MatrixBlock::get_block", bounded: B, run: assemble },
    Contract { name: "nonlinear", functions: "Graph::{new, with_capacity, add_factor, len, is_empty, error, linearize, sparsity_pattern}, LinearGraph::{sparsity_pattern, residual_jacobian}", bounded: B, run: nonlinear },
    Contract { name: "many", functions: "Graph::{add_factor, error, linearize, sparsity_pattern}, LinearGraph::{from_vec, sparsity_pattern, residual_jacobian}", bounded: "one graph of thirteen linear factors and one of eleven nonlinear ones, three column orders; every entry symbolic", run: many },
    Contract { name: "wide", functions: "LinearGraph::{new, add_factor, sparsity_pattern, residual_jacobian}, MatrixBlock::get_block", bounded: "one system of 38 linear factors with up to seven rows over 30 variables of up to 15 dimensions, two column orders; every entry symbolic", run: wide },
    Contract { name: "induced", functions: "ValuesOrder::{from_values, get}, LinearGraph::{sparsity_pattern, residual_jacobian}", bounded: B, run: induced },
];
fn main() {
    run_all(K)
}
