//! C18: loading a pose graph file gives the poses and measurements that are in it.
mod common;
mod stub;
use common::*;
use factrs::containers::{DefaultSymbol, Graph, Key, Values, ValuesOrder};
use factrs::linear::LinearValues;
use factrs::utils::load_g20;
use std::sync::atomic::{AtomicUsize, Ordering};
use stub::*;

fn key(id: u64) -> Key {
    DefaultSymbol::new('x', id).into()
}
struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
fn load(lines: &[String]) -> (Graph, Values) {
    static N: AtomicUsize = AtomicUsize::new(0);
    let p = std::env::temp_dir().join(format!("factrs-contract-{}-{}.g2o", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    let s = Scratch(p);
    std::fs::write(&s.0, lines.join("\n") + "\n").unwrap();
    load_g20(s.0.to_str().unwrap())
}
fn words(x: &[dtype]) -> String {
    x.iter().map(|v| text_var(*v)).collect::<Vec<_>>().join(" ")
}
/// every information matrix is L L^T; as written in the file: the upper triangle, row by row
fn info(p: &str, n: usize, off: impl Fn(usize, usize) -> bool) -> (M, String) {
    let l: M = (0..n)
        .map(|i| {
            (0..n)
                .map(|j| if i == j { pos_tame(&format!("{p}d{i}"), 0.5, 3.0) } else if j < i && off(i, j) { var_tame(&format!("{p}l{i}{j}"), -1.0, 1.0) } else { q(0.0) })
                .collect()
        })
        .collect();
    let m: M = (0..n).map(|i| (0..n).map(|j| (0..n).fold(q(0.0), |s, k| s + l[i][k] * l[j][k])).collect()).collect();
    let mut w = vec![];
    for i in 0..n {
        for j in i..n {
            w.push(m[i][j]);
        }
    }
    (m, words(&w))
}
trait Pose: El {
    const VERTEX: &'static str;
    const EDGE: &'static str;
    const OTHER: &'static str;
    /// an arbitrary pose and how the file writes it
    fn pose(p: &str) -> (Self, String);
    /// place in the file's information matrix of the k-th tangent coordinate
    fn place(k: usize) -> usize;
}
impl Pose for SE2 {
    const VERTEX: &'static str = "VERTEX_SE2";
    const EDGE: &'static str = "EDGE_SE2";
    const OTHER: &'static str = "FIX 0";
    fn pose(p: &str) -> (Self, String) {
        let (t, x, y) = (var_tame(&format!("{p}.theta"), -3.0, 3.0), var(&format!("{p}.x")), var(&format!("{p}.y")));
        (SE2::new(t, x, y), words(&[x, y, t]))
    }
    fn place(k: usize) -> usize {
        [2, 0, 1][k]
    }
}
impl Pose for SE3 {
    const VERTEX: &'static str = "VERTEX_SE3:QUAT";
    const EDGE: &'static str = "EDGE_SE3:QUAT";
    const OTHER: &'static str = "PARAMS_SE3OFFSET 0 0 0 0 0 0 0 1";
    fn pose(p: &str) -> (Self, String) {
        let [x, y, z] = vars::<3>(&format!("{p}.t"));
        let [a, b, c, w] = unit::<4>(&format!("{p}.q"));
        (SE3::from_rot_trans(SO3::from_xyzw(a, b, c, w), Vector3::new(x, y, z)), words(&[x, y, z, a, b, c, w]))
    }
    fn place(k: usize) -> usize {
        (k + 3) % 6
    }
}
fn put<V: Pose>(v: &mut Values, id: u64, x: &V) {
    v.insert_unchecked(key(id), x.clone());
}
/// how far a step that moves one pose only is from the linearised graph
fn cost(g: &Graph, at: &Values, id: u64, dim: usize) -> (dtype, Vec<dtype>) {
    let order = ValuesOrder::from_values(at);
    let d: Vec<dtype> = (0..dim).map(|i| var_tame(&format!("step{i}"), -2.0, 2.0)).collect();
    let mut x = vec![q(0.0); order.dim()];
    let i = order.get(key(id)).expect("a loaded pose has columns").idx;
    x[i..i + dim].copy_from_slice(&d);
    (g.linearize(at).error(&LinearValues::from_order_and_vector(order, vx(&x))), d)
}
fn quadratic<V: Pose>(infos: &[&M], d: &[dtype]) -> dtype {
    let n = V::DIM;
    let mut s = q(0.0);
    for m in infos {
        for i in 0..n {
            for j in 0..n {
                s = s + d[i] * m[V::place(i)][V::place(j)] * d[j];
            }
        }
    }
    s / q(2.0)
}
/// three poses, two measurements with a common target
fn graph<V: Pose>(off: fn(usize, usize) -> bool) {
    let layout = choose("order of the lines", 4);
    let many = choose("one or two measurements", 2) == 1;
    let ids = [[7u64, 3, 12], [0, 1, 2], [4294967295, 70000, 16777217]][choose("identifiers", 3)];
    let ((a, ta), (z1, t1), (z2, t2)) = (V::pose("a"), V::pose("z1"), V::pose("z2"));
    let ((fb, tb), (fc, tc)) = (V::pose("fb"), V::pose("fc"));
    let (m1, w1) = info("m", V::DIM, off);
    let (m2, w2) = info("n", V::DIM, |i, j| i == j + 1);
    let [ia, ib, ic] = ids;
    let vertex = |i: u64, t: &str| format!("{} {i} {t}", V::VERTEX);
    let (va, vb, vc) = (vertex(ia, &ta), vertex(ib, &tb), vertex(ic, &tc));
    let (e1, e2) = (format!("{} {ia} {ib} {t1} {w1}", V::EDGE), format!("{} {ic} {ib} {t2} {w2}", V::EDGE));
    let other = V::OTHER.to_string();
    let mut lines = match layout {
        0 => vec![va, vb, vc, e1, e2.clone()],
        1 => vec![e1, va, e2.clone(), vb, vc],
        2 => vec![other.clone(), va, vc, vb, other, e2.clone(), e1],
        _ => vec![va, e1, vb, String::new(), vc, e2.clone()],
    };
    if !many {
        lines.retain(|l| *l != e2);
    }
    let (g, values) = load(&lines);
    ensures_fact("every pose of the file and no other", values.len() == 3);
    for (n, id, x) in [("first", ia, &a), ("second", ib, &fb), ("third", ic, &fc)] {
        match values.get_unchecked::<_, V>(key(id)) {
            Some(v) => same(&format!("the {n} pose is as in the file"), v, x),
            None => drop(ensures_fact(&format!("the {n} pose is under its identifier"), false)),
        }
    }
    ensures_fact("one factor per measurement and one prior", g.len() == 2 + many as usize);
    // poses that agree with the first pose and with every measurement
    let b = a.compose(&z1);
    let c = if many { b.compose(&z2.inverse()) } else { fc.clone() };
    let mut at = Values::new();
    put(&mut at, ib, &b);
    put(&mut at, ic, &c);
    put(&mut at, ia, &a);
    ensures_eq("no error where the poses agree with the measurements and the first pose", g.error(&at), q(0.0));
    let (e, d) = cost(&g, &at, ib, V::DIM);
    let ms: Vec<&M> = if many { vec![&m1, &m2] } else { vec![&m1] };
    ensures_eq("moving the target costs what the file's information matrices say", e, quadratic::<V>(&ms, &d));
}
fn poses2() {
    graph::<SE2>(|_, _| true)
}
fn poses3() {
    graph::<SE3>(|i, j| (i, j) == (3, 0) || (i, j) == (5, 4) || (i, j) == (2, 1) || (i, j) == (4, 2))
}
/// every entry of the information matrix, one correlated pair at a time
fn pair3() {
    let n = choose("which pair", 15);
    let (i, j) = (0..6).flat_map(|i| (0..i).map(move |j| (i, j))).nth(n).unwrap();
    let ((a, ta), (z, tz), (_, tb)) = (SE3::pose("a"), SE3::pose("z"), SE3::pose("b"));
    let (m, w) = info("m", 6, |k, l| (k, l) == (i, j));
    let (g, values) = load(&[format!("{} 5 {ta}", SE3::VERTEX), format!("{} 2 {tb}", SE3::VERTEX), format!("{} 5 2 {tz} {w}", SE3::EDGE)]);
    ensures_fact("two poses, one prior, one measurement", values.len() == 2 && g.len() == 2);
    let mut at = Values::new();
    put(&mut at, 5, &a);
    put(&mut at, 2, &a.compose(&z));
    let (e, d) = cost(&g, &at, 2, 6);
    ensures_eq("moving the target costs what the file's information matrix says", e, quadratic::<SE3>(&[&m], &d));
}
/// a long file: chains, loops, the same measurement twice, identifiers out of order
fn long() {
    let n = 24usize;
    let id = |i: usize| ((i * 7 + 3) % n) as u64 * 5;
    let xs: Vec<[dtype; 2]> = (0..n).map(|i| vars::<2>(&format!("p{i}_"))).collect();
    let mut lines: Vec<String> = (0..n).map(|i| format!("VERTEX_SE2 {} {} 0", id(i), words(&xs[i]))).collect();
    let edges: Vec<(usize, usize)> = (0..n - 1).map(|i| (i, i + 1)).chain([(n - 1, 0), (5, 9), (9, 5), (5, 9), (20, 2), (0, 13)]).collect();
    let mut zs = vec![];
    for (k, (a, b)) in edges.iter().enumerate() {
        let z = vars::<2>(&format!("z{k}_"));
        let d = [pos_tame(&format!("m{k}x"), 0.5, 3.0), pos_tame(&format!("m{k}y"), 0.5, 3.0)];
        lines.push(format!("EDGE_SE2 {} {} {} 0 {} 0 0 {} 0 1", id(*a), id(*b), words(&z), text_var(d[0] * d[0]), text_var(d[1] * d[1])));
        zs.push((z, d));
    }
    let (g, values) = load(&lines);
    ensures_fact("every pose, every measurement, one prior", values.len() == n && g.len() == edges.len() + 1);
    for i in 0..n {
        match values.get_unchecked::<_, SE2>(key(id(i))) {
            Some(v) => same("a pose is as in the file", v, &SE2::new(q(0.0), xs[i][0], xs[i][1])),
            None => drop(ensures_fact("a pose is under its identifier", false)),
        }
    }
    let mut want = q(0.0);
    for (((a, b), (z, d)), _) in edges.iter().zip(&zs).zip(0..) {
        for c in 0..2 {
            let r = d[c] * (xs[*a][c] + z[c] - xs[*b][c]);
            want = want + r * r / q(2.0);
        }
    }
    ensures_eq("the error is the sum over the file's measurements", g.error(&values), want);
}
/// the prior: zero at the first pose, positive in every direction, and on no other pose
fn gauge<V: Pose>() {
    let ((_, ta), (_, tb)) = (V::pose("a"), V::pose("b"));
    let (g, values) = load(&[format!("{} 5 {ta}", V::VERTEX), format!("{} 2 {tb}", V::VERTEX)]);
    ensures_fact("two poses, one prior", values.len() == 2 && g.len() == 1);
    ensures_eq("no error at the poses of the file", g.error(&values), q(0.0));
    let (e, _) = cost(&g, &values, 2, V::DIM);
    ensures_eq("the prior does not hold the second pose", e, q(0.0));
    let k = choose("direction", V::DIM);
    let order = ValuesOrder::from_values(&values);
    let mut x = vec![q(0.0); order.dim()];
    x[order.get(key(5)).unwrap().idx + k] = q(1.0);
    let e = g.linearize(&values).error(&LinearValues::from_order_and_vector(order, vx(&x)));
    ensures("the prior holds the first pose in this direction", gt(e, q(0.0)));
}
const S: &str = "three poses, up to two measurements, four orders of the lines, three sets of identifiers; every number in the file arbitrary";
const K: &[Contract] = &[
    Contract { name: "poses2", functions: "load_g20", bounded: S, run: poses2 },
    Contract { name: "poses3", functions: "load_g20", bounded: S, run: poses3 },
    Contract { name: "pair3", functions: "load_g20", bounded: "two spatial poses, one measurement, information matrices with one correlated pair (any pair); every number in the file arbitrary", run: pair3 },
    Contract { name: "long", functions: "load_g20", bounded: "one file of 24 unrotated planar poses and 30 measurements; every number in it arbitrary but the angles", run: long },
    Contract { name: "gauge2", functions: "load_g20", bounded: "two poses; every number in the file arbitrary", run: gauge::<SE2> },
    Contract { name: "gauge3", functions: "load_g20", bounded: "two poses; every number in the file arbitrary", run: gauge::<SE3> },
];
fn main() {
    run_all(K)
}
