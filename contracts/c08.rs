//! C08: whitening turns the Gaussian's Mahalanobis norm into the Euclidean norm, however the noise was specified.
mod common;
use common::*;
use factrs::noise::{GaussianNoise, NoiseModel, UnitNoise};

type M = Vec<Vec<dtype>>;
fn dm(m: &M) -> MatrixX {
    let (r, c) = (m.len(), m[0].len());
    MatrixX::from_fn(r, c, |i, j| m[i][j])
}
fn sm<const N: usize>(m: &M) -> Matrix<N, N> {
    Matrix::<N, N>::from_fn(|i, j| m[i][j])
}
fn mul(a: &M, b: &M) -> M {
    a.iter().map(|r| (0..b[0].len()).map(|j| r.iter().enumerate().fold(q(0.0), |s, (k, x)| s + *x * b[k][j])).collect()).collect()
}
fn tr(a: &M) -> M {
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect()
}
fn ident(n: usize) -> M {
    (0..n).map(|i| (0..n).map(|j| q(if i == j { 1.0 } else { 0.0 })).collect()).collect()
}
fn same_m(label: &str, a: &M, b: &M) {
    for i in 0..a.len() {
        ensures_all_eq(&format!("{label} row {i}"), &a[i], &b[i]);
    }
}
/// W, the matrix of the whitening; whitening vectors and matrices is multiplication by it
fn whitening<T: NoiseModel>(label: &str, noise: &T, n: usize) -> M {
    ensures_fact(&format!("{label}: dimension"), noise.dim() == n);
    let w = noise.whiten_mat(dm(&ident(n)));
    ensures_fact(&format!("{label}: shape"), w.nrows() == n && w.ncols() == n);
    let w: M = (0..n).map(|i| (0..n).map(|j| w[(i, j)]).collect()).collect();
    let v: Vec<dtype> = (0..n).map(|i| var(&format!("v{i}"))).collect();
    let got = noise.whiten_vec(vx(&v));
    let want: Vec<dtype> = w.iter().map(|r| r.iter().zip(&v).fold(q(0.0), |s, (a, b)| s + *a * *b)).collect();
    ensures_all_eq(&format!("{label}: whitening a vector"), got.as_slice(), &want);
    for cols in [1usize, 3, 7, 40] {
        let m: M = (0..n).map(|i| (0..cols).map(|j| if j == cols - 1 { v[i] } else { q((i * 3 + j + 1) as f64) }).collect()).collect();
        let got = noise.whiten_mat(dm(&m));
        ensures_fact(&format!("{label}: shape of a whitened matrix"), got.nrows() == n && got.ncols() == cols);
        let got: M = (0..got.nrows()).map(|i| (0..got.ncols()).map(|j| got[(i, j)]).collect()).collect();
        same_m(&format!("{label}: whitening a matrix with {cols} columns"), &got, &mul(&w, &m));
    }
    w
}
/// W^T W = diag(inf)
fn diag_inf(label: &str, w: &M, inf: &[dtype]) {
    let n = inf.len();
    let want: M = (0..n).map(|i| (0..n).map(|j| if i == j { inf[i] } else { q(0.0) }).collect()).collect();
    same_m(&format!("{label}: squared norm is the Mahalanobis norm"), &mul(&tr(w), w), &want);
}
fn inv2(s: dtype) -> dtype {
    q(1.0) / (s * s)
}
fn diagonal<const N: usize>() {
    let s: Vec<dtype> = (0..N).map(|i| pos(&format!("s{i}"))).collect();
    let sv = Vector::<N>::from_fn(|i, _| s[i]);
    let cases: [(&str, GaussianNoise<N>, Vec<dtype>); 5] = [
        ("one sigma", GaussianNoise::<N>::from_scalar_sigma(s[0]), vec![inv2(s[0]); N]),
        ("one covariance", GaussianNoise::<N>::from_scalar_cov(s[0]), vec![q(1.0) / s[0]; N]),
        ("sigmas", GaussianNoise::<N>::from_vec_sigma(sv.as_view()), s.iter().map(|x| inv2(*x)).collect()),
        ("covariances", GaussianNoise::<N>::from_vec_cov(sv.as_view()), s.iter().map(|x| q(1.0) / *x).collect()),
        ("informations", GaussianNoise::<N>::from_vec_inf(sv.as_view()), s.clone()),
    ];
    for (l, n, inf) in &cases {
        let w = whitening(l, n, N);
        diag_inf(l, &w, inf);
    }
    let w = whitening("unit", &UnitNoise::<N>, N);
    same_m("unit noise changes nothing", &w, &ident(N));
    let w = whitening("identity", &GaussianNoise::<N>::identity(), N);
    same_m("identity noise changes nothing", &w, &ident(N));
}
fn named() {
    let s: Vec<dtype> = (0..6).map(|i| pos(&format!("s{i}"))).collect();
    let sig: Vec<dtype> = s.iter().map(|x| inv2(*x)).collect();
    let cov: Vec<dtype> = s.iter().map(|x| q(1.0) / *x).collect();
    diag_inf("1 sigma", &whitening("1 sigma", &GaussianNoise::<1>::from_diag_sigmas(s[0]), 1), &sig[..1]);
    diag_inf("2 sigmas", &whitening("2 sigmas", &GaussianNoise::<2>::from_diag_sigmas(s[0], s[1]), 2), &sig[..2]);
    diag_inf("3 sigmas", &whitening("3 sigmas", &GaussianNoise::<3>::from_diag_sigmas(s[0], s[1], s[2]), 3), &sig[..3]);
    diag_inf("4 sigmas", &whitening("4 sigmas", &GaussianNoise::<4>::from_diag_sigmas(s[0], s[1], s[2], s[3]), 4), &sig[..4]);
    diag_inf("5 sigmas", &whitening("5 sigmas", &GaussianNoise::<5>::from_diag_sigmas(s[0], s[1], s[2], s[3], s[4]), 5), &sig[..5]);
    diag_inf("6 sigmas", &whitening("6 sigmas", &GaussianNoise::<6>::from_diag_sigmas(s[0], s[1], s[2], s[3], s[4], s[5]), 6), &sig[..6]);
    diag_inf("1 cov", &whitening("1 cov", &GaussianNoise::<1>::from_diag_covs(s[0]), 1), &cov[..1]);
    diag_inf("2 covs", &whitening("2 covs", &GaussianNoise::<2>::from_diag_covs(s[0], s[1]), 2), &cov[..2]);
    diag_inf("3 covs", &whitening("3 covs", &GaussianNoise::<3>::from_diag_covs(s[0], s[1], s[2]), 3), &cov[..3]);
    diag_inf("4 covs", &whitening("4 covs", &GaussianNoise::<4>::from_diag_covs(s[0], s[1], s[2], s[3]), 4), &cov[..4]);
    diag_inf("5 covs", &whitening("5 covs", &GaussianNoise::<5>::from_diag_covs(s[0], s[1], s[2], s[3], s[4]), 5), &cov[..5]);
    diag_inf("6 covs", &whitening("6 covs", &GaussianNoise::<6>::from_diag_covs(s[0], s[1], s[2], s[3], s[4], s[5]), 6), &cov[..6]);
}
/// every lower triangular matrix with a positive diagonal
fn lower(n: usize, off: impl Fn(usize, usize) -> bool) -> M {
    (0..n)
        .map(|i| {
            (0..n)
                .map(|j| if i == j { pos_tame(&format!("d{i}"), 0.5, 3.0) } else if j < i && off(i, j) { var_tame(&format!("l{i}{j}"), -1.0, 1.0) } else { q(0.0) })
                .collect()
        })
        .collect()
}
/// every information matrix is L L^T
fn information<const N: usize>() {
    let l = lower(N, |_, _| true);
    let inf = mul(&l, &tr(&l));
    let noise = GaussianNoise::<N>::from_matrix_inf(sm::<N>(&inf).as_view());
    let w = whitening("information matrix", &noise, N);
    same_m("squared norm is the Mahalanobis norm", &mul(&tr(&w), &w), &inf);
}
/// every covariance is K^T K; W^T W is its inverse
fn covariance<const N: usize>() {
    cov_of::<N>(lower(N, |_, _| true));
}
fn cov_of<const N: usize>(k: M) {
    let cov = mul(&tr(&k), &k);
    let noise = GaussianNoise::<N>::from_matrix_cov(sm::<N>(&cov).as_view());
    let w = whitening("covariance matrix", &noise, N);
    same_m("squared norm is the Mahalanobis norm", &mul(&mul(&tr(&w), &w), &cov), &ident(N));
}
/// large covariances with one correlated pair
fn cov_pair<const N: usize>() {
    let i = 1 + choose("row of the correlated pair", N - 1);
    let j = choose("column of the correlated pair", i);
    let k = (0..N)
        .map(|a| {
            (0..N)
                .map(|b| match (a == b, a == i && b == j) {
                    (true, _) if a == i || a == j => pos_tame(&format!("d{a}"), 0.5, 3.0),
                    (true, _) => q((a + 2) as f64),
                    (_, true) => var_tame("l", -2.0, 2.0),
                    _ => q(0.0),
                })
                .collect()
        })
        .collect();
    cov_of::<N>(k);
}
/// large informations with one correlated pair
fn inf_pair<const N: usize>() {
    let (i, j) = [(1usize, 0usize), (N - 1, 0), (N - 1, N - 2), (N / 2, 2), (N - 3, N / 2)][choose("correlated pair", 5)];
    let l = lower(N, |a, b| (a, b) == (i, j));
    let inf = mul(&l, &tr(&l));
    let noise = GaussianNoise::<N>::from_matrix_inf(sm::<N>(&inf).as_view());
    let w = whitening("information matrix", &noise, N);
    same_m("squared norm is the Mahalanobis norm", &mul(&tr(&w), &w), &inf);
}
const PAIR: &str = "covariance matrices of dimension 5 and 6 with one correlated pair (any pair, any values); the other components uncorrelated with fixed variances";
const K: &[Contract] = &[
    Contract { name: "diagonal1", functions: "GaussianNoise<1>::{from_scalar_sigma, from_scalar_cov, from_vec_sigma, from_vec_cov, from_vec_inf, whiten_vec, whiten_mat, identity}, UnitNoise<1>::{whiten_vec, whiten_mat}", bounded: "", run: diagonal::<1> },
    Contract { name: "diagonal2", functions: "GaussianNoise<2>::{from_scalar_sigma, from_scalar_cov, from_vec_sigma, from_vec_cov, from_vec_inf, whiten_vec, whiten_mat, identity}, UnitNoise<2>::{whiten_vec, whiten_mat}", bounded: "", run: diagonal::<2> },
    Contract { name: "diagonal3", functions: "GaussianNoise<3>::{from_scalar_sigma, from_scalar_cov, from_vec_sigma, from_vec_cov, from_vec_inf, whiten_vec, whiten_mat, identity}, UnitNoise<3>::{whiten_vec, whiten_mat}", bounded: "", run: diagonal::<3> },
    Contract { name: "diagonal6", functions: "GaussianNoise<6>::{from_scalar_sigma, from_scalar_cov, from_vec_sigma, from_vec_cov, from_vec_inf, whiten_vec, whiten_mat, identity}, UnitNoise<6>::{whiten_vec, whiten_mat}", bounded: "", run: diagonal::<6> },
    Contract { name: "diagonal9", functions: "GaussianNoise<9>::{from_scalar_sigma, from_scalar_cov, from_vec_sigma, from_vec_cov, from_vec_inf, whiten_vec, whiten_mat, identity}, UnitNoise<9>::{whiten_vec, whiten_mat}", bounded: "", run: diagonal::<9> },
    Contract { name: "diagonal15", functions: "GaussianNoise<15>::{from_scalar_sigma, from_scalar_cov, from_vec_sigma, from_vec_cov, from_vec_inf, whiten_vec, whiten_mat, identity}, UnitNoise<15>::{whiten_vec, whiten_mat}", bounded: "", run: diagonal::<15> },
    Contract { name: "diagonal24", functions: "GaussianNoise<24>::{from_scalar_sigma, from_scalar_cov, from_vec_sigma, from_vec_cov, from_vec_inf, whiten_vec, whiten_mat, identity}, UnitNoise<24>::{whiten_vec, whiten_mat}", bounded: "", run: diagonal::<24> },
    Contract { name: "named", functions: "GaussianNoise::{from_diag_sigmas, from_diag_covs}", bounded: "", run: named },
    Contract { name: "information1", functions: "GaussianNoise<1>::from_matrix_inf", bounded: "", run: information::<1> },
    Contract { name: "information2", functions: "GaussianNoise<2>::from_matrix_inf", bounded: "", run: information::<2> },
    Contract { name: "information3", functions: "GaussianNoise<3>::from_matrix_inf", bounded: "", run: information::<3> },
    Contract { name: "information6", functions: "GaussianNoise<6>::from_matrix_inf", bounded: "", run: information::<6> },
    Contract { name: "information15", functions: "GaussianNoise<15>::from_matrix_inf", bounded: "information matrices of dimension 15 with one of five correlated pairs, any values", run: inf_pair::<15> },
    Contract { name: "covariance1", functions: "GaussianNoise<1>::from_matrix_cov", bounded: "", run: covariance::<1> },
    Contract { name: "covariance2", functions: "GaussianNoise<2>::from_matrix_cov", bounded: "", run: covariance::<2> },
    Contract { name: "covariance3", functions: "GaussianNoise<3>::from_matrix_cov", bounded: "", run: covariance::<3> },
    Contract { name: "covariance5", functions: "GaussianNoise<5>::from_matrix_cov", bounded: PAIR, run: cov_pair::<5> },
    Contract { name: "covariance6", functions: "GaussianNoise<6>::from_matrix_cov", bounded: PAIR, run: cov_pair::<6> },
];
fn main() {
    run_all(K)
}
