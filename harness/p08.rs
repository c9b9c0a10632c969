// Gauss-Seidel (over-relaxed): whatever is returned satisfies K u = r to the tolerance.
use crate::matrix::solve::iterative::{gauss_seidel, GaussSeidelSolver};
use crate::matrix::solve::{Solver, System};
use crate::matrix::{CompressedRow, LinearMatrix, MatrixLike};
use crate::util::*;

const BETA: f64 = 1.3;

fn sparse(k: &M) -> CompressedRow {
    CompressedRow::from_flat(k.len(), k.iter().flatten().cloned().collect::<Vec<f64>>())
}
fn read(u: &LinearMatrix) -> Vec<f64> {
    u.flat().cloned().collect()
}
fn sum_sq(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |s, x| s + *x * *x)
}
// u_new - u = d gives the residual (D (1/beta - 1) - U) d; with |d| <= tol |u| the residual is at most
// the norm of that matrix times tol |u|
fn bound_sq(k: &M) -> f64 {
    let mut s = 0.0;
    for i in 0..k.len() {
        for j in i..k.len() {
            let e = if i == j { k[i][i] * (1.0 / BETA - 1.0) } else { k[i][j] };
            s = s + e * e;
        }
    }
    s
}
fn residual(k: &M, u: &[f64], r: &[f64], tol: f64) {
    let ku = mat_vec(k, u);
    let d: Vec<f64> = (0..r.len()).map(|i| ku[i] - r[i]).collect();
    vt::prove("residual within tolerance", vt::le(sum_sq(&d), bound_sq(k) * tol * tol * sum_sq(u) * 1.0001));
}

const SYSTEMS: [&[&[f64]]; 10] = [
    &[&[2.0, -1.0], &[-1.0, 2.0]],
    &[&[4.0, 1.0], &[1.0, 3.0]],
    &[&[1.0, 0.5], &[0.5, 8.0]],
    &[&[3.0, 0.0], &[0.0, 0.25]],
    &[&[2.0, -1.0, 0.0], &[-1.0, 2.0, -1.0], &[0.0, -1.0, 2.0]],
    &[&[4.0, 1.0, -1.0], &[1.0, 3.0, 0.5], &[-1.0, 0.5, 5.0]],
    &[&[5.0, 0.0, 2.0], &[0.0, 1.0, 0.0], &[2.0, 0.0, 3.0]],
    &[&[1.0, -0.5, 0.0], &[-0.5, 1.0, 0.0], &[0.0, 0.0, 4.0]],
    &[&[1.0, 0.9], &[0.9, 1.0]],
    &[&[5.0, -4.0, 1.0, 0.0], &[-4.0, 6.0, -4.0, 1.0], &[1.0, -4.0, 6.0, -4.0], &[0.0, 1.0, -4.0, 5.0]],
];
fn system(c: usize) -> M {
    SYSTEMS[c].iter().map(|r| r.to_vec()).collect()
}

// any load
fn load(c: usize) {
    let per = tier(2, 3);
    let k = system(c / per);
    let n = k.len();
    let r = vt::vars("r", n);
    let tol = [0.25, 0.01, 0.0001][c % per];
    let u = gauss_seidel(sparse(&k), LinearMatrix::col_vec(r.clone()), tol, 200);
    vt::check("one value per dof", u.shape() == (n, 1));
    residual(&k, &read(&u), &r, tol);
}

// the solver as the analysis uses it, with its own tolerance; one load pattern of any size
fn solver(c: usize) {
    let k = system(c / 2);
    let n = k.len();
    let s = vt::var("s");
    let r: Vec<f64> = (0..n).map(|i| if i == 0 { s } else if c % 2 == 0 { 0.0 } else { s * -0.5 }).collect();
    let km = LinearMatrix::from_flat(n, k.iter().flatten().cloned().collect::<Vec<f64>>());
    let sys = System::from_kr(&km, &LinearMatrix::col_vec(r.clone()));
    match GaussSeidelSolver::new(sys).solve() {
        Ok(u) => {
            vt::check("one value per dof", u.len() == n);
            residual(&k, &u, &r, 0.001);
        }
        Err(_) => vt::check("gauss-seidel converges", false),
    }
}

// one unknown, everything symbolic
fn single(_: usize) {
    let (k, r) = (vt::var("k"), vt::var("r"));
    vt::assume(vt::gt(k, 0.0));
    let km = vec![vec![k]];
    let u = gauss_seidel(sparse(&km), LinearMatrix::col_vec(vec![r]), 0.01, 200);
    residual(&km, &read(&u), &[r], 0.01);
}

// a loose tolerance, reached in the first or second sweep for any symmetric positive definite matrix
fn any(c: usize) {
    let n = 2;
    let k = sym_symmetric("k", n, &|_, _| c % 2 == 0);
    let r = vt::vars("r", n);
    assume_spd(&k);
    let tol = 1.0;
    if let Some(u) = vt::catches(|| gauss_seidel(sparse(&k), LinearMatrix::col_vec(r.clone()), tol, 0)) {
        residual(&k, &read(&u), &r, tol);
    }
}

// the rounds allowed run out: nothing is returned unless it is within the tolerance. The first three
// systems are not positive definite, on them the iteration need not converge
const HARD: [&[&[f64]]; 4] = [
    &[&[1.0, 1.25], &[1.25, 1.0]],
    &[&[1.0, 2.0, 0.0], &[2.0, 1.0, 0.5], &[0.0, 0.5, 3.0]],
    &[&[-1.0, 0.5], &[0.5, 2.0]],
    &[&[2.0, -1.0, -1.0], &[-1.0, 2.0, -1.0], &[-1.0, -1.0, 2.0]],
];
fn exhausted(c: usize) {
    let k: M = if c % 6 < 4 { HARD[c % 6].iter().map(|r| r.to_vec()).collect() } else { system([4, 8][c % 6 - 4]) };
    let r = vt::vars("r", k.len());
    let tol = 0.01;
    if let Some(u) = vt::catches(|| gauss_seidel(sparse(&k), LinearMatrix::col_vec(r.clone()), tol, [0, 1, 3][c / 6])) {
        residual(&k, &read(&u), &r, tol);
    }
}
fn exhausted_solver(c: usize) {
    let k: M = HARD[2 + c].iter().map(|r| r.to_vec()).collect();
    let s = vt::var("s");
    let r: Vec<f64> = (0..k.len()).map(|i| if i == 0 { s } else { s * -0.5 }).collect();
    let km = LinearMatrix::from_flat(k.len(), k.iter().flatten().cloned().collect::<Vec<f64>>());
    let sys = System::from_kr(&km, &LinearMatrix::col_vec(r.clone()));
    if let Some(Ok(u)) = vt::catches(move || GaussSeidelSolver::new(sys).solve()) {
        residual(&k, &u, &r, 0.001);
    }
}

// unloaded body
fn unloaded(c: usize) {
    let k = system(c);
    let n = k.len();
    let u = gauss_seidel(sparse(&k), LinearMatrix::zeros((n, 1)), 0.001, 200);
    prove_vec("no load, no displacement", &read(&u), &vec![0.0; n]);
}

fn refused(_: usize) {
    let k = system(0);
    let bad = |k: CompressedRow, r: LinearMatrix| vt::catches(move || gauss_seidel(k, r, 0.1, 5)).is_none();
    vt::check("right-hand side of wrong length refused", bad(sparse(&k), LinearMatrix::zeros((3, 1))));
    vt::check("row as right-hand side refused", bad(sparse(&k), LinearMatrix::zeros((1, 2))));
    vt::check("rectangular matrix refused", bad(CompressedRow::from_flat((2, 3), vec![1.0, 0.0, 0.0, 0.0, 1.0, 0.0]), LinearMatrix::zeros((2, 1))));
    let zero = vec![vec![1.0, 1.0], vec![1.0, 0.0]];
    vt::check("missing diagonal refused", bad(sparse(&zero), LinearMatrix::zeros((2, 1))));
}

pub fn list() -> Vec<vt::Harness> {
    vec![("load", tier(18, 27), load), ("solver", 20, solver), ("single", 1, single), ("any", 2, any), ("unloaded", 10, unloaded), ("refused", 1, refused), ("exhausted", 18, exhausted), ("exhausted_solver", 2, exhausted_solver)]
}
