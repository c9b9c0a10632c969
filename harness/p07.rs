// Direct solvers: K u = r in the original ordering.
use crate::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use crate::matrix::solve::{Solver, System};
use crate::matrix::{LinearMatrix, MatrixLike};
use crate::util::*;

fn system(k: &M, r: &[f64], incremental: bool) -> System {
    let n = k.len();
    if incremental {
        // as the element assembly does: repeated accumulation at the same location
        let mut s = System::new(n);
        for i in 0..n {
            for j in 0..n {
                s.add_k_coefficient((i, j), k[i][j] - 1.0);
                s.add_k_coefficient((i, j), 1.0);
            }
            s.add_rhs_val(i, r[i] + 2.0);
            s.add_rhs_val(i, -2.0);
        }
        s
    } else {
        let km = LinearMatrix::from_flat(n, k.iter().flatten().cloned().collect::<Vec<f64>>());
        let rm = LinearMatrix::from_flat((n, 1), r.to_vec());
        System::from_kr(&km, &rm)
    }
}

fn gauss(n: usize, dense: bool, split: Option<usize>) {
    let k = if dense { sym_mat("k", n, n) } else { sym_symmetric("k", n, &|_, _| true) };
    // signs of the first column, to split the work
    if let Some(c) = split {
        for i in 0..n {
            vt::assume(if bit0(c, i) { vt::ge(k[i][0], 0.0) } else { vt::lt(k[i][0], 0.0) });
        }
    }
    let r = vt::vars("r", n);
    match DenseGaussSolver::new(system(&k, &r, false)).solve() {
        Ok(u) => {
            vt::check("gauss: one value per dof", u.len() == n);
            for x in u.iter() {
                vt::prove("gauss: finite", vt::is_finite(*x));
            }
            prove_vec("gauss: K u = r", &mat_vec(&k, &u), &r);
        }
        Err(_) => vt::prove("gauss: Err only when singular", vt::eq(det(&k), 0.0)),
    }
}

fn bit0(c: usize, i: usize) -> bool {
    c >> i & 1 == 1
}
fn gauss_any(c: usize) {
    gauss(c + 1, true, None)
}
fn gauss3(c: usize) {
    gauss(3, true, Some(c))
}
fn gauss3sym(c: usize) {
    gauss(3, false, Some(c))
}

fn chol(n: usize, pattern: usize, incremental: bool) {
    let k = sym_symmetric("k", n, &|i, j| bit(pattern, i, j));
    let r = vt::vars("r", n);
    assume_spd(&k);
    for i in 0..n {
        for j in 0..i {
            if bit(pattern, i, j) {
                vt::assume(vt::ne(k[i][j], 0.0));
            }
        }
    }
    match CholeskyEnvelopeSolver::new(system(&k, &r, incremental)).solve() {
        Ok(u) => {
            vt::check("cholesky: one value per dof", u.len() == n);
            prove_vec("cholesky: K u = r", &mat_vec(&k, &u), &r);
        }
        Err(_) => vt::check("cholesky: solves every SPD system", false),
    }
}
// symmetric but otherwise arbitrary: an answer is right or there is none
fn chol_any(c: usize) {
    let (n, pattern) = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (3, 6), (3, 7)][c];
    let k = sym_symmetric("k", n, &|i, j| bit(pattern, i, j));
    let r = vt::vars("r", n);
    for i in 0..n {
        for j in 0..i {
            if bit(pattern, i, j) {
                vt::assume(vt::ne(k[i][j], 0.0));
            }
        }
    }
    // a refusal may be an error value or a panic (an empty row is refused at construction)
    match vt::catches(|| CholeskyEnvelopeSolver::new(system(&k, &r, false)).solve()) {
        Some(Ok(u)) => {
            vt::check("cholesky: one value per dof", u.len() == n);
            for x in u.iter() {
                vt::prove("cholesky: finite", vt::is_finite(*x));
            }
            prove_vec("cholesky: K u = r", &mat_vec(&k, &u), &r);
        }
        _ => vt::prove("cholesky: no answer only when not positive definite", vt::any((1..(1usize << n)).map(|s| vt::le(principal(&k, s), 0.0)))),
    }
}
fn chol1(_: usize) {
    chol(1, 0, false);
    chol(1, 0, true);
}
fn chol2(c: usize) {
    chol(2, c, false);
    chol(2, c, true);
}
fn chol3(c: usize) {
    chol(3, c, false)
}
fn chol3i(c: usize) {
    chol(3, c, true)
}
fn chol4(c: usize) {
    chol(4, c, false)
}

// larger systems: fixed values, arbitrary loads
fn big_gauss(c: usize) {
    let mut dice = Dice::new(c);
    let n = 4 + c % 6;
    let mut l: M = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else if j < i && (c % 3 > 0 || dice.next(2) == 0) { dice.num() } else { 0.0 }).collect()).collect();
    let u: M = (0..n).map(|i| (0..n).map(|j| if j >= i { dice.num() } else { 0.0 }).collect()).collect();
    let p = dice.perm(n);
    l = p.iter().map(|&i| l[i].clone()).collect();
    let k = mat_mul(&l, &u);
    let r = vt::vars("r", n);
    match DenseGaussSolver::new(system(&k, &r, c % 2 == 0)).solve() {
        Ok(x) => prove_vec("gauss: K u = r", &mat_vec(&k, &x), &r),
        Err(_) => vt::check("gauss: solves every regular system", false),
    }
}
fn big_chol(c: usize) {
    vt::set_hash_seed(c);
    let mut dice = Dice::new(c + 9);
    let n = 6 + c % 7;
    // G G' of a sparse G, renumbered
    let mut g: M = (0..n).map(|i| (0..n).map(|j| if i == j { [1.0, 2.0, 0.5, 4.0][dice.next(4)] } else if j < i && dice.next(1 + n / 2) == 0 { dice.num() } else { 0.0 }).collect()).collect();
    let p = dice.perm(n);
    g = p.iter().map(|&i| g[i].clone()).collect();
    let k = mat_mul(&g, &transpose(&g));
    // zero entries are skipped along the way: a line of loads
    let t = vt::var("t");
    let r: Vec<f64> = (0..n).map(|_| dice.num() + dice.num() * t).collect();
    match CholeskyEnvelopeSolver::new(system(&k, &r, c % 2 == 0)).solve() {
        Ok(x) => prove_vec("cholesky: K u = r", &mat_vec(&k, &x), &r),
        Err(_) => vt::check("cholesky: solves every SPD system", false),
    }
}

// with the rounding of the machine on the way: pivots are to be chosen by size
fn rounding(c: usize) {
    let k = touchy(c);
    let n = k.len();
    let r = vt::vars("r", n);
    let s = vt::rounded(|| system(&k, &r, false));
    match vt::rounded(|| DenseGaussSolver::new(s).solve()) {
        Ok(x) => prove_near("gauss: K u = r within rounding", &mat_vec(&k, &x), &r, &r, 0.000000001),
        Err(_) => vt::check("gauss: solves every regular system", false),
    }
}

pub fn list() -> Vec<vt::Harness> {
    vec![
        ("gauss_any", 2, gauss_any),
        ("gauss3", 8, gauss3),
        ("gauss3sym", 8, gauss3sym),
        ("big_gauss", tier(12, 60), big_gauss),
        ("big_chol", tier(14, 70), big_chol),
        ("rounding", tier(13, 60), rounding),
        ("chol_any", 11, chol_any),
        ("chol1", 1, chol1),
        ("chol2", 2, chol2),
        ("chol3", 8, chol3),
        ("chol3i", 8, chol3i),
        ("chol4", 64, chol4),
    ]
}
