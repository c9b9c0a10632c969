// Factorizations multiply back to the matrix they factor and keep the promised structure.
use crate::matrix::solve::direct::{cholesky_envelope, cholesky_envelope_no_root};
use crate::matrix::*;
use crate::util::*;

fn read<T: MatrixLike>(m: &T) -> M {
    let (r, c) = m.shape();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)]).collect()).collect()
}
fn flat(m: &M) -> Vec<f64> {
    m.iter().flatten().cloned().collect()
}

fn lu(c: usize) {
    let n = c + 1;
    let a = sym_mat("a", n, n);
    // elimination without pivoting is defined when the leading minors do not vanish
    for k in 1..n {
        let idx: Vec<usize> = (0..k).collect();
        vt::assume(vt::ne(det(&sub(&a, &idx, &idx)), 0.0));
    }
    let (l, u) = LinearMatrix::from_flat(n, flat(&a)).lu_decompose();
    let (l, u) = (read(&l), read(&u));
    for i in 0..n {
        vt::prove("L has a unit diagonal", vt::eq(l[i][i], 1.0));
        for j in 0..n {
            vt::prove("factors are triangular", vt::eq(if j > i { l[i][j] } else if j < i { u[i][j] } else { 0.0 }, 0.0));
        }
    }
    prove_mat("L U = A", &mat_mul(&l, &u), &a);
}

fn lu_nonsquare(_: usize) {
    let (r, c) = [(2, 3), (3, 2), (1, 2), (2, 1)][vt::choose("shape", 4)];
    let m = LinearMatrix::from_flat((r, c), flat(&sym_mat("a", r, c)));
    vt::check("a non-square matrix is not factored", vt::catches(|| m.lu_decompose()).is_none());
}

fn env(n: usize, mut k: usize) -> Vec<usize> {
    (0..n)
        .map(|i| {
            let e = 1 + k % (i + 1);
            k /= i + 1;
            e
        })
        .collect()
}

fn symmetric(n: usize, e: &[usize]) -> (LowerRowEnvelope, M) {
    let m = sym_symmetric("a", n, &|i, j| j + e[i] > i);
    let mut l = LowerRowEnvelope::from_envelope(e.to_vec());
    for i in 0..n {
        for j in 0..(i + 1) {
            if j + e[i] > i {
                l[(i, j)] = m[i][j];
            }
        }
    }
    (l, m)
}

fn inside(tag: &str, e: &[usize], l: &M) {
    for i in 0..l.len() {
        for j in 0..l.len() {
            if j > i || j + e[i] <= i {
                vt::prove(&format!("{}: no fill outside the envelope", tag), vt::eq(l[i][j], 0.0));
            }
        }
    }
}

fn chol(n: usize, c: usize) {
    let e = env(n, c);
    let (a, m) = symmetric(n, &e);
    assume_spd(&m);
    let l = cholesky_envelope(&a);
    vt::check("LL': envelope kept", l.envelope() == e);
    let l = read(&l);
    inside("LL'", &e, &l);
    for i in 0..n {
        vt::prove("LL': positive diagonal", vt::gt(l[i][i], 0.0));
    }
    prove_mat("L L' = A", &mat_mul(&l, &transpose(&l)), &m);
}
fn chol12(c: usize) {
    chol(1 + c.min(1), if c == 2 { 1 } else { 0 })
}
fn chol3(c: usize) {
    chol(3, c)
}
fn chol4(c: usize) {
    chol(4, c)
}

fn ldl(n: usize, c: usize) {
    let e = env(n, c);
    let (a, m) = symmetric(n, &e);
    for k in 1..n {
        let idx: Vec<usize> = (0..k).collect();
        vt::assume(vt::ne(det(&sub(&m, &idx, &idx)), 0.0));
    }
    let (l, d) = cholesky_envelope_no_root(&a);
    vt::check("LDL': envelope kept", l.envelope() == e);
    let l = read(&l);
    inside("LDL'", &e, &l);
    for i in 0..n {
        vt::prove("LDL': unit diagonal", vt::eq(l[i][i], 1.0));
    }
    let dm = read(&d);
    prove_mat("L D L' = A", &mat_mul(&mat_mul(&l, &dm), &transpose(&l)), &m);
    vt::prove("LDL': determinant", vt::eq(d.product(), det(&m)));
}
fn ldl12(c: usize) {
    ldl(1 + c.min(1), if c == 2 { 1 } else { 0 })
}
fn ldl3(c: usize) {
    ldl(3, c)
}
fn ldl4(c: usize) {
    ldl(4, c)
}
fn ldl5(c: usize) {
    ldl(5, c * 7 % 120)
}

// larger matrices of known factors: fixed values, with one factor entry left open
fn unit_lower(dice: &mut Dice, n: usize, has: &dyn Fn(usize, usize) -> bool) -> M {
    (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else if j < i && has(i, j) { dice.num() } else { 0.0 }).collect()).collect()
}
fn big(c: usize) {
    let mut dice = Dice::new(c);
    let n = 6 + c % 6;
    let k = dice.next(n);
    let t = vt::var("t");
    vt::assume(vt::gt(t, 0.5));
    // L U with an open diagonal entry
    let lm = unit_lower(&mut dice, n, &|_, _| true);
    let mut um = transpose(&unit_lower(&mut dice, n, &|_, _| true));
    for i in 0..n {
        um[i][i] = if i == k { t } else { dice.num() };
    }
    let a = mat_mul(&lm, &um);
    let (l, u) = LinearMatrix::from_flat(n, flat(&a)).lu_decompose();
    prove_mat("the unit lower factor is the only one", &read(&l), &lm);
    prove_mat("the upper factor is the only one", &read(&u), &um);
    // the envelope factorisations
    let e: Vec<usize> = (0..n).map(|i| 1 + if c % 3 == 0 { i } else { dice.next(i + 1) }).collect();
    let has = |i: usize, j: usize| j + e[i] > i;
    let lm = unit_lower(&mut dice, n, &has);
    let d: Vec<f64> = (0..n).map(|i| if i == k { t } else { dice.num() }).collect();
    let scaled = |m: &M, d: &[f64]| -> M { m.iter().map(|r| r.iter().zip(d.iter()).map(|(x, y)| *x * *y).collect()).collect() };
    let put = |m: &M| {
        let mut x = LowerRowEnvelope::from_envelope(e.clone());
        for i in 0..n {
            for j in (i + 1 - e[i])..(i + 1) {
                x[(i, j)] = m[i][j];
            }
        }
        x
    };
    let a = mat_mul(&scaled(&lm, &d), &transpose(&lm));
    let (l, dd) = cholesky_envelope_no_root(&put(&a));
    vt::check("LDL': envelope kept", l.envelope() == e);
    prove_mat("LDL': the unit factor is the only one", &read(&l), &lm);
    for i in 0..n {
        vt::prove("LDL': the diagonal is the only one", vt::eq(dd[i], d[i]));
    }
    let root: Vec<f64> = d.iter().map(|x| if *x > 0.0 { *x } else { -*x }).collect();
    let g = scaled(&lm, &root);
    let l = cholesky_envelope(&put(&mat_mul(&g, &transpose(&g))));
    vt::check("LL': envelope kept", l.envelope() == e);
    let l = read(&l);
    for i in 0..n {
        vt::prove("LL': positive diagonal", vt::gt(l[i][i], 0.0));
    }
    prove_mat("LL': the positive factor is the only one", &l, &g);
}

pub fn list() -> Vec<vt::Harness> {
    let mut v: Vec<vt::Harness> = vec![
        ("lu", tier(3, 4), lu),
        ("big", tier(12, 60), big),
        ("lu_nonsquare", 1, lu_nonsquare),
        ("chol12", 3, chol12),
        ("chol3", 6, chol3),
        ("chol4", 24, chol4),
        ("ldl12", 3, ldl12),
        ("ldl3", 6, ldl3),
        ("ldl4", 24, ldl4),
    ];
    if vt::thorough() {
        v.push(("ldl5", 120, ldl5));
    }
    v
}
