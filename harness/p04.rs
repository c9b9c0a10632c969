// Triangular substitution solves the triangular system it is given.
use crate::matrix::solve::direct::{solve_ldl, solve_ll};
use crate::matrix::*;
use crate::util::*;

fn zeros(r: usize, c: usize) -> M {
    vec![vec![0.0; c]; r]
}
fn read<T: MatrixLike>(m: &T) -> M {
    let (r, c) = m.shape();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)]).collect()).collect()
}
fn identity(n: usize) -> M {
    let mut e = zeros(n, n);
    for i in 0..n {
        e[i][i] = 1.0;
    }
    e
}

fn forward(c: usize) {
    let n = c + 1;
    let mut l = LowerTriangular::zeros(n);
    let mut m = zeros(n, n);
    for i in 0..n {
        for j in 0..(i + 1) {
            m[i][j] = vt::var(&format!("l{}_{}", i, j));
            l[(i, j)] = m[i][j];
        }
        vt::assume(vt::ne(m[i][i], 0.0));
    }
    let b = vt::vars("b", n);
    prove_vec("L x = b", &mat_vec(&m, &l.forward_sub(&b)), &b);
    let x = l.tri_inv();
    prove_mat("L inverse(L) = 1", &mat_mul(&m, &read(&x)), &identity(n));
    prove_mat("inverse(L) L = 1", &mat_mul(&read(&x), &m), &identity(n));
}

fn backward(c: usize) {
    let n = c + 1;
    let mut u = UpperTriangular::zeros(n);
    let mut m = zeros(n, n);
    for i in 0..n {
        for j in i..n {
            m[i][j] = vt::var(&format!("u{}_{}", i, j));
            u[(i, j)] = m[i][j];
        }
        vt::assume(vt::ne(m[i][i], 0.0));
    }
    let b = vt::vars("b", n);
    prove_vec("U x = b", &mat_vec(&m, &u.backward_sub(&b)), &b);
    let x = u.tri_inv();
    prove_mat("U inverse(U) = 1", &mat_mul(&m, &read(&x)), &identity(n));
    prove_mat("inverse(U) U = 1", &mat_mul(&read(&x), &m), &identity(n));
}

// every envelope of an n-row matrix is one of n! choices of row extents
fn env(n: usize, mut k: usize) -> Vec<usize> {
    (0..n)
        .map(|i| {
            let e = 1 + k % (i + 1);
            k /= i + 1;
            e
        })
        .collect()
}

fn env_mat(n: usize, e: &[usize], unit: bool) -> (LowerRowEnvelope, M) {
    let mut l = LowerRowEnvelope::from_envelope(e.to_vec());
    let mut m = zeros(n, n);
    for i in 0..n {
        for j in 0..(i + 1) {
            if j + e[i] > i {
                m[i][j] = if unit && i == j { 1.0 } else { vt::var(&format!("l{}_{}", i, j)) };
                l[(i, j)] = m[i][j];
            }
        }
        if !unit {
            vt::assume(vt::ne(m[i][i], 0.0));
        }
    }
    (l, m)
}

fn envelope_n(n: usize, c: usize) {
    let e = env(n, c);
    let (l, m) = env_mat(n, &e, false);
    let b = vt::vars("b", n);
    // whatever the output buffer holds beforehand
    let mut x = vt::vars("junk", n);
    l.solve(&b, &mut x);
    prove_vec("envelope L x = b", &mat_vec(&m, &x), &b);
    let mut x = vt::vars("rubbish", n);
    l.solve_transposed(&b, &mut x);
    prove_vec("envelope L' x = b", &mat_vec(&transpose(&m), &x), &b);
    if n > 3 && c > 8 && !vt::thorough() {
        return;
    }
    let mut x = vt::vars("waste", n);
    solve_ll(&l, &b, &mut x);
    prove_vec("envelope L L' x = b", &mat_vec(&mat_mul(&m, &transpose(&m)), &x), &b);
}
fn envelope3(c: usize) {
    envelope_n(3, c)
}
fn envelope4(c: usize) {
    envelope_n(4, c)
}
fn envelope5(c: usize) {
    envelope_n(5, c)
}
fn envelope12(c: usize) {
    envelope_n(1 + c.min(1), if c == 2 { 1 } else { 0 })
}

// the trailing square sub-block [from, to) of the system
fn submatrix(c: usize) {
    let n = 4;
    let e = env(n, c);
    let (l, m) = env_mat(n, &e, false);
    for from in 0..n {
        for to in (from + 1)..(n + 1) {
            let k = to - from;
            let b = vt::vars(&format!("b{}_{}_", from, to), k);
            let mut x = vec![0.0; k];
            l.solve_submatrix(&b, &mut x, (from, to));
            let idx: Vec<usize> = (from..to).collect();
            prove_vec("sub-block L x = b", &mat_vec(&sub(&m, &idx, &idx), &x), &b);
        }
    }
}

fn ldl(c: usize) {
    let n = 4;
    let e = env(n, c);
    let (l, m) = env_mat(n, &e, true);
    let d = vt::vars("d", n);
    let mut md = zeros(n, n);
    for i in 0..n {
        vt::assume(vt::ne(d[i], 0.0));
        md[i][i] = d[i];
    }
    let dd: Diagonal = d.clone().into();
    let b = vt::vars("b", n);
    let mut y = b.clone();
    dd.solve(&mut y);
    prove_vec("D x = b", &mat_vec(&md, &y), &b);
    let mut x = vt::vars("junk", n);
    solve_ldl(&l, &dd, &b, &mut x);
    let k = mat_mul(&mat_mul(&m, &md), &transpose(&m));
    prove_vec("L D L' x = b", &mat_vec(&k, &x), &b);
}

// larger triangular systems: fixed values, arbitrary right-hand side
fn big(c: usize) {
    let mut dice = Dice::new(c);
    let n = 8 + c % 6;
    let b = vt::vars("b", n);
    let (mut l, mut u) = (LowerTriangular::zeros(n), UpperTriangular::zeros(n));
    let mut m = zeros(n, n);
    for i in 0..n {
        for j in 0..(i + 1) {
            m[i][j] = dice.num();
            l[(i, j)] = m[i][j];
            u[(j, i)] = m[i][j];
        }
    }
    let t = transpose(&m);
    prove_vec("L x = b", &mat_vec(&m, &l.forward_sub(&b)), &b);
    prove_vec("U x = b", &mat_vec(&t, &u.backward_sub(&b)), &b);
    prove_mat("L inverse(L) = 1", &mat_mul(&m, &read(&l.tri_inv())), &identity(n));
    prove_mat("U inverse(U) = 1", &mat_mul(&t, &read(&u.tri_inv())), &identity(n));
    let e: Vec<usize> = (0..n).map(|i| 1 + if c % 3 == 0 { i } else { dice.next(i + 1) }).collect();
    let (mut l, mut k, mut unit, mut uk) = (LowerRowEnvelope::from_envelope(e.clone()), zeros(n, n), LowerRowEnvelope::from_envelope(e.clone()), zeros(n, n));
    for i in 0..n {
        for j in (i + 1 - e[i])..(i + 1) {
            k[i][j] = dice.num();
            l[(i, j)] = k[i][j];
            uk[i][j] = if i == j { 1.0 } else { k[i][j] };
            unit[(i, j)] = uk[i][j];
        }
    }
    let mut x = vt::vars("junk", n);
    l.solve(&b, &mut x);
    prove_vec("envelope L x = b", &mat_vec(&k, &x), &b);
    for (from, to) in [(0, n), (1, n - 1), (3, n), (2, n - 2), (n - 1, n)].iter() {
        let mut x = vec![0.0; to - from];
        l.solve_submatrix(&b[*from..*to], &mut x, (*from, *to));
        let idx: Vec<usize> = (*from..*to).collect();
        prove_vec("sub-block L x = b", &mat_vec(&sub(&k, &idx, &idx), &x), &b[*from..*to]);
    }
    // these skip zero entries as they go: a line of right-hand sides
    let t = vt::var("t");
    let b: Vec<f64> = (0..n).map(|_| dice.num() + dice.num() * t).collect();
    let mut x = vt::vars("rubbish", n);
    l.solve_transposed(&b, &mut x);
    prove_vec("envelope L' x = b", &mat_vec(&transpose(&k), &x), &b);
    let mut x = vt::vars("waste", n);
    solve_ll(&l, &b, &mut x);
    prove_vec("envelope L L' x = b", &mat_vec(&k, &mat_vec(&transpose(&k), &x)), &b);
    let d: Vec<f64> = (0..n).map(|_| dice.num()).collect();
    let dd: Diagonal = d.clone().into();
    let mut x = vt::vars("rest", n);
    solve_ldl(&unit, &dd, &b, &mut x);
    let y = mat_vec(&transpose(&uk), &x);
    prove_vec("L D L' x = b", &mat_vec(&uk, &(0..n).map(|i| d[i] * y[i]).collect::<Vec<f64>>()), &b);
}

pub fn list() -> Vec<vt::Harness> {
    let mut v: Vec<vt::Harness> = vec![
        ("forward", tier(4, 5), forward),
        ("backward", tier(4, 5), backward),
        ("big", tier(12, 60), big),
        ("envelope12", 3, envelope12),
        ("envelope3", 6, envelope3),
        ("envelope4", 24, envelope4),
        ("submatrix", 24, submatrix),
        ("ldl", 24, ldl),
    ];
    if vt::thorough() {
        v.push(("envelope5", 120, envelope5));
    }
    v
}
