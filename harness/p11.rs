// Counting eigenvalues below a value: the inertia of the shifted matrix.
use crate::matrix::solve::eigen::{DeterminantSearcher, EigenSystem};
use crate::matrix::solve::System;
use crate::matrix::{LinearMatrix, MatrixLike};
use crate::util::*;

fn mat(k: &M) -> LinearMatrix {
    LinearMatrix::from_flat(k.len(), k.iter().flatten().cloned().collect::<Vec<f64>>())
}
fn searcher(k: &M, m: &M) -> DeterminantSearcher {
    DeterminantSearcher::new(EigenSystem::new(System::from_km(&mat(k), &mat(m))))
}
fn minors(n: usize) -> Vec<usize> {
    (1..(1usize << n)).collect()
}
// the number of negative eigenvalues of a, a nonsingular symmetric matrix of at most 3 rows
fn negatives(n: usize, a: &M, got: usize) -> vt::B {
    let pd = vt::all(minors(n).into_iter().map(|s| vt::gt(principal(a, s), 0.0)));
    let neg: M = a.iter().map(|r| r.iter().map(|x| -*x).collect()).collect();
    let nd = vt::all(minors(n).into_iter().map(|s| vt::gt(principal(&neg, s), 0.0)));
    let d = det(a);
    if got == 0 {
        pd
    } else if got == n {
        nd
    } else if got > n {
        vt::truth(false)
    } else {
        // the sign of the determinant is that of the number of negative eigenvalues
        let even = if got % 2 == 0 { vt::gt(d, 0.0) } else { vt::lt(d, 0.0) };
        even.and(pd.not()).and(nd.not())
    }
}

// arbitrary symmetric K and M of the same sparsity, arbitrary shift
fn count(n: usize, pattern: usize, diag_m: bool) {
    // K = A + l M: any K, M and l can be written so, and the answer is about A
    let a = sym_symmetric("a", n, &|i, j| bit(pattern, i, j));
    let l = vt::var("l");
    let m = sym_symmetric("m", n, &|i, j| !diag_m && bit(pattern, i, j));
    let k: M = (0..n).map(|i| (0..n).map(|j| a[i][j] + l * m[i][j]).collect()).collect();
    // diagonal entries are what positive definite matrices have; nothing else is asked of K and M
    for i in 0..n {
        vt::assume(vt::gt(k[i][i], 0.0));
        vt::assume(vt::gt(m[i][i], 0.0));
        for j in 0..i {
            if bit(pattern, i, j) {
                vt::assume(vt::ne(k[i][j], 0.0));
            }
        }
    }
    // no leading block of the shifted matrix, in whatever order, is exactly singular
    for s in minors(n) {
        vt::assume(vt::ne(principal(&a, s), 0.0));
    }
    let got = searcher(&k, &m).eigenvalues_under(l);
    vt::prove("eigenvalues below the shift are counted", negatives(n, &a, got));
}
fn count12(c: usize) {
    count(1 + c.min(1), if c == 2 { 1 } else { 0 }, false)
}
fn count3(c: usize) {
    count(3, c % 8, c < 8)
}

// known spectra, any shift: the count steps exactly at the eigenvalues
fn spectrum(c: usize) {
    // K = Q' diag(w) Q with rational orthogonal Q (rows of a 3-4-5 rotation embedded), M = 1
    let n = 3 + c % 2;
    let w: [f64; 4] = [1.0, 2.0, 4.0, 8.0];
    let mut q: M = (0..n).map(|i| unit(n, i)).collect();
    for p in 0..(n - 1) {
        let g: M = {
            let mut g: M = (0..n).map(|i| unit(n, i)).collect();
            g[p][p] = 0.6;
            g[p + 1][p + 1] = 0.6;
            g[p][p + 1] = -0.8;
            g[p + 1][p] = 0.8;
            g
        };
        q = mat_mul(&g, &q);
    }
    let d: M = (0..n).map(|i| (0..n).map(|j| if i == j { w[i] } else { 0.0 }).collect()).collect();
    let mut k = mat_mul(&mat_mul(&transpose(&q), &d), &q);
    let mut m: M = (0..n).map(|i| unit(n, i)).collect();
    // coordinates scaled differently: K -> S K S, M -> S S
    if c / 2 == 1 {
        let s = [1.0, 2.0, 0.5, 4.0];
        for i in 0..n {
            for j in 0..n {
                k[i][j] = k[i][j] * s[i] * s[j];
                m[i][j] = m[i][j] * s[i] * s[j];
            }
        }
    }
    let l = vt::var("l");
    let a: M = (0..n).map(|i| (0..n).map(|j| k[i][j] - l * m[i][j]).collect()).collect();
    for s in minors(n) {
        vt::assume(vt::ne(principal(&a, s), 0.0));
    }
    let got = searcher(&k, &m).eigenvalues_under(l);
    vt::check("no more eigenvalues than unknowns", got <= n);
    if got > 0 {
        vt::prove("counted eigenvalues lie below", vt::gt(l, w[got - 1]));
    }
    if got < n {
        vt::prove("eigenvalues not counted lie above", vt::lt(l, w[got]));
    }
}
fn unit(n: usize, i: usize) -> Vec<f64> {
    (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()
}

// every coupling pattern of four unknowns (thorough: five), any shift. Jacobi: the number of negative
// eigenvalues is the number of sign changes in the leading minors
const OFF: [f64; 10] = [1.0, -0.5, 2.0, 1.5, -1.0, 0.75, -2.0, 0.5, 1.25, -1.5];
fn graphs(n: usize, pattern: usize, free: bool) {
    let mut k: M = vec![vec![0.0; n]; n];
    let mut m: M = vec![vec![0.0; n]; n];
    let first = (0..pairs(n)).find(|i| pattern >> i & 1 == 1);
    for i in 0..n {
        k[i][i] = 4.0 + (i * i) as f64;
        m[i][i] = [1.0, 2.0, 0.5, 1.0, 1.5][i];
        for j in 0..i {
            if bit(pattern, i, j) {
                let at = i * (i - 1) / 2 + j;
                let x = if free && Some(at) == first { vt::var("x") } else { OFF[at] };
                k[i][j] = x;
                k[j][i] = x;
                if pattern % 3 == 1 {
                    m[i][j] = OFF[9 - at] * 0.125;
                    m[j][i] = m[i][j];
                }
            }
        }
    }
    let l = vt::var("l");
    vt::assume(vt::le(l, 100.0).and(vt::ge(l, -100.0)));
    let a: M = (0..n).map(|i| (0..n).map(|j| k[i][j] - l * m[i][j]).collect()).collect();
    for s in minors(n) {
        vt::assume(vt::ne(principal(&a, s), 0.0));
    }
    let got = searcher(&k, &m).eigenvalues_under(l);
    let (mut neg, mut sign) = (0, true);
    for s in 1..(n + 1) {
        let pos = principal(&a, (1 << s) - 1) > 0.0;
        if pos != sign {
            neg += 1;
        }
        sign = pos;
    }
    vt::check("eigenvalues below the shift are counted, every coupling", got == neg);
}
fn graphs4(c: usize) {
    graphs(4, c, false)
}
fn graphs5(c: usize) {
    graphs(5, (c * 37 + 1023) % 1024, false)
}
fn graphs4_free(c: usize) {
    graphs(4, c + 1, true)
}

// mass may couple unknowns that stiffness does not
fn coupled_mass(c: usize) {
    let n = 2 + c;
    let (p, q) = (vt::var("p"), vt::var("q"));
    vt::assume(vt::gt(p, 0.0).and(vt::gt(q, 0.0)));
    let mut k: M = vec![vec![0.0; n]; n];
    let mut m: M = vec![vec![1.0; n]; n];
    for i in 0..n {
        k[i][i] = p;
        m[i][i] = 2.0 * q;
        for j in 0..n {
            if i != j {
                m[i][j] = q;
            }
        }
    }
    let l = vt::var("l");
    let a: M = (0..n).map(|i| (0..n).map(|j| k[i][j] - l * m[i][j]).collect()).collect();
    for s in minors(n) {
        vt::assume(vt::ne(principal(&a, s), 0.0));
    }
    let got = searcher(&k, &m).eigenvalues_under(l);
    vt::prove("eigenvalues below the shift are counted, coupled mass", negatives(n, &a, got));
}

// larger bodies: several uncoupled parts of known spectrum, their unknowns interleaved, each on its own scale
fn big(c: usize) {
    vt::set_hash_seed(c);
    let mut dice = Dice::new(c);
    let sizes: &[usize] = [&[2, 2, 2][..], &[3, 3], &[2, 1, 3], &[4, 2], &[2, 2, 2, 2], &[3, 2, 3], &[1, 1, 1, 1, 1, 1, 1]][c % 7];
    let n = sizes.iter().sum();
    let label = dice.perm(n);
    let level = dice.perm(n);
    let (mut k, mut m) = (vec![vec![0.0; n]; n], vec![vec![0.0; n]; n]);
    let l = vt::var("l");
    vt::assume(vt::le(l, 1000.0).and(vt::ge(l, -1000.0)));
    let mut at = 0;
    for &z in sizes {
        let mut q: M = (0..z).map(|i| unit(z, i)).collect();
        for p in 1..z {
            let (co, si) = [(0.6, 0.8), (0.8, -0.6), (0.28, 0.96)][dice.next(3)];
            let mut g: M = (0..z).map(|i| unit(z, i)).collect();
            g[p - 1][p - 1] = co;
            g[p][p] = co;
            g[p - 1][p] = -si;
            g[p][p - 1] = si;
            q = mat_mul(&g, &q);
        }
        let d: M = (0..z).map(|i| (0..z).map(|j| if i == j { 1.0 + 1.5 * level[at + i] as f64 } else { 0.0 }).collect()).collect();
        let b = mat_mul(&mat_mul(&transpose(&q), &d), &q);
        let s: Vec<f64> = (0..z).map(|_| [1.0, 2.0, 0.5, 4.0][dice.next(4)]).collect();
        let shifted: M = (0..z).map(|i| (0..z).map(|j| (b[i][j] - if i == j { l } else { 0.0 }) * s[i] * s[j]).collect()).collect();
        for x in minors(z) {
            vt::assume(vt::ne(principal(&shifted, x), 0.0));
        }
        for i in 0..z {
            m[label[at + i]][label[at + i]] = s[i] * s[i];
            for j in 0..z {
                k[label[at + i]][label[at + j]] = b[i][j] * s[i] * s[j];
            }
        }
        at += z;
    }
    let got = searcher(&k, &m).eigenvalues_under(l);
    vt::check("no more eigenvalues than unknowns", got <= n);
    let w = |i: usize| 1.0 + 1.5 * i as f64;
    if got > 0 {
        vt::prove("counted eigenvalues lie below", vt::gt(l, w(got - 1)));
    }
    if got < n {
        vt::prove("eigenvalues not counted lie above", vt::lt(l, w(got)));
    }
}

pub fn list() -> Vec<vt::Harness> {
    vec![("big", tier(14, 70), big), ("count12", 3, count12), ("count3", 16, count3), ("spectrum", 4, spectrum), ("coupled_mass", 2, coupled_mass), ("graphs4", 64, graphs4), ("graphs5", tier(12, 200), graphs5), ("graphs4_free", tier(0, 63), graphs4_free)]
}
