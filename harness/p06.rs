// Determinants and inverses.
use crate::matrix::*;
use crate::util::*;

fn read<T: MatrixLike>(m: &T) -> M {
    let (r, c) = m.shape();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)]).collect()).collect()
}
fn flat(m: &M) -> Vec<f64> {
    m.iter().flatten().cloned().collect()
}
fn identity(n: usize) -> M {
    (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect()
}
fn square<const S: usize>(a: &M) -> ConstMatrix<S> {
    MatrixLike::from_flat(a.len(), flat(a))
}

// entries are zero or of ordinary magnitude, so that no pivot is lost below the 1e-100 cut-off
fn ordinary(a: &M) {
    for x in flat(a) {
        vt::assume(vt::eq(x, 0.0).or(vt::ge(x, 0.001)).or(vt::le(x, -0.001)));
    }
}

// signs of the first column, to split the work
fn split(a: &M, c: usize) {
    for i in 0..a.len() {
        vt::assume(if c >> i & 1 == 1 { vt::ge(a[i][0], 0.0) } else { vt::lt(a[i][0], 0.0) });
    }
}

fn det_n(n: usize, c: usize) {
    let a = sym_mat("a", n, n);
    let want = det(&a);
    if n == 3 {
        split(&a, c);
    }
    let m = LinearMatrix::from_flat(n, flat(&a));
    let r = if n < 3 && c == 1 { m.det_lu_pivot() } else { m.determinant() };
    match r {
        Ok(d) => vt::prove("determinant", vt::eq(d, want)),
        Err(_) => {
            // only a pivot column that is negligible everywhere may be refused
            if n < 3 {
                for x in flat(&a) {
                    vt::assume(vt::le(x, 1000.0).and(vt::ge(x, -1000.0)));
                }
                vt::prove("determinant refused only when negligible", vt::le(want, 1e-90).and(vt::ge(want, -1e-90)));
            } else {
                vt::check("determinant refused", true);
            }
        }
    }
}
fn det1(c: usize) {
    det_n(1, c)
}
fn det2(c: usize) {
    det_n(2, c)
}
fn det3(c: usize) {
    det_n(3, c)
}

// a concrete family in which a refusal would be wrong: integers of moderate size
fn det_accept(c: usize) {
    let n = 2 + c % 2;
    let mut a = sym_mat("a", n, n);
    for i in 0..n {
        for j in 0..n {
            if i > 0 && j > 0 && i != j {
                a[i][j] = 0.0;
            }
        }
    }
    if n == 3 {
        split(&a, c / 2);
    }
    for x in flat(&a) {
        vt::assume(vt::le(x, 1000.0).and(vt::ge(x, -1000.0)));
    }
    let d = det(&a);
    vt::assume(vt::ge(d, 0.001).or(vt::le(d, -0.001)));
    let m = LinearMatrix::from_flat(n, flat(&a));
    vt::check("determinant of a clearly regular matrix exists", m.determinant().is_ok() && m.det_lu_pivot().is_ok());
}

fn nonsquare(_: usize) {
    let (r, c) = [(2, 3), (3, 2), (1, 2)][vt::choose("shape", 3)];
    let m = LinearMatrix::from_flat((r, c), flat(&sym_mat("a", r, c)));
    vt::check("determinant of a non-square matrix is refused", m.determinant().is_err() && m.det_lu_pivot().is_err());
    vt::check("inverse of a non-square matrix is refused", vt::catches(|| m.inverse()).is_none());
    vt::check("inverse by plain elimination of a non-square matrix is refused", vt::catches(|| m.inv_lu()).is_none());
}

// whatever is returned for a singular matrix cannot be mistaken for an inverse
fn singular(c: usize) {
    let n = if c < 2 { c + 1 } else { 3 };
    let mut a = sym_mat("a", n, n);
    if n == 3 {
        // one row, or one column, made of the other two; what is eliminated first is left open
        let (k, row) = ((c - 2) % 3, c < 5);
        let (s, t) = [(2.0, -1.0), (0.0, 1.0), (0.0, 0.0)][vt::choose("combination", 3)];
        for j in 0..3 {
            let (u, v) = ((k + 1) % 3, (k + 2) % 3);
            if row {
                a[k][j] = s * a[u][j] + t * a[v][j];
            } else {
                a[j][k] = s * a[j][u] + t * a[j][v];
            }
        }
    } else {
        vt::assume(vt::eq(det(&a), 0.0));
    }
    if let Some(x) = vt::catches(|| LinearMatrix::from_flat(n, flat(&a)).inverse()) {
        let x = read(&x);
        vt::check("a singular matrix has no finite inverse", x.iter().flatten().any(|x| !x.is_finite()));
    }
}

fn det_plain(c: usize) {
    let n = c + 1;
    let a = sym_mat("a", n, n);
    for k in 1..n {
        let idx: Vec<usize> = (0..k).collect();
        vt::assume(vt::ne(det(&sub(&a, &idx, &idx)), 0.0));
    }
    vt::prove("determinant by plain elimination", vt::eq(LinearMatrix::from_flat(n, flat(&a)).det_lu(), det(&a)));
    vt::assume(vt::ne(det(&a), 0.0));
    let x = read(&LinearMatrix::from_flat(n, flat(&a)).inv_lu());
    prove_mat("A inv_lu(A) = 1", &mat_mul(&a, &x), &identity(n));
}

fn inverse_n(n: usize, c: usize) {
    let a = sym_mat("a", n, n);
    if n == 3 {
        split(&a, c);
    }
    vt::assume(vt::ne(det(&a), 0.0));
    let x = read(&LinearMatrix::from_flat(n, flat(&a)).inverse());
    prove_mat("A inverse(A) = 1", &mat_mul(&a, &x), &identity(n));
    prove_mat("inverse(A) A = 1", &mat_mul(&x, &a), &identity(n));
}
fn inverse12(c: usize) {
    inverse_n(c + 1, 0)
}
fn inverse3(c: usize) {
    inverse_n(3, c)
}
fn inverse_const(_: usize) {
    let a = sym_mat("a", 2, 2);
    vt::assume(vt::ne(det(&a), 0.0));
    let m: ConstMatrix<4> = square(&a);
    prove_mat("A inverse(A) = 1 (fixed size)", &mat_mul(&a, &read(&m.inverse())), &identity(2));
    match m.determinant() {
        Ok(d) => vt::prove("determinant (fixed size)", vt::eq(d, det(&a))),
        Err(_) => vt::check("2x2 determinants do not fail", false),
    }
    let s = vt::var("s");
    vt::assume(vt::ne(s, 0.0));
    let m: ConstMatrix<1> = square(&vec![vec![s]]);
    vt::prove("1x1 inverse", vt::eq(m.inverse()[(0, 0)] * s, 1.0));
}
// structured larger matrices: a permuted diagonal plus one row, where unpivoted elimination breaks down
fn inverse4(c: usize) {
    let n = 4;
    let p = perm_by_index(n, c);
    let mut a = vec![vec![0.0; n]; n];
    for i in 0..n {
        a[i][p[i]] = vt::var(&format!("d{}", i));
        vt::assume(vt::ne(a[i][p[i]], 0.0));
    }
    for j in 0..n {
        if j != p[n - 1] {
            a[n - 1][j] = vt::var(&format!("r{}", j));
        }
    }
    let x = read(&LinearMatrix::from_flat(n, flat(&a)).inverse());
    prove_mat("A inverse(A) = 1 (4x4)", &mat_mul(&a, &x), &identity(n));
}

// larger matrices of known determinant: rows of L U in another order, one diagonal entry of U left open
fn big(c: usize) {
    let mut dice = Dice::new(c);
    let n = 4 + c % 5;
    let k = if c % 2 == 0 { n - 1 } else { n - 1 - dice.next(2) };
    let t = vt::var("t");
    vt::assume(vt::ge(t, 0.01).and(vt::le(t, 100.0)));
    let mut l: M = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else if j < i { dice.num() } else { 0.0 }).collect()).collect();
    if c % 3 == 0 {
        // sparse: zeros met on the way force exchanges
        for i in 0..n {
            for j in 0..i {
                if dice.next(2) == 0 {
                    l[i][j] = 0.0;
                }
            }
        }
    }
    let u: M = (0..n).map(|i| (0..n).map(|j| if i == j { if i == k { t } else { dice.num() } } else if j > i { dice.num() } else { 0.0 }).collect()).collect();
    let lu = mat_mul(&l, &u);
    let p = dice.perm(n);
    let a: M = p.iter().map(|&i| lu[i].clone()).collect();
    let mut odd = 0;
    for i in 0..n {
        odd += (0..i).filter(|&j| p[j] > p[i]).count();
    }
    let want = (0..n).fold(if odd % 2 == 0 { 1.0 } else { -1.0 }, |s, i| s * u[i][i]);
    let m = LinearMatrix::from_flat(n, flat(&a));
    match m.det_lu_pivot() {
        Ok(d) => vt::prove("determinant by pivoting", vt::eq(d, want)),
        Err(_) => vt::check("determinant of a clearly regular matrix exists", false),
    }
    match m.determinant() {
        Ok(d) => vt::prove("determinant", vt::eq(d, want)),
        Err(_) => vt::check("determinant of a clearly regular matrix exists", false),
    }
    vt::prove("determinant by plain elimination", vt::eq(LinearMatrix::from_flat(n, flat(&lu)).det_lu(), (0..n).fold(1.0, |s, i| s * u[i][i])));
    let x = read(&m.inverse());
    prove_mat("A inverse(A) = 1", &mat_mul(&a, &x), &identity(n));
    prove_mat("inverse(A) A = 1", &mat_mul(&x, &a), &identity(n));
    let y = read(&LinearMatrix::from_flat(n, flat(&lu)).inv_lu());
    prove_mat("A inv_lu(A) = 1", &mat_mul(&lu, &y), &identity(n));
}

// with the rounding of the machine on the way: pivots are to be chosen by size
fn rounding(c: usize) {
    let k = touchy(c);
    let n = k.len();
    let m = LinearMatrix::from_flat(n, flat(&k));
    let want = det(&k);
    for d in [vt::rounded(|| m.det_lu_pivot()), vt::rounded(|| m.determinant())].iter() {
        match d {
            Ok(d) => vt::prove("determinant within rounding", vt::le((*d - want).abs(), 0.0000000001 * want.abs())),
            Err(_) => vt::check("determinant of a regular matrix", false),
        }
    }
    let inv = read(&vt::rounded(|| m.inverse()));
    let v = vt::vars("v", n);
    prove_near("inverse within rounding", &mat_vec(&k, &mat_vec(&inv, &v)), &v, &v, 0.000000001);
}

pub fn list() -> Vec<vt::Harness> {
    let _ = ordinary;
    vec![
        ("det1", 2, det1),
        ("det2", 2, det2),
        ("det3", 8, det3),
        ("det_accept", 16, det_accept),
        ("big", tier(15, 60), big), ("nonsquare", 1, nonsquare),
        ("rounding", tier(13, 60), rounding), ("singular", 8, singular),
        ("det_plain", 3, det_plain),
        ("inverse12", 2, inverse12),
        ("inverse3", 8, inverse3),
        ("inverse_const", 1, inverse_const),
        ("inverse4", tier(8, 24), inverse4),
    ]
}
