// Products and sums are the textbook ones, entry by entry, for every layout.
use crate::matrix::*;
use crate::util::*;

fn zeros(r: usize, c: usize) -> M {
    vec![vec![0.0; c]; r]
}
fn flat(m: &M) -> Vec<f64> {
    m.iter().flatten().cloned().collect()
}
fn read<T: MatrixLike>(m: &T) -> M {
    let (r, c) = m.shape();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)]).collect()).collect()
}
fn lin(m: &M) -> LinearMatrix {
    LinearMatrix::from_flat((m.len(), m[0].len()), flat(m))
}
// the same matrix, stored column-major
fn lin_t(m: &M) -> LinearMatrix {
    let mut x = lin(&transpose(m));
    x.transpose();
    x
}

const SHAPES: [(usize, usize, usize); 5] = [(2, 3, 2), (3, 2, 3), (1, 3, 1), (3, 1, 2), (2, 2, 4)];

fn dense(c: usize) {
    let (n, k, m) = SHAPES[c];
    let (a, b) = (sym_mat("a", n, k), sym_mat("b", k, m));
    let want = mat_mul(&a, &b);
    for x in [lin(&a), lin_t(&a)] {
        for y in [lin(&b), lin_t(&b)] {
            let p: LinearMatrix = x.mul(&y);
            prove_mat("dense product", &read(&p), &want);
            let p: Dictionary = x.mul(&y);
            prove_mat("dense product into dictionary", &read(&p), &want);
        }
    }
    let x: ConstMatrix<6> = if n * k == 6 { MatrixLike::from_flat((n, k), flat(&a)) } else { return };
    let p: LinearMatrix = x.mul(&lin(&b));
    prove_mat("const product", &read(&p), &want);
}

fn shapes(_: usize) {
    let (n, k, l, m) = (1 + vt::choose("n", 3), 1 + vt::choose("k", 3), 1 + vt::choose("l", 3), 1 + vt::choose("m", 3));
    let (a, b) = (sym_mat("a", n, k), sym_mat("b", l, m));
    let (x, y) = (lin(&a), lin(&b));
    let p: Option<LinearMatrix> = vt::catches(|| x.mul(&y));
    vt::check("product defined exactly for matching shapes", p.is_some() == (k == l));
    let (cx, dx) = (CompressedRow::from_flat((n, k), vec![1.0; n * k]), Dictionary::from_flat((n, k), vec![1.0; n * k]));
    let dy = Dictionary::from_flat((l, m), vec![1.0; l * m]);
    let p: Option<LinearMatrix> = vt::catches(|| cx.mul(&y));
    vt::check("sparse product defined exactly for matching shapes", p.is_some() == (k == l));
    vt::check("dictionary product defined exactly for matching shapes", vt::catches(|| dx.mul_dict(&dy)).is_some() == (k == l));
    let s = vt::catches(|| &x + &y);
    let d = vt::catches(|| &x - &y);
    vt::check("sum and difference defined exactly for equal shapes", s.is_some() == (n == l && k == m) && d.is_some() == (n == l && k == m));
    if let (Some(s), Some(d)) = (s, d) {
        for i in 0..n {
            for j in 0..k {
                vt::prove("sum", vt::eq(s[(i, j)], a[i][j] + b[i][j]));
                vt::prove("difference", vt::eq(d[(i, j)], a[i][j] - b[i][j]));
            }
        }
        let (mut s, mut d, mut e) = (x.clone(), x.clone(), x.clone());
        s.add_ass(&y);
        d.sub_ass(&y);
        e += y.clone();
        for i in 0..n {
            for j in 0..k {
                vt::prove("in-place sum", vt::eq(s[(i, j)], a[i][j] + b[i][j]));
                vt::prove("in-place difference", vt::eq(d[(i, j)], a[i][j] - b[i][j]));
                vt::prove("compound sum", vt::eq(e[(i, j)], a[i][j] + b[i][j]));
            }
        }
    }
}

fn scalars(_: usize) {
    let a = sym_mat("a", 2, 3);
    let b = sym_mat("b", 2, 3);
    let s = vt::var("s");
    let mut m = if vt::flip("t") { lin_t(&a) } else { lin(&a) };
    let mut p = m.clone();
    let other = if vt::flip("u") { lin_t(&b) } else { lin(&b) };
    let (sum, dif) = (&m + &other, &m - &other);
    let mut acc = m.clone();
    acc += other.clone();
    m *= s;
    p += s;
    for i in 0..2 {
        for j in 0..3 {
            vt::prove("scaling", vt::eq(m[(i, j)], a[i][j] * s));
            vt::prove("shift", vt::eq(p[(i, j)], a[i][j] + s));
            vt::prove("sum across storage orders", vt::eq(sum[(i, j)], a[i][j] + b[i][j]));
            vt::prove("difference across storage orders", vt::eq(dif[(i, j)], a[i][j] - b[i][j]));
            vt::prove("compound sum across storage orders", vt::eq(acc[(i, j)], a[i][j] + b[i][j]));
        }
    }
    let f = lin(&a).frobenius();
    vt::prove("frobenius norm is non-negative", vt::ge(f, 0.0));
    vt::prove("frobenius norm squared", vt::eq(f * f, flat(&a).iter().fold(0.0, |s, x| s + *x * *x)));
    let n = vt::choose("len", 4);
    let (u, v) = (vt::vars("u", n), vt::vars("v", n));
    vt::prove("dot product", vt::eq(dot(&u, &v), u.iter().zip(v.iter()).fold(0.0, |s, (x, y)| s + *x * *y)));
}

// a sparse left factor with pattern bits (row major)
fn pat_mat(pre: &str, r: usize, c: usize, pat: usize) -> M {
    let mut m = zeros(r, c);
    for i in 0..r {
        for j in 0..c {
            if pat >> (i * c + j) & 1 == 1 {
                m[i][j] = vt::var(&format!("{}{}_{}", pre, i, j));
                vt::assume(vt::ne(m[i][j], 0.0));
            }
        }
    }
    m
}

fn sparse(c: usize) {
    vt::set_hash_seed(c);
    let (n, k, m) = [(2, 3, 2), (3, 2, 2)][c % 2];
    let a = pat_mat("a", n, k, vt::choose("pa", 64));
    let b = sym_mat("b", k, m);
    let want = mat_mul(&a, &b);
    let x = CompressedRow::from_flat((n, k), flat(&a));
    let p: LinearMatrix = x.mul(&lin(&b));
    prove_mat("compressed x dense", &read(&p), &want);
    let d = Dictionary::from_flat((n, k), flat(&a));
    let p: LinearMatrix = d.mul(&lin(&b));
    prove_mat("dictionary x dense", &read(&p), &want);
}

fn sparse_zero(_: usize) {
    let b = sym_mat("b", 3, 2);
    let p: LinearMatrix = CompressedRow::zeros((2, 3)).mul(&lin(&b));
    prove_mat("empty compressed x dense", &read(&p), &zeros(2, 2));
    let p = Dictionary::zeros((2, 3)).mul_dict(&Dictionary::from_flat((3, 2), flat(&b)));
    prove_mat("empty dictionary product", &read(&p), &zeros(2, 2));
}

fn dict_product(c: usize) {
    vt::set_hash_seed(c);
    let (n, k, m) = [(2, 2, 2), (2, 3, 2), (2, 2, 3), (3, 2, 2)][c % 4];
    let pa = vt::choose("pa", 1 << (n * k));
    let pb = vt::choose("pb", 1 << (k * m));
    let fill = |pre: &str, r: usize, cc: usize, pat: usize| {
        let mut d = Dictionary::zeros((r, cc));
        let mut mm = zeros(r, cc);
        for i in 0..r {
            for j in 0..cc {
                if pat >> (i * cc + j) & 1 == 1 {
                    mm[i][j] = vt::var(&format!("{}{}_{}", pre, i, j));
                    d[(i, j)] = mm[i][j];
                }
            }
        }
        (d, mm)
    };
    let (da, a) = fill("a", n, k, pa);
    let (db, b) = fill("b", k, m, pb);
    let p = da.mul_dict(&db);
    vt::check("dictionary product shape", p.shape() == (n, m));
    prove_mat("dictionary product", &read(&p), &mat_mul(&a, &b));
}

fn banded(c: usize) {
    vt::set_hash_seed(c);
    let n = 3;
    let pat = c | vt::choose("pat", 64) << 3;
    let mut d = Dictionary::zeros(n);
    let mut m = zeros(n, n);
    for i in 0..n {
        for j in 0..n {
            if pat >> (i * n + j) & 1 == 1 {
                m[i][j] = vt::var(&format!("a{}_{}", i, j));
                d[(i, j)] = m[i][j];
            }
        }
    }
    let b = BiEnvelope::from(d);
    let x = vt::vars("x", n);
    let mut y = vt::vars("junk", n);
    b.mul_vec(&x, &mut y);
    prove_vec("banded matrix times vector", &y, &mat_vec(&m, &x));
    let p: LinearMatrix = b.mul(&lin(&transpose(&vec![x.clone()])));
    prove_mat("banded product", &read(&p), &transpose(&vec![mat_vec(&m, &x)]));
}

fn structured(c: usize) {
    let n = 2 + c;
    let a = sym_mat("a", n, n);
    let (mut l, mut u, mut ml, mut mu) = (LowerTriangular::zeros(n), UpperTriangular::zeros(n), zeros(n, n), zeros(n, n));
    let mut e = LowerRowEnvelope::from_envelope((1..(n + 1)).collect());
    for i in 0..n {
        for j in 0..n {
            if j <= i {
                l[(i, j)] = a[i][j];
                e[(i, j)] = a[i][j];
                ml[i][j] = a[i][j];
            } else {
                u[(i, j)] = a[i][j];
                mu[i][j] = a[i][j];
            }
        }
    }
    for i in 0..n {
        u[(i, i)] = 1.0;
        mu[i][i] = 1.0;
    }
    let d = vt::vars("d", n);
    let mut md = zeros(n, n);
    for i in 0..n {
        md[i][i] = d[i];
    }
    let dd: Diagonal = d.into();
    let p: LinearMatrix = l.mul(&u);
    prove_mat("lower x upper", &read(&p), &mat_mul(&ml, &mu));
    let p: LinearMatrix = dd.mul(&u);
    prove_mat("diagonal x upper", &read(&p), &mat_mul(&md, &mu));
    let p: LinearMatrix = e.mul(&u);
    prove_mat("envelope x upper", &read(&p), &mat_mul(&ml, &mu));
    vt::prove("diagonal product", vt::eq(dd.product(), (0..n).fold(1.0, |s, i| s * md[i][i])));
    let s = vt::var("s");
    vt::prove("scaled diagonal product", vt::eq(dd.product_scaled(s), (0..n).fold(1.0, |t, i| t * (md[i][i] * s))));
    vt::prove("diagonal mean", vt::eq(dd.mean() * n as f64, (0..n).fold(0.0, |t, i| t + md[i][i])));
    let neg = dd.num_neg();
    let mut k = 0;
    for i in 0..n {
        if md[i][i] < 0.0 {
            k += 1;
        }
    }
    vt::check("negative diagonal entries", neg == k);
}

fn rotation(c: usize) {
    let n = 2 + c;
    let (a, b) = (vt::choose("a", n), vt::choose("b", n));
    if a == b {
        vt::check("rotation needs two axes", vt::catches(|| LinearMatrix::rotation(n, a, b, 1.0)).is_none());
        return;
    }
    let t = vt::var("t");
    let r: LinearMatrix = LinearMatrix::rotation(n, a, b, t);
    let m = read(&r);
    let mut eye = zeros(n, n);
    for i in 0..n {
        eye[i][i] = 1.0;
    }
    prove_mat("rotation is orthogonal", &mat_mul(&m, &transpose(&m)), &eye);
    vt::prove("rotation has determinant one", vt::eq(det(&m), 1.0));
    vt::prove("rotation turns the first axis towards the second", vt::eq(m[b][a], t.sin()).and(vt::eq(m[a][a], t.cos())));
}

fn average(_: usize) {
    let n = 1 + vt::choose("n", 5);
    let v = vt::vars("v", n);
    let mut avg = Average::new();
    for x in v.iter() {
        avg.update(*x);
    }
    match avg.consume() {
        Some(a) => vt::prove("running average", vt::eq(a * n as f64, v.iter().fold(0.0, |s, x| s + *x))),
        None => vt::check("running average exists", false),
    }
    vt::check("average of nothing is None", Average::<f64>::new().consume().is_none());
}

// larger operands of fixed structure, arbitrary entries
fn big(c: usize) {
    vt::set_hash_seed(c);
    let mut dice = Dice::new(c);
    let (n, k, m) = [(7, 9, 6), (9, 5, 8), (1, 17, 1), (10, 1, 10), (6, 6, 11)][c % 5];
    let (a, b) = (sym_mat("a", n, k), sym_mat("b", k, m));
    let want = mat_mul(&a, &b);
    for x in [lin(&a), lin_t(&a)] {
        for y in [lin(&b), lin_t(&b)] {
            let p: LinearMatrix = x.mul(&y);
            prove_mat("dense product", &read(&p), &want);
        }
    }
    let e = sym_mat("e", n, k);
    for x in [lin(&a), lin_t(&a)] {
        for y in [lin(&e), lin_t(&e)] {
            let (s, d) = (&x + &y, &x - &y);
            let (mut f, mut g) = (x.clone(), x.clone());
            f.add_ass(&y);
            g.sub_ass(&y);
            for i in 0..n {
                for j in 0..k {
                    vt::prove("sum", vt::eq(s[(i, j)], a[i][j] + e[i][j]).and(vt::eq(f[(i, j)], a[i][j] + e[i][j])));
                    vt::prove("difference", vt::eq(d[(i, j)], a[i][j] - e[i][j]).and(vt::eq(g[(i, j)], a[i][j] - e[i][j])));
                }
            }
        }
    }
    let mut fill = |pre: &str, r: usize, cc: usize| {
        let mut d = Dictionary::zeros((r, cc));
        let mut mm = zeros(r, cc);
        for i in 0..r {
            for j in 0..cc {
                if dice.next(3) == 0 {
                    mm[i][j] = vt::var(&format!("{}{}_{}", pre, i, j));
                    d[(i, j)] = mm[i][j];
                }
            }
        }
        (d, mm)
    };
    let ((ds, ms), (dt, mt)) = (fill("s", n, k), fill("t", k, m));
    prove_mat("dictionary product", &read(&ds.mul_dict(&dt)), &mat_mul(&ms, &mt));
    let p: LinearMatrix = CompressedRow::from(ds.clone()).mul(&lin(&b));
    prove_mat("compressed x dense", &read(&p), &mat_mul(&ms, &b));
    let p: LinearMatrix = ds.mul(&lin(&b));
    prove_mat("dictionary x dense", &read(&p), &mat_mul(&ms, &b));
    let (dq, mq) = fill("q", 10, 10);
    let x = vt::vars("x", 10);
    let mut y = vt::vars("junk", 10);
    BiEnvelope::from(dq).mul_vec(&x, &mut y);
    prove_vec("banded matrix times vector", &y, &mat_vec(&mq, &x));
    for n in [8, 13, 17].iter() {
        let (u, v) = (vt::vars("u", *n), vt::vars("v", *n));
        vt::prove("dot product", vt::eq(dot(&u, &v), u.iter().zip(v.iter()).fold(0.0, |s, (x, y)| s + *x * *y)));
        let mut avg = Average::new();
        for x in v.iter() {
            avg.update(*x);
        }
        vt::prove("running average", vt::eq(avg.consume().unwrap() * *n as f64, v.iter().fold(0.0, |s, x| s + *x)));
        let d: Diagonal = v.clone().into();
        vt::prove("diagonal product", vt::eq(d.product(), v.iter().fold(1.0, |s, x| s * *x)));
        vt::prove("diagonal mean", vt::eq(d.mean() * *n as f64, v.iter().fold(0.0, |s, x| s + *x)));
        let w: Vec<f64> = (0..*n).map(|i| if i % 3 == 1 { -1.0 - i as f64 } else { 1.0 + i as f64 }).collect();
        let neg = w.iter().filter(|x| **x < 0.0).count();
        let d: Diagonal = w.into();
        vt::check("negative diagonal entries", d.num_neg() == neg);
    }
}

pub fn list() -> Vec<vt::Harness> {
    vec![
        ("dense", 5, dense),
        ("shapes", 1, shapes),
        ("scalars", 1, scalars),
        ("sparse", 2, sparse),
        ("sparse_zero", 1, sparse_zero),
        ("dict_product", tier(4, 8), dict_product),
        ("banded", 8, banded),
        ("structured", tier(2, 3), structured),
        ("rotation", 3, rotation),
        ("big", 5, big),
        ("average", 1, average),
    ]
}
