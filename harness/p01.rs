// Storage: what was written is what is read, for every storage layout.
use crate::matrix::*;
use crate::util::*;

type Can<'a> = &'a dyn Fn(usize, usize) -> bool;

fn same<T: MatrixLike>(tag: &str, m: &T, model: &M, nr: usize, nc: usize) {
    vt::check(&format!("{}: shape", tag), m.shape() == (nr, nc));
    for i in 0..(nr + 2) {
        for j in 0..(nc + 2) {
            if i < nr && j < nc {
                match m.get((i, j)) {
                    Some(x) => vt::prove(&format!("{}: entry reads back", tag), vt::eq(*x, model[i][j])),
                    None => vt::check(&format!("{}: in-bounds entry readable", tag), false),
                }
                vt::prove(&format!("{}: index agrees with get", tag), vt::eq(m[(i, j)], model[i][j]));
            } else {
                vt::check(&format!("{}: out of bounds is None", tag), m.get((i, j)).is_none());
            }
        }
    }
    for big in [(usize::MAX, 0), (0, usize::MAX), (usize::MAX, usize::MAX), (nr, 0), (0, nc)] {
        vt::check(&format!("{}: far out of bounds is None", tag), m.get(big).is_none());
    }
}

fn iterators<T: MatrixLike>(tag: &str, m: &T, model: &M, nr: usize, nc: usize) {
    for i in 0..nr {
        let r: Vec<f64> = m.row(i).cloned().collect();
        prove_vec(&format!("{}: row iterator", tag), &r, &model[i]);
    }
    for j in 0..nc {
        let c: Vec<f64> = m.col(j).cloned().collect();
        let want: Vec<f64> = (0..nr).map(|i| model[i][j]).collect();
        prove_vec(&format!("{}: column iterator", tag), &c, &want);
    }
    let d: Vec<f64> = m.diag().cloned().collect();
    let want: Vec<f64> = (0..nr.min(nc)).map(|i| model[i][i]).collect();
    prove_vec(&format!("{}: diagonal iterator", tag), &d, &want);
    let f: Vec<f64> = m.flat().cloned().collect();
    let want: Vec<f64> = model.iter().flatten().cloned().collect();
    prove_vec(&format!("{}: flat iterator", tag), &f, &want);
    let ix: Vec<(usize, usize)> = m.indices().collect();
    let want: Vec<(usize, usize)> = (0..nr).flat_map(|i| (0..nc).map(move |j| (i, j))).collect();
    vt::check(&format!("{}: index iterator", tag), ix == want);
}

// a short history of writes at arbitrary places, in and out of the structure and the bounds
fn history<T: MatrixLike>(tag: &str, mut m: T, mut model: M, nr: usize, nc: usize, can: Can) {
    same(tag, &m, &model, nr, nc);
    iterators(tag, &m, &model, nr, nc);
    for step in 0..tier(2, 3) {
        let at = vt::choose("loc", (nr + 1) * (nc + 1));
        let (i, j) = (at / (nc + 1), at % (nc + 1));
        let v = vt::var(&format!("w{}", step));
        let ok = i < nr && j < nc && can(i, j);
        match vt::choose("op", 4) {
            0 => {
                m.put((i, j), v);
                if ok {
                    model[i][j] = v;
                }
            }
            1 => {
                m.mutate((i, j), |x| *x = *x * 2.0 + v);
                if ok {
                    model[i][j] = model[i][j] * 2.0 + v;
                }
            }
            2 => {
                let r = vt::catches(|| m[(i, j)] = v);
                vt::check(&format!("{}: indexed write accepted exactly on the structure", tag), r.is_some() == ok);
                if ok {
                    model[i][j] = v;
                }
            }
            _ => {
                let r = m.get_mut((i, j)).map(|x| *x = v);
                vt::check(&format!("{}: get_mut is Some exactly on the structure", tag), r.is_some() == ok);
                if ok {
                    model[i][j] = v;
                }
            }
        }
    }
    same(tag, &m, &model, nr, nc);
    iterators(tag, &m, &model, nr, nc);
}

fn zeros(r: usize, c: usize) -> M {
    vec![vec![0.0; c]; r]
}

fn flat(m: &M) -> Vec<f64> {
    m.iter().flatten().cloned().collect()
}

fn linear(c: usize) {
    let shapes = [(2, 3), (3, 2), (1, 4), (3, 3)];
    let (r, k) = shapes[c];
    let a = sym_mat("a", r, k);
    if vt::flip("zero") {
        history("dense", LinearMatrix::zeros((r, k)), zeros(r, k), r, k, &|_, _| true)
    } else {
        history("dense", LinearMatrix::from_flat((r, k), flat(&a)), a.clone(), r, k, &|_, _| true)
    }
}

fn linear_t(c: usize) {
    let (r, k) = [(2, 3), (3, 1)][c];
    let a = sym_mat("a", r, k);
    let mut m = LinearMatrix::from_flat((r, k), flat(&a));
    m.transpose();
    let t = transpose(&a);
    same("transposed", &m, &t, k, r);
    iterators("transposed", &m, &t, k, r);
    history("transposed", m, t, k, r, &|_, _| true)
}

fn constm(c: usize) {
    if c == 0 {
        let a = sym_mat("a", 2, 3);
        let m: ConstMatrix<6> = MatrixLike::from_flat((2, 3), flat(&a));
        history("const", m, a, 2, 3, &|_, _| true)
    } else if c == 1 {
        let m: ConstMatrix<6> = MatrixLike::zeros((3, 2));
        history("const", m, zeros(3, 2), 3, 2, &|_, _| true)
    } else {
        // a length mismatch must never produce a matrix
        let n = vt::choose("len", 9);
        let v = vt::vars("x", n);
        let m: Option<ConstMatrix<6>> = vt::catches(|| MatrixLike::from_flat((2, 3), v.clone()));
        vt::check("const: built exactly when the data fits", m.is_some() == (n == 6));
        let n = vt::choose("len1", 3);
        let v = vt::vars("x", n);
        let m: Option<ConstMatrix<1>> = vt::catches(|| MatrixLike::from_flat((1, 1), v.clone()));
        vt::check("const: 1x1 built exactly when the data fits", m.is_some() == (n == 1));
        let n = vt::choose("dims", 4);
        let v = vt::vars("x", 6);
        let shape = [(2, 3), (3, 2), (3, 3), (2, 2)][n];
        let m: Option<ConstMatrix<6>> = vt::catches(|| MatrixLike::from_flat(shape, v.clone()));
        vt::check("const: built exactly when the shape fits", m.is_some() == (shape.0 * shape.1 == 6));
    }
}

fn lengths(_: usize) {
    let n = vt::choose("len", 9);
    let v = vt::vars("x", n);
    let m: Option<LinearMatrix> = vt::catches(|| LinearMatrix::from_flat((2, 3), v.clone()));
    vt::check("dense: built exactly when the data fits", m.is_some() == (n == 6));
    let m: Option<CompressedRow> = if n < 6 { vt::catches(|| CompressedRow::from_flat((2, 3), v.clone())) } else { None };
    vt::check("compressed: short data rejected", m.is_none());
    let m: Option<Dictionary> = if n < 6 { vt::catches(|| Dictionary::from_flat((2, 3), v.clone())) } else { None };
    vt::check("dictionary: short data rejected", m.is_none());
}

fn triangular(c: usize) {
    let n = 3;
    if c == 0 {
        history("lower", LowerTriangular::zeros(n), zeros(n, n), n, n, &|i, j| j <= i)
    } else {
        history("upper", UpperTriangular::zeros(n), zeros(n, n), n, n, &|i, j| i <= j)
    }
}

fn tri_filled(_: usize) {
    let n = tier(4, 5);
    let a = sym_mat("a", n, n);
    let (mut l, mut u) = (LowerTriangular::zeros((n, n)), UpperTriangular::zeros((n, n)));
    let (mut ml, mut mu) = (zeros(n, n), zeros(n, n));
    for i in 0..n {
        for j in 0..n {
            if j <= i {
                l[(i, j)] = a[i][j];
                ml[i][j] = a[i][j];
            }
            if i <= j {
                u[(i, j)] = a[i][j];
                mu[i][j] = a[i][j];
            }
        }
    }
    same("lower full", &l, &ml, n, n);
    iterators("lower full", &l, &ml, n, n);
    same("upper full", &u, &mu, n, n);
    iterators("upper full", &u, &mu, n, n);
}

fn diagonal(c: usize) {
    let n = 3;
    let v = vt::vars("d", n);
    let mut m = zeros(n, n);
    if c == 0 {
        for i in 0..n {
            m[i][i] = v[i];
        }
        let d: Diagonal = v.into();
        for i in 0..n {
            vt::prove("diagonal: short index", vt::eq(d[i], m[i][i]));
        }
        history("diagonal", d, m, n, n, &|i, j| i == j)
    } else {
        history("diagonal", Diagonal::zeros(n), m, n, n, &|i, j| i == j)
    }
}

fn pattern(n: usize, c: usize, nz: &dyn Fn(usize, usize) -> bool) -> (M, usize) {
    let mut a = zeros(n, n);
    for i in 0..n {
        for j in 0..n {
            if nz(i, j) {
                a[i][j] = vt::var(&format!("a{}_{}", i, j));
                vt::assume(vt::ne(a[i][j], 0.0));
            }
        }
    }
    (a, c)
}

// the off-diagonal places of a 3x3 matrix present in pattern c
fn off(c: usize, i: usize, j: usize) -> bool {
    let k = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)].iter().position(|&x| x == (i, j)).unwrap();
    c >> k & 1 == 1
}

const SOME: [usize; 8] = [0, 63, 5, 18, 40, 28, 33, 10];

fn compressed(c: usize) {
    let p = SOME[c];
    let (a, _) = pattern(3, c, &|i, j| if i == j { (p + i) % 3 != 0 } else { off(p, i, j) });
    let has = a.iter().enumerate().map(|(i, r)| (0..r.len()).map(|j| if i == j { (p + i) % 3 != 0 } else { off(p, i, j) }).collect()).collect::<Vec<Vec<bool>>>();
    let m = CompressedRow::from_flat(3, flat(&a));
    history("compressed", m, a, 3, 3, &|i, j| has[i][j])
}

fn compressed_zeros(_: usize) {
    let m = CompressedRow::zeros((2, 3));
    same("compressed zeros", &m, &zeros(2, 3), 2, 3);
    history("compressed zeros", m, zeros(2, 3), 2, 3, &|_, _| false);
    for i in 0..2 {
        vt::check("compressed zeros: no non-zeros", CompressedRow::zeros((2, 3)).row_nzs(i).count() == 0);
    }
}

fn dictionary(c: usize) {
    vt::set_hash_seed(c);
    let p = SOME[c];
    let (a, _) = pattern(3, c, &|i, j| if i == j { (p + i) % 3 != 0 } else { off(p, i, j) });
    let m = Dictionary::from_flat(3, flat(&a));
    history("dictionary", m, a, 3, 3, &|_, _| true)
}

fn envelope(c: usize) {
    // row extents 1..=i+1
    let env = vec![1, 1 + c % 2, 1 + c / 2 % 3];
    let m = LowerRowEnvelope::from_envelope(env.clone());
    let e = env.clone();
    history("envelope", m, zeros(3, 3), 3, 3, &move |i, j| j <= i && j + e[i] > i)
}

// a row of the triangle ends on the diagonal and starts in the matrix
fn envelopes(n: usize) {
    let env: Vec<usize> = (0..n).map(|i| vt::choose(&format!("row{}", i), n + 2)).collect();
    let ok = env.iter().enumerate().all(|(i, &x)| x >= 1 && x <= i + 1);
    let e = env.clone();
    match vt::catches(move || LowerRowEnvelope::from_envelope(e)) {
        None => vt::check("a sound envelope is accepted", !ok),
        Some(m) => {
            vt::check("an envelope outside the triangle is refused", ok);
            vt::check("shape and envelope kept", m.shape() == (n, n) && m.envelope() == env);
            for i in 0..n {
                for j in 0..n {
                    let inside = j <= i && j + env[i] > i;
                    vt::prove("zero to begin with", vt::eq(m[(i, j)], 0.0));
                    vt::check("stored or not", m.get((i, j)).is_some() && (inside || j > i || m[(i, j)] == 0.0));
                }
            }
        }
    }
}

fn bienvelope(c: usize) {
    let p = SOME[c];
    let (a, _) = pattern(3, c, &|i, j| if i == j { true } else { off(p, i, j) });
    let d = Dictionary::from_flat(3, flat(&a));
    let m: BiEnvelope = d.into();
    let inside = |i: usize, j: usize| {
        let cols: Vec<usize> = (0..3).filter(|&k| k == i || off(p, i, k)).collect();
        j >= cols[0] && j <= *cols.last().unwrap()
    };
    history("bienvelope", m, a, 3, 3, &inside)
}

// whole-row and whole-column operations touch exactly their row or column
fn rowops(c: usize) {
    let (nr, nc) = [(2, 3), (3, 2), (3, 3)][c];
    let a = sym_mat("a", nr, nc);
    let mut m = LinearMatrix::from_flat((nr, nc), flat(&a));
    let mut model = a.clone();
    if vt::flip("transposed") {
        m = LinearMatrix::from_flat((nc, nr), flat(&transpose(&a)));
        m.transpose();
    }
    match vt::choose("op", 6) {
        0 => {
            let (i, j) = (vt::choose("i", nr), vt::choose("j", nr));
            m.swap_rows(i, j);
            model.swap(i, j);
        }
        1 => {
            let (i, j) = (vt::choose("i", nc), vt::choose("j", nc));
            m.swap_cols(i, j);
            for r in model.iter_mut() {
                r.swap(i, j);
            }
        }
        2 => {
            let i = vt::choose("i", nr);
            let v = vt::vars("v", nc);
            m.set_row(i, v.clone());
            model[i] = v;
        }
        3 => {
            let i = vt::choose("i", nc);
            let v = vt::vars("v", nr);
            m.set_col(i, v.clone());
            for r in 0..nr {
                model[r][i] = v[r];
            }
        }
        4 => {
            let i = vt::choose("i", nr);
            let s = vt::var("s");
            m.mutate_row(i, |x| *x = *x * s + 1.0);
            for x in model[i].iter_mut() {
                *x = *x * s + 1.0;
            }
        }
        _ => {
            let i = vt::choose("i", nc);
            let s = vt::var("s");
            m.mutate_col(i, |x| *x = *x * s + 1.0);
            for r in model.iter_mut() {
                r[i] = r[i] * s + 1.0;
            }
        }
    }
    same("row operations", &m, &model, nr, nc);
}

// constructors
fn build(_: usize) {
    let a = sym_mat("a", 2, 3);
    same("from_rows", &LinearMatrix::from_rows(a.clone()), &a, 2, 3);
    same("row_vec", &LinearMatrix::row_vec(a[0].clone()), &vec![a[0].clone()], 1, 3);
    same("col_vec", &LinearMatrix::col_vec(a[0].clone()), &transpose(&vec![a[0].clone()]), 3, 1);
    let v: LinearMatrix = a[1].clone().into();
    same("from vec", &v, &transpose(&vec![a[1].clone()]), 3, 1);
    for n in 1..4 {
        let mut e = zeros(n, n);
        for i in 0..n {
            e[i][i] = 1.0;
        }
        same("eye", &LinearMatrix::eye(n), &e, n, n);
        same("eye lower", &LowerTriangular::eye(n), &e, n, n);
        same("eye upper", &UpperTriangular::eye(n), &e, n, n);
        same("eye diagonal", &Diagonal::eye(n), &e, n, n);
        same("eye dictionary", &Dictionary::eye(n), &e, n, n);
    }
}

// equality of matrices is equality of entries, whatever the storage order
fn equality(_: usize) {
    let (a, b) = (sym_mat("a", 2, 2), sym_mat("b", 2, 2));
    let all = mat_eq(&a, &b);
    let ma = LinearMatrix::from_flat((2, 2), flat(&a));
    let mut mb = LinearMatrix::from_flat((2, 2), flat(&transpose(&b)));
    mb.transpose();
    let mc = LinearMatrix::from_flat((2, 2), flat(&b));
    vt::prove("equality across storage orders", vt::truth(ma == mb).iff(all.clone()));
    vt::prove("equality in one storage order", vt::truth(ma == mc).iff(all.clone()));
    let ka: ConstMatrix<4> = MatrixLike::from_flat((2, 2), flat(&a));
    let kb: ConstMatrix<4> = MatrixLike::from_flat((2, 2), flat(&b));
    vt::prove("equality of fixed-size matrices", vt::truth(ka == kb).iff(all.clone()));
    let da: Diagonal = filled(&diag_of(&a));
    let db: Diagonal = filled(&diag_of(&b));
    vt::prove("equality of diagonals", vt::truth(da == db).iff(all));
}

fn diag_of(a: &M) -> M {
    let f = flat(a);
    (0..f.len()).map(|i| (0..f.len()).map(|j| if i == j { f[i] } else { 0.0 }).collect()).collect()
}
fn filled<T: MatrixLike>(m: &M) -> T {
    let mut t = T::zeros(m.len());
    for i in 0..m.len() {
        for j in 0..m.len() {
            t.put((i, j), m[i][j]);
        }
    }
    t
}

// matrices of different shapes are never equal, however their entries are laid out
fn equality_shapes(_: usize) {
    let v = flat(&sym_mat("a", 2, 3));
    for (r, c) in [(3, 2), (6, 1), (1, 6)].iter() {
        let a = LinearMatrix::from_flat((2, 3), v.clone());
        let mut b = LinearMatrix::from_flat((*r, *c), v.clone());
        vt::check("another shape is another matrix", a != b);
        b.transpose();
        vt::check("another shape is another matrix, transposed", a != b || (*c, *r) == (2, 3));
        let a: ConstMatrix<6> = MatrixLike::from_flat((2, 3), v.clone());
        let b: ConstMatrix<6> = MatrixLike::from_flat((*r, *c), v.clone());
        vt::check("another shape is another fixed-size matrix", a != b);
    }
    let (x, y) = (sym_mat("x", 3, 3), sym_mat("y", 3, 3));
    let tri = |m: &M, low: bool| -> M { (0..3).map(|i| (0..3).map(|j| if (i >= j) == low || i == j { m[i][j] } else { 0.0 }).collect()).collect() };
    let (lx, ly) = (tri(&x, true), tri(&y, true));
    let a: LowerTriangular = filled(&lx);
    let b: LowerTriangular = filled(&ly);
    vt::prove("equality of lower triangular matrices", vt::truth(a == b).iff(mat_eq(&lx, &ly)));
    let (ux, uy) = (tri(&x, false), tri(&y, false));
    let a: UpperTriangular = filled(&ux);
    let b: UpperTriangular = filled(&uy);
    vt::prove("equality of upper triangular matrices", vt::truth(a == b).iff(mat_eq(&ux, &uy)));
}

fn mat_eq(a: &M, b: &M) -> vt::B {
    vt::all(a.iter().zip(b.iter()).map(|(x, y)| vec_eq(x, y)))
}

// larger matrices of fixed structure: every entry arbitrary, one write anywhere out of a few places
fn one_write<T: MatrixLike>(tag: &str, mut m: T, mut model: M, c: usize, can: Can) {
    let (nr, nc) = (model.len(), model[0].len());
    same(tag, &m, &model, nr, nc);
    iterators(tag, &m, &model, nr, nc);
    let mut dice = Dice::new(c + 50);
    let places: Vec<(usize, usize)> = (0..8).map(|_| (dice.next(nr + 1), dice.next(nc + 1))).chain(vec![(0, 0), (nr - 1, nc - 1), (nr - 1, 0)]).collect();
    let (i, j) = places[vt::choose("place", places.len())];
    let ok = i < nr && j < nc && can(i, j);
    let v = vt::var("w");
    match vt::choose("op", 3) {
        0 => m.put((i, j), v),
        1 => m.mutate((i, j), |x| *x = v),
        _ => vt::check(&format!("{}: indexed write accepted exactly on the structure", tag), vt::catches(|| m[(i, j)] = v).is_some() == ok),
    }
    if ok {
        model[i][j] = v;
    }
    same(tag, &m, &model, nr, nc);
    iterators(tag, &m, &model, nr, nc);
}

fn big(c: usize) {
    vt::set_hash_seed(c);
    let mut dice = Dice::new(c);
    let n = 9;
    let has: Vec<Vec<bool>> = (0..n).map(|i| (0..n).map(|j| i == j || dice.next(3) == 0).collect()).collect();
    let part = |can: Can| -> M { (0..n).map(|i| (0..n).map(|j| if can(i, j) { vt::var(&format!("a{}_{}", i, j)) } else { 0.0 }).collect()).collect() };
    let h = has.clone();
    let on = move |i: usize, j: usize| h[i][j];
    match c {
        0 => {
            let a = sym_mat("a", 7, 10);
            one_write("dense", LinearMatrix::from_flat((7, 10), flat(&a)), a, c, &|_, _| true)
        }
        1 => {
            let a = sym_mat("a", 10, 7);
            let mut m = LinearMatrix::from_flat((7, 10), flat(&transpose(&a)));
            m.transpose();
            one_write("dense transposed", m, a, c, &|_, _| true)
        }
        2 => {
            let a = sym_mat("a", 5, 7);
            let m: ConstMatrix<35> = MatrixLike::from_flat((5, 7), flat(&a));
            one_write("const", m, a, c, &|_, _| true)
        }
        3 => {
            let a = part(&|i, j| j <= i);
            one_write("lower", filled_on::<LowerTriangular>(&a, &|i, j| j <= i), a, c, &|i, j| j <= i)
        }
        4 => {
            let a = part(&|i, j| i <= j);
            one_write("upper", filled_on::<UpperTriangular>(&a, &|i, j| i <= j), a, c, &|i, j| i <= j)
        }
        5 => {
            let a = part(&|i, j| i == j);
            one_write("diagonal", filled_on::<Diagonal>(&a, &|i, j| i == j), a, c, &|i, j| i == j)
        }
        6 | 7 => {
            let a = part(&on);
            for i in 0..n {
                for j in 0..n {
                    if has[i][j] {
                        vt::assume(vt::ne(a[i][j], 0.0));
                    }
                }
            }
            one_write("compressed", CompressedRow::from_flat(n, flat(&a)), a, c, &on)
        }
        8 | 9 => {
            let a = part(&on);
            one_write("dictionary", filled_on::<Dictionary>(&a, &on), a, c, &|_, _| true)
        }
        10 | 11 => {
            let env: Vec<usize> = (0..n).map(|i| 1 + dice.next(i + 1)).collect();
            let e = env.clone();
            let can = move |i: usize, j: usize| j <= i && j + e[i] > i;
            let a = part(&can);
            let mut m = LowerRowEnvelope::from_envelope(env);
            for i in 0..n {
                for j in 0..n {
                    if can(i, j) {
                        m.put((i, j), a[i][j]);
                    }
                }
            }
            one_write("envelope", m, a, c, &can)
        }
        _ => {
            let a = part(&on);
            let m: BiEnvelope = filled_on::<Dictionary>(&a, &on).into();
            let inside = |i: usize, j: usize| (0..(j + 1)).any(|k| has[i][k]) && (j..n).any(|k| has[i][k]);
            one_write("bienvelope", m, a, c, &inside)
        }
    }
}
fn filled_on<T: MatrixLike>(m: &M, can: Can) -> T {
    let mut t = T::zeros(m.len());
    for i in 0..m.len() {
        for j in 0..m.len() {
            if can(i, j) {
                t[(i, j)] = m[i][j];
            }
        }
    }
    t
}

pub fn list() -> Vec<vt::Harness> {
    vec![
        ("linear", tier(3, 4), linear),
        ("linear_t", 2, linear_t),
        ("constm", 3, constm),
        ("lengths", 1, lengths),
        ("triangular", 2, triangular),
        ("tri_filled", 1, tri_filled),
        ("diagonal", 2, diagonal),
        ("compressed", 8, compressed),
        ("compressed_zeros", 1, compressed_zeros),
        ("dictionary", 8, dictionary),
        ("envelope", 6, envelope),
        ("bienvelope", 8, bienvelope),
        ("envelopes", 4, envelopes),
        ("rowops", 3, rowops),
        ("build", 1, build),
        ("big", 14, big),
        ("equality", 1, equality),
        ("equality_shapes", 1, equality_shapes),
    ]
}
