// A system of equations: gathered coefficient by coefficient, renumbered, handed to a solver.
use crate::matrix::graph::Permutation;
use crate::matrix::solve::System;
use crate::matrix::*;
use crate::util::*;

fn read(d: &LinearMatrix) -> M {
    let (r, c) = d.shape();
    (0..r).map(|i| (0..c).map(|j| d[(i, j)]).collect()).collect()
}
// entries that are there are not zero: zeros are a pattern of their own
fn filled(m: M, keep: &dyn Fn(usize, usize) -> bool) -> M {
    for i in 0..m.len() {
        for j in 0..(i + 1) {
            if keep(i, j) {
                vt::assume(vt::ne(m[i][j], 0.0));
                vt::assume(vt::ne(m[j][i], 0.0));
            }
        }
    }
    m
}
fn zeros(n: usize) -> M {
    vec![vec![0.0; n]; n]
}
type Parts = (Option<LinearMatrix>, Option<LinearMatrix>, Option<Vec<f64>>, Option<Permutation>);

// what the parts say about the unknowns in their own order: any answer in the new numbering, brought
// back, meets the old equations exactly as it meets the new ones
fn judge(p: Parts, k: &M, m: Option<&M>, r: Option<&Vec<f64>>) {
    let n = k.len();
    let (k1, m1, r1, back) = p;
    let back = back.unwrap_or_else(|| Permutation::identity(n));
    let home = |v: &[f64]| {
        let mut v = v.to_vec();
        back.permute_slice(&mut v);
        v
    };
    let x = vt::vars("x", n);
    vt::check("K is there", k1.is_some());
    let k1 = read(&k1.unwrap());
    vt::check("K has the size of the system", k1.len() == n && k1.iter().all(|r| r.len() == n));
    prove_vec("K in the new numbering", &home(&mat_vec(&k1, &x)), &mat_vec(k, &home(&x)));
    vt::check("M is there when given", m1.is_some() == m.is_some());
    if let (Some(m1), Some(m)) = (m1, m) {
        prove_vec("M in the new numbering", &home(&mat_vec(&read(&m1), &x)), &mat_vec(m, &home(&x)));
    }
    vt::check("the right hand side is there when given", r1.is_some() == r.is_some());
    if let (Some(r1), Some(r)) = (r1, r) {
        prove_vec("right hand side in the new numbering", &home(&r1), r);
    }
}

// additions one at a time, to the same place or another, in any order of kinds
fn gather(c: usize) {
    let n = 1 + c % 3;
    let with = c / 3;
    let mut s = System::new(n);
    vt::check("size kept", s.dofs() == n);
    let (mut k, mut m, mut r) = (zeros(n), zeros(n), vec![0.0; n]);
    let mut seen = [false; 3];
    if with == 1 {
        let (a, b) = (filled(sym_mat("a", n, n), &|_, _| true), vt::vars("b", n));
        s = System::from_kr(&lin(&a), &LinearMatrix::col_vec(b.clone()));
        k = a;
        r = b;
        seen = [true, false, true];
    }
    if with == 2 {
        let (a, b) = (filled(sym_mat("a", n, n), &|_, _| true), filled(sym_mat("b", n, n), &|_, _| true));
        s = System::from_km(&lin(&a), &lin(&b));
        k = a;
        m = b;
        seen = [true, true, false];
    }
    for i in 0..4 {
        let v = vt::var(&format!("v{}", i));
        let at = vt::choose("place", if i < 3 { n * n.min(2) } else { 1 });
        let (x, y) = (at % n, at / n);
        let kind = (i + c) % 3;
        seen[kind] = true;
        match kind {
            0 => {
                s.add_k_coefficient((x, y), v);
                k[x][y] = k[x][y] + v;
            }
            1 => {
                s.add_m_coefficient((x, y), v);
                m[x][y] = m[x][y] + v;
            }
            _ => {
                s.add_rhs_val(x, v);
                r[x] = r[x] + v;
            }
        }
    }
    vt::check("size kept", s.dofs() == n);
    if seen[0] {
        judge(s.clone().into_parts(), &k, if seen[1] { Some(&m) } else { None }, if seen[2] { Some(&r) } else { None });
        if seen[2] {
            let (a, b, p): (LinearMatrix, Vec<f64>, _) = s.into_krp();
            judge((Some(a), None, Some(b), p), &k, None, Some(&r));
        }
    }
}
fn lin(m: &M) -> LinearMatrix {
    LinearMatrix::from_flat((m.len(), m[0].len()), m.iter().flatten().cloned().collect::<Vec<f64>>())
}

fn renumbered(n: usize, keep: &dyn Fn(usize, usize) -> bool, also: &dyn Fn(usize, usize) -> bool) {
    let k = filled(sym_symmetric("k", n, keep), keep);
    let m = filled(sym_symmetric("m", n, also), also);
    let r = vt::vars("r", n);
    // K and M: room for M's couplings whether or not K has them
    let mut s = System::from_km(&lin(&k), &lin(&m));
    s.reduce_envelope();
    let (ke, me): (Vec<usize>, Vec<usize>) = (s.k_envelope().collect(), s.m_envelope().collect());
    vt::check("one row of the envelope per unknown", ke.len() == n && me.len() == n);
    vt::check("K keeps room for M", ke.iter().zip(me.iter()).all(|(a, b)| a >= b));
    judge(s.into_parts(), &k, Some(&m), None);
    // K and r
    let mut s = System::from_kr(&lin(&k), &LinearMatrix::col_vec(r.clone()));
    s.reduce_envelope();
    // more of the same arrives too late to know its place: a second renumbering is refused, not done by halves
    let t = s.clone();
    vt::check("renumbered once only", vt::catches(move || { let mut t = t; t.reduce_envelope(); }).is_none());
    judge(s.clone().into_parts(), &k, None, Some(&r));
    let (a, b, p): (LinearMatrix, Vec<f64>, _) = s.into_krp();
    judge((Some(a), None, Some(b), p), &k, None, Some(&r));
}
// every coupling pattern of up to four unknowns, M coupled otherwise
fn renumber(c: usize) {
    let n = [1, 2, 3, 4][c / 4];
    let p = vt::choose("pattern", patterns(n));
    let q = [0, p, patterns(n) - 1, (p * 5 + 3) % patterns(n)][c % 4];
    renumbered(n, &|i, j| i == j || bit(p, i.max(j), i.min(j)), &|i, j| i == j || bit(q, i.max(j), i.min(j)));
}
fn big(c: usize) {
    vt::set_hash_seed(c);
    let mut d = Dice::new(c);
    let n = 6 + c % 6;
    let mut e = vec![];
    let mut f = vec![];
    for i in 0..n {
        for j in 0..i {
            e.push(((i, j), d.next(3) == 0));
            f.push(((i, j), d.next(5) == 0));
        }
    }
    let has = |l: &Vec<((usize, usize), bool)>, i: usize, j: usize| i == j || l.iter().any(|x| x.0 == (i.max(j), i.min(j)) && x.1);
    renumbered(n, &|i, j| has(&e, i, j), &|i, j| has(&f, i, j));
}

fn refusals(c: usize) {
    let n = 1 + c;
    let (a, b) = (sym_mat("a", n, n), vt::vars("b", n + 1));
    let (x, y) = (lin(&a), LinearMatrix::col_vec(b.clone()));
    vt::check("as many equations as right hand sides", vt::catches(|| System::from_kr(&x, &y)).is_none());
    let wide = lin(&sym_mat("w", n, n + 1));
    let fit = LinearMatrix::col_vec(b[..n].to_vec());
    vt::check("only square matrices", vt::catches(|| System::from_kr(&wide, &fit)).is_none());
    vt::check("only square matrices", vt::catches(|| System::from_km(&x, &wide)).is_none() && vt::catches(|| System::from_km(&wide, &x)).is_none());
    let more = lin(&sym_mat("c", n + 1, n + 1));
    vt::check("K and M of one size", vt::catches(|| System::from_km(&x, &more)).is_none() && vt::catches(|| System::from_km(&more, &x)).is_none());
    if n > 1 {
        let row = LinearMatrix::row_vec(b[..n].to_vec());
        vt::check("the right hand side is a column", vt::catches(|| System::from_kr(&x, &row)).is_none());
    }
    for at in [(n, 0), (0, n), (n, n)].iter() {
        let v = b[0];
        vt::check("coefficients outside are refused", vt::catches(|| System::new(n).add_k_coefficient(*at, v)).is_none());
        vt::check("coefficients outside are refused", vt::catches(|| System::new(n).add_m_coefficient(*at, v)).is_none());
    }
    let v = b[0];
    vt::check("values outside are refused", vt::catches(|| System::new(n).add_rhs_val(n, v)).is_none());
    let s = System::new(n);
    vt::check("no matrix, no equations", vt::catches(move || { let _: (LinearMatrix, Vec<f64>, _) = s.into_krp(); }).is_none());
}

pub fn list() -> Vec<vt::Harness> {
    vec![("gather", 9, gather), ("renumber", 16, renumber), ("big", tier(12, 60), big), ("refusals", 3, refusals)]
}
