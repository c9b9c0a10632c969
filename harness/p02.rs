// Conversions between matrix layouts and structural operations on sparse matrices.
use crate::matrix::graph::Graph;
use crate::matrix::*;
use crate::util::*;

fn zeros(r: usize, c: usize) -> M {
    vec![vec![0.0; c]; r]
}
fn flat(m: &M) -> Vec<f64> {
    m.iter().flatten().cloned().collect()
}
fn read<T: MatrixLike>(m: &T) -> M {
    let (r, c) = m.shape();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)]).collect()).collect()
}

// a dictionary whose stored places follow the pattern bits (row major); stored values may be zero
fn dict(r: usize, c: usize, pat: usize) -> (Dictionary, M) {
    let mut d = Dictionary::zeros((r, c));
    let mut m = zeros(r, c);
    for i in 0..r {
        for j in 0..c {
            if pat >> (i * c + j) & 1 == 1 {
                let v = vt::var(&format!("a{}_{}", i, j));
                d[(i, j)] = v;
                m[i][j] = v;
            }
        }
    }
    (d, m)
}

fn lower(m: &M) -> M {
    (0..m.len()).map(|i| (0..m[i].len()).map(|j| if j <= i { m[i][j] } else { 0.0 }).collect()).collect()
}

// nzs lists every non-zero entry exactly once, with its value
fn check_nzs<T: MatrixLike>(tag: &str, m: &T, model: &M) {
    let v: Vec<((usize, usize), f64)> = m.nzs().collect();
    for (i, r) in model.iter().enumerate() {
        for (j, x) in r.iter().enumerate() {
            let hits: Vec<f64> = v.iter().filter(|e| e.0 == (i, j)).map(|e| e.1).collect();
            vt::check(&format!("{}: listed at most once", tag), hits.len() <= 1);
            match hits.get(0) {
                Some(y) => vt::prove(&format!("{}: listed value", tag), vt::eq(*y, *x)),
                None => vt::prove(&format!("{}: unlisted entries are zero", tag), vt::eq(*x, 0.0)),
            }
        }
    }
    vt::check(&format!("{}: listed places are in bounds", tag), v.iter().all(|e| e.0 .0 < model.len() && e.0 .1 < model[0].len()));
}

fn conv(c: usize) {
    // low 4 bits of the pattern by case, the rest chosen
    vt::set_hash_seed(c);
    let n = 3;
    let pat = c | vt::choose("pat", 32) << 4;
    let (d, m) = dict(n, n, pat);
    prove_mat("dictionary", &read(&d), &m);
    prove_mat("to dense", &read(&LinearMatrix::from(d.clone())), &m);
    let csr = CompressedRow::from(d.clone());
    prove_mat("to compressed rows", &read(&csr), &m);
    for i in 0..n {
        let mut row = vec![0.0; n];
        let mut count = 0;
        for (j, x) in csr.row_nzs(i) {
            row[j] = row[j] + x;
            count += 1;
        }
        vt::check("compressed rows: row_nzs lists stored entries", count == (0..n).filter(|j| pat >> (i * n + j) & 1 == 1).count());
        prove_vec("compressed rows: row_nzs", &row, &m[i]);
    }
    prove_mat("to banded rows", &read(&BiEnvelope::from(d.clone())), &m);
    check_nzs("dictionary nzs", &d, &m);
    check_nzs("compressed nzs", &csr, &m);
    prove_mat("transposed", &read(&d.transposed()), &transpose(&m));

    // envelopes enclose every stored entry and are tight
    let env = d.envelope();
    let bnd = d.row_bounds();
    for i in 0..n {
        let cols: Vec<usize> = (0..n).filter(|j| pat >> (i * n + j) & 1 == 1).collect();
        let low = cols.iter().filter(|&&j| j <= i).min().map(|j| i + 1 - j).unwrap_or(0);
        vt::check("envelope: exact", env[i] == low);
        if cols.is_empty() {
            vt::check("row bounds: empty row", bnd[i].0 >= bnd[i].1);
        } else {
            vt::check("row bounds: exact", bnd[i] == (cols[0], cols[cols.len() - 1] + 1));
        }
    }
    if env.iter().all(|&x| x > 0) {
        let l = LowerRowEnvelope::from(d.clone());
        prove_mat("to lower envelope", &read(&l), &lower(&m));
        vt::check("lower envelope: extents", l.envelope() == env);
        vt::check("lower envelope: size", l.non_zero_count() == env.iter().sum::<usize>());
    }
    if bnd.iter().enumerate().all(|(i, b)| b.0 <= i && i < b.1) {
        let l = LowerRowEnvelope::from_bienv(&BiEnvelope::from(d.clone()));
        prove_mat("banded rows to lower envelope", &read(&l), &lower(&m));
    }
    let mut e: Vec<(usize, usize)> = d.edges().collect();
    e.sort();
    let want: Vec<(usize, usize)> = (0..n * n).filter(|k| pat >> k & 1 == 1).map(|k| (k / n, k % n)).collect();
    vt::check("edges are the stored places", e == want);
}

// wide and tall dictionaries: places, transposition, extents
fn rectangular(c: usize) {
    let (nr, nc) = [(2, 4), (4, 2), (1, 3), (3, 1)][c];
    let pat = vt::choose("pat", 1 << (nr * nc));
    let (d, m) = dict(nr, nc, pat);
    prove_mat("dictionary", &read(&d), &m);
    prove_mat("transposed", &read(&d.transposed()), &transpose(&m));
    prove_mat("to dense", &read(&LinearMatrix::from(d.clone())), &m);
    prove_mat("to compressed rows", &read(&CompressedRow::from(d.clone())), &m);
    let (env, bnd) = (d.envelope(), d.row_bounds());
    vt::check("extents: one per row", env.len() == nr && bnd.len() == nr);
    for i in 0..nr {
        let cols: Vec<usize> = (0..nc).filter(|j| pat >> (i * nc + j) & 1 == 1).collect();
        let low = cols.iter().filter(|&&j| j <= i).min().map(|j| i + 1 - j).unwrap_or(0);
        vt::check("envelope: exact", env[i] == low);
        if cols.is_empty() {
            vt::check("row bounds: empty row", bnd[i].0 >= bnd[i].1);
        } else {
            vt::check("row bounds: exact", bnd[i] == (cols[0], cols[cols.len() - 1] + 1));
        }
    }
}

// for a symmetric pattern edges_lower gives each undirected pair once
fn edges_lower(_: usize) {
    let n = 4;
    let p = vt::choose("pattern", 64);
    vt::set_hash_seed(vt::choose("seed", 3));
    let mut d = Dictionary::zeros(n);
    for i in 0..n {
        d[(i, i)] = 1.0;
        for j in 0..i {
            if bit(p, i, j) {
                d[(i, j)] = 2.0;
                d[(j, i)] = 2.0;
            }
        }
    }
    let e: Vec<(usize, usize)> = d.edges_lower().collect();
    for i in 0..n {
        for j in 0..i {
            let k = e.iter().filter(|&&(a, b)| (a, b) == (i, j) || (a, b) == (j, i)).count();
            vt::check("edges_lower: each pair once", k == bit(p, i, j) as usize);
        }
    }
}

fn rect(c: usize) {
    let (r, k) = [(2, 3), (3, 2)][c];
    let (d, m) = dict(r, k, vt::choose("pat", 64));
    prove_mat("rectangular to dense", &read(&LinearMatrix::from(d.clone())), &m);
    let s = CompressedRow::from(d.clone());
    prove_mat("rectangular to compressed rows", &read(&s), &m);
    let t = d.transposed();
    vt::check("transposed shape", t.shape() == (k, r));
    prove_mat("rectangular transposed", &read(&LinearMatrix::from(t)), &transpose(&m));
    check_nzs("rectangular nzs", &d, &m);
}

fn from_flat(c: usize) {
    let (r, k) = [(2, 2), (2, 3), (3, 2)][c];
    let m = sym_mat("a", r, k);
    let d = Dictionary::from_flat((r, k), flat(&m));
    prove_mat("dictionary from flat", &read(&d), &m);
    let s = CompressedRow::from_flat((r, k), flat(&m));
    prove_mat("compressed from flat", &read(&s), &m);
    let l = LinearMatrix::from_flat((r, k), flat(&m));
    check_nzs("dense nzs", &l, &m);
    check_nzs("compressed nzs", &s, &m);
    check_nzs("dictionary nzs", &d, &m);
    prove_mat("dictionary to compressed", &read(&CompressedRow::from(d.clone())), &m);
}

fn envelope_from_flat(_: usize) {
    let n = 3;
    let a = sym_mat("a", n, n);
    let m = lower(&a);
    for i in 0..n {
        vt::assume(vt::ne(m[i][i], 0.0));
    }
    let l = LowerRowEnvelope::from_flat(n, flat(&m));
    prove_mat("envelope from flat", &read(&l), &m);
    for i in 0..n {
        let (start, row) = l.row_stored(i);
        vt::check("row_stored reaches the diagonal", start + row.len() == i + 1);
        for (k, x) in row.iter().enumerate() {
            vt::prove("row_stored", vt::eq(*x, m[i][start + k]));
        }
        let (s2, r2) = l.row_stored_nodiag(i);
        vt::check("row_stored_nodiag", s2 == start && r2.len() + 1 == row.len());
        for (k, x) in r2.iter().enumerate() {
            vt::prove("row_stored_nodiag", vt::eq(*x, m[i][start + k]));
        }
        for j in 0..start {
            vt::prove("zero outside the envelope", vt::eq(m[i][j], 0.0));
        }
    }
}

fn mask(c: usize) {
    let n = 3;
    vt::set_hash_seed(c);
    let (d, m) = dict(n, n, [511, 0b101_011_110, 0b010_101_001, 0b100_010_011][c]);
    let keep: Vec<bool> = (0..n).map(|i| vt::flip(&format!("keep{}", i))).collect();
    let idx: Vec<usize> = (0..n).filter(|&i| keep[i]).collect();
    let r = d.mask(&keep);
    vt::check("mask: shape", r.shape() == (idx.len(), idx.len()));
    prove_mat("mask keeps the chosen rows and columns", &read(&r), &sub(&m, &idx, &idx));
}

fn permute(c: usize) {
    let n = 3;
    vt::set_hash_seed(c);
    let pat = [511, 0b101_011_110, 0b010_101_001, 0b100_010_011][c];
    let (mut d, m) = dict(n, n, pat);
    // a permutation as the ordering phase produces it
    let e = vt::choose("edges", 8);
    let mut g = Graph::from_edges(n, (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).filter(|&(i, j)| bit(e, i, j)));
    let p = g.reverse_cuthill_mckee();
    d.permute(&p);
    vt::check("permute: shape", d.shape() == (n, n));
    for i in 0..n {
        for j in 0..n {
            vt::prove("permute moves every entry", vt::eq(d[(p.permute(i), p.permute(j))], m[i][j]));
        }
    }
    d.permute(&p.clone().invert());
    prove_mat("permute then inverse", &read(&d), &m);
}

fn add_scaled(c: usize) {
    let n = 3;
    vt::set_hash_seed(c);
    // target envelope and banded addend with arbitrary extents around it
    let env = vec![1, 1 + c % 2, 1 + c / 2 % 3];
    let mut l = LowerRowEnvelope::from_envelope(env.clone());
    let mut m = zeros(n, n);
    for i in 0..n {
        for j in 0..(i + 1) {
            if j + env[i] > i {
                m[i][j] = vt::var(&format!("l{}_{}", i, j));
                l[(i, j)] = m[i][j];
            }
        }
    }
    let (d, b) = dict(n, n, vt::choose("pat", 512));
    let s = vt::var("s");
    let past = (0..n).any(|i| (0..i).any(|j| j + env[i] <= i && d.edges().any(|e| e == (i, j))));
    let be = BiEnvelope::from(d);
    let r = vt::catches(|| {
        l.add_scaled_bienv(&be, s);
        l
    });
    vt::check("scaled addition refused exactly when it would leave the envelope", r.is_none() == past);
    if let Some(l) = r {
        for i in 0..n {
            for j in 0..n {
                let want = if j <= i { m[i][j] + s * b[i][j] } else { 0.0 };
                vt::prove("scaled addition of the lower part", vt::eq(l[(i, j)], want));
            }
        }
    }
}

fn labeled(c: usize) {
    // arbitrary order of distinct labels
    let (r, k) = (3, 2);
    let all: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..k).map(move |j| (i, j))).filter(|&(i, j)| c >> ((i * k + j) % 4) & 1 == 1).collect();
    let p = choose_perm("o", all.len().min(tier(4, 5)));
    let mut m = zeros(r, k);
    let vals: Vec<((usize, usize), f64)> = p
        .iter()
        .map(|&q| {
            let v = vt::var(&format!("v{}", q));
            m[all[q].0][all[q].1] = v;
            (all[q], v)
        })
        .collect();
    let s = CompressedRow::from_labeled_vals((r, k), vals);
    prove_mat("from labelled values", &read(&s), &m);
    vt::check("from labelled values: count", s.non_zero_count() == p.len());
}

// larger matrices with fixed pseudo-random structure and arbitrary entries
fn random_dict(dice: &mut Dice, r: usize, c: usize, diag: bool, one_in: usize) -> (Dictionary, M, Vec<Vec<bool>>) {
    let has: Vec<Vec<bool>> = (0..r).map(|i| (0..c).map(|j| (diag && i == j) || dice.next(one_in) == 0).collect()).collect();
    let mut d = Dictionary::zeros((r, c));
    let mut m = zeros(r, c);
    for i in 0..r {
        for j in 0..c {
            if has[i][j] {
                m[i][j] = vt::var(&format!("a{}_{}", i, j));
                d[(i, j)] = m[i][j];
                // the layouts may drop zeros: all but a few stored values are not zero
                if (i + 3 * j) % 37 != 5 {
                    vt::assume(vt::ne(m[i][j], 0.0));
                }
            }
        }
    }
    (d, m, has)
}

fn big(c: usize) {
    vt::set_hash_seed(c);
    let mut dice = Dice::new(c);
    let (r, k) = [(10, 10), (9, 9), (12, 12), (7, 11), (11, 6), (10, 10)][c % 6];
    let square = r == k;
    let (d, m, has) = random_dict(&mut dice, r, k, c % 2 == 0 && square, 2 + c % 3);
    let count = has.iter().flatten().filter(|x| **x).count();
    prove_mat("to dense", &read(&LinearMatrix::from(d.clone())), &m);
    let csr = CompressedRow::from(d.clone());
    prove_mat("to compressed rows", &read(&csr), &m);
    vt::check("compressed rows: count", csr.non_zero_count() <= count);
    prove_mat("transposed", &read(&d.transposed()), &transpose(&m));
    check_nzs("dictionary nzs", &d, &m);
    check_nzs("compressed nzs", &csr, &m);
    let (env, bnd) = (d.envelope(), d.row_bounds());
    for i in 0..r {
        let cols: Vec<usize> = (0..k).filter(|&j| has[i][j]).collect();
        vt::check("envelope: exact", env[i] == cols.iter().filter(|&&j| j <= i).min().map(|j| i + 1 - j).unwrap_or(0));
        vt::check("row bounds: exact", if cols.is_empty() { bnd[i].0 >= bnd[i].1 } else { bnd[i] == (cols[0], cols[cols.len() - 1] + 1) });
        let mut row = vec![0.0; k];
        for (j, x) in csr.row_nzs(i) {
            row[j] = row[j] + x;
        }
        prove_vec("compressed rows: row_nzs", &row, &m[i]);
    }
    // labels in any order
    let all: Vec<(usize, usize)> = (0..r * k).map(|x| (x / k, x % k)).filter(|&(i, j)| has[i][j]).collect();
    let vals: Vec<((usize, usize), f64)> = dice.perm(all.len()).into_iter().map(|q| (all[q], m[all[q].0][all[q].1])).collect();
    prove_mat("from labelled values", &read(&CompressedRow::from_labeled_vals((r, k), vals)), &m);
    if !square {
        return;
    }
    prove_mat("to banded rows", &read(&BiEnvelope::from(d.clone())), &m);
    if env.iter().all(|&x| x > 0) {
        prove_mat("to lower envelope", &read(&LowerRowEnvelope::from(d.clone())), &lower(&m));
        if bnd.iter().enumerate().all(|(i, b)| b.0 <= i && i < b.1) {
            prove_mat("banded rows to lower envelope", &read(&LowerRowEnvelope::from_bienv(&BiEnvelope::from(d.clone()))), &lower(&m));
        }
    }
    let mut e: Vec<(usize, usize)> = d.edges().collect();
    e.sort();
    vt::check("edges are the stored places", e == all);
    let keep: Vec<bool> = (0..r).map(|_| dice.next(3) > 0).collect();
    let idx: Vec<usize> = (0..r).filter(|&i| keep[i]).collect();
    prove_mat("mask keeps the chosen rows and columns", &read(&d.clone().mask(&keep)), &sub(&m, &idx, &idx));
    let mut g = Graph::from_edges(r, (0..r).flat_map(|i| (0..i).map(move |j| (i, j))).filter(|&(i, j)| has[i][j]).collect::<Vec<_>>());
    let p = g.reverse_cuthill_mckee();
    let mut q = d.clone();
    q.permute(&p);
    for i in 0..r {
        for j in 0..r {
            vt::prove("permute moves every entry", vt::eq(q[(p.permute(i), p.permute(j))], m[i][j]));
        }
    }
    // scaled addition into a wide enough envelope
    let (b, s) = (BiEnvelope::from(d), vt::var("s"));
    let full: Vec<usize> = (0..r).map(|i| if bnd[i].0 < i { i + 1 - bnd[i].0 } else { 1 }).map(|x| x + dice.next(3)).enumerate().map(|(i, x)| x.min(i + 1)).collect();
    let mut l = LowerRowEnvelope::from_envelope(full.clone());
    let mut want = zeros(r, r);
    for i in 0..r {
        for j in (i + 1 - full[i])..(i + 1) {
            let v = vt::var(&format!("l{}_{}", i, j));
            l[(i, j)] = v;
            want[i][j] = v + s * m[i][j];
        }
    }
    l.add_scaled_bienv(&b, s);
    prove_mat("scaled addition of the lower part", &read(&l), &want);
}

pub fn list() -> Vec<vt::Harness> {
    vec![
        ("big", tier(12, 60), big),
        ("rectangular", 4, rectangular),
        ("conv", 16, conv),
        ("edges_lower", 1, edges_lower),
        ("rect", 2, rect),
        ("from_flat", 3, from_flat),
        ("envelope_from_flat", 1, envelope_from_flat),
        ("mask", 4, mask),
        ("permute", 4, permute),
        ("add_scaled", 6, add_scaled),
        ("labeled", 16, labeled),
    ]
}
