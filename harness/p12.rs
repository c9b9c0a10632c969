// Modal analysis: exact with one degree of freedom, and the exact steps the search is made of.
use crate::element::constraint::Constraint;
use crate::element::constraint::DofTransform;
use crate::element::material::Material;
use crate::element::ElementDescriptor;
use crate::fem::*;
use crate::matrix::solve::eigen::*;
use crate::matrix::solve::System;
use crate::matrix::{BiEnvelope, LinearMatrix, LowerRowEnvelope, MatrixLike};
use crate::util::*;

fn lin(k: &M) -> LinearMatrix {
    LinearMatrix::from_flat(k.len(), k.iter().flatten().cloned().collect::<Vec<f64>>())
}
fn system(k: &M, m: &M) -> EigenSystem {
    EigenSystem::new(System::from_km(&lin(k), &lin(m)))
}
// the matrices as the eigensolver stores them, with its ordering
fn stored(s: &EigenSystem) -> (M, M) {
    let n = s.dofs();
    let k: M = (0..n).map(|i| (0..n).map(|j| if i >= j { s.k_mat[(i, j)] } else { s.k_mat[(j, i)] }).collect()).collect();
    let m: M = (0..n).map(|i| (0..n).map(|j| s.m_mat[(i, j)]).collect()).collect();
    (k, m)
}
fn sym2(pre: &str, n: usize, full: bool) -> M {
    let m = sym_symmetric(pre, n, &|_, _| full);
    assume_spd(&m);
    m
}

// one degree of freedom, from the mesh to the frequency
fn single(c: usize) {
    fastrand::set_start(vec![0.5]);
    let kind = [Cond::Stress, Cond::Strain][c % 2];
    let p = [(0.0, 0.0), (2.0, 0.0), (0.0, 1.0)];
    let m = Material { poisson: 0.25, ..sym_material() };
    let t = sym_thickness();
    let (mut el, ids) = assemblage(kind, t, m, &p);
    el.add_element(ElementDescriptor::new([ids[0], ids[1], ids[2]]));
    let free = c / 2 % 3;
    let dir = c / 6;
    for i in 0..3 {
        el.add_constraint(ids[i], if i != free { Constraint::XYFixed } else if dir == 0 { Constraint::YFixed } else { Constraint::XFixed });
    }
    let modes = el.calc_modes(1);
    vt::check("as many modes as asked for", modes.len() == 1);
    let d = &modes[0];
    let k = cst(kind, t, m, &p);
    let j = 2 * free + dir;
    // consistent mass of a linear triangle
    let mass = m.density * t * area2(&p) / 12.0;
    match d.frequency() {
        None => vt::check("a mode has a frequency", false),
        Some(w) => {
            vt::prove("frequency is not negative", vt::ge(w, 0.0));
            vt::prove("frequency squared is stiffness over mass", vt::eq(w * w * mass, k[j][j]));
        }
    }
    vt::check("one displacement per node", d.node_disp.len() == 3);
    for i in 0..3 {
        for x in 0..2 {
            let u = d.node_disp[i][x];
            if 2 * i + x == j {
                vt::prove("mode shape has unit modal mass", vt::eq(u * u * mass, 1.0));
            } else {
                vt::prove("mode shape keeps the restraints", vt::eq(u, 0.0));
            }
        }
    }
}

fn one(_: usize) {
    fastrand::set_start(vec![0.5]);
    let (a, b) = (vt::var("k"), vt::var("m"));
    vt::assume(vt::gt(a, 0.0).and(vt::gt(b, 0.0)));
    let (k, m) = (vec![vec![a]], vec![vec![b]]);
    let got = DeterminantSearcher::new(system(&k, &m)).find_eigens(1);
    vt::check("as many pairs as asked for", got.len() == 1);
    vt::prove("eigenvalue is stiffness over mass", vt::eq(got[0].value() * b, a));
    let v = got[0].vector()[0];
    vt::prove("mode shape has unit modal mass", vt::eq(v * v * b, 1.0));
}

// two uncoupled or coupled degrees of freedom of any absolute size: the pairs found are eigenpairs, in order
const PAIRS: usize = 13;
fn pairs(c: usize) {
    fastrand::set_start(vec![0.5, 0.25, 0.75]);
    let s = vt::var("s");
    let t = vt::var("t");
    vt::assume(vt::gt(s, 0.0).and(vt::gt(t, 0.0)));
    let diag = |d: &[f64]| -> Vec<Vec<f64>> { (0..d.len()).map(|i| (0..d.len()).map(|j| if i == j { d[i] } else { 0.0 }).collect()).collect() };
    let (k0, m0): (Vec<Vec<f64>>, Vec<Vec<f64>>) = match c % PAIRS {
        0 => (diag(&[3.0, 1.0]), diag(&[1.0, 1.0])),
        1 => (vec![vec![2.0, -1.0], vec![-1.0, 2.0]], diag(&[1.0, 1.0])),
        2 => (vec![vec![5.0, 1.0], vec![1.0, 2.0]], vec![vec![2.0, 1.0], vec![1.0, 2.0]]),
        3 => (diag(&[1.0, 8.0, 3.0]), diag(&[1.0, 1.0, 1.0])),
        // eigenvalues that share a doubling of the search bound
        4 => (diag(&[1.0, 5.0, 6.5]), diag(&[1.0, 1.0, 1.0])),
        5 => (diag(&[13.0, 20.0, 2.0]), diag(&[2.0, 4.0, 2.0])),
        6 => (vec![vec![1.0, 0.0, 0.0], vec![0.0, 6.0, -0.9], vec![0.0, -0.9, 6.0]], diag(&[1.0, 1.0, 1.0])),
        7 => (vec![vec![2.0, -1.0, 0.0], vec![-1.0, 2.0, -1.0], vec![0.0, -1.0, 2.0]], diag(&[1.0, 1.0, 1.0])),
        8 => (vec![vec![2.0, -1.0, 0.0], vec![-1.0, 2.0, -1.0], vec![0.0, -1.0, 1.0]], vec![vec![4.0, 1.0, 0.0], vec![1.0, 4.0, 1.0], vec![0.0, 1.0, 2.0]]),
        9 => (diag(&[9.0, 1.0, 13.0, 3.0]), diag(&[1.0, 1.0, 1.0, 1.0])),
        11 => (diag(&[9.0, 1.0, 30.0, 3.0, 16.0]), diag(&[1.0, 1.0, 1.0, 1.0, 1.0])),
        12 => (diag(&[9.0, 80.0, 30.0, 3.0, 16.0, 1.0, 48.0]), diag(&[1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 2.0])),
        _ => (diag(&[5.0, 1.0, 6.5, 7.5]), diag(&[1.0, 1.0, 1.0, 1.0])),
    };
    let n = k0.len();
    let k: M = k0.iter().map(|r| r.iter().map(|x| *x * s).collect()).collect();
    let m: M = m0.iter().map(|r| r.iter().map(|x| *x * t).collect()).collect();
    let want = if c < PAIRS { 1 } else if n == 4 && !vt::thorough() { 1 } else { n };
    let got = DeterminantSearcher::new(system(&k, &m)).find_eigens(want);
    vt::check("as many pairs as asked for", got.len() == want);
    for i in 0..want {
        let (l, v) = (got[i].value(), got[i].vector());
        vt::check("one component per unknown", v.len() == n);
        if i > 0 {
            vt::prove("pairs in ascending order", vt::le(got[i - 1].value(), l));
        }
        let (kv, mv) = (mat_vec(&k, v), mat_vec(&m, v));
        vt::prove("mode shape has unit modal mass", vt::eq(dot(v, &mv), 1.0));
        // residual against the size of K v, and the value against the Rayleigh quotient
        let r: Vec<f64> = (0..n).map(|j| kv[j] - l * mv[j]).collect();
        vt::prove("pair satisfies K v = l M v", vt::le(dot(&r, &r), 0.001 * dot(&kv, &kv)));
        // no pair is skipped: exactly i eigenvalues lie well below this one
        let below = l * 0.99;
        let a: M = (0..n).map(|x| (0..n).map(|y| k[x][y] - below * m[x][y]).collect()).collect();
        if n <= 4 {
            vt::prove("no eigenvalue skipped", negatives(n, &a, i));
        } else {
            // uncoupled: the eigenvalues are the ratios on the diagonal
            let mut w: Vec<f64> = (0..n).map(|j| k0[j][j] / m0[j][j]).collect();
            w.sort_by(|a, b| a.partial_cmp(b).unwrap());
            vt::prove("no eigenvalue skipped, many unknowns", vt::le(w[i] * 0.99 * s, l * t).and(vt::le(l * t, w[i] * 1.01 * s)));
        }
    }
}
// asked for more and more: the pairs found before stay as they are
fn again(c: usize) {
    fastrand::set_start(vec![0.5, 0.25, 0.75]);
    let diag = |d: &[f64]| -> M { (0..d.len()).map(|i| (0..d.len()).map(|j| if i == j { d[i] } else { 0.0 }).collect()).collect() };
    let (s, t) = (vt::var("s"), vt::var("t"));
    vt::assume(vt::gt(s, 0.0).and(vt::gt(t, 0.0)));
    let (k0, m0) = match c % 3 {
        0 => (diag(&[3.0, 1.0]), diag(&[1.0, 1.0])),
        1 => (diag(&[13.0, 20.0, 2.0]), diag(&[2.0, 4.0, 2.0])),
        _ => (vec![vec![2.0, -1.0, 0.0], vec![-1.0, 2.0, -1.0], vec![0.0, -1.0, 2.0]], diag(&[1.0, 1.0, 1.0])),
    };
    let n = k0.len();
    let k: M = k0.iter().map(|r| r.iter().map(|x| *x * s).collect()).collect();
    let m: M = m0.iter().map(|r| r.iter().map(|x| *x * t).collect()).collect();
    let mut d = DeterminantSearcher::new(system(&k, &m));
    let mut before: Vec<(f64, Vec<f64>)> = vec![];
    let asked = [vec![1, 1, n], vec![0, 2, n, 1]][c / 3].clone();
    for want in asked {
        let got = d.find_eigens(want);
        vt::check("as many pairs as asked for", got.len() == want);
        let all = d.eigenpairs();
        vt::check("what is asked for is found", all.len() >= want.max(before.len()));
        for (i, p) in got.iter().enumerate() {
            if i < before.len() {
                vt::prove("the same value", vt::eq(p.value(), before[i].0));
                prove_vec("the same shape", p.vector(), &before[i].1);
            }
            prove_vec("listed as handed out", all[i].vector(), p.vector());
            vt::prove("listed as handed out", vt::eq(all[i].value(), p.value()));
            // in the order of the unknowns given
            let (kv, mv) = (mat_vec(&k, p.vector()), mat_vec(&m, p.vector()));
            vt::prove("mode shape has unit modal mass", vt::eq(dot(p.vector(), &mv), 1.0));
            let r: Vec<f64> = (0..n).map(|j| kv[j] - p.value() * mv[j]).collect();
            vt::prove("pair satisfies K v = l M v", vt::le(dot(&r, &r), 0.001 * dot(&kv, &kv)));
        }
        if got.len() > before.len() {
            before = got.iter().map(|p| (p.value(), p.vector().to_vec())).collect();
        }
    }
}

// a body of two triangles: the modes are those of its stiffness and mass in the free directions
fn modes(c: usize) {
    modes_of(c, false)
}
// asked for before the body was complete, and again
fn modes_grown(c: usize) {
    modes_of(c, true)
}
fn modes_of(c: usize, grown: bool) {
    fastrand::set_start(vec![0.5, 0.25, 0.75]);
    let kind = [Cond::Stress, Cond::Strain][c % 2];
    let m = Material { poisson: 0.25, ..sym_material() };
    let t = sym_thickness();
    let pts = [(0.0, 0.0), (3.0, 0.0), (3.5, 4.0), (0.0, 4.0)];
    let (mut el, ids) = assemblage(kind, t, m, &pts);
    let mut parts = vec![];
    let mut masses = vec![];
    for (i, x) in [[0, 1, 2], [3, 2, 0]].iter().enumerate() {
        if grown && i == 1 {
            for j in [0, 1, 3].iter() {
                el.add_constraint(ids[*j], Constraint::XYFixed);
            }
            vt::check("modes of the first element", el.calc_modes(2).len() == 2);
        }
        el.add_element(ElementDescriptor::new([ids[x[0]], ids[x[1]], ids[x[2]]]));
        let p = [pts[x[0]], pts[x[1]], pts[x[2]]];
        parts.push((*x, cst(kind, t, m, &p)));
        let a = area2(&p);
        let a = if a > 0.0 { a } else { -a };
        let w: M = (0..6).map(|i| (0..6).map(|j| if i % 2 != j % 2 { 0.0 } else if i == j { m.density * t * a / 12.0 } else { m.density * t * a / 24.0 }).collect()).collect();
        masses.push((*x, w));
    }
    let (k, w) = (global(4, &parts), global(4, &masses));
    use Constraint::{Free, XFixed, XYFixed, YFixed};
    let cons = [
        [XYFixed, XYFixed, Free, XYFixed],
        [XYFixed, XFixed, XYFixed, YFixed],
        [YFixed, XYFixed, XFixed, XYFixed],
        [XYFixed, XYFixed, YFixed, YFixed],
        [XFixed, XYFixed, YFixed, XYFixed],
    ][c / 2]
        .to_vec();
    for i in 0..4 {
        el.add_constraint(ids[i], cons[i]);
    }
    let bs = basis(&cons);
    let want = bs.len();
    let got = el.calc_modes(want);
    vt::check("as many modes as asked for", got.len() == want);
    let mut last: Option<f64> = None;
    for d in got.iter() {
        let u: Vec<f64> = d.node_disp.iter().flat_map(|p| vec![p[0], p[1]]).collect();
        vt::check("one displacement per node", u.len() == 8);
        prove_held(&cons, &u);
        let f = d.frequency().unwrap();
        vt::prove("frequency is not negative", vt::ge(f, 0.0));
        let (ku, mu) = (mat_vec(&k, &u), mat_vec(&w, &u));
        vt::prove("mode shape has unit modal mass", vt::eq(dot(&u, &mu), 1.0));
        let res: Vec<f64> = bs.iter().map(|b| dot(b, &ku) - f * f * dot(b, &mu)).collect();
        let of: Vec<f64> = bs.iter().map(|b| dot(b, &ku)).collect();
        vt::prove("mode satisfies K u = w2 M u in the free directions", vt::le(dot(&res, &res), 0.001 * dot(&of, &of)));
        if let Some(l) = last {
            vt::prove("modes in ascending order", vt::le(l, f));
        }
        last = Some(f);
    }
}
fn negatives(n: usize, a: &M, want: usize) -> vt::B {
    let all = (1usize << n) - 1;
    let sets: Vec<usize> = (1..(all + 1)).collect();
    if want == 0 {
        return vt::all(sets.into_iter().map(|s| vt::gt(principal(a, s), 0.0)));
    }
    // sums of principal minors are the coefficients of the characteristic polynomial
    let e = |k: u32| sets.iter().filter(|s| s.count_ones() == k).fold(0.0, |x, s| x + principal(a, *s));
    let d = e(n as u32);
    if n == 2 {
        return if want == 1 { vt::lt(d, 0.0) } else { vt::gt(d, 0.0).and(vt::lt(e(1), 0.0)) };
    }
    let pd = vt::gt(e(1), 0.0).and(vt::gt(e(2), 0.0)).and(vt::gt(d, 0.0));
    let nd = vt::lt(e(1), 0.0).and(vt::gt(e(2), 0.0)).and(vt::lt(d, 0.0));
    if n == 4 {
        // the determinant gives the parity; one or three, two or four are told apart by definiteness of -A
        let (a1, a2, a3) = (e(1), e(2), e(3));
        let pd = vt::gt(a1, 0.0).and(vt::gt(a2, 0.0)).and(vt::gt(a3, 0.0)).and(vt::gt(d, 0.0));
        // Descartes' rule, exact for real roots: sign changes of 1, -e1, e2, -e3, e4 are the positive eigenvalues
        let (p, m) = (|x: f64| vt::gt(x, 0.0), |x: f64| vt::lt(x, 0.0));
        let neg1 = m(d).and(p(a1).and(p(a2)).or(p(a1).and(m(a3))).or(m(a2).and(m(a3))));
        return match want {
            1 => neg1,
            2 => p(d).and(pd.not()).and((m(a1).and(p(a2)).and(m(a3))).not()),
            3 => m(d).and(neg1.not()),
            _ => p(d).and(m(a1)).and(p(a2)).and(m(a3)),
        };
    }
    match want {
        1 => vt::lt(d, 0.0).and(nd.not()),
        2 => vt::gt(d, 0.0).and(pd.not()),
        _ => nd,
    }
}

// steps of the search
fn rayleigh(c: usize) {
    let n = 2 + c % 2;
    let k = sym_symmetric("k", n, &|i, j| c < 2 || i + j != 2);
    let m = sym_symmetric("m", n, &|i, j| c < 2 || i + j != 2);
    let x = vt::vars("x", n);
    let den = dot(&x, &mat_vec(&m, &x));
    vt::assume(vt::ne(den, 0.0));
    let (kb, mb): (BiEnvelope, BiEnvelope) = (dict(&k).into(), dict(&m).into());
    let r = rayleigh_quotient(&x, &kb, &mb);
    vt::prove("Rayleigh quotient", vt::eq(r * den, dot(&x, &mat_vec(&k, &x))));
}
fn dict(k: &M) -> crate::matrix::Dictionary {
    let n = k.len();
    crate::matrix::Dictionary::from_flat(n, k.iter().flatten().cloned().collect::<Vec<f64>>())
}

// x after one inverse iteration: K x proportional to M x0, unit modal mass
fn inverse_times(c: usize) {
    let n = 1 + c / 2;
    let k = sym2("k", n, c % 2 == 1);
    // a mass matrix whose structure fits
    let m: M = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 + i as f64 } else { 0.0 }).collect()).collect();
    let s = system(&k, &m);
    let (ks, ms) = stored(&s);
    let x = inverse_iterate_times(&s.k_mat, &s.m_mat, 1);
    vt::check("one component per unknown", x.len() == n);
    vt::prove("unit modal mass", vt::eq(dot(&x, &mat_vec(&ms, &x)), 1.0));
    let y = inverse_iterate_times(&s.k_mat, &s.m_mat, 2);
    vt::prove("unit modal mass after two", vt::eq(dot(&y, &mat_vec(&ms, &y)), 1.0));
    // with the same start, two iterations are one more application of K^-1 M
    let (ky, mx) = (mat_vec(&ks, &y), mat_vec(&ms, &x));
    for i in 0..n {
        for j in 0..i {
            vt::prove("each iteration applies K^-1 M", vt::eq(ky[i] * mx[j], ky[j] * mx[i]));
        }
    }
}

// deflation removes the known modes
fn deflate(c: usize) {
    let (n, known) = [(1, 1), (2, 1), (3, 1), (3, 2), (2, 2)][c];
    let band = if c == 3 && !vt::thorough() { 0 } else { 1 };
    let m = sym_symmetric("m", n, &|i, j| i - j <= band);
    let vs: Vec<Vec<f64>> = (0..known).map(|i| vt::vars(&format!("v{}_", i), n)).collect();
    for i in 0..known {
        for j in 0..(i + 1) {
            vt::assume(vt::eq(dot(&vs[i], &mat_vec(&m, &vs[j])), if i == j { 1.0 } else { 0.0 }));
        }
    }
    let mut x = vt::vars("x", n);
    let before = x.clone();
    let mb: BiEnvelope = dict(&m).into();
    let eigs: Vec<EigenPair> = vs.iter().map(|v| EigenPair::new(1.0, v.clone())).collect();
    gram_schmidt_orthogonalize(&mut x, &mb, &eigs);
    for v in vs.iter() {
        vt::prove("deflated vector is orthogonal to the known modes", vt::eq(dot(v, &mat_vec(&m, &x)), 0.0));
    }
    // only multiples of the known modes are removed
    let w: Vec<f64> = vs.iter().map(|v| dot(v, &mat_vec(&m, &before))).collect();
    for i in 0..n {
        let back = (0..known).fold(x[i], |s, j| s + w[j] * vs[j][i]);
        vt::prove("nothing else is removed", vt::eq(back, before[i]));
    }
}

// splitting a range keeps the counts and the bounds
fn split(c: usize) {
    let (low, next) = [(0, 2), (0, 3), (1, 3), (1, 4), (2, 5)][c];
    let (a, b) = (vt::var("a"), vt::var("b"));
    vt::assume(vt::lt(a, b));
    let n = low + vt::choose("below", next - low + 1);
    let r = ManyEigenRange::new(a, b, low, next);
    let mid = r.mid_val();
    vt::prove("split point halves the range", vt::eq(2.0 * mid, a + b));
    let (l, u) = r.split(n);
    let part = |name: &str, r: EigenRange, lo: f64, hi: f64, count: usize, first: usize| match r {
        EigenRange::Empty => vt::check(&format!("{} part empty only without eigenvalues", name), count == 0),
        EigenRange::One(r) => {
            vt::check(&format!("{} part holds one", name), count == 1);
            vt::prove(&format!("{} bounds", name), vt::eq(r.lower, lo).and(vt::eq(r.upper, hi)));
            vt::prove(&format!("{} middle", name), vt::eq(2.0 * r.mid_val(), lo + hi));
        }
        EigenRange::Many(r) => {
            vt::check(&format!("{} part holds its count", name), count > 1 && r.low_i == first && r.next_i == first + count);
            vt::prove(&format!("{} bounds", name), vt::eq(r.lower, lo).and(vt::eq(r.upper, hi)));
        }
    };
    part("lower", l, a, mid, n - low, low);
    part("upper", u, mid, b, next - n, n);
    match EigenRange::new(a, b, low, next) {
        EigenRange::Many(r) => vt::check("range of several", r.low_i == low && r.next_i == next),
        _ => vt::check("range of several is recognised", false),
    }
    match EigenRange::new(a, b, low, low + 1) {
        EigenRange::One(r) => vt::prove("range of one", vt::eq(r.lower, a).and(vt::eq(r.upper, b))),
        _ => vt::check("range of one is recognised", false),
    }
    vt::check("inverted range refused", vt::catches(|| OneEigenRange::new(b, a)).is_none());
}

// the eigensystem of every held right triangle is accepted, and its matrices are the reduced ones
fn accepts(c: usize) {
    let mut k = c;
    let cons: Vec<Constraint> = (0..3)
        .map(|_| {
            let x = restraint("a", k % 4);
            k /= 4;
            x
        })
        .collect();
    let p = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)];
    let (mut el, ids) = assemblage(Cond::Stress, sym_thickness(), Material { poisson: 0.25, ..sym_material() }, &p);
    el.add_element(ElementDescriptor::new([ids[0], ids[1], ids[2]]));
    for i in 0..3 {
        el.add_constraint(ids[i], cons[i]);
    }
    let t = DofTransform::from_constraints(&cons);
    let (kb, mb) = (t.bar_matrix(&el.calc_k()), t.bar_matrix(&el.calc_m()));
    let n = kb.shape().0;
    if n == 0 {
        vt::check("nothing free: no claim", true);
        return;
    }
    let (kw, mw): (M, M) = ((0..n).map(|i| (0..n).map(|j| kb[(i, j)]).collect()).collect(), (0..n).map(|i| (0..n).map(|j| mb[(i, j)]).collect()).collect());
    let s = EigenSystem::new(System::from_km(&kb, &mb));
    let (ks, ms) = stored(&s);
    vt::check("same number of unknowns", s.dofs() == n);
    for i in 0..n {
        for j in 0..n {
            // perm takes the internal numbering back to the caller's
            let (a, b) = (s.perm.permute(i), s.perm.permute(j));
            vt::prove("stored stiffness is the reduced one, renumbered", vt::eq(ks[i][j], kw[a][b]));
            vt::prove("stored full stiffness is the reduced one, renumbered", vt::eq(s.k_full[(i, j)], kw[a][b]));
            vt::prove("stored mass is the reduced one, renumbered", vt::eq(ms[i][j], mw[a][b]));
        }
    }
    let _: Option<LowerRowEnvelope> = None;
}

pub fn list() -> Vec<vt::Harness> {
    vec![
        ("single", 12, single),
        ("one", 1, one),
        ("pairs", 2 * PAIRS - 2, pairs),
        ("again", 6, again),
        ("modes", 10, modes),
        ("modes_grown", 2, modes_grown),
        ("rayleigh", 4, rayleigh),
        ("inverse_times", 4, inverse_times),
        ("deflate", 5, deflate),
        ("split", 5, split),
        ("accepts", 64, accepts),
    ]
}
