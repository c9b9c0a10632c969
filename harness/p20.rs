// Material law: C is the inverse of the textbook compliance, symmetric and positive definite.
use crate::fem::*;
use crate::matrix::{LinearMatrix, MatrixLike};
use crate::spatial::Point;
use crate::util::*;

fn law(c: usize) {
    let k = CONDS[c];
    let m = sym_material();
    let cond = condition(k, vt::var("t"));
    let n = if k == Cond::Axi { 4 } else { 3 };
    let cm = cond.build_c(m);
    vt::check("one row per strain component", cm.shape() == (n, n) && cond.vec_len() == n);
    let cm: M = (0..n).map(|i| (0..n).map(|j| cm[(i, j)]).collect()).collect();
    for i in 0..n {
        let e = unit(n, i);
        prove_vec("C is Hooke's law", &mat_vec(&cm, &e), &hooke(k, m, &e));
        for j in 0..i {
            vt::prove("C is symmetric", vt::eq(cm[i][j], cm[j][i]));
        }
    }
    // stress gives the strain back through the compliance
    let s = vt::vars("s", n);
    let st = mat_vec(&cm, &s);
    let z = match k {
        Cond::Stress => 0.0,
        Cond::Strain => m.poisson * (st[0] + st[1]),
        Cond::Axi => st[3],
    };
    let (e, v) = (m.youngs, m.poisson);
    vt::prove("compliance xx", vt::eq(e * s[0], st[0] - v * (st[1] + z)));
    vt::prove("compliance yy", vt::eq(e * s[1], st[1] - v * (st[0] + z)));
    vt::prove("compliance xy", vt::eq(e * s[2], 2.0 * (1.0 + v) * st[2]));
    if k == Cond::Axi {
        vt::prove("compliance zz", vt::eq(e * s[3], z - v * (st[0] + st[1])));
    }
    for set in 1..(1usize << n) {
        vt::prove("C is positive definite", vt::gt(principal(&cm, set), 0.0));
    }
}

// the strain matrix B maps nodal displacements to strains; a field with linear components
fn strain(c: usize) {
    let (k, part) = (CONDS[c % 3], c / 3);
    let h = [0.25, 0.25, 0.5];
    let g: M = sym_mat("g", 2, 3);
    let gm = LinearMatrix::from_flat((2, 3), g.iter().flatten().cloned().collect::<Vec<f64>>());
    let (r, z) = (vt::var("r"), vt::var("z"));
    vt::assume(vt::gt(r, 0.0));
    let b = condition(k, 1.0).build_b(&h, &gm, Point::new(&[r, z]));
    let u = vt::vars("u", 6);
    let n = if k == Cond::Axi { 4 } else { 3 };
    vt::check("strain matrix shape", b.shape() == (n, 6));
    let bm: M = (0..n).map(|i| (0..6).map(|j| b[(i, j)]).collect()).collect();
    let got = mat_vec(&bm, &u);
    let s = |row: usize, d: usize| (0..3).fold(0.0, |a, i| a + g[row][i] * u[2 * i + d]);
    let mut want = vec![s(0, 0), s(1, 1), s(1, 0) + s(0, 1)];
    if k == Cond::Axi {
        want.push((0..3).fold(0.0, |a, i| a + h[i] * u[2 * i]) / r);
    }
    prove_vec("strain", &got, &want);
    let _ = part;
    let t = vt::var("t");
    let th = condition(k, t).thickness(Point::new(&[r, z]));
    vt::prove("thickness", vt::eq(th, if k == Cond::Axi { r } else { t }));
}

pub fn list() -> Vec<vt::Harness> {
    vec![("law", 3, law), ("strain", 3, strain)]
}
