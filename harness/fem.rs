// helpers for the finite element harnesses: textbook definitions, no code of the repository behind them
use crate::element::constraint::Constraint;
use crate::element::element::Element;
use crate::element::material::Material;
use crate::element::strain::Condition;
use crate::element::{ElementAssemblage, ElementDescriptor, NodeId};
use crate::spatial::Point;
use crate::util::*;

pub fn list() -> Vec<vt::Harness> {
    vec![]
}

pub type P2 = (f64, f64);

pub fn area2(p: &[P2]) -> f64 {
    (p[1].0 - p[0].0) * (p[2].1 - p[0].1) - (p[2].0 - p[0].0) * (p[1].1 - p[0].1)
}
pub fn boxed(x: f64, b: f64) {
    vt::assume(vt::le(x, b).and(vt::ge(x, -b)));
}
// a triangle of clearly non-zero area and given orientation
pub fn sym_triangle(pre: &str, ccw: bool) -> Vec<P2> {
    sym_triangle_of(pre, ccw, 1.0)
}
// sizes around which the triangles are taken: ordinary, small and large bodies
pub const SIZES: [f64; 3] = [1.0, 1.0 / 4096.0, 4096.0];
pub fn sym_triangle_of(pre: &str, ccw: bool, size: f64) -> Vec<P2> {
    let p: Vec<P2> = (0..3).map(|i| (vt::var(&format!("{}x{}", pre, i)), vt::var(&format!("{}y{}", pre, i)))).collect();
    for q in p.iter() {
        boxed(q.0, 100.0 * size);
        boxed(q.1, 100.0 * size);
    }
    let a = area2(&p);
    vt::assume(if ccw { vt::ge(a, 0.01 * size * size) } else { vt::le(a, -0.01 * size * size) });
    p
}
pub fn sym_material() -> Material {
    let (e, nu, rho) = (vt::var("E"), vt::var("nu"), vt::var("rho"));
    vt::assume(vt::gt(e, 0.0));
    vt::assume(vt::gt(nu, -1.0));
    vt::assume(vt::lt(nu, 0.5));
    vt::assume(vt::gt(rho, 0.0));
    Material { name: "any", youngs: e, poisson: nu, density: rho }
}
pub fn sym_thickness() -> f64 {
    let t = vt::var("t");
    vt::assume(vt::gt(t, 0.0));
    t
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cond {
    Stress,
    Strain,
    Axi,
}
pub const CONDS: [Cond; 3] = [Cond::Stress, Cond::Strain, Cond::Axi];

pub fn condition(k: Cond, t: f64) -> Condition {
    match k {
        Cond::Stress => Condition::PlaneStress(t),
        Cond::Strain => Condition::PlaneStrain(t),
        Cond::Axi => Condition::Axisymmetric,
    }
}

// stress from strain by Hooke's law; strain is [exx eyy gxy (ezz)]
pub fn hooke(k: Cond, m: Material, s: &[f64]) -> Vec<f64> {
    let (e, v) = (m.youngs, m.poisson);
    let g = e / (2.0 * (1.0 + v));
    match k {
        Cond::Stress => {
            let f = e / (1.0 - v * v);
            vec![f * (s[0] + v * s[1]), f * (s[1] + v * s[0]), g * s[2]]
        }
        _ => {
            let lam = e * v / ((1.0 + v) * (1.0 - 2.0 * v));
            let z = if k == Cond::Axi { s[3] } else { 0.0 };
            let tr = s[0] + s[1] + z;
            let mut r = vec![lam * tr + 2.0 * g * s[0], lam * tr + 2.0 * g * s[1], g * s[2]];
            if k == Cond::Axi {
                r.push(lam * tr + 2.0 * g * z);
            }
            r
        }
    }
}

pub fn assemblage(k: Cond, t: f64, m: Material, pts: &[P2]) -> (ElementAssemblage, Vec<NodeId>) {
    let mut el = ElementAssemblage::new(m, condition(k, t));
    let ids = el.add_nodes(pts);
    (el, ids)
}

pub fn idx(d: crate::element::NodeDof) -> usize {
    // the place of a degree of freedom in the global ordering
    (d.0).0 * 2 + d.1
}

// the element contribution as a dense matrix over the global degrees of freedom
pub fn scatter(n: usize, v: Vec<(crate::element::NodeDof, crate::element::NodeDof, f64)>) -> M {
    let mut m = vec![vec![0.0; n]; n];
    for (i, j, x) in v {
        m[idx(i)][idx(j)] = m[idx(i)][idx(j)] + x;
    }
    m
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b.iter()).fold(0.0, |s, (x, y)| s + *x * *y)
}

// displacements (interleaved) of the linear field u = c0 + c1 x + c2 y, v = c3 + c4 x + c5 y
pub fn field(c: &[f64], pts: &[P2]) -> Vec<f64> {
    pts.iter().flat_map(|p| vec![c[0] + c[1] * p.0 + c[2] * p.1, c[3] + c[4] * p.0 + c[5] * p.1]).collect()
}
pub fn field_strain(c: &[f64]) -> Vec<f64> {
    vec![c[1], c[5], c[2] + c[4]]
}
pub fn unit(n: usize, i: usize) -> Vec<f64> {
    (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()
}

// stiffness of the constant strain triangle, textbook form
pub fn cst(k: Cond, t: f64, m: Material, p: &[P2]) -> M {
    let a2 = area2(p);
    let b: Vec<f64> = (0..3).map(|i| (p[(i + 1) % 3].1 - p[(i + 2) % 3].1) / a2).collect();
    let c: Vec<f64> = (0..3).map(|i| (p[(i + 2) % 3].0 - p[(i + 1) % 3].0) / a2).collect();
    let col = |j: usize| -> Vec<f64> {
        if j % 2 == 0 {
            vec![b[j / 2], 0.0, c[j / 2]]
        } else {
            vec![0.0, c[j / 2], b[j / 2]]
        }
    };
    let area = if a2 > 0.0 { a2 / 2.0 } else { a2 / -2.0 };
    (0..6)
        .map(|i| {
            let e = col(i);
            (0..6).map(|j| t * area * dot(&e, &hooke(k, m, &col(j)))).collect()
        })
        .collect()
}
pub fn global(n: usize, parts: &[([usize; 3], M)]) -> M {
    let mut k = vec![vec![0.0; 2 * n]; 2 * n];
    for (t, e) in parts {
        for i in 0..6 {
            for j in 0..6 {
                let (a, b) = (2 * t[i / 2] + i % 2, 2 * t[j / 2] + j % 2);
                k[a][b] = k[a][b] + e[i][j];
            }
        }
    }
    k
}

pub fn restraint(name: &str, k: usize) -> Constraint {
    match k {
        0 => Constraint::Free,
        1 => Constraint::XFixed,
        2 => Constraint::YFixed,
        3 => Constraint::XYFixed,
        _ => Constraint::AngleFixed(vt::var(name)),
    }
}
// columns of the basis of admissible displacements, node by node
pub fn basis(cons: &[Constraint]) -> M {
    let n = 2 * cons.len();
    let mut cols: M = vec![];
    for (i, c) in cons.iter().enumerate() {
        let (ex, ey) = (unit(n, 2 * i), unit(n, 2 * i + 1));
        match c {
            Constraint::Free => {
                cols.push(ex);
                cols.push(ey);
            }
            Constraint::XFixed => cols.push(ey),
            Constraint::YFixed => cols.push(ex),
            Constraint::XYFixed => {}
            Constraint::AngleFixed(a) => {
                // normal to the restrained direction (cos a, sin a)
                let (s, c) = (a.sin(), a.cos());
                cols.push((0..n).map(|k| c * ey[k] - s * ex[k]).collect());
            }
        }
    }
    cols
}
pub fn prove_held(cons: &[Constraint], u: &[f64]) {
    for (i, c) in cons.iter().enumerate() {
        match c {
            Constraint::XFixed => vt::prove("x held", vt::eq(u[2 * i], 0.0)),
            Constraint::YFixed => vt::prove("y held", vt::eq(u[2 * i + 1], 0.0)),
            Constraint::XYFixed => vt::prove("xy held", vt::eq(u[2 * i], 0.0).and(vt::eq(u[2 * i + 1], 0.0))),
            Constraint::AngleFixed(a) => vt::prove("direction held", vt::eq(a.cos() * u[2 * i] + a.sin() * u[2 * i + 1], 0.0)),
            Constraint::Free => {}
        }
    }
}

// larger bodies of fixed shape: a strip of triangles, and triangles around one node
pub struct Body {
    pub pts: Vec<P2>,
    pub tris: Vec<[usize; 3]>,
}
fn shuffled(pts: Vec<P2>, tris: Vec<[usize; 3]>, d: &mut Dice) -> Body {
    // nodes renumbered, elements in any order, starting at any node, of either orientation
    let n = pts.len();
    let at = d.perm(n);
    let mut q = vec![(0.0, 0.0); n];
    for i in 0..n {
        q[at[i]] = pts[i];
    }
    let order = d.perm(tris.len());
    let tris = order
        .iter()
        .map(|&i| {
            let t = tris[i];
            let r = d.next(3);
            let (a, b, c) = (at[t[r]], at[t[(r + 1) % 3]], at[t[(r + 2) % 3]]);
            if d.next(2) == 0 {
                [a, b, c]
            } else {
                [a, c, b]
            }
        })
        .collect();
    Body { pts: q, tris }
}
// sides 3 and 4, diagonals 5: every edge length is exact
pub fn strip(cells: usize, d: &mut Dice) -> Body {
    let (mut pts, mut tris) = (vec![], vec![]);
    for i in 0..=cells {
        pts.push((1.0 + 3.0 * (i as f64), 0.0));
        pts.push((1.0 + 3.0 * (i as f64), 4.0));
        if i < cells {
            let k = 2 * i;
            tris.push([k, k + 2, k + 1]);
            tris.push([k + 2, k + 3, k + 1]);
        }
    }
    shuffled(pts, tris, d)
}
pub fn fan(n: usize, d: &mut Dice) -> Body {
    let off = [(4.0, 0.0), (3.0, 3.0), (0.0, 4.0), (-3.0, 3.0), (-4.0, 0.0), (-3.0, -3.0), (0.0, -4.0), (3.0, -3.0)];
    let mut pts = vec![(6.0, 5.0)];
    pts.extend(off.iter().map(|o| (6.0 + o.0, 5.0 + o.1)));
    let tris = (0..n).map(|i| [0, 1 + i, 1 + (i + 1) % 8]).collect();
    shuffled(pts, tris, d)
}
pub fn body(c: usize, d: &mut Dice) -> Body {
    if c % 2 == 0 {
        strip(3 + c % 3, d)
    } else {
        fan(5 + c % 4, d)
    }
}

// ordinary triangles far from the origin; sides of length about one, so nothing need be lost in them
pub fn far(c: usize) -> Vec<P2> {
    let at = [(1048576.0, 0.0), (-1048576.0, 2097152.0), (3145728.0, 3145728.0), (1048576.0, -4194304.0)][c % 4];
    let p = [(0.25, -0.5), (2.0, 0.5), (0.5, 1.5)];
    let r = c / 4 % 3;
    let mut q: Vec<P2> = (0..3).map(|i| (p[(i + r) % 3].0 + at.0, p[(i + r) % 3].1 + at.1)).collect();
    if c % 2 == 1 {
        q.swap(0, 2);
    }
    q
}
pub fn plain_material() -> Material {
    Material { name: "any", youngs: 2.0, poisson: 0.25, density: 3.0 }
}
