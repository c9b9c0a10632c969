// Whole analysis: the displacements returned hold every restraint and balance the loads in every
// free direction, with each solver.
use crate::element::constraint::Constraint;
use crate::element::{ElementAssemblage, ElementDescriptor, NodeId};
use crate::element::material::Material;
use crate::fem::*;
use crate::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use crate::matrix::solve::{Solver, System};
use crate::matrix::{LinearMatrix, MatrixLike};
use crate::spatial::Point;
use crate::util::*;

// a solver that answers with an arbitrary solution of the system it is given
struct AnySolver {
    k: LinearMatrix,
    r: Vec<f64>,
}
impl Solver for AnySolver {
    fn new(sys: System) -> Self {
        let n = sys.dofs();
        let (k, r, _): (LinearMatrix, Vec<f64>, _) = sys.into_krp();
        vt::check("system is square and complete", k.shape() == (n, n) && r.len() == n);
        AnySolver { k, r }
    }
    fn solve(self) -> Result<Vec<f64>, ()> {
        let n = self.r.len();
        let u = vt::vars("sol", n);
        for i in 0..n {
            let s = (0..n).fold(0.0, |s, j| s + self.k[(i, j)] * u[j]);
            vt::assume(vt::eq(s, self.r[i]));
        }
        Ok(u)
    }
}

fn solve_with(el: &mut ElementAssemblage, which: usize) -> Option<Vec<f64>> {
    let flat = |d: crate::element::Deformation| d.node_disp.iter().flat_map(|p| vec![p[0], p[1]]).collect::<Vec<f64>>();
    vt::catches(|| match which {
        0 => flat(el.calc_displacements::<AnySolver>()),
        1 => flat(el.calc_displacements::<DenseGaussSolver>()),
        _ => flat(el.calc_displacements::<CholeskyEnvelopeSolver>()),
    })
}

fn material(fixed: bool) -> Material {
    let e = if fixed { 2.0 } else { vt::var("E") };
    vt::assume(vt::gt(e, 0.0));
    Material { name: "any", youngs: e, poisson: 0.25, density: 1.0 }
}

fn analyse(kind: Cond, pts: &[P2], tris: &[[usize; 3]], cons: &[Constraint], edge: (usize, usize), which: usize) {
    let n = pts.len();
    // the solvers themselves are decided for arbitrary matrices elsewhere (P07)
    let m = material(which > 0);
    let t = if which > 0 { 0.5 } else { sym_thickness() };
    let (mut el, ids) = assemblage(kind, t, m, pts);
    let mut parts = vec![];
    for x in tris {
        el.add_element(ElementDescriptor::new([ids[x[0]], ids[x[1]], ids[x[2]]]));
        parts.push((*x, cst(kind, t, m, &[pts[x[0]], pts[x[1]], pts[x[2]]])));
    }
    let k = global(n, &parts);
    let mut r = vec![0.0; 2 * n];
    // irrational pivots: one load pattern of any size
    let single = which == 2 && n > 3;
    let scale = vt::var("load");
    for i in 0..n {
        el.add_constraint(ids[i], cons[i]);
        if i % 2 == 1 {
            let f = if single { vec![scale, 2.0 * scale] } else { vt::vars(&format!("f{}_", i), 2) };
            el.add_conc_force(ids[i], Point::new(&f));
            r[2 * i] = r[2 * i] + f[0];
            r[2 * i + 1] = r[2 * i + 1] + f[1];
        }
    }
    let q = if single { vec![3.0 * scale, -scale] } else { vt::vars("q", 2) };
    el.add_dist_line_force(ids[edge.0], ids[edge.1], Point::new(&q));
    let (a, b) = (pts[edge.0], pts[edge.1]);
    let l = ((a.0 - b.0) * (a.0 - b.0) + (a.1 - b.1) * (a.1 - b.1)).sqrt();
    for i in [edge.0, edge.1].iter() {
        for d in 0..2 {
            r[2 * i + d] = r[2 * i + d] + q[d] * l / 2.0;
        }
    }
    let bs = basis(cons);
    let kb: M = bs.iter().map(|x| bs.iter().map(|y| dot(x, &mat_vec(&k, y))).collect()).collect();
    if which > 0 {
        // enough restraints to hold the body
        let d = det(&kb);
        if d < 1e-6 && d > -1e-6 {
            vt::check("too few restraints: no claim", true);
            return;
        }
    }
    let u = match solve_with(&mut el, which) {
        Some(u) => u,
        None => {
            vt::check("a held structure has displacements", false);
            return;
        }
    };
    vt::check("one displacement per node", u.len() == 2 * n);
    prove_held(cons, &u);
    let ku = mat_vec(&k, &u);
    let res: Vec<f64> = (0..2 * n).map(|i| ku[i] - r[i]).collect();
    for d in bs.iter() {
        vt::prove("loads balanced in every free direction", vt::eq(dot(d, &res), 0.0));
    }
}

const TRI: [P2; 3] = [(0.0, 0.0), (3.0, 0.0), (0.0, 4.0)];
const QUAD: [P2; 4] = [(0.0, 0.0), (3.0, 0.0), (3.5, 4.0), (0.0, 4.0)];

fn cons(n: usize, mut c: usize, kinds: usize) -> Vec<Constraint> {
    (0..n)
        .map(|i| {
            let k = restraint(&format!("a{}", i), c % kinds);
            c /= kinds;
            k
        })
        .collect()
}

fn any_solver(c: usize) {
    analyse(CONDS[c % 2], &TRI, &[[0, 1, 2]], &cons(3, c, 5), (1, 2), 0)
}
fn any_quad(c: usize) {
    analyse(Cond::Stress, &QUAD, &[[0, 1, 2], [3, 2, 0]], &cons(4, c * 7, 5), (2, 3), 0)
}
fn gauss(c: usize) {
    analyse(CONDS[c % 2], &TRI, &[[0, 2, 1]], &cons(3, c, 4), (0, 1), 1)
}
fn cholesky(c: usize) {
    analyse(CONDS[c % 2], &TRI, &[[0, 1, 2]], &cons(3, c, 4), (2, 0), 2)
}
// restraint combinations of four nodes; quick keeps the ones with few free directions (the pivots of the
// factorisation are nested square roots, one per free direction)
fn quad_codes() -> Vec<usize> {
    let free = |mut c: usize| -> usize {
        (0..4)
            .map(|_| {
                let f = [2, 1, 1, 0][c % 4];
                c /= 4;
                f
            })
            .sum()
    };
    (0..256).filter(|&c| vt::thorough() || free(c) <= 2).collect()
}
fn cholesky_quad(c: usize) {
    analyse(Cond::Strain, &QUAD, &[[0, 1, 2], [2, 3, 0]], &cons(4, quad_codes()[c], 4), (2, 3), 2)
}
// one inclined restraint, the other nodes held enough
fn inclined(c: usize) {
    let (node, solver) = (c % 3, 1 + c / 3 % 2);
    let mut k = vec![Constraint::XYFixed; 3];
    k[node] = restraint("a", 4);
    if c >= 6 {
        k[(node + 1) % 3] = Constraint::YFixed;
    }
    analyse(Cond::Stress, &TRI, &[[0, 1, 2]], &k, (1, 2), solver)
}

// longer bodies, restraints drawn, one inclined at most
fn big(c: usize) {
    let mut d = Dice::new(c);
    let b = if c % 2 == 0 { strip(2 + c % 3, &mut d) } else { fan(4 + c % 5, &mut d) };
    let n = b.pts.len();
    let which = c / 2 % 2;
    let mut inclined = 0;
    let mut k: Vec<Constraint> = (0..n)
        .map(|i| {
            let k = [0, 0, 0, 1, 2, 3, 4][d.next(7)];
            if k == 4 {
                inclined += 1;
            }
            // elimination over sines of an unknown angle is out of reach at this size
            restraint(&format!("a{}", i), if k == 4 && (inclined > 1 || which == 1) { 1 } else { k })
        })
        .collect();
    let t = b.tris[d.next(b.tris.len())];
    if which == 1 {
        // held for certain: two nodes of one element
        k[t[0]] = Constraint::XYFixed;
        k[t[1]] = Constraint::XYFixed;
    }
    analyse(CONDS[c % 2], &b.pts, &b.tris, &k, (t[1], t[2]), which)
}

// one body analysed again and again as loads and restraints are added
fn history(c: usize) {
    let (kind, which) = (CONDS[c % 2], c / 2);
    let m = material(true);
    let t = 0.5;
    let (mut el, ids) = assemblage(kind, t, m, &QUAD);
    let mut parts = vec![];
    for x in [[0, 1, 2], [3, 2, 0]].iter() {
        el.add_element(ElementDescriptor::new([ids[x[0]], ids[x[1]], ids[x[2]]]));
        parts.push((*x, cst(kind, t, m, &[QUAD[x[0]], QUAD[x[1]], QUAD[x[2]]])));
    }
    let k = global(4, &parts);
    let mut cons = vec![Constraint::XYFixed, Constraint::YFixed, Constraint::Free, Constraint::XFixed];
    let mut r = vec![0.0; 8];
    for i in 0..4 {
        el.add_constraint(ids[i], cons[i]);
    }
    for step in 0..4 {
        let f = vt::vars(&format!("f{}_", step), 2);
        // irrational pivots: few free directions with the envelope solver
        match step {
            0 => {
                el.add_conc_force(ids[2], Point::new(&f));
                r[4] = r[4] + f[0];
                r[5] = r[5] + f[1];
                if which == 2 {
                    el.add_constraint(ids[3], Constraint::YFixed);
                    cons[3] = Constraint::XYFixed;
                }
            }
            1 => {
                el.add_conc_force(ids[1], Point::new(&f));
                r[2] = r[2] + f[0];
                r[3] = r[3] + f[1];
            }
            2 => {
                el.add_constraint(ids[2], Constraint::XFixed);
                cons[2] = Constraint::XFixed;
            }
            _ => {
                el.add_dist_line_force(ids[0], ids[1], Point::new(&f));
                for n in 0..2 {
                    r[2 * n] = r[2 * n] + 1.5 * f[0];
                    r[2 * n + 1] = r[2 * n + 1] + 1.5 * f[1];
                }
            }
        }
        let u = match solve_with(&mut el, which) {
            Some(u) => u,
            None => {
                vt::check("a held structure has displacements", false);
                return;
            }
        };
        vt::check("one displacement per node", u.len() == 8);
        prove_held(&cons, &u);
        let ku = mat_vec(&k, &u);
        let res: Vec<f64> = (0..8).map(|i| ku[i] - r[i]).collect();
        for d in basis(&cons).iter() {
            vt::prove("loads balanced in every free direction", vt::eq(dot(d, &res), 0.0));
        }
    }
}

// one body analysed again and again as elements and nodes are added
fn grown(c: usize) {
    let (kind, which) = (CONDS[c % 2], c / 2);
    let m = material(true);
    let t = 0.5;
    let pts = [QUAD[0], QUAD[1], QUAD[2], QUAD[3], (-2.0, 3.0)];
    let mut el = ElementAssemblage::new(m, condition(kind, t));
    let mut ids = el.add_nodes(&pts[..4]);
    let mut cons = vec![Constraint::XYFixed, Constraint::XYFixed, Constraint::Free, Constraint::XYFixed];
    for i in 0..4 {
        el.add_constraint(ids[i], cons[i]);
    }
    let f = vt::vars("f", 2);
    el.add_conc_force(ids[2], Point::new(&f));
    let mut parts = vec![];
    for x in [[0, 1, 2], [3, 2, 0], [3, 4, 2], [0, 1, 3]].iter() {
        if x[1] == 4 {
            ids.extend(el.add_nodes(&pts[4..]));
            cons.push(Constraint::XFixed);
            el.add_constraint(ids[4], cons[4]);
        }
        el.add_element(ElementDescriptor::new([ids[x[0]], ids[x[1]], ids[x[2]]]));
        parts.push((*x, cst(kind, t, m, &[pts[x[0]], pts[x[1]], pts[x[2]]])));
        let n = ids.len();
        let k = global(n, &parts);
        let mut r = vec![0.0; 2 * n];
        r[4] = f[0];
        r[5] = f[1];
        let u = match solve_with(&mut el, which) {
            Some(u) => u,
            None => {
                vt::check("a held structure has displacements", false);
                return;
            }
        };
        vt::check("one displacement per node", u.len() == 2 * n);
        prove_held(&cons, &u);
        let ku = mat_vec(&k, &u);
        let res: Vec<f64> = (0..2 * n).map(|i| ku[i] - r[i]).collect();
        for d in basis(&cons).iter() {
            vt::prove("loads balanced in every free direction", vt::eq(dot(d, &res), 0.0));
        }
    }
}

pub fn list() -> Vec<vt::Harness> {
    vec![
        ("any_solver", 125, any_solver),
        ("any_quad", tier(89, 625), any_quad),
        ("gauss", 64, gauss),
        ("cholesky", 64, cholesky),
        ("cholesky_quad", quad_codes().len(), cholesky_quad),
        ("inclined", 12, inclined),
        ("big", 16, big),
        ("history", 6, history),
        ("grown", 6, grown),
    ]
}
