// Constraints: merging on a node, and the change of variables that removes restrained directions.
use crate::element::constraint::{Constraint, DofTransform};
use crate::fem::*;
use crate::matrix::{Dictionary, MatrixLike};
use crate::util::*;

fn read(d: &Dictionary) -> M {
    let (r, c) = d.shape();
    (0..r).map(|i| (0..c).map(|j| d[(i, j)]).collect()).collect()
}
fn fixes(c: &Constraint) -> (bool, bool) {
    (c.plain_dim_struck(0), c.plain_dim_struck(1))
}

fn transform(nodes: usize, c: usize) {
    let mut k = c;
    let cons: Vec<Constraint> = (0..nodes)
        .map(|i| {
            let x = restraint(&format!("a{}", i), k % 5);
            k /= 5;
            x
        })
        .collect();
    transform_of(cons)
}
// more nodes, restraints drawn, at most two of them inclined
fn big(c: usize) {
    let mut d = Dice::new(c);
    let mut inclined = 0;
    let cons = (0..4 + c % 4)
        .map(|i| {
            let mut k = d.next(5);
            if k == 4 {
                inclined += 1;
                k = if inclined > 2 { 1 } else { 4 };
            }
            restraint(&format!("a{}", i), k)
        })
        .collect();
    transform_of(cons)
}
fn transform_of(cons: Vec<Constraint>) {
    let n = 2 * cons.len();
    let t = DofTransform::from_constraints(&cons);
    let b = basis(&cons);
    let free = b.len();
    // U = B q
    let q = vt::vars("q", free);
    let u = t.unbar_vec(&q);
    let want: Vec<f64> = (0..n).map(|i| (0..free).fold(0.0, |s, j| s + b[j][i] * q[j])).collect();
    prove_vec("displacements from free variables", &u, &want);
    prove_held(&cons, &u);
    // R -> B' R
    let r = vt::vars("r", n);
    let got = t.bar_vec(&r);
    prove_vec("reduced load", &got, &(0..free).map(|j| dot(&b[j], &r)).collect::<Vec<f64>>());
    // K -> B' K B (symmetric K, some entries absent)
    let km = sym_symmetric("k", n, &|i, j| (i + j) % 3 != 0 || i / 2 == j / 2);
    let mut d = Dictionary::zeros((n, n));
    for i in 0..n {
        for j in 0..n {
            if (i + j) % 3 != 0 || i / 2 == j / 2 {
                d[(i, j)] = km[i][j];
            }
        }
    }
    let kb = read(&t.bar_matrix(&d));
    let want: M = (0..free).map(|i| (0..free).map(|j| dot(&b[i], &mat_vec(&km, &b[j]))).collect()).collect();
    if free > 0 {
        prove_mat("reduced matrix", &kb, &want);
    }
}
fn transform1(c: usize) {
    transform(1, c)
}
fn transform2(c: usize) {
    transform(2, c)
}
fn transform3(c: usize) {
    transform(3, c)
}

// a sequence of constraints added to one node
fn merge(c: usize) {
    merge_of(3, c)
}
// restraints on several nodes, given in turns
fn merge_nodes(c: usize) {
    let mut d = Dice::new(c);
    let n = 3 + c % 3;
    let p: Vec<P2> = (0..n).map(|i| ([0.0, 1.0, 2.0, 3.0, 4.0][i], [0.0, 1.0, 0.0, 1.0, 0.0][i])).collect();
    let (mut el, ids) = assemblage(Cond::Stress, 1.0, sym_material(), &p);
    let mut model: Vec<(bool, bool, Vec<f64>)> = vec![(false, false, vec![]); n];
    for i in 0..10 {
        let (k, what) = (d.next(n), [0, 1, 2, 4, 1, 2, 3][d.next(7)]);
        let r = restraint(&format!("a{}", i), what);
        el.add_constraint(ids[k], r);
        let m = &mut model[k];
        m.0 = m.0 || fixes(&r).0;
        m.1 = m.1 || fixes(&r).1;
        if let Constraint::AngleFixed(a) = r {
            m.2.push(a);
        }
        let got = el.constraints();
        vt::check("one entry per node", got.len() == n);
        for j in 0..n {
            let g = got[j].1;
            vt::check("in the order of the nodes", got[j].0 == ids[j]);
            vt::check("every plain restraint is kept, none invented", fixes(&g) == (model[j].0, model[j].1));
            if !model[j].0 && !model[j].1 {
                vt::check("inclined restraint kept", matches!(g, Constraint::AngleFixed(_)) != model[j].2.is_empty());
                if let (Constraint::AngleFixed(a), 1) = (g, model[j].2.len()) {
                    vt::prove("single inclined restraint keeps its angle", vt::eq(a, model[j].2[0]));
                }
            }
        }
    }
}
fn merge_long(c: usize) {
    // twenty-five sequences of five and of six
    let mut d = Dice::new(c);
    let len = 5 + c % 2;
    let code = (0..len).fold(0, |k, _| 5 * k + d.next(5));
    merge_of(len, code)
}
fn merge_of(len: usize, c: usize) {
    let mut k = c;
    let (mut el, ids) = assemblage(Cond::Stress, 1.0, sym_material(), &[(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)]);
    let mut seq = vec![];
    for i in 0..len {
        seq.push(restraint(&format!("a{}", i), k % 5));
        k /= 5;
    }
    for s in seq.iter() {
        el.add_constraint(ids[1], *s);
    }
    let got = el.constraints();
    vt::check("one entry per node", got.len() == 3 && (0..3).all(|i| got[i].0 == ids[i]));
    vt::check("other nodes untouched", got[0].1 == Constraint::Free && got[2].1 == Constraint::Free);
    let g = got[1].1;
    // plain restraints add up, whatever the order
    let (x, y) = (seq.iter().any(|s| fixes(s).0), seq.iter().any(|s| fixes(s).1));
    vt::check("every plain restraint is kept, none invented", fixes(&g) == (x, y));
    let angle = seq.iter().any(|s| matches!(s, Constraint::AngleFixed(_)));
    if !x && !y {
        // an inclined restraint survives as long as no plain one replaces it
        vt::check("inclined restraint kept", matches!(g, Constraint::AngleFixed(_)) == angle);
        let all: Vec<f64> = seq.iter().filter_map(|s| if let Constraint::AngleFixed(a) = s { Some(*a) } else { None }).collect();
        if let Constraint::AngleFixed(a) = g {
            if all.len() == 1 {
                vt::prove("single inclined restraint keeps its angle", vt::eq(a, all[0]));
            }
            if all.len() == 2 {
                vt::prove("two inclined restraints meet halfway", vt::eq(2.0 * a, all[0] + all[1]));
            }
        }
    }
}

// text form
fn text(c: usize) {
    let k = [Constraint::Free, Constraint::XFixed, Constraint::YFixed, Constraint::XYFixed][c];
    let s = k.to_string();
    match s.parse::<Constraint>() {
        Ok(b) => vt::check("constraint survives its text form", b == k),
        Err(_) => vt::check("constraint text form is readable", false),
    }
}

pub fn list() -> Vec<vt::Harness> {
    let mut v: Vec<vt::Harness> = vec![("transform1", 5, transform1), ("transform2", 25, transform2), ("merge", 125, merge), ("text", 4, text), ("big", 16, big), ("merge_nodes", 20, merge_nodes), ("merge_long", 50, merge_long)];
    if vt::thorough() {
        v.push(("transform3", 125, transform3));
    }
    v
}
