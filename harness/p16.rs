// Assembly: the global matrices are the sums of the element matrices over shared degrees of freedom.
use crate::element::element::Element;
use crate::element::{ElementAssemblage, ElementDescriptor, NodeId};
use crate::fem::*;
use crate::matrix::{Dictionary, MatrixLike};
use crate::util::*;

fn read(d: &Dictionary) -> M {
    let (r, c) = d.shape();
    (0..r).map(|i| (0..c).map(|j| d[(i, j)]).collect()).collect()
}
fn add(a: &mut M, b: &M) {
    for i in 0..a.len() {
        for j in 0..a.len() {
            a[i][j] = a[i][j] + b[i][j];
        }
    }
}

// node 3 anywhere on the far side, so that both triangles are sound
fn points() -> Vec<P2> {
    let (x, y) = (vt::var("x"), vt::var("y"));
    vt::assume(vt::ge(x, 1.0).and(vt::le(x, 10.0)));
    vt::assume(vt::ge(y, 1.0).and(vt::le(y, 10.0)));
    vt::assume(vt::ge(x + y, 5.0));
    vec![(0.0, 0.0), (3.0, 0.0), (0.0, 4.0), (x, y), (-2.0, -1.0), (50.0, 50.0)]
}
const TRI: [[usize; 3]; 3] = [[0, 1, 2], [1, 3, 2], [4, 0, 2]];

fn sums(c: usize) {
    let (kind, skip) = (CONDS[c % 3], c / 3 % 3);
    let mut p = points();
    if kind == Cond::Axi {
        for q in p.iter_mut() {
            q.0 = q.0 + 3.0;
        }
    }
    let (mut el, ids) = assemblage(kind, sym_thickness(), sym_material(), &p);
    let n = 12;
    let (mut k, mut m) = (vec![vec![0.0; n]; n], vec![vec![0.0; n]; n]);
    let rot = vt::choose("rotation", 3);
    let order = choose_perm("order", 2);
    let used: Vec<usize> = (0..3).filter(|i| *i != skip).collect();
    for o in order {
        let t = TRI[used[o]];
        let d = [ids[t[rot]], ids[t[(rot + 1) % 3]], ids[t[(rot + 2) % 3]]];
        el.add_element(ElementDescriptor::new(d));
        let e = Element::new(&el, d);
        vt::check("element keeps its nodes", e.node_ids() == d);
        add(&mut k, &scatter(n, e.calc_k()));
        add(&mut m, &scatter(n, e.calc_m()));
    }
    prove_mat("K is the sum of its elements", &read(&el.calc_k()), &k);
    prove_mat("M is the sum of its elements", &read(&el.calc_m()), &m);
    vt::check("descriptors", el.element_descriptors().len() == 2 && el.node_count() == 6);
}

// patch test: around an interior node every linear field is in equilibrium, and K has rigid motions
// in its null space; the total energy is that of the strain over the whole area
fn patch(c: usize) {
    let (kind, f) = ([Cond::Stress, Cond::Strain][c % 2], c / 2);
    let (x, y) = (vt::var("x"), vt::var("y"));
    vt::assume(vt::ge(x, 0.5).and(vt::le(x, 3.5)));
    vt::assume(vt::ge(y, 0.5).and(vt::le(y, 2.5)));
    let p = vec![(0.0, 0.0), (4.0, 0.0), (4.0, 3.0), (0.0, 3.0), (x, y)];
    let t = sym_thickness();
    let m = sym_material();
    let (mut el, ids) = assemblage(kind, t, m, &p);
    for i in 0..4 {
        let (a, b) = (ids[i], ids[(i + 1) % 4]);
        // every second element clockwise
        el.add_element(ElementDescriptor::new(if i % 2 == 0 { [a, b, ids[4]] } else { [b, a, ids[4]] }));
    }
    let k = read(&el.calc_k());
    let u = unit(6, f);
    let ku = mat_vec(&k, &field(&u, &p));
    vt::prove("patch: interior node in equilibrium, x", vt::eq(ku[8], 0.0));
    vt::prove("patch: interior node in equilibrium, y", vt::eq(ku[9], 0.0));
    let e = field_strain(&u);
    vt::prove("patch: energy", vt::eq(dot(&field(&u, &p), &ku), t * 12.0 * dot(&e, &hooke(kind, m, &e))));
    if f == 0 || f == 3 {
        prove_vec("rigid translation has no force", &ku, &vec![0.0; 10]);
    }
    if f == 1 {
        let w = field(&[0.0, 0.0, 1.0, 0.0, -1.0, 0.0], &p);
        prove_vec("small rotation has no force", &mat_vec(&k, &w), &vec![0.0; 10]);
    }
}

// distorted and degenerate elements
fn orientation(c: usize) {
    let (size, ccw) = (SIZES[c / 2], c % 2 == 0);
    let p = sym_triangle_of("", ccw, size);
    let (mut el, ids) = assemblage(Cond::Stress, 1.0, sym_material(), &p);
    el.add_element(ElementDescriptor::new([ids[0], ids[1], ids[2]]));
    vt::check("element accepted", el.element_descriptors().len() == 1);
    let e = Element::new(&el, [ids[0], ids[1], ids[2]]);
    vt::prove("a straight triangle is never distorted", vt::eq(e.jacobian_ratio(), 1.0));
}

// bodies of many elements, in any numbering, order and orientation
fn big(c: usize) {
    let kind = CONDS[c / 2 % 3];
    let b = body(c, &mut Dice::new(c));
    let (m, t) = (sym_material(), sym_thickness());
    let (mut el, ids) = assemblage(kind, t, m, &b.pts);
    let n = 2 * b.pts.len();
    let (mut k, mut w) = (vec![vec![0.0; n]; n], vec![vec![0.0; n]; n]);
    let mut parts = vec![];
    for x in b.tris.iter() {
        let d = [ids[x[0]], ids[x[1]], ids[x[2]]];
        el.add_element(ElementDescriptor::new(d));
        let e = Element::new(&el, d);
        add(&mut k, &scatter(n, e.calc_k()));
        add(&mut w, &scatter(n, e.calc_m()));
        if kind != Cond::Axi {
            parts.push((*x, cst(kind, t, m, &[b.pts[x[0]], b.pts[x[1]], b.pts[x[2]]])));
        }
    }
    let got = read(&el.calc_k());
    prove_mat("K is the sum of its elements", &got, &k);
    prove_mat("M is the sum of its elements", &read(&el.calc_m()), &w);
    if kind != Cond::Axi {
        prove_mat("K of constant strain triangles", &got, &global(b.pts.len(), &parts));
    }
    vt::check("descriptors", el.element_descriptors().len() == b.tris.len() && el.node_count() == b.pts.len());
}

// matrices read while the body grows, and again
fn history(c: usize) {
    let kind = CONDS[c % 3];
    let b = body(c, &mut Dice::new(c));
    let m = crate::element::material::Material { name: "any", youngs: vt::var("E"), poisson: 0.25, density: vt::var("rho") };
    vt::assume(vt::gt(m.youngs, 0.0).and(vt::gt(m.density, 0.0)));
    let t = sym_thickness();
    let mut el = ElementAssemblage::new(m, condition(kind, t));
    let mut ids: Vec<NodeId> = vec![];
    let (mut k, mut w): (M, M) = (vec![], vec![]);
    let mut got = vec![];
    let all: Vec<P2> = b.pts.clone();
    for x in b.tris.iter() {
        // nodes arrive with the first element that needs them, each group at once
        let top = *x.iter().max().unwrap();
        if top >= ids.len() {
            let new = el.add_nodes(&all[ids.len()..top + 1]);
            vt::check("new nodes follow the others", new.len() == top + 1 - ids.len() && (0..new.len()).all(|i| new[i].into_idx() == ids.len() + i));
            ids.extend(new);
        }
        let n = 2 * ids.len();
        for q in [&mut k, &mut w].iter_mut() {
            for r in q.iter_mut() {
                r.resize(n, 0.0);
            }
            q.resize(n, vec![0.0; n]);
        }
        let d = [ids[x[0]], ids[x[1]], ids[x[2]]];
        el.add_element(ElementDescriptor::new(d));
        let e = Element::new(&el, d);
        add(&mut k, &scatter(n, e.calc_k()));
        add(&mut w, &scatter(n, e.calc_m()));
        got.push(el.element_descriptors().len());
        if got.len() % 2 == 0 {
            prove_mat("K so far", &read(&el.calc_k()), &k);
            let _ = (el.edges(), el.triangles());
        } else {
            prove_mat("M so far", &read(&el.calc_m()), &w);
        }
    }
    vt::check("elements kept in order", got == (1..b.tris.len() + 1).collect::<Vec<usize>>());
    vt::check("every element as given", el.element_descriptors().into_iter().zip(b.tris.iter()).all(|(d, x)| d.into_parts() == [ids[x[0]], ids[x[1]], ids[x[2]]]));
    for _ in 0..2 {
        prove_mat("K of the whole", &read(&el.calc_k()), &k);
        prove_mat("M of the whole", &read(&el.calc_m()), &w);
    }
    let p = el.nodes();
    for i in 0..ids.len() {
        vt::check("nodes where they were put", p[i][0] == all[i].0 && p[i][1] == all[i].1 && el.node(ids[i]) == p[i]);
    }
}

pub fn list() -> Vec<vt::Harness> {
    vec![("sums", 9, sums), ("patch", 12, patch), ("orientation", 6, orientation), ("big", 12, big), ("history", 6, history)]
}
