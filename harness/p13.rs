// Element stiffness: symmetric, blind to rigid motions, and of the right energy for every constant
// strain state; independent of node order and orientation.
use crate::element::element::Element;
use crate::element::{ElementAssemblage, ElementDescriptor, NodeId};
use crate::fem::*;
use crate::util::*;

fn stiffness(k: Cond, t: f64, m: crate::element::material::Material, p: &[P2]) -> M {
    let (el, ids) = assemblage(k, t, m, p);
    let e = Element::new(&el, [ids[0], ids[1], ids[2]]);
    scatter(6, e.calc_k())
}

fn symmetric(k: &M) {
    for i in 0..k.len() {
        for j in 0..i {
            vt::prove("element K is symmetric", vt::eq(k[i][j], k[j][i]));
        }
    }
}

// plane conditions: the bilinear form on all six linear fields determines K completely
fn plane(c: usize) {
    let (size, c) = (SIZES[c / 28], c % 28);
    let (kind, ccw, part) = ([Cond::Stress, Cond::Strain][c % 2], c / 2 % 2 == 0, c / 4);
    let p = sym_triangle_of("", ccw, size);
    let m = sym_material();
    let t = sym_thickness();
    let k = stiffness(kind, t, m, &p);
    if part == 6 {
        return symmetric(&k);
    }
    let area = if ccw { area2(&p) / 2.0 } else { area2(&p) / -2.0 };
    let u = unit(6, part);
    let ku = mat_vec(&k, &field(&u, &p));
    let s = hooke(kind, m, &field_strain(&u));
    for j in 0..6 {
        let v = unit(6, j);
        let got = dot(&field(&v, &p), &ku);
        let e = field_strain(&v);
        vt::prove(&format!("virtual work of field {} on field {}", part, j), vt::eq(got, t * area * dot(&e, &s)));
    }
}

fn axisym(c: usize) {
    let (size, c) = (SIZES[c / 10], c % 10);
    let (ccw, part) = (c % 2 == 0, c / 2);
    let p = sym_triangle_of("", ccw, size);
    for q in p.iter() {
        vt::assume(vt::ge(q.0, 0.125 * size));
    }
    let m = sym_material();
    let k = stiffness(Cond::Axi, 1.0, m, &p);
    if part == 4 {
        return symmetric(&k);
    }
    // integral of r over the triangle
    let area = if ccw { area2(&p) / 2.0 } else { area2(&p) / -2.0 };
    let vol = area * (p[0].0 + p[1].0 + p[2].0) / 3.0;
    // fields with a strain that is constant over the ring: u = a r, v = b + c r + d z
    let dirs = [1, 3, 4, 5];
    let strain = |c: &[f64]| vec![c[1], c[5], c[2] + c[4], c[1]];
    let u = unit(6, dirs[part]);
    let ku = mat_vec(&k, &field(&u, &p));
    let s = hooke(Cond::Axi, m, &strain(&u));
    for j in 0..4 {
        let v = unit(6, dirs[j]);
        let got = dot(&field(&v, &p), &ku);
        vt::prove(&format!("virtual work of ring field {} on {}", part, j), vt::eq(got, vol * dot(&strain(&v), &s)));
    }
}

// element energy is never negative
fn energy(c: usize) {
    let kind = [Cond::Stress, Cond::Strain][c];
    let p = [(0.25, -0.5), (2.0, 0.5), (0.5, 1.5)];
    let m = sym_material();
    let k = stiffness(kind, sym_thickness(), m, &p);
    let u = vt::vars("u", 6);
    vt::prove("strain energy is never negative", vt::ge(dot(&u, &mat_vec(&k, &u)), 0.0));
}

// with the rounding of the machine on the way, far from the origin
fn rounding(c: usize) {
    let kind = [Cond::Stress, Cond::Strain][c / 4 % 2];
    let (p, m) = (far(c), plain_material());
    let k = vt::rounded(|| stiffness(kind, 0.5, m, &p));
    let u = vt::vars("u", 6);
    prove_near("stiffness within rounding", &mat_vec(&k, &u), &mat_vec(&cst(kind, 0.5, m, &p), &u), &u, 0.0000001);
}

pub fn list() -> Vec<vt::Harness> {
    vec![("rounding", 12, rounding), ("plane", 84, plane), ("axisym", 30, axisym), ("energy", 2, energy)]
}
