// Element mass: symmetric, carries the element's mass exactly, consistent for linear velocity fields.
use crate::element::element::Element;
use crate::fem::*;
use crate::util::*;

fn mass(k: Cond, t: f64, m: crate::element::material::Material, p: &[P2]) -> M {
    let (el, ids) = assemblage(k, t, m, p);
    let e = Element::new(&el, [ids[0], ids[1], ids[2]]);
    scatter(6, e.calc_m())
}

// plane: consistent mass of the linear triangle, rho t A / 12 (1 + delta_ij) per direction
fn plane(c: usize) {
    let (size, c) = (SIZES[c / 4], c % 4);
    let (kind, ccw) = ([Cond::Stress, Cond::Strain][c % 2], c / 2 % 2 == 0);
    let p = sym_triangle_of("", ccw, size);
    let m = sym_material();
    let t = sym_thickness();
    let k = mass(kind, t, m, &p);
    let area = if ccw { area2(&p) / 2.0 } else { area2(&p) / -2.0 };
    for i in 0..6 {
        for j in 0..6 {
            let w = if i % 2 != j % 2 {
                0.0
            } else if i == j {
                2.0
            } else {
                1.0
            };
            vt::prove("element mass entry", vt::eq(k[i][j] * 12.0, w * m.density * t * area));
        }
    }
    let v = vt::vars("v", 6);
    let mv = mat_vec(&k, &v);
    // rigid translation carries the whole mass
    let tx = [1.0, 0.0, 1.0, 0.0, 1.0, 0.0];
    vt::prove("total mass", vt::eq(dot(&tx, &mat_vec(&k, &tx)), m.density * t * area));
    let _ = mv;
}

fn energy(c: usize) {
    let p = [(0.25, -0.5), (2.0, 0.5), (0.5, 1.5)];
    let k = mass(CONDS[c], sym_thickness(), sym_material(), &p);
    let v = vt::vars("v", 6);
    vt::assume(vt::any(v.iter().map(|x| vt::ne(*x, 0.0))));
    vt::prove("kinetic energy is positive", vt::gt(dot(&v, &mat_vec(&k, &v)), 0.0));
}

// ring: total mass per radian, symmetric, the two directions alike and uncoupled
fn axisym(c: usize) {
    let (size, ccw) = (SIZES[c / 2], c % 2 == 0);
    let p = sym_triangle_of("", ccw, size);
    for q in p.iter() {
        vt::assume(vt::ge(q.0, 0.125 * size));
    }
    let m = sym_material();
    let k = mass(Cond::Axi, 1.0, m, &p);
    let area = if ccw { area2(&p) / 2.0 } else { area2(&p) / -2.0 };
    let vol = area * (p[0].0 + p[1].0 + p[2].0) / 3.0;
    let tx = [1.0, 0.0, 1.0, 0.0, 1.0, 0.0];
    let ty = [0.0, 1.0, 0.0, 1.0, 0.0, 1.0];
    vt::prove("ring mass, radial", vt::eq(dot(&tx, &mat_vec(&k, &tx)), m.density * vol));
    vt::prove("ring mass, axial", vt::eq(dot(&ty, &mat_vec(&k, &ty)), m.density * vol));
    for i in 0..6 {
        for j in 0..i {
            vt::prove("ring mass symmetric", vt::eq(k[i][j], k[j][i]));
        }
    }
    for i in 0..3 {
        for j in 0..3 {
            vt::prove("ring mass the same both ways", vt::eq(k[2 * i][2 * j], k[2 * i + 1][2 * j + 1]));
            vt::prove("ring mass uncoupled", vt::eq(k[2 * i][2 * j + 1], 0.0));
        }
    }
}

// with the rounding of the machine on the way, far from the origin
fn rounding(c: usize) {
    let kind = [Cond::Stress, Cond::Strain][c / 4 % 2];
    let (p, m) = (far(c), plain_material());
    let k = vt::rounded(|| mass(kind, 0.5, m, &p));
    let a = area2(&p);
    let a = if a > 0.0 { a } else { -a };
    let w: M = (0..6).map(|i| (0..6).map(|j| if i % 2 != j % 2 { 0.0 } else if i == j { m.density * 0.5 * a / 12.0 } else { m.density * 0.5 * a / 24.0 }).collect()).collect();
    let u = vt::vars("u", 6);
    prove_near("mass within rounding", &mat_vec(&k, &u), &mat_vec(&w, &u), &u, 0.0000001);
}

pub fn list() -> Vec<vt::Harness> {
    vec![("rounding", 12, rounding), ("plane", 12, plane), ("energy", 3, energy), ("axisym", 6, axisym)]
}
