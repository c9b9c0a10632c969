// Stress recovery: element stresses, averaging at shared nodes, von Mises, displaced positions.
use crate::element::element::Element;
use crate::element::stress::{StressState, StressType};
use crate::element::{Deformation, ElementDescriptor};
use crate::fem::*;
use crate::matrix::{LinearMatrix, MatrixLike};
use crate::spatial::Point;
use crate::util::*;

fn comps(k: Cond, s: &StressState) -> Vec<f64> {
    let n = if k == Cond::Axi { 4 } else { 3 };
    s.data[0..n].to_vec()
}
fn points(u: &[f64]) -> Vec<Point> {
    u.chunks(2).map(|c| Point::new(c)).collect()
}
fn sq(x: f64) -> f64 {
    x * x
}

// one element, arbitrary nodal displacements
fn element(c: usize) {
    let (size, c) = (SIZES[c / 6], c % 6);
    let (kind, ccw) = (CONDS[c % 3], c / 3 == 0);
    let p = sym_triangle_of("", ccw, size);
    if kind == Cond::Axi {
        for q in p.iter() {
            vt::assume(vt::ge(q.0, 0.125 * size));
        }
    }
    let m = sym_material();
    let (el, ids) = assemblage(kind, sym_thickness(), m, &p);
    let e = Element::new(&el, [ids[1], ids[2], ids[0]]);
    let u = vt::vars("u", 6);
    let d = points(&u);
    let got = e.stresses(Box::new(|n| d[n.into_idx()]));
    vt::check("one stress per node", got.len() == 3 && (0..3).all(|i| got.iter().filter(|g| g.0 == ids[i]).count() == 1));
    // gradient of the linear interpolation
    let a2 = area2(&p);
    let b: Vec<f64> = (0..3).map(|i| (p[(i + 1) % 3].1 - p[(i + 2) % 3].1) / a2).collect();
    let g: Vec<f64> = (0..3).map(|i| (p[(i + 2) % 3].0 - p[(i + 1) % 3].0) / a2).collect();
    let s = |w: &Vec<f64>, d: usize| (0..3).fold(0.0, |a, i| a + w[i] * u[2 * i + d]);
    for (n, st) in got {
        let i = n.into_idx();
        let mut strain = vec![s(&b, 0), s(&g, 1), s(&g, 0) + s(&b, 1)];
        if kind == Cond::Axi {
            strain.push(u[2 * i] / p[i].0);
        }
        vt::check("stress state of the right kind", st.state_type == if kind == Cond::Axi { StressType::AxiSym } else { StressType::Plane });
        prove_vec("stress follows from strain", &comps(kind, &st), &hooke(kind, m, &strain));
    }
}

// two or three elements around shared nodes plus a node no element uses
const PTS: [P2; 6] = [(1.0, 0.0), (4.0, 0.0), (4.0, 3.0), (1.0, 3.0), (2.0, 1.0), (9.0, 9.0)];
const TRIS: [[usize; 3]; 4] = [[0, 1, 4], [4, 1, 2], [2, 4, 3], [3, 0, 4]];

fn average(c: usize) {
    let (kind, mask) = (CONDS[c % 3], c / 3 + 1);
    let m = if kind == Cond::Axi { crate::element::material::Material { name: "any", youngs: 2.0, poisson: 0.25, density: 1.0 } } else { sym_material() };
    let (mut el, ids) = assemblage(kind, 1.0, m, &PTS);
    let order = if c % 2 == 0 { [0, 1, 2, 3] } else { [2, 0, 3, 1] };
    let used: Vec<usize> = order.iter().cloned().filter(|i| mask >> i & 1 == 1).collect();
    for i in used.iter() {
        let t = TRIS[*i];
        el.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
    }
    let u = vt::vars("u", 12);
    let d = points(&u);
    let n = if kind == Cond::Axi { 4 } else { 3 };
    let mut want: Vec<(usize, Vec<f64>)> = vec![(0, vec![0.0; n]); 6];
    for i in used.iter() {
        let t = TRIS[*i];
        let e = Element::new(&el, [ids[t[0]], ids[t[1]], ids[t[2]]]);
        for (id, s) in e.stresses(Box::new(|n| d[n.into_idx()])) {
            let w = &mut want[id.into_idx()];
            w.0 += 1;
            let s = comps(kind, &s);
            for j in 0..n {
                w.1[j] = w.1[j] + s[j];
            }
        }
    }
    let def = Deformation::new(&el, d.clone());
    let got = def.stresses();
    vt::check("one stress per node", got.len() == 6);
    for i in 0..6 {
        match &got[i] {
            None => vt::check("no stress only where no element is", want[i].0 == 0),
            Some(s) => {
                vt::check("no stress away from the elements", want[i].0 > 0);
                let count = (0..want[i].0).fold(0.0, |a, _| a + 1.0);
                let w: Vec<f64> = want[i].1.iter().map(|x| *x / count).collect();
                prove_vec("stress is the mean over the elements at the node", &comps(kind, s), &w);
            }
        }
    }
}

// bodies of many elements: up to eight of them at one node
fn big(c: usize) {
    let kind = CONDS[c / 2 % 3];
    let b = body(c, &mut Dice::new(c));
    let m = crate::element::material::Material { name: "any", youngs: 2.0, poisson: 0.25, density: 1.0 };
    let (mut el, ids) = assemblage(kind, 1.0, m, &b.pts);
    for t in b.tris.iter() {
        el.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
    }
    let n = b.pts.len();
    let u = vt::vars("u", 2 * n);
    let d = points(&u);
    let k = if kind == Cond::Axi { 4 } else { 3 };
    let mut want: Vec<(f64, Vec<f64>)> = vec![(0.0, vec![0.0; k]); n];
    for t in b.tris.iter() {
        let e = Element::new(&el, [ids[t[0]], ids[t[1]], ids[t[2]]]);
        for (id, s) in e.stresses(Box::new(|n| d[n.into_idx()])) {
            let w = &mut want[id.into_idx()];
            w.0 = w.0 + 1.0;
            let s = comps(kind, &s);
            for j in 0..k {
                w.1[j] = w.1[j] + s[j];
            }
        }
    }
    let got = Deformation::new(&el, d.clone()).stresses();
    vt::check("one stress per node", got.len() == n);
    for i in 0..n {
        match &got[i] {
            None => vt::check("no stress only where no element is", want[i].0 == 0.0),
            Some(s) => prove_vec("stress is the mean over the elements at the node", &comps(kind, s), &want[i].1.iter().map(|x| *x / want[i].0).collect::<Vec<f64>>()),
        }
    }
}

// a linear field strains the whole patch alike, so every node reports the one exact stress
fn uniform(c: usize) {
    let kind = [Cond::Stress, Cond::Strain][c % 2];
    let m = sym_material();
    let (x, y) = (vt::var("x"), vt::var("y"));
    vt::assume(vt::ge(x, 1.5).and(vt::le(x, 3.5)));
    vt::assume(vt::ge(y, 0.5).and(vt::le(y, 2.5)));
    let mut p = PTS.to_vec();
    p[4] = (x, y);
    let (mut el, ids) = assemblage(kind, sym_thickness(), m, &p);
    for t in TRIS.iter() {
        el.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
    }
    let f = vt::vars("c", 6);
    let u = field(&f, &p);
    let def = Deformation::new(&el, points(&u));
    let want = hooke(kind, m, &field_strain(&f));
    for (i, s) in def.stresses().iter().enumerate() {
        match s {
            Some(s) => prove_vec("uniform strain gives uniform stress", &comps(kind, s), &want),
            None => vt::check("only the unused node has no stress", i == 5),
        }
    }
}

fn mises(c: usize) {
    let n = [1, 3, 4, 6][c % 4];
    let s = vt::vars("s", n);
    for x in s.iter() {
        boxed(*x, 1000.0);
    }
    let st = StressState::from_vector(if c < 4 { LinearMatrix::col_vec(s.clone()) } else { LinearMatrix::row_vec(s.clone()) });
    vt::check("stress state by length", st.state_type == [StressType::Bar, StressType::Plane, StressType::AxiSym, StressType::ThreeD][c % 4]);
    let v = st.von_mises();
    vt::prove("von Mises is never negative", vt::ge(v, 0.0));
    let zero = 0.0;
    // xx yy zz xy yz zx
    let t = match n {
        1 => [s[0], zero, zero, zero, zero, zero],
        3 => [s[0], s[1], zero, s[2], zero, zero],
        4 => [s[0], s[1], s[3], s[2], zero, zero],
        _ => [s[0], s[1], s[2], s[3], s[4], s[5]],
    };
    let want = sq(t[0] - t[1]) + sq(t[1] - t[2]) + sq(t[2] - t[0]) + 6.0 * (sq(t[3]) + sq(t[4]) + sq(t[5]));
    vt::prove("von Mises criterion", vt::eq(2.0 * v * v, want));
    // adding and scaling stress states, as averaging does
    let w = vt::vars("w", n);
    let k = vt::var("k");
    let ot = StressState::from_vector(LinearMatrix::col_vec(w.clone()));
    let sum = st.clone() + ot;
    let mul = st.clone() * k;
    vt::check("kind of stress kept", sum.state_type == st.state_type && mul.state_type == st.state_type);
    for i in 0..n {
        vt::prove("sum of stress states", vt::eq(sum.data[i], s[i] + w[i]));
        vt::prove("multiple of a stress state", vt::eq(mul.data[i], s[i] * k));
    }
    vt::assume(vt::ne(k, 0.0));
    let div = st / k;
    for i in 0..n {
        vt::prove("part of a stress state", vt::eq(div.data[i] * k, s[i]));
    }
}

fn cauchy(c: usize) {
    let n = [1, 3, 6][c];
    let s = vt::vars("s", n);
    let m = StressState::from_vector(LinearMatrix::col_vec(s.clone())).to_cauchy();
    let dim = c + 1;
    vt::check("Cauchy tensor shape", m.shape() == (dim, dim));
    let place: [[usize; 3]; 3] = match n {
        1 => [[0; 3]; 3],
        3 => [[0, 2, 9], [2, 1, 9], [9, 9, 9]],
        _ => [[0, 3, 5], [3, 1, 4], [5, 4, 2]],
    };
    for i in 0..dim {
        for j in 0..dim {
            vt::prove("Cauchy tensor entry", vt::eq(m[(i, j)], s[place[i][j]]));
        }
    }
}

// what a deformation reports besides stress
fn report(c: usize) {
    let kind = CONDS[c];
    let (mut el, ids) = assemblage(kind, 1.0, sym_material(), &PTS);
    el.add_element(ElementDescriptor::new([ids[0], ids[1], ids[2]]));
    let u = vt::vars("u", 12);
    let scale = vt::var("scale");
    let def = Deformation::new(&el, points(&u));
    vt::check("no frequency for a static answer", def.frequency().is_none());
    let d = def.displaced_nodes(scale);
    let n = def.displacement_norms();
    vt::check("one entry per node", d.len() == 6 && n.len() == 6);
    for i in 0..6 {
        vt::prove("displaced x", vt::eq(d[i][0], PTS[i].0 + scale * u[2 * i]));
        vt::prove("displaced y", vt::eq(d[i][1], PTS[i].1 + scale * u[2 * i + 1]));
        vt::prove("size of the displacement", vt::ge(n[i], 0.0).and(vt::eq(n[i] * n[i], sq(u[2 * i]) + sq(u[2 * i + 1]))));
    }
    let w = vt::var("w");
    let f = Deformation::with_freq(&el, points(&u), w).frequency();
    vt::check("a mode has its frequency", f.is_some());
    vt::prove("frequency of the mode", vt::eq(f.unwrap(), w));
}

// asked twice, in another order, of a copy: the same answers
fn again(c: usize) {
    let kind = CONDS[c % 3];
    let m = crate::element::material::Material { name: "any", youngs: 2.0, poisson: 0.25, density: 1.0 };
    let (mut el, ids) = assemblage(kind, 1.0, m, &PTS);
    for t in TRIS.iter().take(2 + c / 3) {
        el.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
    }
    let mut u = vec![0.0; 12];
    u[8] = vt::var("u");
    u[9] = 0.5;
    u[2] = -0.25;
    boxed(u[8], 10.0);
    let scale = vt::var("scale");
    let def = Deformation::new(&el, points(&u));
    let first = def.stresses();
    let (shown, norms, mises) = (def.displaced_nodes(scale), def.displacement_norms(), def.von_mises());
    let _ = def.visualize(2.0);
    let copy = def.clone();
    for d in [&copy, &def].iter() {
        let (s, p, q, v) = (d.stresses(), d.displaced_nodes(1.0), d.displacement_norms(), d.von_mises());
        for i in 0..6 {
            vt::check("stress where there was stress", s[i].is_some() == first[i].is_some());
            if let (Some(a), Some(b)) = (&s[i], &first[i]) {
                prove_vec("the same stress", &comps(kind, a), &comps(kind, b));
            }
            for k in 0..2 {
                vt::prove("displaced by as much", vt::eq((p[i][k] - el.nodes()[i][k]) * scale, shown[i][k] - el.nodes()[i][k]));
            }
            vt::prove("the same sizes", vt::eq(q[i], norms[i]).and(vt::eq(v[i], mises[i])));
        }
    }
}

// von Mises per node, with 0 where no element is
fn mises_nodes(c: usize) {
    let kind = [Cond::Stress, Cond::Axi][c];
    let (mut el, ids) = assemblage(kind, 1.0, crate::element::material::Material { name: "any", youngs: 2.0, poisson: 0.25, density: 1.0 }, &PTS);
    el.add_element(ElementDescriptor::new([ids[0], ids[1], ids[4]]));
    el.add_element(ElementDescriptor::new([ids[4], ids[1], ids[2]]));
    let (a, b) = (vt::var("a"), vt::var("b"));
    boxed(a, 10.0);
    boxed(b, 10.0);
    let mut u = vec![0.0; 12];
    u[8] = a;
    u[3] = b;
    let def = Deformation::new(&el, points(&u));
    let v = def.von_mises();
    let s = def.stresses();
    vt::check("one value per node", v.len() == 6);
    for i in 0..6 {
        match &s[i] {
            None => vt::prove("no element, no stress", vt::eq(v[i], 0.0)),
            Some(s) => {
                let t = comps(kind, s);
                let z = if kind == Cond::Axi { t[3] } else { 0.0 };
                let want = sq(t[0] - t[1]) + sq(t[1] - z) + sq(z - t[0]) + 6.0 * sq(t[2]);
                vt::prove("node value is the criterion of its stress", vt::ge(v[i], 0.0).and(vt::eq(2.0 * v[i] * v[i], want)));
            }
        }
    }
}

// plane strain keeps the body's depth, so the stress through the depth belongs to the criterion
fn plane_strain(_: usize) {
    let (mut el, ids) = assemblage(Cond::Strain, 1.0, crate::element::material::Material { name: "any", youngs: 2.0, poisson: 0.25, density: 1.0 }, &PTS);
    el.add_element(ElementDescriptor::new([ids[0], ids[1], ids[4]]));
    let a = vt::var("a");
    boxed(a, 10.0);
    let mut u = vec![0.0; 12];
    u[8] = a;
    u[9] = 2.0 * a;
    let def = Deformation::new(&el, points(&u));
    let v = def.von_mises()[4];
    let t = comps(Cond::Strain, def.stresses()[4].as_ref().unwrap());
    let z = 0.25 * (t[0] + t[1]);
    let want = sq(t[0] - t[1]) + sq(t[1] - z) + sq(z - t[0]) + 6.0 * sq(t[2]);
    vt::prove("plane strain: stress through the depth counts", vt::eq(2.0 * v * v, want));
}

// with the rounding of the machine on the way, far from the origin
fn rounding(c: usize) {
    let kind = [Cond::Stress, Cond::Strain][c / 4 % 2];
    let (p, m) = (far(c), plain_material());
    let (el, ids) = assemblage(kind, 0.5, m, &p);
    let u = vt::vars("u", 6);
    let got = vt::rounded(|| Element::new(&el, [ids[0], ids[1], ids[2]]).stresses(Box::new(|n| Point::new(&u[2 * n.into_idx()..2 * n.into_idx() + 2]))));
    let a2 = area2(&p);
    let b: Vec<f64> = (0..3).map(|i| (p[(i + 1) % 3].1 - p[(i + 2) % 3].1) / a2).collect();
    let g: Vec<f64> = (0..3).map(|i| (p[(i + 2) % 3].0 - p[(i + 1) % 3].0) / a2).collect();
    let s = |w: &Vec<f64>, d: usize| (0..3).fold(0.0, |a, i| a + w[i] * u[2 * i + d]);
    let want = hooke(kind, m, &[s(&b, 0), s(&g, 1), s(&g, 0) + s(&b, 1)]);
    for (_, st) in got {
        prove_near("stress within rounding", &comps(kind, &st), &want, &u, 0.0000001);
    }
}

pub fn list() -> Vec<vt::Harness> {
    vec![("rounding", 12, rounding), 
        ("element", 18, element),
        ("average", 45, average),
        ("uniform", 2, uniform),
        ("big", 12, big),
        ("again", 9, again),
        ("mises", 8, mises),
        ("cauchy", 3, cauchy),
        ("report", 3, report),
        ("mises_nodes", 2, mises_nodes),
        ("plane_strain", 1, plane_strain),
    ]
}
