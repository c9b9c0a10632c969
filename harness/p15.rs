// Loads: every concentrated and distributed load arrives once, in full, at the right place.
use crate::element::element::Element;
use crate::element::{ElementAssemblage, ElementDescriptor, NodeId};
use crate::fem::*;
use crate::spatial::Point;
use crate::util::*;

fn force(pre: &str) -> P2 {
    (vt::var(&format!("{}x", pre)), vt::var(&format!("{}y", pre)))
}
fn pt(f: P2) -> Point {
    Point::new(&[f.0, f.1])
}
fn len(a: P2, b: P2) -> f64 {
    ((a.0 - b.0) * (a.0 - b.0) + (a.1 - b.1) * (a.1 - b.1)).sqrt()
}
const EDGES: [(usize, usize); 6] = [(0, 1), (1, 2), (2, 0), (1, 0), (2, 1), (0, 2)];

// one element, one loaded edge: half of the resultant on each end, nothing on the third node
fn edge(c: usize) {
    let (size, c) = (SIZES[c / 12], c % 12);
    let (ccw, e) = (c % 2 == 0, EDGES[c / 2]);
    let p = sym_triangle_of("", ccw, size);
    let (el, ids) = assemblage(Cond::Stress, 1.0, sym_material(), &p);
    let t = Element::new(&el, [ids[0], ids[1], ids[2]]);
    let f = force("f");
    let got = t.int_f_l((ids[e.0], ids[e.1]), pt(f));
    vt::check("edge of the element accepted", got.is_some());
    let mut r = vec![0.0; 6];
    for (d, x) in got.unwrap() {
        r[idx(d)] = r[idx(d)] + x;
    }
    let l = len(p[e.0], p[e.1]);
    for n in 0..3 {
        let on = n == e.0 || n == e.1;
        // the quadrature abscissae are rounded to 15 digits; symmetric ones integrate linear terms exactly
        vt::prove("edge load x", vt::eq(2.0 * r[2 * n], if on { f.0 * l } else { 0.0 }));
        vt::prove("edge load y", vt::eq(2.0 * r[2 * n + 1], if on { f.1 * l } else { 0.0 }));
    }
    vt::check("a pair that is no edge is refused", t.int_f_l((ids[e.0], ids[e.0]), pt(f)).is_none() && t.int_f_l((ids[e.0], NodeId::new(3)), pt(f)).is_none());
}

// a square of two triangles, plus a node no element uses
const MESH: [P2; 5] = [(0.0, 0.0), (3.0, 0.0), (3.0, 4.0), (0.0, 4.0), (7.0, 1.0)];
fn mesh(flip: bool) -> (ElementAssemblage, Vec<NodeId>) {
    let (mut el, ids) = assemblage(Cond::Stress, 1.0, sym_material(), &MESH);
    el.add_element(ElementDescriptor::new([ids[0], ids[1], ids[2]]));
    el.add_element(ElementDescriptor::new(if flip { [ids[0], ids[3], ids[2]] } else { [ids[2], ids[3], ids[0]] }));
    (el, ids)
}
// edges 0-2 is shared by both elements; lengths 3, 4, 3, 4, 5
const MESH_EDGES: [((usize, usize), f64); 5] = [((0, 1), 3.0), ((1, 2), 4.0), ((2, 3), 3.0), ((3, 0), 4.0), ((0, 2), 5.0)];

// any two edges and any node loaded at once, whatever order the maps hand them out in
fn combined(c: usize) {
    let (a, b) = (c % 5, c / 5 % 5);
    vt::set_hash_seed(c / 25);
    let rev = vt::flip("reversed edge");
    let (mut el, ids) = mesh(vt::flip("clockwise"));
    let (f, g, h) = (force("f"), force("g"), force("h"));
    let n = vt::choose("node", 5);
    let mut want = vec![0.0; 10];
    let put = |w: &mut Vec<f64>, e: ((usize, usize), f64), f: P2| {
        for k in [(e.0).0, (e.0).1].iter() {
            w[2 * k] = w[2 * k] + f.0 * e.1 / 2.0;
            w[2 * k + 1] = w[2 * k + 1] + f.1 * e.1 / 2.0;
        }
    };
    let e = MESH_EDGES[a];
    el.add_dist_line_force(ids[if rev { (e.0).1 } else { (e.0).0 }], ids[if rev { (e.0).0 } else { (e.0).1 }], pt(f));
    put(&mut want, e, f);
    if a != b {
        let e = MESH_EDGES[b];
        el.add_dist_line_force(ids[(e.0).0], ids[(e.0).1], pt(g));
        put(&mut want, e, g);
    }
    el.add_conc_force(ids[n], pt(h));
    want[2 * n] = want[2 * n] + h.0;
    want[2 * n + 1] = want[2 * n + 1] + h.1;
    prove_vec("assembled load", &el.calc_load(), &want);
    // reading the loads back
    vt::check("concentrated loads listed", el.conc_forces().len() == 1 && el.conc_forces()[0].0 == ids[n]);
    vt::check("distributed loads listed", el.dist_forces().len() == if a == b { 1 } else { 2 });
}

fn concentrated(c: usize) {
    vt::set_hash_seed(c);
    let (mut el, ids) = mesh(false);
    let mut want = vec![0.0; 10];
    for i in 0..5 {
        if vt::flip("loaded") {
            let f = force(&format!("c{}", i));
            el.add_conc_force(ids[i], pt(f));
            want[2 * i] = f.0;
            want[2 * i + 1] = f.1;
        }
    }
    prove_vec("concentrated loads", &el.calc_load(), &want);
}

// longer bodies, many loads at once
fn big(c: usize) {
    vt::set_hash_seed(c);
    let mut d = Dice::new(c);
    let b = strip(3 + c % 4, &mut d);
    let n = b.pts.len();
    let (mut el, ids) = assemblage(CONDS[c % 2], 1.0, sym_material(), &b.pts);
    for t in b.tris.iter() {
        el.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
    }
    let mut want = vec![0.0; 2 * n];
    let mut edges: Vec<(usize, usize)> = vec![];
    for _ in 0..12 {
        let t = b.tris[d.next(b.tris.len())];
        let e = EDGES[d.next(6)];
        let e = (t[e.0], t[e.1]);
        if edges.contains(&e) || edges.contains(&(e.1, e.0)) {
            continue;
        }
        let f = force(&format!("f{}_", edges.len()));
        edges.push(e);
        el.add_dist_line_force(ids[e.0], ids[e.1], pt(f));
        let l = len(b.pts[e.0], b.pts[e.1]);
        for k in [e.0, e.1].iter() {
            want[2 * k] = want[2 * k] + f.0 * l / 2.0;
            want[2 * k + 1] = want[2 * k + 1] + f.1 * l / 2.0;
        }
    }
    let mut points = 0;
    for i in 0..n {
        if d.next(3) > 0 {
            let f = force(&format!("c{}", i));
            el.add_conc_force(ids[i], pt(f));
            want[2 * i] = want[2 * i] + f.0;
            want[2 * i + 1] = want[2 * i + 1] + f.1;
            points += 1;
        }
    }
    prove_vec("assembled load", &el.calc_load(), &want);
    vt::check("loads listed", el.conc_forces().len() == points && el.dist_forces().len() == edges.len());
}

// loads read, added to, and read again, while the body grows
fn history(c: usize) {
    vt::set_hash_seed(c);
    let (mut el, mut ids) = mesh(c % 2 == 1);
    let f: Vec<P2> = (0..6).map(|i| force(&format!("f{}", i))).collect();
    let mut want = vec![0.0; 10];
    let give = |w: &mut Vec<f64>, n: usize, f: P2, s: f64| {
        w[2 * n] = w[2 * n] + f.0 * s;
        w[2 * n + 1] = w[2 * n + 1] + f.1 * s;
    };
    prove_vec("no load yet", &el.calc_load(), &want);
    el.add_conc_force(ids[2], pt(f[0]));
    give(&mut want, 2, f[0], 1.0);
    prove_vec("first load", &el.calc_load(), &want);
    el.add_dist_line_force(ids[0], ids[2], pt(f[1]));
    give(&mut want, 0, f[1], 2.5);
    give(&mut want, 2, f[1], 2.5);
    prove_vec("second load", &el.calc_load(), &want);
    vt::check("reading changes nothing", el.conc_forces().len() == 1 && el.dist_forces().len() == 1);
    prove_vec("read again", &el.calc_load(), &want);
    // a load along a side that no element has yet
    el.add_dist_line_force(ids[1], ids[4], pt(f[2]));
    prove_vec("no element takes it", &el.calc_load(), &want);
    ids.extend(el.add_nodes(&[(7.0, 5.0)]));
    want.extend(vec![0.0; 2]);
    el.add_element(ElementDescriptor::new([ids[1], ids[4], ids[2]]));
    let l = len(MESH[1], MESH[4]);
    give(&mut want, 1, f[2], l / 2.0);
    give(&mut want, 4, f[2], l / 2.0);
    prove_vec("the new element takes it", &el.calc_load(), &want);
    el.add_element(ElementDescriptor::new([ids[5], ids[2], ids[4]]));
    el.add_dist_line_force(ids[4], ids[5], pt(f[3]));
    give(&mut want, 4, f[3], 2.0);
    give(&mut want, 5, f[3], 2.0);
    el.add_conc_force(ids[5], pt(f[4]));
    give(&mut want, 5, f[4], 1.0);
    el.add_conc_force(ids[0], pt(f[5]));
    give(&mut want, 0, f[5], 1.0);
    prove_vec("all of them", &el.calc_load(), &want);
}

pub fn list() -> Vec<vt::Harness> {
    vec![("edge", 36, edge), ("combined", tier(50, 100), combined), ("concentrated", 4, concentrated), ("big", 8, big), ("history", 4, history)]
}
