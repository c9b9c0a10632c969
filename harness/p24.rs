// Drawn meshes: one unbroken straight line per side, between where its nodes are shown.
use crate::element::material::Material;
use crate::element::{Deformation, ElementAssemblage, ElementDescriptor};
use crate::fem::*;
use crate::pix::{at, dot, ideal, picture, pixels, place, BACK, DOTS, LINE};
use crate::spatial::Point;
use crate::util::*;
use crate::visual::{VisOptions, Visualizer};

type Px = (i64, i64);

// the line pixels of a picture are those of the sides given, as far as no dot hides them
fn prove_lines(img: &image::RgbImage, nodes: &[Px], sides: &[(usize, usize)]) {
    let (w, h) = img.dimensions();
    let hidden = |p: Px| nodes.iter().any(|q| (q.0 - p.0).abs() <= 1 && (q.1 - p.1).abs() <= 1);
    let line = |p: Px| p.0 >= 0 && p.1 >= 0 && p.0 < w as i64 && p.1 < h as i64 && at(img, p.0 as usize, p.1 as usize) == LINE;
    let mut near: Vec<Px> = vec![];
    for (a, b) in sides.iter() {
        let (a, b) = (nodes[*a], nodes[*b]);
        let (dx, dy) = (b.0 - a.0, b.1 - a.1);
        let n = dx.abs().max(dy.abs());
        let mut last: Option<Px> = None;
        let mut broken = false;
        for k in 0..(n + 1) {
            // the one or two pixels within half a pixel of the segment at this step
            let c = if n == 0 { vec![a] } else { step(a, dx, dy, n, k) };
            near.extend(c.iter().cloned());
            if c.iter().any(|p| hidden(*p)) {
                last = None;
                continue;
            }
            let on: Vec<Px> = c.into_iter().filter(|p| line(*p)).collect();
            broken = broken || on.is_empty();
            if sides.len() == 1 {
                vt::check("one pixel per step", on.len() == 1);
                if let (Some(q), Some(p)) = (last, on.first()) {
                    vt::check("the line is connected", (q.0 - p.0).abs() <= 1 && (q.1 - p.1).abs() <= 1);
                }
                last = on.first().cloned();
            }
        }
        vt::check("the whole side is drawn", !broken);
    }
    let stray = pixels(img, LINE).into_iter().filter(|p| !near.contains(&(p.0 as i64, p.1 as i64))).count();
    vt::check("nothing is drawn off the sides", stray == 0);
}
fn step(a: Px, dx: i64, dy: i64, n: i64, k: i64) -> Vec<Px> {
    let mut r = vec![];
    for along_x in [true, false].iter() {
        let (major, minor) = if *along_x { (dx, dy) } else { (dy, dx) };
        if major.abs() < n {
            continue;
        }
        // minor offsets m with |m - minor k / n| <= 1/2
        let f = (2 * minor * k - n).div_euclid(2 * n);
        for m in f..(f + 3) {
            if (2 * (m * n - minor * k)).abs() <= n {
                let s = major.signum() * k;
                let p = if *along_x { (a.0 + s, a.1 + m) } else { (a.0 + m, a.1 + s) };
                if !r.contains(&p) {
                    r.push(p);
                }
            }
        }
    }
    r
}
fn rounded(q: &[(f64, f64)], size: usize) -> Vec<Px> {
    ideal(q, size).iter().map(|p| ((p.0 + 0.5).floor() as i64, (p.1 + 0.5).floor() as i64)).collect()
}

// a line to a free node from each corner and from the middle, named from either end
const STARTS: [(f64, f64); 5] = [(0.0, 0.0), (4.0, 4.0), (4.0, 0.0), (0.0, 4.0), (2.0, 2.0)];
fn line(c: usize) {
    let (x, y) = (vt::var("x"), vt::var("y"));
    vt::assume(vt::ge(x, 0.0).and(vt::le(x, 4.0)));
    vt::assume(vt::ge(y, 0.0).and(vt::le(y, 4.0)));
    let s = c % 5;
    let frame = [(0.0, 0.0), (4.0, 4.0), STARTS[s]];
    let mut nodes = rounded(&frame, 16);
    let mut v: Visualizer = place(&frame).into();
    v.add_points(place(&[(x, y)]), 3);
    v.set_edges(if c / 5 == 0 { vec![(2, 3)] } else { vec![(3, 2)] });
    let img = picture(&mut v, VisOptions::new().im_size(16));
    match dot(&img, DOTS[3]) {
        None => vt::check("the free node shows", false),
        Some(p) => {
            nodes.push((p.0 as i64, p.1 as i64));
            prove_lines(&img, &nodes, &[(2, 3)]);
        }
    }
}
// longer lines: a free node on a slanted track in a larger picture
fn long_line(c: usize) {
    let t = vt::var("t");
    vt::assume(vt::ge(t, 0.0).and(vt::le(t, 1.0)));
    let (x, y) = [(t, 1.0), (1.0, t), (t, 1.0 - t), (t, t * 0.3)][c];
    let frame = [(0.0, 0.0), (1.0, 1.0), [(0.0, 0.0), (0.0, 0.0), (1.0, 1.0), (0.0, 1.0)][c]];
    let mut nodes = rounded(&frame, 64);
    let mut v: Visualizer = place(&frame).into();
    v.add_points(place(&[(x, y)]), 3);
    v.set_edges(vec![(2, 3)]);
    let img = picture(&mut v, VisOptions::new().im_size(64));
    match dot(&img, DOTS[3]) {
        None => vt::check("the free node shows", false),
        Some(p) => {
            nodes.push((p.0 as i64, p.1 as i64));
            prove_lines(&img, &nodes, &[(2, 3)]);
        }
    }
}

// the mesh of a body: sides and triangles as its elements name them, each side once
const PTS: [P2; 6] = [(0.0, 0.0), (2.0, 0.0), (4.0, 0.5), (0.0, 2.0), (2.0, 2.5), (4.0, 3.0)];
const ELS: [[usize; 3]; 4] = [[0, 1, 4], [4, 3, 0], [1, 2, 5], [5, 4, 1]];
fn body(sub: usize, turn: usize) -> (ElementAssemblage, Vec<[usize; 3]>) {
    let m = Material { name: "any", youngs: 2.0, poisson: 0.25, density: 1.0 };
    let (mut el, ids) = assemblage(Cond::Stress, 1.0, m, &PTS);
    let mut t = vec![];
    for (i, e) in ELS.iter().enumerate() {
        if sub >> i & 1 == 0 {
            continue;
        }
        let mut e = *e;
        e.rotate_left((turn + i) % 3);
        if (turn + i) / 3 % 2 == 1 {
            e.swap(0, 2);
        }
        el.add_element(ElementDescriptor::new([ids[e[0]], ids[e[1]], ids[e[2]]]));
        t.push(e);
    }
    (el, t)
}
fn sides(tris: &[[usize; 3]]) -> Vec<(usize, usize)> {
    let mut r = vec![];
    for t in tris {
        for k in 0..3 {
            let (a, b) = (t[k], t[(k + 1) % 3]);
            r.push((a.min(b), a.max(b)));
        }
    }
    r.sort();
    r.dedup();
    r
}
fn mesh(_: usize) {
    let (sub, turn) = (vt::choose("elements", 16), vt::choose("turn", 6));
    let (el, t) = body(sub, turn);
    let mut e: Vec<(usize, usize)> = el.edges().into_iter().map(|(a, b)| (a.min(b), a.max(b))).collect();
    e.sort();
    vt::check("every side once, named from either end", e == sides(&t));
    let tri: Vec<Vec<usize>> = el.triangles().into_iter().map(|t| vec![t.0, t.1, t.2]).collect();
    vt::check("triangles as the elements list them", tri == t.iter().map(|x| x.to_vec()).collect::<Vec<_>>());
}
// bodies of more elements: renumbered, reordered, up to eight around a node
fn mesh_big(c: usize) {
    let b = crate::fem::body(c, &mut Dice::new(c));
    let m = Material { name: "any", youngs: 2.0, poisson: 0.25, density: 1.0 };
    vt::set_hash_seed(vt::choose("hash", 3));
    let (mut el, ids) = assemblage(Cond::Stress, 1.0, m, &b.pts);
    for t in b.tris.iter() {
        el.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
    }
    let mut e: Vec<(usize, usize)> = el.edges().into_iter().map(|(a, b)| (a.min(b), a.max(b))).collect();
    e.sort();
    vt::check("every side once, named from either end", e == sides(&b.tris));
    let tri: Vec<Vec<usize>> = el.triangles().into_iter().map(|t| vec![t.0, t.1, t.2]).collect();
    vt::check("triangles as the elements list them", tri == b.tris.iter().map(|x| x.to_vec()).collect::<Vec<_>>());
    // drawn with one node displaced
    let (u, at) = (vt::var("u"), b.tris[0][0]);
    vt::assume(vt::ge(u, -1.0).and(vt::le(u, 1.0)));
    let mut disp = vec![Point::new(&[0.0, 0.0]); b.pts.len()];
    disp[at] = Point::new(&[u, 0.5 * u]);
    let mut want = b.pts.clone();
    want[at] = (want[at].0 + u, want[at].1 + 0.5 * u);
    let img = picture(&mut Deformation::new(&el, disp).visualize(1.0), VisOptions::new().im_size(32));
    prove_lines(&img, &rounded(&want, 32), &sides(&b.tris));
}
// a deformed body: the mesh through the displaced nodes, values filled in
fn deformed(c: usize) {
    let (el, t) = body([15, 11, 6][c % 3], c);
    let (u, scale) = (vt::var("u"), [1.0, -2.0][c / 3]);
    vt::assume(vt::ge(u, -1.0).and(vt::le(u, 1.0)));
    let mut disp = vec![Point::new(&[0.0, 0.0]); 6];
    disp[4] = Point::new(&[u, 0.25 * u]);
    disp[2] = Point::new(&[0.5, 0.0]);
    let def = Deformation::new(&el, disp);
    let vals = vec![0.0, 1.0, 3.0, 2.0, 0.5, 0.25];
    let mut shown = def.visualize(scale);
    let mut want: Vec<P2> = PTS.to_vec();
    want[4] = (want[4].0 + scale * u, want[4].1 + scale * 0.25 * u);
    want[2] = (want[2].0 + scale * 0.5, want[2].1);
    let mut plain: Visualizer = place(&want).into();
    plain.set_edges(sides(&t));
    plain.set_triangles(t.iter().map(|t| (t[0], t[1], t[2])).collect());
    let o = || VisOptions::new().im_size(20);
    let bare = vt::flip("bare");
    if !bare {
        shown.set_vals(vals.clone());
        plain.set_vals(vals);
    }
    let (a, b) = (picture(&mut shown, o()), picture(&mut plain, o()));
    vt::check("the picture is that of the displaced mesh", a.data == b.data && a.dimensions() == b.dimensions());
    if bare {
        prove_lines(&a, &rounded(&want, 20), &sides(&t));
    }
}
// sides naming nodes that do not exist are left out, and without sides there are only dots
fn strays(_: usize) {
    let q = [(0.0, 0.0), (1.0, 1.0), (0.0, 1.0)];
    let mut v: Visualizer = place(&q).into();
    v.set_edges(vec![(0, 7), (1, 2), (3, 1), (0, 0)]);
    let img = picture(&mut v, VisOptions::new().im_size(16));
    prove_lines(&img, &rounded(&q, 16), &[(1, 2)]);
    v.set_edges(vec![]);
    let img = picture(&mut v, VisOptions::new().im_size(16));
    vt::check("no sides, no lines", pixels(&img, LINE).is_empty());
    v.set_edges(vec![(0, 1)]);
    let img = picture(&mut v, VisOptions::new().im_size(16).show_mesh(false));
    vt::check("no mesh unless asked for", pixels(&img, BACK).len() == 256);
}

pub fn list() -> Vec<vt::Harness> {
    vec![("line", 10, line), ("long_line", 4, long_line), ("mesh", 1, mesh), ("mesh_big", 6, mesh_big), ("deformed", 6, deformed), ("strays", 1, strays)]
}
